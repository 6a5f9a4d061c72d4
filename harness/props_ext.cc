// C20 memory held and released, C21 caller-supplied code table writers.
#include <string.h>
#include <algorithm>
#include <memory>
#include "addrcache.h"
#include "checksum.h"
#include "codetable.h"
#include "google/codetablewriter_interface.h"
#include "google/encodetable.h"
#include "google/jsonwriter.h"
#include "google/vcdecoder.h"
#include "google/vcencoder.h"
#include "props.h"

using namespace open_vcdiff;

// ---- C20 --------------------------------------------------------------------
namespace {

// Counts and forgets, so that only the library's own memory is measured.
class NullSink : public OutputStringInterface {
 public:
  size_t n = 0;
  virtual OutputStringInterface& append(const char*, size_t k) { n += k; return *this; }
  virtual void clear() { n = 0; }
  virtual void push_back(char) { ++n; }
  virtual void ReserveAdditionalBytes(size_t) {}
  virtual size_t size() const { return n; }
};
// The one-shot classes take any string-like type.
struct NullString {
  size_t n = 0;
  void append(const char*, size_t k) { n += k; }
  void clear() { n = 0; }
  void push_back(char) { ++n; }
  void reserve(size_t) {}
  size_t size() const { return n; }
};

struct DecStep {
  int kind;  // 0 stream, 1 abandoned stream then finish, 2 stray decode, 3 stray finish, 4 one-shot
  AnyDelta a;
  std::vector<size_t> chunks;
  bool allow;
};

// Everything allocated inside is released on return.
void RunDecSteps(const std::vector<DecStep>& steps, bool destroy_mid_stream) {
  VCDiffStreamingDecoder d;
  VCDiffDecoder one;
  d.SetMaximumTargetFileSize(1 << 22);
  d.SetMaximumTargetWindowSize(1 << 22);
  for (size_t i = 0; i < steps.size(); ++i) {
    const DecStep& st = steps[i];
    NullSink out;
    if (st.kind == 2) { d.DecodeChunkToInterface(st.a.delta.data(), st.a.delta.size(), &out); continue; }
    if (st.kind == 3) { d.FinishDecoding(); continue; }
    if (st.kind == 4) {
      NullString t;
      one.Decode(st.a.dict.data(), st.a.dict.size(), st.a.delta, &t);
      continue;
    }
    d.SetAllowVcdTarget(st.allow);
    d.StartDecoding(st.a.dict.data(), st.a.dict.size());
    size_t pos = 0, k = 0;
    bool ok = true;
    for (size_t n : st.chunks) {
      if (st.kind == 1 && k++ * 2 >= st.chunks.size()) break;
      if (!(ok = d.DecodeChunkToInterface(st.a.delta.data() + pos, n, &out))) break;
      pos += n;
    }
    if (destroy_mid_stream && i + 1 == steps.size()) return;
    if (ok || (pos & 1)) d.FinishDecoding();
  }
}

struct EncStep {
  int kind;  // 0 stream, 1 abandoned, 2 stray chunk, 3 stray finish, 4 one-shot
  int flags;
  bool tm;
  int writer;  // 0 default, 1 custom table writer, 2 JSON writer passed in
  Bytes target;
  std::vector<size_t> chunks;
  int rounds;
};

void RunEncSteps(const Bytes& dict, const std::vector<EncStep>& steps, const VCDiffCodeTableData* table, int near, int same) {
  HashedDictionary hd(dict.data(), dict.size());
  if (!hd.Init()) return;
  for (const EncStep& st : steps) {
    if (st.kind == 4) {
      VCDiffEncoder e(dict.data(), dict.size());
      e.SetFormatFlags((VCDiffFormatExtensionFlags)st.flags);
      e.SetTargetMatching(st.tm);
      for (int r = 0; r < st.rounds; ++r) {
        NullString out;
        e.Encode(st.target.data(), st.target.size(), &out);
      }
      continue;
    }
    CodeTableWriterInterface* w = nullptr;
    if (st.writer == 1) w = new VCDiffCodeTableWriter((st.flags & 1) != 0, near, same, *table, (unsigned char)(1 + near + same));
    if (st.writer == 2) w = new JSONCodeTableWriter();
    std::unique_ptr<VCDiffStreamingEncoder> e(
        w ? new VCDiffStreamingEncoder(&hd, (VCDiffFormatExtensionFlags)st.flags, st.tm, w)
          : new VCDiffStreamingEncoder(&hd, (VCDiffFormatExtensionFlags)st.flags, st.tm));
    NullSink out;
    if (st.kind == 2) { e->EncodeChunkToInterface(st.target.data(), st.target.size(), &out); continue; }
    if (st.kind == 3) { e->FinishEncodingToInterface(&out); continue; }
    for (int r = 0; r < st.rounds; ++r) {
      if (!e->StartEncodingToInterface(&out)) break;
      size_t pos = 0, k = 0;
      bool ok = true;
      for (size_t n : st.chunks) {
        if (st.kind == 1 && k++ * 2 >= st.chunks.size()) break;
        if (!(ok = e->EncodeChunkToInterface(st.target.data() + pos, n, &out))) break;
        pos += n;
      }
      if (ok && st.kind == 0) e->FinishEncodingToInterface(&out);
    }
  }
}

void ToTableData(const RefTable& t, VCDiffCodeTableData* d) {
  memcpy(d->inst1, t.inst1, 256);
  memcpy(d->inst2, t.inst2, 256);
  memcpy(d->size1, t.size1, 256);
  memcpy(d->size2, t.size2, 256);
  memcpy(d->mode1, t.mode1, 256);
  memcpy(d->mode2, t.mode2, 256);
}

// Bytes that may be held per byte of the data being worked on (observed: at
// most 8, JSON 15, decoding 3), and beyond that per object.
const double kEncodePerByte = 25, kJsonPerByte = 50, kEncodeSlack = 40000;
const double kDecodePerByte = 10, kDecodeSlack = 20000;

}  // namespace

void prop_C20(Source& s, Ctx& c) {
  if (!HeapPeak::Enabled()) throw Discard();
  switch (s.Pick({10, 8, 6, 6, 6, 1})) {
    case 0: {  // decoder histories give everything back
      std::vector<DecStep> steps;
      const bool mid = s.Chance(1, 3);
      for (size_t i = 0; i < 1 || s.More(i, 4, 10); ++i) {
        DecStep st;
        st.kind = s.Pick({10, 3, 1, 1, 3});
        st.a = GenAnyDelta(s, c, true);
        st.chunks = GenChunks(s, st.a.delta.size());
        st.allow = s.Chance(2, 3);
        c.Desc(" [" + std::to_string(st.kind) + " " + st.a.kind + " delta(" + std::to_string(st.a.delta.size()) + ")=" +
               Hex(st.a.delta, 60) + " chunks=" + ChunksStr(st.chunks) + "]");
        steps.push_back(st);
      }
      if (mid) c.Desc(" destroyed in mid-stream");
      RunDecSteps(steps, mid);  // whatever is set up once per process
      long long left;
      {
        HeapPeak hp;
        RunDecSteps(steps, mid);
        left = hp.Now();
      }
      CHECK_PROP(left == 0, "%lld bytes still allocated after a decoder with %zu streams was destroyed", left, steps.size());
      c.Label("decoder_history");
      c.nontrivial = steps.size() >= 2;
      break;
    }
    case 1: {  // encoder histories
      BlobOpts b;
      b.max = s.Chance(1, 20) ? 60000 : 2500;
      b.ascii = s.Flip();
      const Bytes dict = GenDict(s, b);
      const int near = (int)s.Below(9), same = (int)s.Below(5);
      VCDiffCodeTableData table;
      ToTableData(GenTable(s, near, same), &table);
      std::vector<EncStep> steps;
      for (size_t i = 0; i < 1 || s.More(i, 3, 8); ++i) {
        EncStep st;
        st.kind = s.Pick({8, 3, 1, 1, 3});
        st.flags = (int)s.Below(8);
        st.tm = s.Flip();
        st.writer = s.Pick({6, 2, 1});
        if (st.writer == 1) st.flags &= 3;
        b.ascii = s.Flip();
        st.target = GenTarget(s, dict, b);
        st.chunks = GenChunks(s, st.target.size());
        st.rounds = 1 + (int)s.Below(3);
        c.Desc(" [" + std::to_string(st.kind) + " flags=" + std::to_string(st.flags) + " tm=" + std::to_string(st.tm) + " writer=" +
               std::to_string(st.writer) + " target(" + std::to_string(st.target.size()) + ") chunks=" + ChunksStr(st.chunks) + " x" +
               std::to_string(st.rounds) + "]");
        steps.push_back(st);
      }
      RunEncSteps(dict, steps, &table, near, same);
      long long left;
      {
        HeapPeak hp;
        RunEncSteps(dict, steps, &table, near, same);
        left = hp.Now();
      }
      CHECK_PROP(left == 0, "%lld bytes still allocated after encoders and dictionary were destroyed", left);
      c.Label("encoder_history");
      c.nontrivial = steps.size() >= 2 || steps[0].rounds >= 2;
      break;
    }
    case 2: {  // the same object again and again does not grow
      const bool enc = s.Flip();
      const size_t rounds = 6 + s.Below(30);
      AnyDelta a;
      Bytes target;
      int flags = 0;
      bool tm = false;
      std::vector<size_t> ch;
      if (enc) {
        BlobOpts b;
        b.max = 3000;
        flags = (int)s.Below(8);
        b.ascii = (flags & 4) != 0;
        a.dict = GenDict(s, b);
        target = GenTarget(s, a.dict, b);
        tm = s.Flip();
        ch = GenChunks(s, target.size());
        c.Desc("reused encoder flags=" + std::to_string(flags) + " tm=" + std::to_string(tm) + " " + DescribeBlobs(a.dict, target));
      } else {
        a = GenAnyDelta(s, c, true);
        ch = GenChunks(s, a.delta.size());
        c.Desc("reused decoder " + a.kind + " delta(" + std::to_string(a.delta.size()) + ")=" + Hex(a.delta, 100));
      }
      c.Desc(" chunks=" + ChunksStr(ch) + " rounds=" + std::to_string(rounds));
      std::vector<long long> held(rounds, 0);
      const bool finish = s.Chance(4, 5);
      {
        HashedDictionary hd(a.dict.data(), a.dict.size());
        CHECK_PROP(hd.Init(), "Init failed");
        HeapPeak hp;
        VCDiffStreamingDecoder d;
        VCDiffStreamingEncoder e(&hd, (VCDiffFormatExtensionFlags)flags, tm);
        d.SetMaximumTargetFileSize(1 << 22);
        d.SetMaximumTargetWindowSize(1 << 22);
        NullSink out;
        for (size_t r = 0; r < rounds; ++r) {
          size_t pos = 0;
          bool ok = true;
          if (enc) {
            e.StartEncodingToInterface(&out);
            for (size_t n : ch) { e.EncodeChunkToInterface(target.data() + pos, n, &out); pos += n; }
            if (finish) e.FinishEncodingToInterface(&out);
          } else {
            d.StartDecoding(a.dict.data(), a.dict.size());
            for (size_t n : ch) {
              if (!(ok = d.DecodeChunkToInterface(a.delta.data() + pos, n, &out))) break;
              pos += n;
            }
            if (ok || finish) d.FinishDecoding();
          }
          held[r] = hp.Now();
        }
      }
      CHECK_PROP(held[rounds - 1] <= held[2] + 256, "memory held grows with the number of streams: %lld bytes after 3, %lld after %zu",
                 held[2], held[rounds - 1], rounds);
      c.Label(enc ? "reused_encoder" : "reused_decoder");
      c.nontrivial = true;
      break;
    }
    case 3: {  // long streams through the encoder
      BlobOpts b;
      b.max = s.Chance(1, 10) ? 40000 : 3000;
      int flags = (int)s.Below(4);
      if (s.Chance(1, 4)) flags = 4;
      b.ascii = flags == 4;
      const Bytes dict = GenDict(s, b);
      const bool tm = s.Flip();
      const Bytes t1 = GenTarget(s, dict, b), t2 = GenTarget(s, dict, b);
      const size_t chunks = 8 + s.Below(b.max == 3000 && s.Chance(1, 5) ? 1000 : 120), one = std::max(t1.size(), t2.size());
      c.Desc("encoder stream of " + std::to_string(chunks) + " chunks flags=" + std::to_string(flags) + " tm=" + std::to_string(tm) + " " +
             DescribeBlobs(dict, t1));
      size_t peak;
      long long early = 0, late = 0;
      bool ok = true;
      {
        HeapPeak hp;
        HashedDictionary hd(dict.data(), dict.size());
        ok &= hd.Init();
        VCDiffStreamingEncoder e(&hd, (VCDiffFormatExtensionFlags)flags, tm);
        NullSink out;
        ok &= e.StartEncodingToInterface(&out);
        for (size_t i = 0; i < chunks; ++i) {
          const Bytes& t = i & 1 ? t2 : t1;
          ok &= e.EncodeChunkToInterface(t.data(), t.size(), &out);
          if (i >= 2 && i <= 5) early = std::max(early, hp.Now());
        }
        late = hp.Now();
        ok &= e.FinishEncodingToInterface(&out);
        peak = hp.Peak();
      }
      CHECK_PROP(ok, "encoding failed");
      const double limit = kEncodeSlack + (flags == 4 ? kJsonPerByte : kEncodePerByte) * (double)(dict.size() + one);
      CHECK_PROP(peak <= limit, "encoding %zu chunks of at most %zu bytes with a dictionary of %zu bytes held %zu bytes (limit %.0f)", chunks,
                 one, dict.size(), peak, limit);
      // In JSON the offsets of later chunks have more digits, so that a text
      // buffer may double once.
      CHECK_PROP(late <= (flags == 4 ? 2 * early : early) + 1000, "memory held by the encoder grows with the number of chunks: %lld bytes after 6, %lld after %zu", early,
                 late, chunks);
      c.Label("encoder_stream");
      c.nontrivial = one > 0;
      break;
    }
    case 5: {  // many windows of the same, possibly large, size through the decoder
      const size_t win = s.Flip() ? 1 + s.Below(3000) : 1 + s.Below(200000), n = 12 + s.Below(40);
      const bool ext = s.Flip(), one = s.Flip();
      Bytes delta = FileHeader(ext ? 'S' : 0, 0);
      std::vector<size_t> ends;
      size_t maxin = 0, total = 0;
      for (size_t i = 0; i < n; ++i) {
        const size_t w = win - s.Below(win / 2 + 1) * s.Below(2);
        Bytes inst, body;
        inst.push_back(0);
        PutVarint(&inst, w);
        const bool inter = ext && s.Flip();
        if (inter) inst.push_back((char)i);
        PutVarint(&body, w);
        body.push_back(0);
        PutVarint(&body, inter ? 0 : 1);
        PutVarint(&body, inst.size());
        PutVarint(&body, 0);
        if (!inter) body.push_back((char)i);
        body += inst;
        delta.push_back(0);
        PutVarint(&delta, body.size());
        delta += body;
        maxin = std::max(maxin, body.size() + 10);
        ends.push_back(delta.size());
        total += w;
      }
      c.Desc("decoder stream of " + std::to_string(n) + " windows of up to " + std::to_string(win) + " bytes, " +
             (one ? "one call" : "a call per window"));
      if (one) { ends.assign(1, delta.size()); maxin = delta.size(); }
      size_t peak;
      bool ok = true;
      NullSink out;
      {
        HeapPeak hp;
        VCDiffStreamingDecoder d;
        d.SetAllowVcdTarget(false);
        d.StartDecoding("", 0);
        size_t pos = 0;
        for (size_t e : ends) { ok &= d.DecodeChunkToInterface(delta.data() + pos, e - pos, &out); pos = e; }
        ok &= d.FinishDecoding();
        peak = hp.Peak();
      }
      CHECK_PROP(ok && out.n == total, "well-formed delta not decoded");
      const double limit = kDecodeSlack + kDecodePerByte * (double)(win + 2 * maxin);
      CHECK_PROP(peak <= limit, "decoding %zu windows of at most %zu bytes (earlier-target not allowed) held %zu bytes (limit %.0f)", n, win,
                 peak, limit);
      c.Label("equal_windows");
      c.nontrivial = true;
      break;
    }
    default: {  // long streams through the decoder
      GenDeltaOpts o;
      o.max_dict = 500;
      o.max_window = s.Chance(1, 10) ? 20000 : 3000;
      o.max_windows = 400;
      o.avg_windows = s.Flip() ? 150 : 15;
      const bool allow = s.Chance(1, 4);
      o.allow_target_windows = allow;
      GenDelta g = GenValidDelta(s, o);
      std::vector<size_t> ch = s.Chance(1, 5) ? GenChunks(s, g.delta.size()) : std::vector<size_t>();
      if (ch.empty())
        for (size_t left = g.delta.size(); left;) { size_t k = std::min<size_t>(left, 1 + s.Below(2000)); ch.push_back(k); left -= k; }
      size_t maxwin = 0, maxin = 0, maxch = 0;
      for (size_t i = 0; i < g.windows.size(); ++i) {
        maxwin = std::max(maxwin, g.target_end[i] - (i ? g.target_end[i - 1] : 0));
        maxin = std::max(maxin, g.window_end[i] - (i ? g.window_end[i - 1] : g.header_end));
      }
      for (size_t n : ch) maxch = std::max(maxch, n);
      c.Desc("decoder stream allow_target=" + std::to_string(allow) + " " + DescribeDelta(g) + " chunks=" + ChunksStr(ch));
      size_t peak;
      bool ok = true;
      NullSink out;
      {
        HeapPeak hp;
        VCDiffStreamingDecoder d;
        d.SetAllowVcdTarget(allow);
        d.StartDecoding(g.dict.data(), g.dict.size());
        size_t pos = 0;
        for (size_t n : ch) { ok &= d.DecodeChunkToInterface(g.delta.data() + pos, n, &out); pos += n; }
        ok &= d.FinishDecoding();
        peak = hp.Peak();
      }
      CHECK_PROP(ok && out.n == g.target.size(), "well-formed delta not decoded");
      const size_t base = (allow ? g.target.size() : maxwin) + maxin + maxch;
      const double limit = kDecodeSlack + kDecodePerByte * (double)base;
      CHECK_PROP(peak <= limit,
                 "decoding %zu windows of at most %zu bytes (total %zu, earlier-target %sallowed) from pieces of at most %zu bytes held %zu "
                 "bytes (limit %.0f)",
                 g.windows.size(), maxwin, g.target.size(), allow ? "" : "not ", maxch, peak, limit);
      c.Label(allow ? "decoder_stream_history" : "decoder_stream_windows");
      c.nontrivial = g.target.size() >= 4 * maxwin;
      break;
    }
  }
  ++c.sub_evaluations;
}

// ---- C21 --------------------------------------------------------------------
namespace {

struct Call {
  enum K { INIT, VDICT, HEADER, ADD, COPY, RUN, SUM, OUT, FINISH, VCHUNK } k;
  size_t size = 0;
  int64_t offset = 0;
  Bytes data;
  uint32_t sum = 0;
  int flags = 0;
  OutputStringInterface* out = nullptr;
};
const char* const kCallNames[] = {"Init", "VerifyDictionary", "WriteHeader", "Add", "Copy", "Run", "AddChecksum", "Output", "FinishEncoding",
                                  "VerifyChunk"};

struct Script {
  std::vector<Call> calls;
  bool refuse_dictionary = false, refuse_chunk = false, refuse_init = false;
  int deleted = 0;
};

// Records everything, writes recognisable marks, optionally forwards to a
// real writer.
class Recorder : public CodeTableWriterInterface {
 public:
  Recorder(Script* s, CodeTableWriterInterface* inner) : s_(s), inner_(inner) {}
  virtual ~Recorder() { ++s_->deleted; }
  virtual bool Init(size_t n) {
    Call c; c.k = Call::INIT; c.size = n;
    s_->calls.push_back(c);
    if (s_->refuse_init) return false;
    return inner_ ? inner_->Init(n) : true;
  }
  virtual void WriteHeader(OutputStringInterface* out, VCDiffFormatExtensionFlags f) {
    Call c; c.k = Call::HEADER; c.flags = f; c.out = out;
    s_->calls.push_back(c);
    if (inner_) inner_->WriteHeader(out, f); else out->append("<h>", 3);
  }
  virtual void Add(const char* d, size_t n) {
    Call c; c.k = Call::ADD; c.size = n; c.data.assign(d, n);
    s_->calls.push_back(c);
    if (inner_) inner_->Add(d, n);
  }
  virtual void Copy(int32_t off, size_t n) {
    Call c; c.k = Call::COPY; c.offset = off; c.size = n;
    s_->calls.push_back(c);
    if (inner_) inner_->Copy(off, n);
  }
  virtual void Run(size_t n, unsigned char b) {
    Call c; c.k = Call::RUN; c.size = n; c.data.assign(1, (char)b);
    s_->calls.push_back(c);
    if (inner_) inner_->Run(n, b);
  }
  virtual void AddChecksum(VCDChecksum v) {
    Call c; c.k = Call::SUM; c.sum = (uint32_t)v;
    s_->calls.push_back(c);
    if (inner_) inner_->AddChecksum(v);
  }
  virtual void Output(OutputStringInterface* out) {
    Call c; c.k = Call::OUT; c.out = out;
    s_->calls.push_back(c);
    if (inner_) inner_->Output(out); else out->append("<w>", 3);
  }
  virtual void FinishEncoding(OutputStringInterface* out) {
    Call c; c.k = Call::FINISH; c.out = out;
    s_->calls.push_back(c);
    if (inner_) inner_->FinishEncoding(out); else out->append("<f>", 3);
  }
  virtual bool VerifyDictionary(const char* d, size_t n) const {
    Call c; c.k = Call::VDICT; c.size = n; c.data.assign(d, n);
    s_->calls.push_back(c);
    return !s_->refuse_dictionary && (!inner_ || inner_->VerifyDictionary(d, n));
  }
  virtual bool VerifyChunk(const char* d, size_t n) const {
    Call c; c.k = Call::VCHUNK; c.size = n; c.data.assign(d, n);
    s_->calls.push_back(c);
    return !s_->refuse_chunk && (!inner_ || inner_->VerifyChunk(d, n));
  }

 private:
  Script* s_;
  std::unique_ptr<CodeTableWriterInterface> inner_;
};

std::string Show(const std::vector<Call>& v, size_t from) {
  std::string r;
  for (size_t i = from; i < v.size() && i < from + 40; ++i) {
    r += std::string(i > from ? " " : "") + kCallNames[v[i].k];
    if (v[i].k >= Call::ADD && v[i].k <= Call::RUN) r += "(" + std::to_string(v[i].size) + ")";
  }
  return r.empty() ? "none" : r;
}

}  // namespace

void prop_C21(Source& s, Ctx& c) {
  BlobOpts b;
  b.max = s.Chance(1, 12) ? 40000 : 3000;
  if (s.Chance(1, c.dbg_build ? 600 : 3000)) { b.max = 1500000; b.fill = true; }
  int flags = (int)s.Below(4);
  if (s.Chance(1, 5)) flags |= 4;
  b.ascii = (flags & 4) != 0;
  const Bytes dict = GenDict(s, b);
  const bool tm = s.Flip();
  const int forward = s.Pick({3, 2, flags & 4 ? 2 : 0});  // none, code table writer, JSON writer
  c.Desc("flags=" + std::to_string(flags) + " tm=" + std::to_string(tm) + " forward=" + std::to_string(forward) + " dict(" +
         std::to_string(dict.size()) + ")=" + Hex(dict, 60));
  Script sc;
  HashedDictionary hd(dict.data(), dict.size());
  CHECK_PROP(hd.Init(), "Init failed");
  CodeTableWriterInterface* inner = nullptr;
  if (forward == 1) inner = new VCDiffCodeTableWriter((flags & 1) != 0);
  if (forward == 2) inner = new JSONCodeTableWriter();
  std::unique_ptr<VCDiffStreamingEncoder> enc(new VCDiffStreamingEncoder(&hd, (VCDiffFormatExtensionFlags)flags, tm, new Recorder(&sc, inner)));
  CHECK_PROP(sc.deleted == 0, "writer deleted by the constructor");
  bool started = false;
  size_t adds = 0, copies = 0;
  Bytes out, want;     // what the writer alone appended
  Bytes ref_stream;    // the same stream through an ordinary encoder
  std::unique_ptr<VCDiffStreamingEncoder> plain;
  std::vector<std::pair<Bytes, std::vector<Call>>> windows;  // this stream
  bool stream_clean = false;
  const size_t steps = 3 + s.Below(10);
  int phase = 0;
  for (size_t i = 0; i < steps; ++i) {
    const size_t before = sc.calls.size();
    const size_t out_before = out.size();
    int op;  // 0 start, 1 chunk, 2 finish; mostly in order
    if (s.Chance(1, 6)) op = (int)s.Below(3);
    else op = phase == 0 ? 0 : s.Chance(1, 4) ? 2 : 1;
    if (op == 0) {
      sc.refuse_dictionary = s.Chance(1, 10);
      sc.refuse_init = !c.dbg_build && s.Chance(1, 20);
      c.Desc(std::string(" start") + (sc.refuse_init ? "(init refused)" : sc.refuse_dictionary ? "(dictionary refused)" : ""));
      const bool json_inner_refuses = false;
      const bool expect = !sc.refuse_dictionary && !sc.refuse_init && !json_inner_refuses;
      const bool got = enc->StartEncoding(&out);
      CHECK_PROP(got == expect, "StartEncoding returned %d, expected %d", got, expect);
      size_t inits = 0, headers = 0, verified = 0, init_at = 0, header_at = 0, verify_at = 0;
      for (size_t k = before; k < sc.calls.size(); ++k) {
        const Call& x = sc.calls[k];
        if (x.k == Call::INIT) { ++inits; init_at = k; CHECK_PROP(x.size == dict.size(), "Init(%zu) for a dictionary of %zu bytes", x.size, dict.size()); }
        else if (x.k == Call::VDICT) { ++verified; verify_at = k; CHECK_PROP(x.data == dict, "VerifyDictionary was not given the dictionary"); }
        else if (x.k == Call::HEADER) { ++headers; header_at = k; CHECK_PROP(x.flags == flags, "WriteHeader got flags %d instead of %d", x.flags, flags); }
        else CHECK_PROP(false, "StartEncoding called %s", kCallNames[x.k]);
      }
      CHECK_PROP(inits == 1, "Init called %zu times by StartEncoding", inits);
      if (got) {
        CHECK_PROP(verified >= 1, "dictionary accepted without VerifyDictionary");
        CHECK_PROP(headers == 1 && header_at > init_at && header_at > verify_at, "calls on start: %s", Show(sc.calls, before).c_str());
      } else {
        CHECK_PROP(headers == 0 && out.size() == out_before, "header written although the start was refused");
      }
      started = got;
      phase = got ? 1 : 0;
      windows.clear();
      stream_clean = got;
      if (got) {
        plain.reset(new VCDiffStreamingEncoder(&hd, (VCDiffFormatExtensionFlags)(flags & 3), tm));
        ref_stream.clear();
        CHECK_PROP(plain->StartEncoding(&ref_stream), "StartEncoding failed");
      }
      sc.refuse_dictionary = sc.refuse_init = false;
    } else if (op == 1) {
      const Bytes chunk = s.Chance(1, 12) ? Bytes() : GenTarget(s, dict, b);
      sc.refuse_chunk = s.Chance(1, 12);
      c.Desc(" chunk(" + std::to_string(chunk.size()) + ")=" + Hex(chunk, 40) + (sc.refuse_chunk ? "(refused)" : ""));
      HeapCopy h(chunk);
      const bool got = enc->EncodeChunk(h.p, chunk.size(), &out);
      if (!started) {
        CHECK_PROP(!got, "EncodeChunk succeeded although no stream is open");
        CHECK_PROP(sc.calls.size() == before && out.size() == out_before, "refused EncodeChunk called %s", Show(sc.calls, before).c_str());
      } else if (sc.refuse_chunk) {
        CHECK_PROP(!got, "EncodeChunk succeeded although the writer refused the chunk");
        CHECK_PROP(out.size() == out_before, "output for a refused chunk");
        for (size_t k = before; k < sc.calls.size(); ++k)
          CHECK_PROP(sc.calls[k].k == Call::VCHUNK, "refused chunk, yet the writer got %s", kCallNames[sc.calls[k].k]);
        stream_clean = false;
      } else {
        CHECK_PROP(got, "EncodeChunk failed");
        size_t outs = 0, verified = 0, sums = 0;
        Bytes t;
        std::vector<Call> insts;
        for (size_t k = before; k < sc.calls.size(); ++k) {
          const Call& x = sc.calls[k];
          switch (x.k) {
            case Call::VCHUNK:
              ++verified;
              CHECK_PROP(x.data == chunk, "VerifyChunk was not given the chunk");
              CHECK_PROP(insts.empty() && !outs, "VerifyChunk after instructions");
              break;
            case Call::SUM:
              ++sums;
              CHECK_PROP(flags & 2, "AddChecksum without the checksum extension");
              CHECK_PROP(x.sum == RefAdler0(chunk, 0, chunk.size()), "AddChecksum(%08x), the chunk's Adler-32 is %08x", x.sum,
                         RefAdler0(chunk, 0, chunk.size()));
              CHECK_PROP(!outs, "AddChecksum after Output");
              break;
            case Call::ADD:
              CHECK_PROP(!outs, "Add after Output");
              CHECK_PROP(x.size > 0, "Add of no bytes");
              t += x.data;
              insts.push_back(x);
              ++adds;
              break;
            case Call::RUN:
              CHECK_PROP(!outs, "Run after Output");
              t.append(x.size, x.data[0]);
              insts.push_back(x);
              break;
            case Call::COPY: {
              CHECK_PROP(!outs, "Copy after Output");
              const int64_t ds = (int64_t)dict.size(), end = x.offset + (int64_t)x.size;
              CHECK_PROP(x.offset >= 0 && x.size > 0 && x.offset < ds + (int64_t)t.size(), "Copy(%lld, %zu) with %zu bytes encoded so far",
                         (long long)x.offset, x.size, t.size());
              if (x.offset < ds) {
                CHECK_PROP(end <= ds, "Copy(%lld, %zu) straddles the end of the dictionary of %zu bytes", (long long)x.offset, x.size, dict.size());
                t.append(dict, (size_t)x.offset, x.size);
              } else {
                CHECK_PROP(tm, "Copy(%lld, %zu) from the target, target matching is off", (long long)x.offset, x.size);
                CHECK_PROP(t.size() + x.size <= chunk.size(), "Copy runs past the chunk");
                for (size_t q = 0, p = (size_t)(x.offset - ds); q < x.size; ++q) t.push_back(t[p + q]);
              }
              insts.push_back(x);
              ++copies;
              break;
            }
            case Call::OUT:
              ++outs;
              break;
            default:
              CHECK_PROP(false, "EncodeChunk called %s", kCallNames[x.k]);
          }
        }
        CHECK_PROP(verified >= 1, "chunk accepted without VerifyChunk");
        CHECK_PROP(t == chunk, "the instructions given to the writer describe other data (%zu bytes, first difference at %zu of %zu)", t.size(),
                   FirstDiff(t, chunk), chunk.size());
        if (!chunk.empty()) {
          CHECK_PROP(outs == 1, "Output called %zu times for one chunk", outs);
          CHECK_PROP(sc.calls.back().k == Call::OUT, "Output is not the last call of a chunk");
          CHECK_PROP(sums == (flags & 2 ? 1u : 0u), "AddChecksum called %zu times", sums);
          windows.push_back(std::make_pair(chunk, insts));
        }
        if (plain) CHECK_PROP(plain->EncodeChunk(chunk.data(), chunk.size(), &ref_stream), "EncodeChunk failed");
      }
      sc.refuse_chunk = false;
    } else {
      c.Desc(" finish");
      const bool got = enc->FinishEncoding(&out);
      CHECK_PROP(got == started, "FinishEncoding returned %d with %s stream open", got, started ? "a" : "no");
      size_t fin = 0;
      for (size_t k = before; k < sc.calls.size(); ++k) {
        CHECK_PROP(sc.calls[k].k == Call::FINISH, "FinishEncoding called %s", kCallNames[sc.calls[k].k]);
        ++fin;
      }
      CHECK_PROP(fin == (started ? 1u : 0u), "writer's FinishEncoding called %zu times", fin);
      if (started && stream_clean) {
        // An ordinary encoder writes exactly the instructions recorded.
        CHECK_PROP(plain->FinishEncoding(&ref_stream), "FinishEncoding failed");
        RefResult r = RefDecode(dict, ref_stream, RefLimits());
        CHECK_PROP(r.v == RefResult::ACCEPT && r.windows.size() == windows.size(), "an ordinary encoder wrote %zu windows, the writer saw %zu",
                   r.windows.size(), windows.size());
        for (size_t w = 0; w < windows.size(); ++w) {
          const std::vector<Call>& v = windows[w].second;
          const std::vector<RefInst>& u = r.windows[w].insts;
          CHECK_PROP(u.size() == v.size(), "window %zu: %zu instructions in the delta, %zu seen by the writer", w, u.size(), v.size());
          for (size_t k = 0; k < u.size(); ++k) {
            const int ty = v[k].k == Call::ADD ? R_ADD : v[k].k == Call::COPY ? R_COPY : R_RUN;
            CHECK_PROP(u[k].type == ty && u[k].size == v[k].size && (ty != R_COPY || u[k].addr == v[k].offset),
                       "window %zu: instruction %zu differs from what the writer saw", w, k);
          }
        }
        c.Label("stream_compared");
        ++c.sub_evaluations;
      }
      started = false;
      phase = 0;
    }
    // The caller's string holds exactly what the writer appended, in order.
    if (!forward) {
      for (size_t k = before; k < sc.calls.size(); ++k) {
        if (sc.calls[k].k == Call::HEADER) want += "<h>";
        if (sc.calls[k].k == Call::OUT) want += "<w>";
        if (sc.calls[k].k == Call::FINISH) want += "<f>";
      }
      CHECK_PROP(out == want, "output is not what the writer appended");
    }
  }
  CHECK_PROP(sc.deleted == 0, "writer deleted while the encoder is alive");
  enc.reset();
  CHECK_PROP(sc.deleted == 1, "writer deleted %d times by the encoder's destructor", sc.deleted);
  if (forward == 1 && !(flags & 4)) {
    // A forwarding writer changes nothing.
    c.Label("forwarded");
    Script sc2;
    VCDiffStreamingEncoder f(&hd, (VCDiffFormatExtensionFlags)flags, tm, new Recorder(&sc2, new VCDiffCodeTableWriter((flags & 1) != 0)));
    const Bytes t = GenTarget(s, dict, b);
    const std::vector<size_t> ch = GenChunks(s, t.size());
    Bytes o1, o2;
    bool ok = f.StartEncoding(&o1);
    size_t pos = 0;
    for (size_t n : ch) { ok &= f.EncodeChunk(t.data() + pos, n, &o1); pos += n; }
    ok &= f.FinishEncoding(&o1);
    EncodeOpts eo;
    eo.flags = flags;
    eo.target_matching = tm;
    CHECK_PROP(ok && RealEncode(dict, t, ch, eo, &o2), "encoding failed");
    CHECK_PROP(o1 == o2, "a forwarding writer changes the delta");
    ++c.sub_evaluations;
  }
  c.nontrivial = adds && copies;
}
