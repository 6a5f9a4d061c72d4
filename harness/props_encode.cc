// C09 encoder determinism, C10 JSON, C12 custom tables, C17 compression.
#include <string.h>
#include <algorithm>
#include <locale>
#include <memory>
#include "codetable.h"
#include "google/encodetable.h"
#include "google/jsonwriter.h"
#include "google/output_string.h"
#include "google/vcdecoder.h"
#include "google/vcencoder.h"
#include "props.h"

using namespace open_vcdiff;

static bool IsAscii(const Bytes& b) {
  for (unsigned char c : b) if (c >= 128) return false;
  return true;
}

// ---- C09 --------------------------------------------------------------------
namespace {
struct EncState {
  int flags = 0;
  bool tm = false, started = false;
  std::unique_ptr<VCDiffStreamingEncoder> enc;
  std::vector<Bytes> fed;   // accepted chunks of the current stream
  Bytes out;
  size_t base = 0;          // where the current stream starts in `out`
  int streams = 0;
};

bool FreshStream(const Bytes& dict, int flags, bool tm, const std::vector<Bytes>& chunks, Bytes* out) {
  HeapCopy d(dict);
  HashedDictionary hd(d.p, d.n);
  if (!hd.Init()) return false;
  VCDiffStreamingEncoder e(&hd, (VCDiffFormatExtensionFlags)flags, tm);
  if (!e.StartEncoding(out)) return false;
  for (auto& k : chunks) {
    HeapCopy h(k);
    if (!e.EncodeChunk(h.p, h.n, out)) return false;
  }
  return e.FinishEncoding(out);
}
}  // namespace

void prop_C09(Source& s, Ctx& c) {
  BlobOpts b;
  b.max = s.Chance(1, 12) ? 60000 : 3000;
  const bool ascii = s.Flip();
  b.ascii = ascii;
  BlobOpts bd = b;
  if (s.Chance(1, 100)) { bd.max = s.Chance(1, 5) ? 2200000 : 300000; bd.fill = true; c.Label("large_dictionary"); }
  const Bytes dict = GenDict(s, bd);
  std::unique_ptr<HashedDictionary> hd;
  {
    HeapCopy d(dict);
    hd.reset(new HashedDictionary(d.p, d.n));
    memset(d.p, 0x5a, d.n);  // the caller's buffer is not ours any more
  }
  CHECK_PROP(hd->Init(), "HashedDictionary::Init failed");
  // A pool of chunks that several streams share.
  std::vector<Bytes> pool;
  for (size_t i = 0; i == 0 || s.More(i, 3, 6); ++i) pool.push_back(GenTarget(s, dict, b));
  const int ne = 1 + (int)s.Below(3);
  std::vector<EncState> es(ne);
  std::string hist;
  for (auto& e : es) {
    e.flags = s.Chance(1, 4) ? 4 | (int)s.Below(4) : (int)s.Below(4);
    e.tm = s.Flip();
    e.enc.reset(new VCDiffStreamingEncoder(hd.get(), (VCDiffFormatExtensionFlags)e.flags, e.tm));
    e.out = Fill(s.Below(100), s.Below(20), 256, 0);
    hist += " enc(flags=" + std::to_string(e.flags) + ",tm=" + std::to_string(e.tm) + ")";
  }
  c.Desc("dict(" + std::to_string(dict.size()) + ")=\"" + Printable(dict, 60) + "\"" + hist);
  hist.clear();
  int finished = 0, chunks_done = 0, refused = 0, switches = 0, last = -1;
  auto finish = [&](EncState& e, int k) {
    Bytes before = e.out;
    CHECK_PROP(e.enc->FinishEncoding(&e.out), "FinishEncoding failed after a correct start");
    CHECK_PROP(e.out.compare(0, before.size(), before) == 0, "FinishEncoding changed earlier output");
    e.started = false;
    Bytes want;
    CHECK_PROP(FreshStream(dict, e.flags, e.tm, e.fed, &want), "the same stream fails on a fresh encoder");
    CHECK_PROP(e.out.substr(e.base) == want,
               "encoder %d (flags %d, target matching %d), stream %d of %zu chunks: output differs from a fresh encoder's "
               "at byte %zu (%zu vs %zu bytes)",
               k, e.flags, e.tm, e.streams, e.fed.size(), FirstDiff(e.out.substr(e.base), want),
               e.out.size() - e.base, want.size());
    ++c.sub_evaluations;
    ++finished;
    if (e.streams++ > 0) c.Label("reused_encoder");
    e.base = e.out.size();
  };
  const int steps = 4 + (int)s.Below(30);
  for (int i = 0; i < steps; ++i) {
    const int k = (int)s.Below(ne);
    EncState& e = es[k];
    if (last >= 0 && last != k) ++switches;
    last = k;
    const bool json = e.flags & 4;
    const Bytes before = e.out;
    // Sometimes the output object is emptied between streams (the caller owns it).
    if (!e.started) {
      switch (s.Pick({6, 1, 1, 1})) {
        case 0: {
          e.base = e.out.size();
          bool ok = e.enc->StartEncoding(&e.out);
          bool want = !json || IsAscii(dict);
          CHECK_PROP(ok == want, "StartEncoding returned %d (flags %d)", ok, e.flags);
          if (!ok) {
            CHECK_PROP(e.out == before, "refused StartEncoding changed the output");
            ++refused;
          } else {
            CHECK_PROP(e.out.compare(0, before.size(), before) == 0, "StartEncoding changed earlier output");
            e.started = true;
            e.fed.clear();
          }
          hist += " " + std::to_string(k) + ":start";
          break;
        }
        case 1: {
          const Bytes& ch = pool[s.Below(pool.size())];
          HeapCopy h(ch);
          CHECK_PROP(!e.enc->EncodeChunk(h.p, h.n, &e.out), "EncodeChunk accepted without StartEncoding");
          CHECK_PROP(e.out == before, "refused EncodeChunk changed the output");
          ++refused;
          hist += " " + std::to_string(k) + ":early-chunk";
          break;
        }
        case 2:
          CHECK_PROP(!e.enc->FinishEncoding(&e.out), "FinishEncoding accepted without StartEncoding");
          CHECK_PROP(e.out == before, "refused FinishEncoding changed the output");
          ++refused;
          hist += " " + std::to_string(k) + ":early-finish";
          break;
        default:
          e.out = Fill(s.Below(50), s.Below(9), 256, 0);
          break;
      }
    } else if (s.Chance(1, 4)) {
      finish(e, k);
      hist += " " + std::to_string(k) + ":finish";
    } else {
      Bytes ch = pool[s.Below(pool.size())];
      if (json && s.Chance(1, 6)) {
        size_t p = s.Below(ch.size() + 1);
        ch.insert(p, 1, (char)(128 + s.Below(128)));
      }
      HeapCopy h(ch);
      bool ok = e.enc->EncodeChunk(h.p, h.n, &e.out);
      memset(h.p, 0xa5, h.n);
      bool want = !json || IsAscii(ch);
      CHECK_PROP(ok == want, "EncodeChunk returned %d (flags %d, %zu bytes)", ok, e.flags, ch.size());
      CHECK_PROP(e.out.compare(0, before.size(), before) == 0, "EncodeChunk changed earlier output");
      if (ok) {
        e.fed.push_back(ch);
        ++chunks_done;
      } else {
        CHECK_PROP(e.out == before, "refused EncodeChunk changed the output");
        ++refused;
      }
      hist += " " + std::to_string(k) + ":chunk(" + std::to_string(ch.size()) + ")";
    }
  }
  for (int k = 0; k < ne; ++k) if (es[k].started) finish(es[k], k);
  c.Desc("history:" + hist);
  if (s.Chance(1, c.dbg_build ? 8000 : 20000)) {
    // A very long history on one encoder, of streams whose output is known.
    EncState& e = es[s.Below(ne)];
    Source b(s.Raw(), Source::Bulk());
    std::vector<std::pair<Bytes, Bytes>> known;
    for (auto& ch : pool) {
      Bytes piece = ch.substr(0, 300), want;
      if ((e.flags & 4) && !(IsAscii(dict) && IsAscii(piece))) continue;
      CHECK_PROP(FreshStream(dict, e.flags, e.tm, std::vector<Bytes>(1, piece), &want), "fresh encoder failed");
      known.push_back(std::make_pair(piece, want));
    }
    if (!known.empty()) {
      c.Label("mass");
      const size_t n = b.Flip() ? 300 : 66000;
      for (size_t i = 0; i < n; ++i) {
        const auto& k = known[b.Below(known.size())];
        Bytes out;
        bool ok = e.enc->StartEncoding(&out) && e.enc->EncodeChunk(k.first.data(), k.first.size(), &out) &&
                  e.enc->FinishEncoding(&out);
        CHECK_PROP(ok && out == k.second, "stream %zu of a long history differs from a fresh encoder's", i);
      }
      c.sub_evaluations += n;
    }
  }
  // One-shot encoder used repeatedly.
  EncodeOpts eo;
  eo.flags = s.Chance(1, 5) ? 4 : (int)s.Below(4);
  eo.target_matching = s.Flip();
  {
    std::unique_ptr<VCDiffEncoder> e;
    {
      HeapCopy d(dict);
      e.reset(new VCDiffEncoder(d.p, d.n));
      memset(d.p, 0x77, d.n);
    }
    e->SetFormatFlags((VCDiffFormatExtensionFlags)eo.flags);
    e->SetTargetMatching(eo.target_matching);
    Bytes out = "previous contents";
    for (int i = 0; i < 3; ++i) {
      if (i > 0 && s.Chance(1, 3)) {  // other settings from here on
        if (s.Flip()) {
          eo.flags = s.Chance(1, 5) ? 4 : (int)s.Below(4);
          e->SetFormatFlags((VCDiffFormatExtensionFlags)eo.flags);
        } else {
          eo.target_matching = s.Flip();
          e->SetTargetMatching(eo.target_matching);
        }
        c.Label("one_shot_settings_changed");
      }
      const Bytes& t = pool[s.Below(pool.size())];
      HeapCopy h(t);
      bool ok = e->Encode(h.p, h.n, &out);
      bool want = !(eo.flags & 4) || (IsAscii(dict) && IsAscii(t));
      CHECK_PROP(ok == want, "one-shot Encode returned %d (flags %d)", ok, eo.flags);
      if (!ok) continue;
      Bytes fresh;
      CHECK_PROP(RealEncodeSimple(dict, t, eo, &fresh), "fresh one-shot encoder failed");
      CHECK_PROP(out == fresh, "one-shot use %d differs from a fresh encoder's output at byte %zu (%zu vs %zu bytes)", i,
                 FirstDiff(out, fresh), out.size(), fresh.size());
      Bytes stream;
      CHECK_PROP(FreshStream(dict, eo.flags, eo.target_matching, std::vector<Bytes>(1, t), &stream), "stream failed");
      CHECK_PROP(out == stream, "one-shot output differs from the streaming encoder's for one chunk");
      c.sub_evaluations += 2;
    }
  }
  if (switches > 1) c.Label("interleaved_encoders");
  if (refused) c.Label("refused_calls", refused);
  c.Label("streams_compared", finished);
  c.nontrivial = finished >= 1 && chunks_done >= 2;
}

// ---- C10 --------------------------------------------------------------------
namespace {
struct Json {
  const Bytes& t;
  size_t p = 0;
  explicit Json(const Bytes& x) : t(x) {}
  void Ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\n' || t[p] == '\r' || t[p] == '\t')) ++p; }
  int Peek() { return p < t.size() ? (unsigned char)t[p] : -1; }
  [[noreturn]] void Bad(const char* why) {
    size_t a = p > 20 ? p - 20 : 0;
    FailCase("invalid JSON at offset %zu (%s): ...%s", p, why, Printable(t.substr(a, 60), 60).c_str());
  }
  Bytes Str() {
    Bytes r;
    if (Peek() != '"') Bad("string expected");
    ++p;
    for (;;) {
      int c = Peek();
      if (c < 0) Bad("unterminated string");
      ++p;
      if (c == '"') return r;
      if (c < 0x20) { --p; Bad("raw control character in string"); }
      if (c >= 0x80) { --p; Bad("non-ASCII byte in string"); }
      if (c != '\\') { r.push_back((char)c); continue; }
      c = Peek();
      ++p;
      switch (c) {
        case '"': case '\\': case '/': r.push_back((char)c); break;
        case 'b': r.push_back('\b'); break;
        case 'f': r.push_back('\f'); break;
        case 'n': r.push_back('\n'); break;
        case 'r': r.push_back('\r'); break;
        case 't': r.push_back('\t'); break;
        case 'u': {
          unsigned v = 0;
          for (int i = 0; i < 4; ++i) {
            int h = Peek();
            if (!isxdigit(h)) Bad("bad \\u escape");
            v = v * 16 + (h <= '9' ? h - '0' : (h | 32) - 'a' + 10);
            ++p;
          }
          if (v >= 128) Bad("escape denotes a non-ASCII character");
          r.push_back((char)v);
          break;
        }
        default: --p; Bad("bad escape");
      }
    }
  }
  uint64_t Num() {
    size_t st = p;
    uint64_t v = 0;
    while (Peek() >= '0' && Peek() <= '9') {
      v = v * 10 + (Peek() - '0');
      ++p;
      if (p - st > 15) Bad("number too long");
    }
    if (p == st) Bad("number expected");
    if (t[st] == '0' && p - st > 1) Bad("leading zero");
    return v;
  }
};

struct JStats { size_t strings = 0, dict_copies = 0, target_copies = 0; };

// Strictly parses and applies the JSON delta.
Bytes ApplyJson(const Bytes& dict, const Bytes& text, JStats* st) {
  Bytes out;
  Json j(text);
  j.Ws();
  if (j.Peek() != '[') j.Bad("array expected");
  ++j.p;
  j.Ws();
  if (j.Peek() == ']') {
    ++j.p;
  } else {
    for (;;) {
      j.Ws();
      if (j.Peek() == '"') {
        out += j.Str();
        ++st->strings;
      } else {
        uint64_t off = j.Num();
        j.Ws();
        if (j.Peek() != ',') j.Bad("',' expected between offset and length");
        ++j.p;
        j.Ws();
        uint64_t len = j.Num();
        CHECK_PROP(off < dict.size() + out.size() || len == 0, "JSON copy from offset %llu, but only %zu bytes exist",
                   (unsigned long long)off, dict.size() + out.size());
        CHECK_PROP(len < (1u << 28), "JSON copy of %llu bytes", (unsigned long long)len);
        for (uint64_t k = 0; k < len; ++k) {
          uint64_t a = off + k;
          out.push_back(a < dict.size() ? dict[a] : out[a - dict.size()]);
        }
        ++(off < dict.size() ? st->dict_copies : st->target_copies);
      }
      j.Ws();
      if (j.Peek() == ']') { ++j.p; break; }
      if (j.Peek() != ',') j.Bad("',' or ']' expected");
      ++j.p;
    }
  }
  j.Ws();
  if (j.p != text.size()) j.Bad("text after the array");
  return out;
}

void CheckJson(const char* what, const Bytes& dict, const Bytes& target, const Bytes& json, Ctx& c) {
  if (target.empty()) {
    CHECK_PROP(json.empty(), "%s: empty target, but output is \"%s\"", what, Printable(json, 40).c_str());
    return;
  }
  JStats st;
  Bytes got = ApplyJson(dict, json, &st);
  CHECK_PROP(got == target, "%s: JSON delta reconstructs %zu bytes, target has %zu, first difference at %zu", what,
             got.size(), target.size(), FirstDiff(got, target));
  ++c.sub_evaluations;
  if (st.strings) c.Label("json_string");
  if (st.dict_copies) c.Label("json_dict_copy");
  if (st.target_copies) c.Label("json_target_copy");
}
}  // namespace

namespace {
struct Grouping : std::numpunct<char> {
  char do_thousands_sep() const override { return ','; }
  char do_decimal_point() const override { return ';'; }
  std::string do_grouping() const override { return "\1"; }
};
struct LocaleGuard {
  LocaleGuard() : old(std::locale::global(std::locale(std::locale::classic(), new Grouping))) {}
  ~LocaleGuard() { std::locale::global(old); }
  std::locale old;
};
}  // namespace

void prop_C10(Source& s, Ctx& c) {
  BlobOpts b;
  b.max = s.Chance(1, 12) ? 60000 : 3000;
  if (s.Chance(1, c.dbg_build ? 500 : 2500)) { b.max = s.Chance(1, 4) ? 2500000 : 300000; b.fill = true; c.Label("large"); }
  b.ascii = true;
  Bytes dict, target;
  if (s.Chance(1, c.dbg_build ? 3000 : 8000)) {
    std::vector<FarSlice> sl;
    FarBlobs(s, true, &dict, &target, &sl);
    c.Label("far_addresses");
  } else {
    dict = GenDict(s, b);
    target = GenTarget(s, dict, b);
  }
  EncodeOpts eo;
  eo.flags = 4 | (s.Chance(1, 3) ? (int)s.Below(4) : 0);
  eo.target_matching = s.Flip();
  // A program that groups digits when it prints numbers for people.
  std::unique_ptr<LocaleGuard> locale;
  if (s.Chance(1, 8)) { locale.reset(new LocaleGuard); c.Label("grouping_locale"); }
  std::vector<size_t> chunks = GenChunks(s, target.size());
  c.Desc(DescribeBlobs(dict, target) + " flags=" + std::to_string(eo.flags) + " target_matching=" +
         std::to_string(eo.target_matching) + " chunks=" + ChunksStr(chunks));
  if (IsAscii(target)) {
    Bytes out;
    CHECK_PROP(RealEncode(dict, target, chunks, eo, &out), "JSON encode failed on ASCII input");
    CheckJson("streaming", dict, target, out, c);
    Bytes one = "old";
    CHECK_PROP(RealEncodeSimple(dict, target, eo, &one), "one-shot JSON encode failed on ASCII input");
    CheckJson("one-shot", dict, target, one, c);
    // The same encoder object again, and an empty stream after a full one.
    HashedDictionary hd(dict.data(), dict.size());
    CHECK_PROP(hd.Init(), "Init");
    VCDiffStreamingEncoder e(&hd, (VCDiffFormatExtensionFlags)eo.flags, eo.target_matching);
    for (int r = 0; r < 3; ++r) {
      Bytes t = r == 0 ? target : s.Chance(1, 3) ? Bytes() : target.substr(s.Below(target.size() + 1));
      std::vector<size_t> ch = GenChunks(s, t.size());
      Bytes o;
      size_t p = 0;
      CHECK_PROP(e.StartEncoding(&o), "StartEncoding failed");
      for (size_t n : ch) {
        CHECK_PROP(e.EncodeChunk(t.data() + p, n, &o), "EncodeChunk failed");
        p += n;
      }
      CHECK_PROP(e.FinishEncoding(&o), "FinishEncoding failed");
      CheckJson("reused encoder", dict, t, o, c);
    }
  }
  // Non-ASCII input is refused.
  {
    Bytes bad_d = dict, bad_t = target, o;
    bad_d.insert(s.Below(dict.size() + 1), 1, (char)(128 + s.Below(128)));
    bad_t.insert(s.Below(target.size() + 1), 1, (char)(128 + s.Below(128)));
    CHECK_PROP(!RealEncodeSimple(bad_d, target, eo, &o), "dictionary with a non-ASCII byte accepted for JSON");
    CHECK_PROP(!RealEncodeSimple(dict, bad_t, eo, &o), "target with a non-ASCII byte accepted for JSON");
    Bytes o2;
    std::vector<size_t> ch = GenChunks(s, bad_t.size());
    CHECK_PROP(!RealEncode(dict, bad_t, ch, eo, &o2), "streamed target with a non-ASCII byte accepted for JSON");
    c.sub_evaluations += 3;
  }
  // The writer driven directly.
  {
    JSONCodeTableWriter w;
    for (int round = 0; round < 2; ++round) {
      CHECK_PROP(w.Init(dict.size()), "JSON writer Init failed");
      CHECK_PROP(w.VerifyDictionary(dict.data(), dict.size()), "JSON writer refuses an ASCII dictionary");
      Bytes out, tgt;
      OutputString<Bytes> os(&out);
      size_t win = 0;
      std::string hist;
      bool any = false, pending = false;
      for (size_t i = 0; s.More(i, 6, 40); ++i) {
        switch (s.Pick({3, 2, 3, 1})) {
          case 0: {
            Bytes d = Fill(s.Raw(), 1 + s.Below(20), s.Flip() ? 128 : 35, 0);
            w.Add(d.data(), d.size());
            tgt += d;
            pending = any = true;
            hist += " add" + std::to_string(d.size());
            break;
          }
          case 1: {
            size_t n = 1 + s.Len(40);
            unsigned char ch = (unsigned char)s.Below(128);
            w.Run(n, ch);
            tgt.append(n, (char)ch);
            pending = any = true;
            hist += " run" + std::to_string(n) + "x" + std::to_string(ch);
            break;
          }
          case 2: {
            size_t avail = dict.size() + (tgt.size() - win);
            if (!avail) break;
            size_t a = s.Below(avail), n = 1 + s.Len(60);
            // A copy from the dictionary ends there (as the encoder's do).
            if (a < dict.size()) n = std::min(n, dict.size() - a);
            w.Copy((int32_t)a, n);
            for (size_t k = 0; k < n; ++k)
              tgt.push_back(a + k < dict.size() ? dict[a + k] : tgt[win + a + k - dict.size()]);
            pending = any = true;
            hist += " copy" + std::to_string(a) + "+" + std::to_string(n);
            break;
          }
          default:
            if (!pending) break;
            w.Output(&os);
            win = tgt.size();
            pending = false;
            hist += " output";
            break;
        }
      }
      if (pending) w.Output(&os);
      w.FinishEncoding(&os);
      c.Desc("writer:" + hist);
      if (any) CheckJson("writer", dict, tgt, out, c);
    }
  }
  c.nontrivial = c.labels.count("json_string") && (c.labels.count("json_dict_copy") || c.labels.count("json_target_copy"));
}

// ---- C12 --------------------------------------------------------------------
static void ToCodeTable(const RefTable& t, VCDiffCodeTableData* d) {
  Bytes b = RefTableBytes(t);
  memcpy(d->inst1, b.data(), 256);
  memcpy(d->inst2, b.data() + 256, 256);
  memcpy(d->size1, b.data() + 512, 256);
  memcpy(d->size2, b.data() + 768, 256);
  memcpy(d->mode1, b.data() + 1024, 256);
  memcpy(d->mode2, b.data() + 1280, 256);
}

static void GenCacheSizes(Source& s, int* near, int* same) {
  switch (s.Pick({4, 3, 1, 1, 1})) {
    case 0: *near = 4; *same = 3; break;
    case 1: *near = (int)s.Below(12); *same = (int)s.Below(8); break;
    case 2: *near = (int)s.Below(253); *same = 0; break;
    case 3: *near = 0; *same = (int)s.Below(253); break;
    default: *near = (int)s.Below(200); *same = (int)s.Below(252 - *near + 1); break;
  }
}

static void JudgeTable(const char* what, const Bytes& dict, const Bytes& delta, Source& s, Ctx& c) {
  RefResult want = RefDecode(dict, delta, RefLimits(), false);
  if (want.either) { c.Label("open_verdict"); return; }
  std::vector<size_t> ch = s.Flip() ? std::vector<size_t>(1, delta.size()) : GenChunks(s, delta.size());
  DecodeResult got = RealDecode(dict, delta, ch);
  ++c.sub_evaluations;
  CHECK_PROP(got.ok == (want.v == RefResult::ACCEPT), "%s: decoder %s, reference: %s (supplied as %s)", what,
             got.ok ? "accepted" : "rejected", want.v == RefResult::ACCEPT ? "accept" : want.why.c_str(),
             ChunksStr(ch).c_str());
  if (got.ok) CHECK_PROP(got.out == want.out, "%s: output differs at %zu", what, FirstDiff(got.out, want.out));
  std::string l = std::string("verdict: ") + (want.v == RefResult::ACCEPT ? "accept" : want.why);
  c.Label(l.c_str());
}

// Caches of any size, filled several times over: many short COPYs whose addresses
// repeat or follow addresses used long before.
static void ManyCopies(Source& s, Ctx& c) {
  int near, same;
  if (s.Chance(1, 3)) {
    GenCacheSizes(s, &near, &same);
  } else {
    near = (int)s.Below(253);
    same = (int)s.Below(253 - near);
    if (s.Flip()) std::swap(near, same);
  }
  BuildOpts bo;
  bo.custom = true;
  bo.near = near;
  bo.same = same;
  bo.table = GenTable(s, near, same);
  if (!RefTableValid(bo.table, near, same)) throw Discard();
  const bool inter = s.Flip();
  bo.version = inter ? 'S' : 0;
  const Bytes dict = Fill(s.Raw(), 500 + s.Below(s.Chance(1, 4) ? 70000 : 4000), 256, 0);
  const size_t n = 40 + s.Below(4 * (size_t)(near + 20));
  BuildWindow w;
  w.kind = 1;
  w.seg_len = dict.size();
  w.interleaved = inter;
  uint64_t tlen = 0;
  std::vector<int64_t> recent;
  const uint64_t seed = s.Raw();
  Bytes rnd = Fill(seed, 4 * n, 256, 0);
  for (size_t i = 0; i < n; ++i) {
    BuildInst bi;
    bi.type = R_COPY;
    bi.size = 1 + (unsigned char)rnd[4 * i] % 6;
    const uint64_t here = w.seg_len + tlen, r = (unsigned char)rnd[4 * i + 1] << 8 | (unsigned char)rnd[4 * i + 2];
    const int k = (unsigned char)rnd[4 * i + 3];
    bi.addr = (int64_t)((r * 65537 + r * k) % here);
    if (!recent.empty() && k % 4 != 0) {
      // Often exactly as long ago as the near cache is deep.
      const size_t back = k % 4 == 1 && near && (size_t)near <= recent.size() ? near - (r % 3 ? 0 : r % near) : 1 + r % recent.size();
      bi.addr = recent[recent.size() - std::max<size_t>(1, back)] + (k & 16 ? k % 7 : 0);
    }
    if ((uint64_t)bi.addr >= here) bi.addr = (int64_t)(r % here);
    recent.push_back(bi.addr);
    tlen += bi.size;
    w.insts.push_back(bi);
  }
  Bytes delta = CustomTableHeader(s, bo.version, near, same, bo.table), target;
  const Bytes header = delta;
  BuildWindowBytes(s, dict, bo, w, &target, &delta, nullptr);
  if (s.Flip()) BuildWindowBytes(s, dict, bo, w, &target, &delta, nullptr);  // the caches start afresh
  c.Desc("many copies: near=" + std::to_string(near) + " same=" + std::to_string(same) + " dict(" + std::to_string(dict.size()) +
         ") " + std::to_string(n) + " copies seed=" + std::to_string(seed) + (inter ? " interleaved" : ""));
  DecodeResult r = RealDecodeOne(dict, delta);
  CHECK_PROP(r.ok, "valid custom-table delta rejected");
  CHECK_PROP(r.out == target, "custom-table delta decodes differently at %zu", FirstDiff(r.out, target));
  // The same instructions through the writer.
  VCDiffCodeTableData data;
  ToCodeTable(bo.table, &data);
  VCDiffCodeTableWriter wr(inter, (unsigned char)near, (unsigned char)same, data, (unsigned char)(near + same + 1));
  CHECK_PROP(wr.Init(dict.size()), "writer Init failed");
  for (const BuildInst& bi : w.insts) wr.Copy((int32_t)bi.addr, bi.size);
  Bytes written = header;
  OutputString<Bytes> os(&written);
  wr.Output(&os);
  RefResult ref = RefDecode(dict, written, RefLimits(), false);
  CHECK_PROP(ref.v == RefResult::ACCEPT, "writer output is not accepted by the reference decoder: %s", ref.why.c_str());
  CHECK_PROP(ref.out == target.substr(0, tlen), "writer output means another target (first difference at %zu)",
             FirstDiff(ref.out, target.substr(0, tlen)));
  c.sub_evaluations += 2;
  c.Label("many_copies");
  if (near > 64) c.Label("near_cache_above_64");
  c.nontrivial = true;
}

void prop_C12(Source& s, Ctx& c) {
  const int part = s.Pick({3, c.dbg_build ? 0 : 4, 4, 2, 1});
  if (part == 4) { ManyCopies(s, c); return; }
  if (part == 0) {
    // Valid custom-table deltas decode as built, and only for that delta.
    GenDeltaOpts o;
    o.custom_table = true;
    o.max_dict = 800;
    o.max_window = 800;
    GenDelta g = GenValidDelta(s, o);
    c.Desc(DescribeDelta(g));
    RefResult ref = RefDecode(g.dict, g.delta, RefLimits(), false);
    if (ref.v != RefResult::ACCEPT || ref.either || ref.out != g.target) throw Discard();
    DecodeResult r = RealDecodeOne(g.dict, g.delta);
    CHECK_PROP(r.ok, "valid custom-table delta rejected");
    CHECK_PROP(r.out == g.target, "custom-table delta decodes differently at %zu", FirstDiff(r.out, g.target));
    std::vector<size_t> ch = GenChunks(s, g.delta.size());
    r = RealDecode(g.dict, g.delta, ch);
    CHECK_PROP(r.ok, "valid custom-table delta rejected when supplied as %s", ChunksStr(ch).c_str());
    CHECK_PROP(r.out == g.target, "chunked custom-table delta decodes differently");
    // Alternate with standard and other custom deltas through one decoder.
    VCDiffStreamingDecoder d;
    for (int i = 0; i < 4; ++i) {
      GenDelta h;
      const GenDelta* use = &g;
      if (s.Flip()) {
        GenDeltaOpts p;
        p.custom_table = s.Flip();
        p.max_dict = 300;
        p.max_window = 300;
        h = GenValidDelta(s, p);
        use = &h;
      }
      Bytes out;
      d.StartDecoding(use->dict.data(), use->dict.size());
      bool ok = d.DecodeChunk(use->delta.data(), use->delta.size(), &out);
      ok = d.FinishDecoding() && ok;
      CHECK_PROP(ok && out == use->target, "delta %d (custom table %d) through a reused decoder %s", i, use->opts.custom,
                 ok ? "decodes differently" : "is rejected");
      ++c.sub_evaluations;
    }
    c.Label("valid_custom");
    c.nontrivial = g.opts.custom && !g.target.empty();
  } else if (part == 1) {
    // Invalid tables, sizes and embedded deltas, judged by the reference.
    int near, same;
    GenCacheSizes(s, &near, &same);
    RefTable t = GenTable(s, near, same);
    BlobOpts b;
    b.max = 200;
    Bytes dict = GenDict(s, b);
    std::string what;
    int dn = near, ds = same;
    for (int k = 0; k < 6; ++k) {
      RefTable u = t;
      dn = near; ds = same;
      what.clear();
      Bytes hdr;
      switch (s.Pick({6, 3, 3, 3, 2})) {
        case 4: {  // embedded delta whose checksum belongs to a slightly different table
          Bytes tb = RefTableBytes(u), done;
          hdr = FileHeader(s.Flip() ? 'S' : 0, 2);
          PutVarint(&hdr, dn);
          PutVarint(&hdr, ds);
          hdr += FileHeader('S', 0);
          BuildOpts bo;
          bo.version = 'S';
          size_t cut = s.Flip() ? tb.size() : 1 + s.Below(tb.size() - 1);
          const bool bad_first = s.Flip();
          for (size_t p = 0; p < tb.size(); p = cut, cut = tb.size()) {
            BuildWindow w;
            w.checksum = true;
            w.interleaved = s.Flip();
            BuildInst bi;
            bi.type = R_ADD;
            bi.data = tb.substr(p, cut - p);
            bi.size = bi.data.size();
            w.insts.push_back(bi);
            Bytes enc;
            BuildWindowBytes(s, Bytes(), bo, w, &done, &enc, nullptr);
            if ((p == 0) == bad_first || cut == tb.size()) {
              // The data comes last: change one byte of it, so that only the checksum tells
              // (or, if the table becomes invalid, that too).
              const size_t at = enc.size() - 1 - s.Below(std::min<size_t>(bi.size, 256));
              enc[at] = (char)(enc[at] ^ (s.Flip() ? 1 << s.Below(3) : 1 + s.Below(255)));
            }
            hdr += enc;
          }
          what = " embedded checksum wrong";
          break;
        }
        case 0: {  // one or two bytes of the table
          unsigned char* arr[6] = {u.inst1, u.inst2, u.size1, u.size2, u.mode1, u.mode2};
          for (int m = 0; m < 1 + (int)s.Below(2); ++m) {
            int which = (int)s.Below(6), pos = (int)s.Below(256);
            int v = s.Flip() ? (int)s.Below(5) : (int)s.Below(256);
            if (s.Chance(1, 4)) v = 1 + near + same + (int)s.Below(3);
            arr[which][pos] = (unsigned char)v;
            what += " table[" + std::to_string(which) + "][" + std::to_string(pos) + "]=" + std::to_string(v);
          }
          hdr = CustomTableHeader(s, s.Flip() ? 'S' : 0, dn, ds, u);
          break;
        }
        case 1: {  // other cache sizes than the table was made for
          dn = s.Flip() ? near + (int)s.Below(3) : (int)s.Below(300);
          ds = s.Flip() ? same + (int)s.Below(3) : (int)s.Below(300);
          if (s.Chance(1, 3)) { dn = 252 - ds + (int)s.Below(6); if (dn < 0) dn = 0; }
          what = " near=" + std::to_string(dn) + " same=" + std::to_string(ds);
          hdr = CustomTableHeader(s, s.Flip() ? 'S' : 0, dn, ds, u);
          break;
        }
        case 2: {  // damage in the embedded delta
          hdr = CustomTableHeader(s, s.Flip() ? 'S' : 0, dn, ds, u);
          size_t p = s.Flip() ? 5 + s.Below(std::min<size_t>(hdr.size() - 5, 40)) : s.Below(hdr.size());
          switch (s.Pick({3, 1, 1})) {
            case 0: hdr[p] = (char)(s.Flip() ? hdr[p] ^ (1 << s.Below(8)) : s.Below(256)); break;
            case 1: hdr.erase(p, 1 + s.Below(3)); break;
            default: hdr.insert(p, 1, (char)s.Below(256)); break;
          }
          what = " damage@" + std::to_string(p);
          break;
        }
        default: {  // embedded delta that builds a table of another size
          Bytes tb = RefTableBytes(u);
          int kind = (int)s.Below(4);
          if (kind == 0) tb.resize(tb.size() - 1 - s.Below(200));
          else if (kind == 1) tb += Bytes(1 + s.Below(20), '\0');
          else if (kind == 2) tb.clear();
          hdr = FileHeader(s.Flip() ? 'S' : 0, 2);
          PutVarint(&hdr, dn);
          PutVarint(&hdr, ds);
          char ev = s.Flip() ? 'S' : 0;
          hdr += FileHeader(ev, s.Chance(1, 8) ? (int)s.Below(4) : 0);
          Bytes done;
          if (!tb.empty()) {
            // possibly in two windows, the second of which overshoots
            size_t cut = kind == 1 && s.Flip() ? 1536 : tb.size();
            for (size_t p = 0; p < tb.size();) {
              BuildWindow w;
              BuildInst bi;
              bi.type = R_ADD;
              bi.data = tb.substr(p, p < cut ? cut - p : Bytes::npos);
              bi.size = bi.data.size();
              w.insts.push_back(bi);
              BuildOpts bo;
              bo.version = ev;
              BuildWindowBytes(s, Bytes(), bo, w, &done, &hdr, nullptr);
              p += bi.size;
            }
          }
          what = " embedded size " + std::to_string(tb.size());
          break;
        }
      }
      // A window (or none) in the declared table, built as if all were well.
      Bytes delta = hdr, target;
      if (s.Chance(2, 3) && dn + ds <= 252) {
        BuildOpts bo;
        bo.version = delta[3];
        bo.custom = true;
        bo.table = RefTableValid(u, dn, ds) ? u : t;
        bo.near = dn; bo.same = ds;
        if (RefTableValid(bo.table, dn, ds)) {
          BuildWindow w;
          w.kind = dict.empty() ? 0 : 1;
          w.seg_len = dict.size();
          BuildInst bi;
          bi.type = R_ADD; bi.data = "hello"; bi.size = 5;
          w.insts.push_back(bi);
          bi.type = R_COPY; bi.data = ""; bi.size = 4; bi.addr = (int64_t)s.Below(dict.size() + 1);
          w.insts.push_back(bi);
          BuildWindowBytes(s, dict, bo, w, &target, &delta, nullptr);
        }
      }
      c.Desc("table case:" + what + " delta(" + std::to_string(delta.size()) + ") header " + Hex(delta.substr(0, 40)));
      JudgeTable(what.c_str(), dict, delta, s, c);
      if (k == 0) JudgeTable("header only", dict, hdr, s, c);
    }
    c.nontrivial = true;
  } else if (part == 2) {
    // The writer with a custom (or the default) table.
    int near = 4, same = 3;
    RefTable t = RefDefaultTable();
    const bool custom = !s.Chance(1, 4);
    if (custom) {
      GenCacheSizes(s, &near, &same);
      t = GenTable(s, near, same);
      if (!RefTableValid(t, near, same)) throw Discard();
    }
    VCDiffCodeTableData data;
    ToCodeTable(t, &data);
    CHECK_PROP(data.Validate((unsigned char)(near + same + 1)), "valid table refused by Validate");
    const bool inter = s.Flip(), cs = s.Chance(1, 3);
    std::unique_ptr<VCDiffCodeTableWriter> w(
        custom ? new VCDiffCodeTableWriter(inter, (unsigned char)near, (unsigned char)same, data,
                                           (unsigned char)(near + same + 1))
               : new VCDiffCodeTableWriter(inter));
    BlobOpts b;
    b.max = 2000;
    Bytes dict = GenDict(s, b);
    CHECK_PROP(w->Init(dict.size()), "writer Init failed");
    const char version = (inter || cs) ? 'S' : 0;
    Bytes delta = custom ? CustomTableHeader(s, version, near, same, t) : FileHeader(version, 0);
    Bytes target;
    OutputString<Bytes> os(&delta);
    std::string hist;
    size_t ninst = 0;
    std::vector<int64_t> addrs;
    std::vector<std::vector<BuildInst>> given;
    for (size_t k = 0; k == 0 || s.More(k, 2, 5); ++k) {
      const size_t start = target.size();
      std::vector<BuildInst> g;
      for (size_t i = 0; i == 0 || s.More(i, 12, 120); ++i) {
        BuildInst bi;
        uint64_t n = s.Pick({3, 1}) == 0 ? 1 + s.Below(25) : 1 + s.Len(400);
        const size_t avail = dict.size() + target.size() - start;
        int kind = s.Pick({3, 1, 5});
        if (kind == 2 && avail == 0) kind = 0;
        bi.size = n;
        if (kind == 0) {
          bi.type = R_ADD;
          bi.data = Fill(s.Raw(), n, 256, 0);
          w->Add(bi.data.data(), n);
          target += bi.data;
        } else if (kind == 1) {
          bi.type = R_RUN;
          bi.data = Bytes(1, (char)s.Below(256));
          w->Run(n, (unsigned char)bi.data[0]);
          target.append(n, bi.data[0]);
        } else {
          bi.type = R_COPY;
          int64_t a = (int64_t)s.Below(avail);
          if (!addrs.empty() && s.Flip()) {
            a = addrs[s.Below(addrs.size())] + (s.Flip() ? 0 : (int64_t)s.Below(300));
            if (a >= (int64_t)avail) a = (int64_t)s.Below(avail);
          }
          addrs.push_back(a);
          bi.addr = a;
          w->Copy((int32_t)a, n);
          for (uint64_t j = 0; j < n; ++j)
            target.push_back((size_t)a + j < dict.size() ? dict[a + j] : target[start + a + j - dict.size()]);
        }
        g.push_back(bi);
        ++ninst;
        if (hist.size() < 400)
          hist += " " + std::string(bi.type == R_ADD ? "add" : bi.type == R_RUN ? "run" : "copy@" + std::to_string(bi.addr)) +
                  "/" + std::to_string(n);
      }
      given.push_back(g);
      if (cs) w->AddChecksum(RefAdler0(target, start, target.size() - start));
      w->Output(&os);
      hist += " |";
    }
    c.Desc(std::string("writer interleaved=") + (inter ? "1" : "0") + " checksum=" + (cs ? "1" : "0") + " custom=" +
           (custom ? "1" : "0") + " near=" + std::to_string(near) + " same=" + std::to_string(same) + " dict(" +
           std::to_string(dict.size()) + "):" + hist);
    RefResult ref = RefDecode(dict, delta, RefLimits(), true);
    CHECK_PROP(ref.v == RefResult::ACCEPT, "writer output is not accepted by the reference decoder: %s", ref.why.c_str());
    CHECK_PROP(ref.out == target, "writer output means another target (first difference at %zu)",
               FirstDiff(ref.out, target));
    CHECK_PROP(ref.windows.size() == given.size(), "%zu windows given, %zu written", given.size(), ref.windows.size());
    for (size_t k = 0; k < given.size(); ++k) {
      CHECK_PROP(ref.windows[k].insts.size() == given[k].size(), "window %zu: %zu instructions given, %zu written", k,
                 given[k].size(), ref.windows[k].insts.size());
      for (size_t i = 0; i < given[k].size(); ++i) {
        const RefInst& x = ref.windows[k].insts[i];
        const BuildInst& y = given[k][i];
        CHECK_PROP(x.type == y.type && x.size == y.size && (x.type != R_COPY || x.addr == y.addr),
                   "window %zu instruction %zu: given type %d size %llu addr %lld, written type %d size %llu addr %lld", k, i,
                   y.type, (unsigned long long)y.size, (long long)y.addr, x.type, (unsigned long long)x.size, (long long)x.addr);
      }
    }
    DecodeResult r = RealDecodeOne(dict, delta);
    CHECK_PROP(r.ok, "the library rejects its own writer's output");
    CHECK_PROP(r.out == target, "the library decodes its own writer's output differently at %zu", FirstDiff(r.out, target));
    c.sub_evaluations += 2;
    c.Label(custom ? "writer_custom" : "writer_default");
    c.nontrivial = ninst > 1;
  } else {
    // The encoder with a custom writer.
    int near, same;
    GenCacheSizes(s, &near, &same);
    RefTable t = GenTable(s, near, same);
    if (!RefTableValid(t, near, same)) throw Discard();
    VCDiffCodeTableData data;
    ToCodeTable(t, &data);
    BlobOpts b;
    b.max = s.Chance(1, 10) ? 40000 : 3000;
    Bytes dict = GenDict(s, b), target = GenTarget(s, dict, b);
    int flags = (int)s.Below(4);
    bool tm = s.Flip();
    std::vector<size_t> ch = GenChunks(s, target.size());
    HashedDictionary hd(dict.data(), dict.size());
    CHECK_PROP(hd.Init(), "Init");
    VCDiffStreamingEncoder e(&hd, (VCDiffFormatExtensionFlags)flags, tm,
                             new VCDiffCodeTableWriter(flags & 1, (unsigned char)near, (unsigned char)same, data,
                                                       (unsigned char)(near + same + 1)));
    c.Desc("custom writer in encoder: " + DescribeBlobs(dict, target) + " flags=" + std::to_string(flags) + " near=" +
           std::to_string(near) + " same=" + std::to_string(same) + " chunks=" + ChunksStr(ch));
    for (int round = 0; round < 2; ++round) {
      Bytes out;
      CHECK_PROP(e.StartEncoding(&out), "StartEncoding failed");
      size_t p = 0;
      for (size_t n : ch) {
        CHECK_PROP(e.EncodeChunk(target.data() + p, n, &out), "EncodeChunk failed");
        p += n;
      }
      CHECK_PROP(e.FinishEncoding(&out), "FinishEncoding failed");
      CHECK_PROP(out.size() >= 5, "no header");
      Bytes delta = CustomTableHeader(s, out[3], near, same, t) + out.substr(5);
      RefResult ref = RefDecode(dict, delta, RefLimits(), false);
      CHECK_PROP(ref.v == RefResult::ACCEPT && ref.out == target,
                 "encoder with a custom table: the reference decoder %s",
                 ref.v == RefResult::ACCEPT ? "gets another target" : ref.why.c_str());
      DecodeResult r = RealDecodeOne(dict, delta);
      CHECK_PROP(r.ok && r.out == target, "encoder with a custom table does not round-trip (%s)",
                 r.ok ? "other target" : "rejected");
      c.sub_evaluations += 2;
    }
    c.Label("encoder_custom");
    c.nontrivial = target.size() > 32;
  }
}

// ---- C17 --------------------------------------------------------------------
namespace {
struct Planted {
  size_t t0, src, len;  // target interval [t0, t0+len) repeats source offset src
  bool from_target;
};

int AlignedBlocks(size_t src, size_t len) {
  size_t first = (src + 15) / 16 * 16;
  if (first + 16 > src + len) return 0;
  return (int)((src + len - first) / 16);
}

struct AddRun { size_t a, b; };
std::vector<AddRun> AddRuns(const RefResult& r) {
  std::vector<AddRun> v;
  for (auto& w : r.windows) {
    size_t p = w.target_start;
    for (auto& i : w.insts) {
      if (i.type == R_ADD) v.push_back({p, p + (size_t)i.size});
      p += i.size;
    }
  }
  return v;
}
}  // namespace

void prop_C17(Source& s, Ctx& c) {
  const int kind = s.Pick({30, 30, 20, 20, 2});
  Bytes dict, target, delta;
  EncodeOpts eo;
  eo.flags = (int)s.Below(4);
  if (kind == 3) {
    // Overhead bound on anything at all.
    BlobOpts b = GenSizeTier(s, 4);
    dict = GenDict(s, b);
    target = s.Flip() ? GenTarget(s, dict, b) : Fill(s.Raw(), s.Len(b.max), 256, 0);
    eo.target_matching = s.Flip();
    std::vector<size_t> ch = GenChunks(s, target.size());
    c.Desc("overhead: " + DescribeBlobs(dict, target) + " chunks=" + ChunksStr(ch));
    CHECK_PROP(RealEncode(dict, target, ch, eo, &delta), "encode failed");
    size_t calls = 0;
    for (size_t n : ch) calls += n > 0;
    CHECK_PROP(delta.size() <= target.size() + 5 + 64 * calls, "delta of %zu bytes for a target of %zu bytes in %zu calls",
               delta.size(), target.size(), calls);
    c.Label("overhead");
    c.nontrivial = target.size() > 0;
    return;
  }
  const size_t dmax = s.Pick({8, 1}) ? 300000 : 12000;
  const uint64_t dseed = s.Raw(), tseed = s.Raw();
  size_t dsize = kind == 2 ? s.Below(3) * s.Below(400) : 64 + s.Below(dmax);
  if (s.Chance(1, 4)) {  // sizes an implementation might treat specially
    static const size_t kRound[] = {16, 32, 256, 4096, 65536};
    const size_t r = kRound[s.Below(5)];
    dsize = (dsize + r - 1) / r * r + s.Below(2) * s.Below(3);
  }
  dict = Fill(dseed, dsize, 256, 0);
  std::vector<Planted> pl;
  size_t separators = 0;
  uint64_t lit = tseed;
  auto literal = [&](size_t n) {
    lit = Mix(lit, n);
    target += Fill(lit, n, 256, 0);
  };
  const bool far = s.Chance(1, c.dbg_build ? 10000 : 25000);
  if (far) {
    eo.target_matching = s.Flip();
    std::vector<FarSlice> sl;
    FarBlobs(s, false, &dict, &target, &sl);
    for (auto& x : sl) pl.push_back({x.t0, x.src, x.len, false});
    c.Label("far_addresses");
  } else if (kind == 4) {
    // New data after one long repeat, and the new data once more: what is
    // known of the target has to keep up with the target over any distance.
    eo.target_matching = true;
    dict = Fill(dseed, 30000 + s.Below(s.Chance(1, 4) ? 1500000 : 300000), 256, 0);
    const size_t lead = s.Flip() ? s.Below(300) : 0;
    literal(lead);
    const bool zeros = s.Chance(1, 4);  // the long repeat is of the target itself
    if (zeros) {
      target += Bytes(30000 + s.Below(s.Chance(1, 4) ? 1500000 : 300000), (char)s.Below(256));
    } else {
      const size_t src = s.Below(dict.size() / 3), len = s.Flip() ? dict.size() - src : 25000 + s.Below(dict.size() / 3);
      pl.push_back({target.size(), src, std::min(len, dict.size() - src), false});
      target += dict.substr(pl[0].src, pl[0].len);
    }
    const size_t u0 = target.size(), ulen = 64 + s.Below(600);
    literal(ulen);
    for (size_t i = 0; i == 0 || s.More(i, 3, 6); ++i) {
      literal(s.Below(100));
      const size_t off = s.Below(ulen - 63), len = 63 + s.Below(ulen - off - 62);
      pl.push_back({target.size(), u0 + off, len, true});
      target += target.substr(u0 + off, len);
    }
    if (lead >= 63 && s.Flip()) {
      literal(s.Below(50));
      pl.push_back({target.size(), 0, lead, true});
      target += target.substr(0, lead);
    }
  } else if (kind == 0 && s.Chance(1, 6)) {
    // A small target with a repeat that may run into itself.
    eo.target_matching = true;
    literal(1 + s.Below(40));
    const size_t src = s.Below(target.size()), len = 32 + s.Below(40);
    pl.push_back({target.size(), src, len, true});
    for (size_t k = 0; k < len; ++k) target.push_back(target[src + k]);
    literal(s.Below(20));
    c.Label("small_self_repeat");
  } else if (kind == 0) {
    // Arbitrary, possibly overlapping slices; judged by the robust rule.
    eo.target_matching = s.Flip();
    for (size_t i = 0; i == 0 || s.More(i, 8, 40); ++i) {
      switch (s.Pick({4, 3, eo.target_matching ? 2 : 0})) {
        case 0: {
          size_t src = s.Flip() ? s.Below(dict.size()) : s.Below(dict.size() / 16 + 1) * 16;
          if (s.Chance(1, 6)) src = s.Flip() ? s.Below(32) : dict.size() - 32 - s.Below(std::min<size_t>(32, dict.size() - 32));
          if (src >= dict.size()) break;
          size_t len = std::min<size_t>(dict.size() - src, 16 + (s.Flip() ? s.Below(60) : s.Len(s.Chance(1, 4) ? 100000 : 4000)));
          pl.push_back({target.size(), src, len, false});
          target += dict.substr(src, len);
          break;
        }
        case 1: literal(s.Flip() ? s.Below(20) : s.Len(2000)); break;
        default: {
          if (target.empty()) break;
          size_t src = s.Flip() ? s.Below(target.size()) : s.Below(target.size() / 16 + 1) * 16;
          if (src >= target.size()) break;
          size_t len = std::min<size_t>(target.size() - src, 16 + (s.Flip() ? s.Below(60) : s.Len(s.Chance(1, 4) ? 100000 : 4000)));
          pl.push_back({target.size(), src, len, true});
          target += target.substr(src, len);
          break;
        }
      }
    }
  } else {
    // Disjoint slices, each followed by a byte that breaks the match, so that
    // nothing but the separators may be literal.
    const bool self = kind == 2;
    if (self) {
      eo.target_matching = true;
      literal(200 + s.Below(6000));
      separators = target.size();
    } else {
      eo.target_matching = s.Flip();
    }
    const Bytes source = self ? target : dict;
    // The order of slices in the target differs from that in the source.
    std::vector<std::pair<size_t, size_t>> sl;
    size_t p = s.Below(40);
    while (p + 34 < source.size() && s.More(sl.size(), 10, 40)) {
      size_t len = 32 + (s.Flip() ? s.Below(50) : s.Len(3000));
      if (p + len > source.size()) len = source.size() - p;
      if (len >= 32 && AlignedBlocks(p, len) >= 1) sl.push_back({p, len});
      p += len + 1 + s.Below(40);
    }
    for (size_t i = sl.size(); i > 1; --i) std::swap(sl[i - 1], sl[s.Below(i)]);
    for (auto& x : sl) {
      // separator: its last byte differs from the byte before the slice, its
      // first from the byte after the previous slice.
      size_t n = 1 + s.Below(20);
      lit = Mix(lit, n);
      Bytes sep = Fill(lit, n, 256, 0);
      if (!pl.empty()) {
        size_t e = pl.back().src + pl.back().len;
        if (e < source.size() && sep[0] == source[e]) sep[0] = (char)(sep[0] ^ 1);
        if (e == source.size() && self && sep[0] == target[e]) sep[0] = (char)(sep[0] ^ 1);
      }
      target += sep;
      separators += n;
      pl.push_back({target.size(), x.first, x.second, self});
      target += source.substr(x.first, x.second);
    }
    if (s.Flip()) {
      size_t n = 1 + s.Below(40);
      lit = Mix(lit, n);
      Bytes sep = Fill(lit, n, 256, 0);
      if (!pl.empty()) {
        size_t e = pl.back().src + pl.back().len;
        if (e < source.size() && sep[0] == source[e]) sep[0] = (char)(sep[0] ^ 1);
      }
      target += sep;
      separators += n;
    }
  }
  // Chunked only when repeats of the target itself are not involved.
  bool self_any = false;
  for (auto& x : pl) self_any |= x.from_target;
  std::vector<size_t> ch(1, target.size());
  if (kind == 0 && !self_any && s.Flip()) ch = GenChunks(s, target.size());
  std::string d = "planted:";
  for (auto& x : pl)
    d += " " + std::string(x.from_target ? "T" : "D") + std::to_string(x.src) + "+" + std::to_string(x.len) + "@" +
         std::to_string(x.t0);
  c.Desc("dict(" + std::to_string(dict.size()) + ") target(" + std::to_string(target.size()) + ") kind=" +
         std::to_string(kind) + " tm=" + std::to_string(eo.target_matching) + " flags=" + std::to_string(eo.flags) +
         " chunks=" + ChunksStr(ch) + " " + d.substr(0, 600));
  CHECK_PROP(RealEncode(dict, target, ch, eo, &delta), "encode failed");
  RefResult r = RefDecode(dict, delta, RefLimits(), true);
  CHECK_PROP(r.v == RefResult::ACCEPT && r.out == target, "delta does not decode to the target (%s)", r.why.c_str());
  std::vector<AddRun> runs = AddRuns(r);
  size_t total = 0;
  for (auto& a : runs) total += a.b - a.a;
  for (auto& x : pl) {
    for (auto& a : runs) {
      size_t lo = std::max(a.a, x.t0), hi = std::min(a.b, x.t0 + x.len);
      if (lo >= hi) continue;
      size_t len = hi - lo, src = x.src + (lo - x.t0);
      CHECK_PROP(!(len >= 32 && AlignedBlocks(src, len) >= 1),
                 "%zu bytes at target offset %zu repeat the %s at offset %zu but were encoded as literals", len, lo,
                 x.from_target ? "earlier target" : "dictionary", src);
    }
  }
  if (!far && (kind == 1 || kind == 2))
    CHECK_PROP(total <= separators, "%zu literal bytes, but only %zu bytes of the target are not repeats", total, separators);
  CHECK_PROP(delta.size() <= target.size() + 5 + 64 * std::max<size_t>(1, ch.size()), "delta larger than the bound");
  bool big = false;
  for (auto& x : pl) big |= x.len >= 32 && AlignedBlocks(x.src, x.len) >= 1;
  c.Label(kind == 0 ? "overlapping_slices" : kind == 1 ? "dictionary_slices" : kind == 4 ? "after_long_repeat" : "self_repeats");
  if (eo.target_matching) c.Label("target_matching");
  c.Label("slices", pl.size());
  c.nontrivial = big;
}

Bytes ApplyJsonText(const Bytes& dict, const Bytes& text) {
  JStats st;
  return ApplyJson(dict, text, &st);
}
