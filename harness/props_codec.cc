// C01 round trip, C02 RFC decoding, C06 checksums, C08 encoder conformance.
#include <fcntl.h>
#include <string.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>
#include <algorithm>
#include "gen.h"
#include "props.h"
#include "google/vcdecoder.h"
#include "google/vcencoder.h"

using namespace open_vcdiff;

static void GenCodec(Source& s, Ctx& c, Bytes* dict, Bytes* target, EncodeOpts* eo) {
  const unsigned scale = c.dbg_build ? 1 : 4;
  BlobOpts d = GenSizeTier(s, scale);
  BlobOpts t = s.Flip() ? d : GenSizeTier(s, scale);
  if (s.Chance(1, 12000) && c.dbg_build) {  // beyond 24-bit sizes
    c.Label("over_16MB");
    d.max = 36000000; d.fill = true;
    t = d;
    if (s.Chance(1, 3)) d.max = 300000;
    else if (s.Flip()) t.max = 300000;
  }
  if (s.Chance(1, c.dbg_build ? 1500 : 4000)) {
    std::vector<FarSlice> sl;
    FarBlobs(s, false, dict, target, &sl);
    c.Label("far_addresses");
  } else {
    *dict = GenDict(s, d);
    *target = GenTarget(s, *dict, t);
  }
  eo->flags = (int)s.Below(4);
  eo->target_matching = s.Flip();
}

static void CheckSame(const char* what, const Bytes& got, const Bytes& want) {
  if (got == want) return;
  size_t p = FirstDiff(got, want);
  FailCase("%s: got %zu bytes, want %zu, first difference at %zu", what, got.size(), want.size(), p);
}

// Address space that costs nothing until it is written to.
struct Sparse {
  explicit Sparse(size_t n, size_t also = 0) : size(n) {
    getrlimit(RLIMIT_AS, &old);
    rlimit rl = old;
    if (rl.rlim_cur != RLIM_INFINITY) rl.rlim_cur += n + also;
    setrlimit(RLIMIT_AS, &rl);
    void* m = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) { setrlimit(RLIMIT_AS, &old); throw Discard(); }
    p = (char*)m;
  }
  ~Sparse() { munmap(p, size); setrlimit(RLIMIT_AS, &old); }
  char* p;
  size_t size;
  rlimit old;
};

// A chunk (or a dictionary) for which the format's 31-bit sizes and addresses
// do not suffice has to be refused, and the encoder stays usable.
static void HugeEncode(Source& s, Ctx& c) {
  const bool tm = s.Flip(), dictionary = c.dbg_build && !c.scratch.empty() && s.Chance(1, 4);
  const int flags = (int)s.Below(5);
  const uint64_t base = s.Flip() ? 0x80000000ull : s.Flip() ? 0x100000000ull : 0x180000000ull;
  BlobOpts b;
  b.max = 3000;
  b.ascii = flags == 4;
  const Bytes dict = GenDict(s, b), target = GenTarget(s, dict, b);
  c.nontrivial = true;
  if (dictionary) {
    const size_t n = 0x80000000ull + s.Below(70000) + (base > 0x80000000ull ? 0x80000000ull : 0);
    c.Desc("dictionary of " + std::to_string(n) + " bytes");
    c.Label("huge_dictionary");
    // One at a time: the library makes a copy.
    const int fd = open((c.scratch + "/../huge.lock").c_str(), O_CREAT | O_RDWR | O_CLOEXEC, 0600);
    if (fd < 0) throw Discard();
    struct Unlock { int fd; ~Unlock() { close(fd); } } unlock = {fd};
    if (flock(fd, LOCK_EX)) throw Discard();
    Sparse m(n, n);
    memcpy(m.p, dict.data(), dict.size());
    HashedDictionary hd(m.p, m.size);
    CHECK_PROP(!hd.Init(), "HashedDictionary::Init accepts %zu bytes, which addresses cannot express", n);
    ++c.sub_evaluations;
    return;
  }
  // The total of dictionary and chunk is just beyond or far beyond 2^31 or 2^32.
  const size_t n = base - (s.Flip() ? dict.size() : 0) + s.Below(s.Flip() ? 3 : 70000);
  c.Desc("chunk of " + std::to_string(n) + " bytes flags=" + std::to_string(flags) + " tm=" + std::to_string(tm) + " " +
         DescribeBlobs(dict, target));
  c.Label("huge_chunk");
  Sparse m(n);
  HashedDictionary hd(dict.data(), dict.size());
  CHECK_PROP(hd.Init(), "Init failed");
  VCDiffStreamingEncoder e(&hd, (VCDiffFormatExtensionFlags)flags, tm);
  Bytes delta;
  const bool before = s.Flip();
  Bytes want;
  CHECK_PROP(e.StartEncoding(&delta), "StartEncoding failed");
  if (before) {
    CHECK_PROP(e.EncodeChunk(target.data(), target.size(), &delta), "EncodeChunk failed");
    want += target;
  }
  CHECK_PROP(!e.EncodeChunk(m.p, n, &delta), "a chunk of %zu bytes with a dictionary of %zu is encoded, though sizes cannot express it", n,
             dict.size());
  CHECK_PROP(e.EncodeChunk(target.data(), target.size(), &delta), "EncodeChunk fails after a chunk that was refused");
  want += target;
  CHECK_PROP(e.FinishEncoding(&delta), "FinishEncoding fails after a chunk that was refused");
  if (flags != 4) {
    DecodeResult r = RealDecodeOne(dict, delta);
    CHECK_PROP(r.ok, "decoding the delta failed");
    CheckSame("stream with a refused chunk", r.out, want);
  }
  if (flags != 4) {
    VCDiffEncoder oe(dict.data(), dict.size());
    oe.SetFormatFlags((VCDiffFormatExtensionFlags)flags);
    oe.SetTargetMatching(tm);
    Bytes d2;
    CHECK_PROP(!oe.Encode(m.p, n, &d2), "VCDiffEncoder encodes %zu bytes", n);
    CHECK_PROP(oe.Encode(target.data(), target.size(), &d2), "VCDiffEncoder fails after a target that was refused");
    DecodeResult r = RealDecodeOne(dict, d2);
    CHECK_PROP(r.ok, "decoding the one-shot delta failed");
    CheckSame("one-shot after a refused target", r.out, target);
  }
  c.sub_evaluations += 3;
}

// Source segments of dictionaries of gigabytes: 31-bit positions, lengths and
// addresses.
static void HugeDict(Source& s, Ctx& c) {
  const uint64_t K = 0x80000000ull;
  uint64_t size = 0;
  switch (s.Below(4)) {
    case 0: size = K - 200 + s.Below(400); break;
    case 1: size = 2 * K - 200 + s.Below(400); break;
    case 2: size = K / 2 + s.Below(4 * K); break;
    default: size = 1000 + s.Below(K); break;
  }
  Sparse m(size);
  std::vector<uint64_t> islands;
  const uint64_t salt = s.Below(1 << 20);
  auto island = [&](uint64_t at) {
    at = std::min(at, size - 64);
    // The content is a function of the position: islands may overlap.
    for (uint64_t k = at; k < at + 64; ++k) m.p[k] = (char)(((k + salt) * 0x9E3779B97F4A7C15ull) >> 40);
    islands.push_back(at);
  };
  if (size < 1000) throw Discard();
  Bytes delta = FileHeader(s.Flip() ? 'S' : 0, 0), want;
  std::string desc = "dictionary of " + std::to_string(size) + " bytes";
  const size_t windows = 1 + s.Below(3);
  bool may_fail = false;
  std::vector<std::pair<uint64_t, uint64_t>> seg;
  for (size_t w = 0; w < windows; ++w) {
    uint64_t P = s.Flip() ? 0 : std::min<uint64_t>(s.Below(std::min(size - 100, K)), K - 1);
    if (s.Chance(1, 4)) P = std::min(K - 1 - s.Below(3), size - 100);
    const uint64_t maxl = std::min(size - P, K - 1);
    uint64_t L = s.Flip() ? maxl - std::min<uint64_t>(maxl - 1, s.Below(3000)) : 1 + s.Below(maxl);
    const bool over = !c.dbg_build && s.Chance(1, 6);
    if (!over) L = std::min<uint64_t>(L, K - 1 - 4000);
    island(P);
    island(P + L - std::min<uint64_t>(L, 64));
    island(P + s.Below(L));
    island(P + L / 2);
    if (P + L > K) island(K - 32);
    seg.push_back({P, L});
  }
  for (size_t w = 0; w < windows; ++w) {
    const uint64_t P = seg[w].first, L = seg[w].second;
    desc += "; segment of " + std::to_string(L) + " at " + std::to_string(P) + ":";
    Bytes inst, data, addr, out;
    uint64_t near[4] = {0, 0, 0, 0}, same[768] = {0}, slot = 0;
    const size_t ops = 1 + s.Below(20);
    for (size_t i = 0; i < ops; ++i) {
      if (s.Chance(1, 4)) {
        Bytes v = Fill(s.Raw(), 1 + s.Below(30), 256, 0);
        inst.push_back(1);
        PutVarint(&inst, v.size());
        data += v;
        out += v;
        desc += " add " + std::to_string(v.size());
        continue;
      }
      const uint64_t here = L + out.size();
      uint64_t a = 0;
      for (int t = 0; t < 8; ++t) {
        const uint64_t at = islands[s.Below(islands.size())] + s.Below(64);
        if (at >= P && at < P + L) { a = at - P; break; }
      }
      if (s.Chance(1, 4)) a = here - 1 - s.Below(std::min<uint64_t>(here, out.size() + 60));
      if (s.Chance(1, 4)) a = near[s.Below(4)];
      const uint64_t n = 1 + s.Below(150);
      if (here >= K || a >= K) may_fail = true;
      std::vector<std::pair<int, uint64_t>> modes;
      modes.push_back({0, a});
      modes.push_back({1, here - a});
      for (int k = 0; k < 4; ++k) if (a >= near[k]) modes.push_back({2 + k, a - near[k]});
      if (same[a % 768] == a) modes.push_back({6 + (int)(a % 768 / 256), a % 256});
      const std::pair<int, uint64_t> md = modes[s.Below(modes.size())];
      if (md.second >= K) may_fail = true;
      inst.push_back((char)(19 + 16 * md.first));
      PutVarint(&inst, n);
      if (md.first >= 6) addr.push_back((char)md.second);
      else PutVarint(&addr, md.second);
      near[slot] = a; slot = (slot + 1) % 4;
      same[a % 768] = a;
      for (uint64_t k = 0; k < n; ++k) out.push_back(a + k < L ? m.p[P + a + k] : out[a + k - L]);
      desc += " copy " + std::to_string(n) + "@" + std::to_string(a) + "m" + std::to_string(md.first);
    }
    Bytes body;
    PutVarint(&body, out.size());
    body.push_back(0);
    PutVarint(&body, data.size());
    PutVarint(&body, inst.size());
    PutVarint(&body, addr.size());
    body += data + inst + addr;
    delta.push_back(1);
    PutVarint(&delta, L);
    PutVarint(&delta, P);
    PutVarint(&delta, body.size());
    delta += body;
    want += out;
  }
  std::vector<size_t> ch = s.Flip() ? std::vector<size_t>(1, delta.size()) : GenChunks(s, delta.size());
  c.Desc(desc + " chunks=" + ChunksStr(ch));
  c.Label(may_fail ? "huge_dictionary_beyond_31_bits" : "huge_dictionary");
  VCDiffStreamingDecoder d;
  d.StartDecoding(m.p, m.size);
  Bytes out;
  bool ok = true;
  size_t pos = 0;
  for (size_t n : ch) {
    if (!(ok = d.DecodeChunk(delta.data() + pos, n, &out))) break;
    pos += n;
  }
  ok = d.FinishDecoding() && ok;
  ++c.sub_evaluations;
  if (!may_fail) CHECK_PROP(ok, "well-formed delta rejected");
  if (ok) CheckSame("target decoded with a huge dictionary", out, want);
  else CHECK_PROP(want.compare(0, out.size(), out) == 0, "wrong output before a rejection");
  c.nontrivial = true;
}

// ---- C01 --------------------------------------------------------------------
void prop_C01(Source& s, Ctx& c) {
  if (s.Chance(1, 3000)) { HugeEncode(s, c); return; }
  Bytes dict, target, delta;
  EncodeOpts eo;
  GenCodec(s, c, &dict, &target, &eo);
  std::vector<size_t> chunks = GenChunks(s, target.size());
  c.Desc(DescribeBlobs(dict, target) + " flags=" + std::to_string(eo.flags) +
         " target_matching=" + std::to_string(eo.target_matching) + " chunks=" + ChunksStr(chunks));
  CHECK_PROP(RealEncode(dict, target, chunks, eo, &delta), "streaming encode failed");
  DecodeResult r = RealDecodeOne(dict, delta);
  CHECK_PROP(r.ok, "decoding the streaming delta failed");
  CheckSame("streaming encode/decode", r.out, target);
  std::vector<size_t> dchunks = GenChunks(s, delta.size());
  r = RealDecode(dict, delta, dchunks);
  CHECK_PROP(r.ok, "chunked decoding of the delta failed");
  CheckSame("streaming encode/chunked decode", r.out, target);
  Bytes d2 = "junk", o2 = "junk";
  CHECK_PROP(RealEncodeSimple(dict, target, eo, &d2), "one-shot encode failed");
  CHECK_PROP(RealDecodeSimple(dict, d2, &o2), "one-shot decode failed");
  CheckSame("one-shot encode/decode", o2, target);
  c.sub_evaluations += 3;
  if (s.Chance(1, 3)) {
    // The same encoder objects go on to encode other targets; every delta must
    // decode with decoders that know nothing of the earlier ones.
    c.Label("encoder_reused");
    HashedDictionary hd(dict.data(), dict.size());
    CHECK_PROP(hd.Init(), "Init failed");
    VCDiffStreamingEncoder se(&hd, (VCDiffFormatExtensionFlags)eo.flags, eo.target_matching);
    VCDiffEncoder oe(dict.data(), dict.size());
    oe.SetFormatFlags((VCDiffFormatExtensionFlags)eo.flags);
    oe.SetTargetMatching(eo.target_matching);
    VCDiffDecoder od;
    Bytes next = target;
    std::vector<size_t> nch = chunks;
    for (size_t round = 0; round == 0 || (round < 5 && s.Chance(2, 3)); ++round) {
      if (round) {
        BlobOpts b;
        b.max = s.Chance(1, 20) ? 100000 : 3000;
        next = s.Chance(1, 4) ? target.substr(0, s.Below(target.size() + 1)) : GenTarget(s, dict, b);
        nch = GenChunks(s, next.size());
        c.Desc(" then target(" + std::to_string(next.size()) + ") chunks=" + ChunksStr(nch));
      }
      Bytes d3, buf;
      bool ok = se.StartEncoding(&d3);
      size_t pos = 0;
      for (size_t n : nch) {  // one buffer, refilled for every call
        buf.assign(next, pos, n);
        ok &= se.EncodeChunk(buf.data(), n, &d3);
        pos += n;
      }
      ok &= se.FinishEncoding(&d3);
      CHECK_PROP(ok, "reused streaming encoder: stream %zu failed", round);
      r = RealDecodeOne(dict, d3);
      CHECK_PROP(r.ok, "reused streaming encoder: delta of stream %zu does not decode", round);
      CheckSame("reused streaming encoder", r.out, next);
      Bytes d4, o4;
      CHECK_PROP(oe.Encode(next.data(), next.size(), &d4), "reused one-shot encoder: target %zu failed", round);
      CHECK_PROP(od.Decode(dict.data(), dict.size(), d4, &o4), "reused one-shot encoder: delta %zu does not decode", round);
      CheckSame("reused one-shot encoder and decoder", o4, next);
      r = RealDecodeOne(dict, d4);
      CHECK_PROP(r.ok, "reused one-shot encoder: delta %zu does not decode with a new decoder", round);
      CheckSame("reused one-shot encoder, new decoder", r.out, next);
      c.sub_evaluations += 3;
    }
  }
  if (s.Chance(1, c.dbg_build ? 1200 : 4000)) {
    // Very many chunks in one stream, or very many streams on one encoder.
    c.Label("mass");
    Source b(s.Raw(), Source::Bulk());
    static const size_t kN[] = {260, 5000, 66000};
    const size_t n = kN[b.Below(3)];
    const Bytes d = dict.substr(0, 3000);
    HashedDictionary hd(d.data(), d.size());
    CHECK_PROP(hd.Init(), "Init failed");
    VCDiffStreamingEncoder se(&hd, (VCDiffFormatExtensionFlags)eo.flags, eo.target_matching);
    VCDiffEncoder oe(d.data(), d.size());
    oe.SetFormatFlags((VCDiffFormatExtensionFlags)eo.flags);
    oe.SetTargetMatching(eo.target_matching);
    VCDiffDecoder od;
    const bool one_stream = b.Flip();
    Bytes all, md, mo;
    CHECK_PROP(!one_stream || se.StartEncoding(&md), "StartEncoding failed");
    for (size_t i = 0; i < n; ++i) {
      size_t p = b.Below(d.size() + 1);
      Bytes piece = d.substr(p, b.Chance(1, 8) ? b.Below(60) : b.Below(4)) + Fill(b.Raw(), b.Below(4), 256, 0);
      if (one_stream) {
        CHECK_PROP(se.EncodeChunk(piece.data(), piece.size(), &md), "chunk %zu of a long stream refused", i);
        all += piece;
        continue;
      }
      if (b.Flip()) {
        md.clear();
        bool ok = se.StartEncoding(&md) && se.EncodeChunk(piece.data(), piece.size(), &md) && se.FinishEncoding(&md);
        CHECK_PROP(ok, "stream %zu on one encoder failed", i);
      } else {
        CHECK_PROP(oe.Encode(piece.data(), piece.size(), &md), "target %zu on one encoder failed", i);
      }
      CHECK_PROP(od.Decode(d.data(), d.size(), md, &mo) && mo == piece, "stream %zu on one encoder does not decode to its target", i);
    }
    if (one_stream) {
      CHECK_PROP(se.FinishEncoding(&md), "FinishEncoding failed");
      r = RealDecodeOne(d, md);
      CHECK_PROP(r.ok, "the delta of %zu chunks does not decode", n);
      CheckSame("stream of very many chunks", r.out, all);
    }
    c.sub_evaluations += n;
  }
  // Does the delta really contain copies and literals?
  RefResult rr = RefDecode(dict, delta, RefLimits(), true);
  bool copy = false, add = false;
  for (auto& w : rr.windows)
    for (auto& i : w.insts) { copy |= i.type == R_COPY; add |= i.type == R_ADD; }
  if (copy) c.Label("has_copy");
  if (add) c.Label("has_add");
  if (rr.windows.size() > 1) c.Label("multi_window");
  if (dict.empty()) c.Label("empty_dict");
  if (target.empty()) c.Label("empty_target");
  if (target.size() > 100000 || dict.size() > 100000) c.Label("over_100KB");
  if (target.size() > 1000000 || dict.size() > 1000000) c.Label("over_1MB");
  c.nontrivial = copy;
}

// ---- C02 --------------------------------------------------------------------
GenDeltaOpts TieredDelta(Source& s, bool slow) {
  GenDeltaOpts o;
  switch (s.Pick({60, 20, 8, slow ? 0 : 1})) {
    case 0: break;
    case 1: o.max_dict = 40000; o.max_window = 40000; o.max_windows = 4; break;
    case 2:
      o.max_dict = 100; o.max_window = 60; o.max_windows = 60; o.avg_windows = 12;
      if (s.Chance(1, 30)) { o.max_window = 12; o.max_windows = 700; o.avg_windows = 300; }
      break;
    default: o.max_dict = 3000000; o.max_window = 5000000; o.max_windows = 3; break;
  }
  return o;
}

void LabelDelta(Ctx& c, const GenDelta& g) {
  char t[20];
  for (int i = 0; i < 256; ++i)
    if (g.stats.opcodes[i] && !g.opts.custom) { snprintf(t, sizeof t, "op%d", i); c.Label(t); }
  for (int i = 0; i < 260; ++i)
    if (g.stats.modes[i] && !g.opts.custom) { snprintf(t, sizeof t, "mode%d", i); c.Label(t); }
  for (auto& w : g.windows) {
    c.Label(w.kind == 0 ? "win_nosource" : w.kind == 1 ? "win_source" : "win_target");
    if (w.interleaved) c.Label("win_interleaved");
    if (w.checksum) c.Label("win_checksum");
  }
}

void prop_C02(Source& s, Ctx& c) {
  if (s.Chance(1, 300)) { HugeDict(s, c); return; }
  GenDeltaOpts o = TieredDelta(s, !c.dbg_build);
  GenDelta g;
  if (s.Chance(1, c.dbg_build ? 2500 : 6000)) {
    c.Label("mass");
    Source b(s.Raw(), Source::Bulk());
    g = GenValidDelta(b, MassDelta(b));
  } else {
    if (s.Chance(1, c.dbg_build ? 4000 : 8000)) {
      c.Label("far_addresses");
      o.far_dict = ((size_t)1 << (20 + s.Below(5))) + s.Below(3000000);
    }
    g = GenValidDelta(s, o);
  }
  c.Desc(DescribeDelta(g));
  RefResult ref = RefDecode(g.dict, g.delta, RefLimits(), true);
  // Generator and reference decoder are independent of each other; if they
  // disagree the harness is wrong, not the library.
  if (ref.v != RefResult::ACCEPT || ref.either || ref.out != g.target) throw Discard();
  DecodeResult r = RealDecodeOne(g.dict, g.delta);
  CHECK_PROP(r.ok, "well-formed delta rejected");
  CheckSame("decoded target", r.out, g.target);
  std::vector<size_t> ch = GenChunks(s, g.delta.size());
  r = RealDecode(g.dict, g.delta, ch);
  CHECK_PROP(r.ok, "well-formed delta rejected when supplied as %s", ChunksStr(ch).c_str());
  CheckSame("chunked decoded target", r.out, g.target);
  Bytes out = "old";
  CHECK_PROP(RealDecodeSimple(g.dict, g.delta, &out), "well-formed delta rejected by VCDiffDecoder");
  CheckSame("VCDiffDecoder target", out, g.target);
  c.sub_evaluations += 2;
  LabelDelta(c, g);
  bool copy = false;
  for (auto& w : g.windows) for (auto& i : w.insts) copy |= i.type == R_COPY && i.size > 0;
  c.nontrivial = copy && !g.target.empty();
}

// ---- C06 --------------------------------------------------------------------
void prop_C06(Source& s, Ctx& c) {
  Bytes dict, delta, target;
  const bool from_encoder = s.Flip();
  if (from_encoder) {
    EncodeOpts eo;
    GenCodec(s, c, &dict, &target, &eo);
    eo.flags |= 2;
    std::vector<size_t> chunks = GenChunks(s, target.size());
    c.Desc("encoder: " + DescribeBlobs(dict, target) + " flags=" + std::to_string(eo.flags) +
           " chunks=" + ChunksStr(chunks));
    CHECK_PROP(RealEncode(dict, target, chunks, eo, &delta), "encode failed");
    RefResult rr = RefDecode(dict, delta, RefLimits(), false);
    CHECK_PROP(rr.v == RefResult::ACCEPT, "delta with checksums is not accepted by the reference decoder: %s",
               rr.why.c_str());
    size_t pos = 0, w = 0;
    for (size_t n : chunks) {
      if (n == 0) continue;
      CHECK_PROP(w < rr.windows.size(), "fewer windows than chunks");
      const RefWindow& win = rr.windows[w++];
      CHECK_PROP(win.has_checksum, "window %zu has no checksum", w - 1);
      uint32_t want = RefAdler0(target, pos, n);
      CHECK_PROP(win.checksum == want, "window %zu: checksum field %llx, Adler-32 of its target bytes is %x", w - 1,
                 (unsigned long long)win.checksum, want);
      pos += n;
    }
    CHECK_PROP(w == rr.windows.size(), "more windows than chunks");
    Bytes d1;
    CHECK_PROP(RealEncodeSimple(dict, target, eo, &d1), "one-shot encode failed");
    RefResult r1 = RefDecode(dict, d1, RefLimits(), false);
    CHECK_PROP(r1.v == RefResult::ACCEPT && r1.windows.size() == (target.empty() ? 0u : 1u) &&
                   (target.empty() || r1.windows[0].has_checksum),
               "one-shot delta lacks the requested checksum or is malformed");
  } else {
    GenDeltaOpts o = TieredDelta(s, true);
    o.want_version = 'S';
    if (!s.Chance(1, 4)) o.force_checksum = 1;
    GenDelta g = GenValidDelta(s, o);
    dict = g.dict; delta = g.delta; target = g.target;
    c.Desc("built: " + DescribeDelta(g));
    LabelDelta(c, g);
  }
  // Uncorrupted.
  DecodeResult r = RealDecodeOne(dict, delta);
  CHECK_PROP(r.ok, "uncorrupted checksummed delta rejected");
  CheckSame("uncorrupted", r.out, target);
  // Corruptions, each judged by the reference.
  RefResult base = RefDecode(dict, delta, RefLimits(), false);
  if (base.windows.empty()) return;
  const int rounds = delta.size() > 100000 ? 2 : 8;
  for (int k = 0; k < rounds; ++k) {
    Bytes d2 = delta, dict2 = dict;
    const RefWindow& w = base.windows[s.Below(base.windows.size())];
    std::string what;
    auto damage = [&](Bytes* b, size_t p) {
      if (p >= b->size()) return;
      unsigned char x = (unsigned char)(s.Flip() ? 1u << s.Below(8) : 1 + s.Below(255));
      (*b)[p] = (char)((*b)[p] ^ x);
      what += " @" + std::to_string(p) + "^" + std::to_string(x);
    };
    switch (s.Pick({3, 3, 2, 4, 1, 2, 2})) {
      case 0: what = "literal"; if (w.data_len) damage(&d2, w.data_off + s.Below(w.data_len)); break;
      case 1: what = "dictionary"; if (!dict2.empty()) damage(&dict2, s.Below(dict2.size())); break;
      case 2: what = "address"; if (w.addr_len) damage(&d2, w.addr_off + s.Below(w.addr_len)); break;
      case 3: {
        what = "checksum";
        if (!w.has_checksum) break;
        // replace the field by another value of the same varint length
        size_t n = VarintLen(w.checksum);
        uint64_t v = w.checksum ^ (1ull << s.Below(32));
        Bytes enc;
        PutVarint(&enc, v);
        if (enc.size() == n) d2.replace(w.checksum_off, n, enc);
        else damage(&d2, w.checksum_off + s.Below(n));
        break;
      }
      case 4: what = "swap"; {
        if (w.data_len < 2) break;
        size_t a = w.data_off + s.Below(w.data_len), b = w.data_off + s.Below(w.data_len);
        std::swap(d2[a], d2[b]);
        break;
      }
      case 5: what = "other dictionary"; dict2 = Fill(s.Raw(), dict.size(), 256, 0); break;
      default: what = "instruction"; if (w.inst_len) damage(&d2, w.inst_off + s.Below(w.inst_len)); break;
    }
    if (d2 == delta && dict2 == dict) continue;
    RefLimits lim;
    RefResult want = RefDecode(dict2, d2, lim, false);
    if (want.either) { c.Label("open_verdict"); continue; }
    std::vector<size_t> ch = s.Chance(1, 4) ? GenChunks(s, d2.size()) : std::vector<size_t>(1, d2.size());
    DecodeResult got = RealDecode(dict2, d2, ch);
    ++c.sub_evaluations;
    c.Desc("corruption: " + what + " reference=" + (want.v == RefResult::ACCEPT ? "accept" : want.why));
    CHECK_PROP(got.ok == (want.v == RefResult::ACCEPT), "corruption (%s): decoder %s, but the reference says %s",
               what.c_str(), got.ok ? "accepted" : "rejected",
               want.v == RefResult::ACCEPT ? "accept" : want.why.c_str());
    if (got.ok) CheckSame("accepted after corruption", got.out, want.out);
    if (want.why == "checksum mismatch") { c.Label("checksum_mismatch"); c.nontrivial = true; }
  }
}

// ---- C08 --------------------------------------------------------------------
static void CheckConformance(const Bytes& dict, const Bytes& target, const std::vector<size_t>& chunks,
                             const EncodeOpts& eo, const Bytes& delta, Ctx& c) {
  CHECK_PROP(delta.size() >= 5, "delta shorter than a header");
  const int want_version = eo.flags ? 'S' : 0;
  RefResult r = RefDecode(dict, delta, RefLimits(), true);
  CHECK_PROP(r.v == RefResult::ACCEPT, "strict reference decoder does not accept the delta: %s", r.why.c_str());
  CHECK_PROP(!r.either, "delta relies on an encoding the RFC leaves open: %s", r.why_either.c_str());
  CHECK_PROP(r.version == want_version, "version byte %d for flags %d", r.version, eo.flags);
  CHECK_PROP(r.hdr_indicator == 0, "header indicator %d", r.hdr_indicator);
  CheckSame("reference decoding of the delta", r.out, target);
  size_t w = 0;
  for (size_t n : chunks) {
    if (n == 0) continue;
    CHECK_PROP(w < r.windows.size(), "fewer windows than non-empty chunks");
    const RefWindow& win = r.windows[w++];
    CHECK_PROP(win.target_len == n, "window %zu has target length %llu, chunk had %zu", w - 1,
               (unsigned long long)win.target_len, n);
    CHECK_PROP(win.has_checksum == !!(eo.flags & 2), "checksum presence differs from the request");
    CHECK_PROP(!(win.win_indicator & 2), "encoder produced an earlier-target window");
    bool inter = win.data_len == 0 && win.addr_len == 0;
    bool want_inter = eo.flags & 1;
    CHECK_PROP(!want_inter || inter, "interleaving requested, but sections are separate");
    CHECK_PROP(want_inter || !inter, "interleaving not requested, but there are no separate sections");
    uint64_t pos = 0;
    for (auto& i : win.insts) {
      CHECK_PROP(i.size > 0, "zero-size instruction");
      if (i.type == R_COPY) {
        const uint64_t a = (uint64_t)i.addr;
        bool src = a < win.seg_len, tgt = a + i.size > win.seg_len;
        CHECK_PROP(!(src && tgt), "COPY straddles the dictionary/target boundary");
        CHECK_PROP(eo.target_matching || !tgt, "target matching is off but a COPY refers to target data");
        c.Label(tgt ? "copy_target" : "copy_dict");
      }
      pos += i.size;
    }
  }
  CHECK_PROP(w == r.windows.size(), "more windows than non-empty chunks");
}

void prop_C08(Source& s, Ctx& c) {
  Bytes dict, target, delta;
  EncodeOpts eo;
  GenCodec(s, c, &dict, &target, &eo);
  std::vector<size_t> chunks = GenChunks(s, target.size());
  c.Desc(DescribeBlobs(dict, target) + " flags=" + std::to_string(eo.flags) +
         " target_matching=" + std::to_string(eo.target_matching) + " chunks=" + ChunksStr(chunks));
  CHECK_PROP(RealEncode(dict, target, chunks, eo, &delta), "encode failed");
  CheckConformance(dict, target, chunks, eo, delta, c);
  Bytes one;
  CHECK_PROP(RealEncodeSimple(dict, target, eo, &one), "one-shot encode failed");
  CheckConformance(dict, target, std::vector<size_t>(1, target.size()), eo, one, c);
  ++c.sub_evaluations;
  if (s.Chance(1, 3)) {
    // The same objects again, for other targets.
    c.Label("encoder_reused");
    HashedDictionary hd(dict.data(), dict.size());
    CHECK_PROP(hd.Init(), "Init failed");
    VCDiffStreamingEncoder se(&hd, (VCDiffFormatExtensionFlags)eo.flags, eo.target_matching);
    VCDiffEncoder oe(dict.data(), dict.size());
    oe.SetFormatFlags((VCDiffFormatExtensionFlags)eo.flags);
    oe.SetTargetMatching(eo.target_matching);
    for (size_t round = 0; round < 2 || (round < 5 && s.Flip()); ++round) {
      BlobOpts b;
      b.max = s.Chance(1, 20) ? 60000 : 3000;
      const Bytes next = s.Chance(1, 4) ? target.substr(0, s.Below(std::min<size_t>(target.size(), 60000) + 1)) : GenTarget(s, dict, b);
      const std::vector<size_t> nch = GenChunks(s, next.size());
      c.Desc(" then target(" + std::to_string(next.size()) + ") chunks=" + ChunksStr(nch));
      Bytes d3, d4;
      bool ok = se.StartEncoding(&d3);
      size_t pos = 0;
      for (size_t n : nch) { ok &= se.EncodeChunk(next.data() + pos, n, &d3); pos += n; }
      ok &= se.FinishEncoding(&d3);
      CHECK_PROP(ok, "reused streaming encoder: stream %zu failed", round);
      CheckConformance(dict, next, nch, eo, d3, c);
      CHECK_PROP(oe.Encode(next.data(), next.size(), &d4), "reused one-shot encoder failed");
      CheckConformance(dict, next, std::vector<size_t>(1, next.size()), eo, d4, c);
      c.sub_evaluations += 2;
    }
  }
  c.nontrivial = c.labels.count("copy_dict") || c.labels.count("copy_target");
}
