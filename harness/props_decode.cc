// C03 chunking, C04 safety and verdicts, C05 limits, C07 decoder reuse,
// C15 earlier-target switch, C16 partial input.
#include <string.h>
#include <algorithm>
#include <memory>
#include "google/vcdecoder.h"
#include "props.h"

using open_vcdiff::VCDiffDecoder;
using open_vcdiff::VCDiffStreamingDecoder;

AnyDelta GenAnyDelta(Source& s, Ctx& c, bool allow_invalid) {
  AnyDelta a;
  const int base = s.Pick({8, 2, 2, allow_invalid ? 1 : 0, allow_invalid ? 1 : 0});
  if (base == 3) {  // header followed by arbitrary bytes
    BlobOpts b;
    b.max = 300;
    a.dict = GenDict(s, b);
    a.delta = FileHeader(s.Flip() ? 'S' : 0, s.Chance(1, 4) ? (int)s.Below(8) : 0);
    a.delta += Fill(s.Raw(), s.Len(200), s.Flip() ? 256 : 20, 0);
    a.kind = "arbitrary";
    return a;
  }
  if (base == 4) {  // nested code tables
    a.dict = "dictionary";
    int depth = s.Chance(1, 6) ? 1 + (int)s.Below(60000) : 1 + (int)s.Below(20);
    for (int i = 0; i < depth; ++i) {
      a.delta += FileHeader(s.Flip() ? 'S' : 0, 2);
      PutVarint(&a.delta, s.Below(6));
      PutVarint(&a.delta, s.Below(6));
      if (i > 50) { Bytes last = a.delta.substr(a.delta.size() - 7); for (; i < depth; ++i) a.delta += last; }
    }
    if (s.Flip()) a.delta += FileHeader(0, 0) + Fill(s.Raw(), s.Len(40), 256, 0);
    a.kind = "nested tables";
    return a;
  }
  if (base == 1) {
    BlobOpts b;
    b.max = s.Chance(1, 40) ? 60000 : 3000;
    a.dict = GenDict(s, b);
    Bytes t = GenTarget(s, a.dict, b);
    EncodeOpts eo;
    eo.flags = (int)s.Below(4);
    eo.target_matching = s.Flip();
    RealEncode(a.dict, t, GenChunks(s, t.size()), eo, &a.delta);
    a.kind = "encoder";
  } else {
    GenDeltaOpts o = TieredDelta(s, true);
    if (s.Chance(1, c.dbg_build ? 500 : 2500)) {  // a long history of target data
      o.max_dict = 200000; o.max_window = 900000; o.max_windows = 5;
    }
    if (base == 2) { o.custom_table = true; o.max_dict = 500; o.max_window = 500; }
    if (s.Chance(1, 3)) { o.max_dict = 40; o.max_window = 40; }
    GenDelta g;
    if (s.Chance(1, c.dbg_build ? 20000 : 30000)) {
      c.Label("mass");
      Source b(s.Raw(), Source::Bulk());
      g = GenValidDelta(b, MassDelta(b));
    } else {
      g = GenValidDelta(s, o);
    }
    a.dict = g.dict;
    a.delta = g.delta;
    a.kind = g.opts.custom ? "built custom-table" : "built";
    if (allow_invalid && g.opts.custom && s.Chance(1, 3)) {
      // Damage inside the header / embedded table.
      std::string what;
      size_t p = s.Below(g.header_end);
      a.delta[p] = (char)(s.Flip() ? a.delta[p] ^ (1 << s.Below(8)) : s.Below(256));
      a.kind += " table@" + std::to_string(p);
      return a;
    }
  }
  a.valid = true;
  if (!allow_invalid) return a;
  switch (s.Pick({3, 4, 6, 2})) {
    case 0: break;
    case 1: {
      RefResult p = RefDecode(a.dict, a.delta, RefLimits(), false);
      a.delta = MutateDelta(s, a.delta, &p, &a.kind);
      a.valid = false;
      break;
    }
    case 2: {
      RefResult p = RefDecode(a.dict, a.delta, RefLimits(), false);
      a.delta = EditWindows(s, a.delta, p, &a.kind);
      a.valid = false;
      break;
    }
    default: {
      size_t p = s.Below(a.delta.size() + 1);
      a.delta.resize(p);
      a.kind += " truncated@" + std::to_string(p);
      a.valid = false;
      break;
    }
  }
  (void)c;
  return a;
}

static const char* VName(const RefResult& r) {
  return r.v == RefResult::ACCEPT ? "accept" : r.v == RefResult::INCOMPLETE ? "incomplete" : r.why.c_str();
}

static std::string DescAny(const AnyDelta& a) {
  return a.kind + ": dict(" + std::to_string(a.dict.size()) + ")=" + Hex(a.dict, 40) + " delta(" +
         std::to_string(a.delta.size()) + ")=" + Hex(a.delta, 200);
}

// ---- C03 ----------------------------------------------------------------------
void prop_C03(Source& s, Ctx& c) {
  AnyDelta a = GenAnyDelta(s, c, !c.dbg_build);
  c.Desc(DescAny(a));
  DecodeOpts lim;
  lim.set_limits = true;
  lim.max_file = lim.max_window = 1 << 20;
  if (a.valid) lim.max_file = lim.max_window = 1 << 26;
  if (s.Chance(1, 4)) lim.allow_target = false;
  if (s.Chance(1, 6)) {  // limits right at what this delta needs
    RefResult p = RefDecode(a.dict, a.delta, RefLimits(), false);
    uint64_t big = 0, total = 0;
    for (auto& w : p.windows) { big = std::max<uint64_t>(big, w.target_len); total = w.target_start + w.target_len; }
    auto at = [&](uint64_t v) { const uint64_t x = v + s.Below(3); return x ? x - 1 : 0; };
    if (s.Flip()) lim.max_file = std::min<uint64_t>(lim.max_file, at(total));
    else lim.max_window = std::min<uint64_t>(lim.max_window, at(big));
    c.Label("limit_at_size");
  }
  DecodeResult one = RealDecodeOne(a.dict, a.delta, lim);
  auto check = [&](const std::vector<size_t>& ch) {
    DecodeResult r = RealDecode(a.dict, a.delta, ch, lim);
    ++c.sub_evaluations;
    CHECK_PROP(r.ok == one.ok, "one call: %s; as %s: %s", one.ok ? "accepted" : "rejected", ChunksStr(ch).c_str(),
               r.ok ? "accepted" : "rejected");
    if (one.ok)
      CHECK_PROP(r.out == one.out, "as %s the output differs at %zu (%zu vs %zu bytes)", ChunksStr(ch).c_str(),
                 FirstDiff(r.out, one.out), r.out.size(), one.out.size());
  };
  const size_t n = a.delta.size();
  if (n <= 160) {
    for (size_t p = 0; p <= n; ++p) check({p, n - p});
    check(std::vector<size_t>(n, 1));
    c.Label("all_two_way_splits");
  } else {
    RefLimits rl;
    RefResult parsed = RefDecode(a.dict, a.delta, rl, true);
    for (int k = 0; k < 6; ++k) {
      size_t p = s.Below(n + 1);
      if (!parsed.windows.empty() && s.Chance(2, 3)) {
        const RefWindow& w = parsed.windows[s.Below(parsed.windows.size())];
        if (s.Flip()) p = w.start + s.Below(w.header_end - w.start + 2);
        else if (!w.insts.empty()) p = w.insts[s.Below(w.insts.size())].end_pos + s.Below(3);
      }
      if (p > n) p = n;
      check({p, n - p});
    }
  }
  for (int k = 0; k < 3; ++k) check(GenChunks(s, n));
  c.Label(one.ok ? "accepted" : "rejected");
  c.Label(a.kind.substr(0, a.kind.find(' ')).c_str());
  c.nontrivial = n > 12;
}

// ---- C04 ----------------------------------------------------------------------
void prop_C04(Source& s, Ctx& c) {
  AnyDelta a = GenAnyDelta(s, c, true);
  c.Desc(DescAny(a));
  DecodeOpts lim;
  RefLimits rl;
  if (!s.Chance(1, 10)) {
    lim.set_limits = true;
    lim.max_file = rl.max_file = 1 << 20;
    lim.max_window = rl.max_window = 1 << 19;
  }
  RefResult want = RefDecode(a.dict, a.delta, rl, false);
  std::vector<size_t> ch = s.Flip() ? std::vector<size_t>(1, a.delta.size()) : GenChunks(s, a.delta.size());
  DecodeResult got = RealDecode(a.dict, a.delta, ch, lim);
  c.Desc(std::string("reference: ") + VName(want) + (want.either ? " (open: " + want.why_either + ")" : ""));
  if (want.either) {
    c.Label("verdict_left_open");
  } else {
    CHECK_PROP(got.ok == (want.v == RefResult::ACCEPT), "decoder %s, reference: %s", got.ok ? "accepted" : "rejected",
               VName(want));
    if (got.ok)
      CHECK_PROP(got.out == want.out, "accepted with wrong output (first difference at %zu, %zu vs %zu bytes)",
                 FirstDiff(got.out, want.out), got.out.size(), want.out.size());
    if (s.Chance(1, 4)) {
      Bytes out = "x";
      bool ok = RealDecodeSimple(a.dict, a.delta, &out);
      RefResult w2 = rl.max_file == RefLimits().max_file ? want : RefDecode(a.dict, a.delta, RefLimits(), false);
      if (!w2.either) {
        CHECK_PROP(ok == (w2.v == RefResult::ACCEPT), "VCDiffDecoder %s, reference: %s", ok ? "accepted" : "rejected",
                   VName(w2));
        if (ok) CHECK_PROP(out == w2.out, "VCDiffDecoder output differs");
        ++c.sub_evaluations;
      }
    }
  }
  c.Label((std::string("ref:") + VName(want)).c_str());
  c.nontrivial = !a.valid && a.delta.size() > 6;
}

// ---- C05 ----------------------------------------------------------------------
namespace {
// A delta that claims far more than the limits allow, in an instruction or in a
// length field, must not make the decoder produce or allocate it.
void HostileSizes(Source& s, Ctx& c) {
  const uint64_t maxw = 1 + s.Len(20000), maxf = maxw + s.Len(20000);
  const Bytes dict = Fill(s.Raw(), 1 + s.Below(500), 256, 0);
  const bool ext = s.Flip(), inter = ext && s.Flip(), sum = ext && s.Chance(1, 4);
  Bytes delta = FileHeader(ext ? 'S' : 0, 0), target;
  BuildOpts bo;
  bo.version = ext ? 'S' : 0;
  uint64_t total = 0;
  for (size_t i = 0; s.More(i, 1, 3); ++i) {  // some harmless windows first
    BuildWindow w;
    BuildInst bi;
    bi.type = R_RUN; bi.size = 1 + s.Below(std::max<uint64_t>(1, std::min(maxw, maxf - total) / 2)); bi.data = "r";
    if (bi.size > maxw || total + bi.size > maxf) break;
    total += bi.size;
    w.insts.push_back(bi);
    BuildWindowBytes(s, dict, bo, w, &target, &delta, nullptr);
  }
  const uint64_t room = std::min(maxw, maxf - total);
  auto huge = [&]() -> uint64_t {
    switch (s.Pick({2, 2, 2, 1})) {
      case 0: return 2147483647u - s.Below(40);
      case 1: return room + 1 + s.Below(100);
      case 2: return room + 1000000 + s.Below(400000000);
      default: return room * (2 + s.Below(100)) + 1;
    }
  };
  const uint64_t tlen = room ? 1 + s.Below(room) : 0;
  const uint64_t pre = tlen ? s.Below(std::min<uint64_t>(tlen, 200)) : 0;
  const bool src = s.Flip();
  Bytes data, inst, addr;
  auto add = [&](uint64_t n) {
    inst.push_back(1); PutVarint(&inst, n);
    (inter ? inst : data) += Fill(5, n, 256, 0);
  };
  if (pre) add(pre);
  const int where = s.Pick({6, 5});
  std::string what;
  uint64_t declared = tlen, seg = src ? dict.size() : 0, dlen_override = 0, sect_override = 0;
  int which = 0;
  if (where == 0) {
    const uint64_t h = huge();
    switch (which = (int)s.Below(3)) {
      case 0: inst.push_back(0); PutVarint(&inst, h); (inter ? inst : data).push_back('R'); what = "RUN"; break;
      case 1: inst.push_back(1); PutVarint(&inst, h); (inter ? inst : data) += "some data"; what = "ADD"; break;
      default: inst.push_back(19); PutVarint(&inst, h); (inter ? inst : addr).push_back(0); what = "COPY"; break;
    }
    what += "(" + std::to_string(h) + ")";
  } else {
    if (tlen > pre) { inst.push_back(0); PutVarint(&inst, tlen - pre); (inter ? inst : data).push_back('R'); }
    const uint64_t h = huge();
    switch (which = (int)s.Below(4)) {
      case 0: declared = h; what = "target window length"; break;
      case 1: dlen_override = h; what = "delta encoding length"; break;
      case 2: sect_override = h; what = "section length"; break;
      default: seg = h + dict.size(); what = "segment length"; break;
    }
    what += "=" + std::to_string(h);
  }
  Bytes w;
  w.push_back((char)((src || (where == 1 && which == 3) ? 1 : 0) | (sum ? 4 : 0)));
  if (w[0] & 1) { PutVarint(&w, seg); PutVarint(&w, 0); }
  Bytes body;
  PutVarint(&body, declared);
  body.push_back(0);
  const int sect = (int)s.Below(3);
  PutVarint(&body, inter ? 0 : sect_override && sect == 0 ? sect_override : data.size());
  PutVarint(&body, sect_override && (inter || sect == 1) ? sect_override : inst.size());
  PutVarint(&body, inter ? 0 : sect_override && sect == 2 ? sect_override : addr.size());
  if (sum) { Bytes full = Fill(5, pre, 256, 0); PutVarint(&body, RefAdler0(full, 0, full.size())); }
  body += data + inst + addr;
  PutVarint(&w, dlen_override ? dlen_override : body.size() + (sect_override && s.Flip() ? sect_override : 0));
  w += body;
  delta += w;
  std::vector<size_t> ch = s.Flip() ? std::vector<size_t>(1, delta.size()) : GenChunks(s, delta.size());
  c.Desc("hostile " + what + " max_window=" + std::to_string(maxw) + " max_file=" + std::to_string(maxf) +
         " window of " + std::to_string(tlen) + " after " + std::to_string(total) + " bytes, chunks=" + ChunksStr(ch));
  RefLimits rl;
  rl.max_window = maxw;
  rl.max_file = maxf;
  RefResult want = RefDecode(dict, delta, rl, false);
  Bytes out;
  bool ok = true;
  size_t peak = 0;
  {
    HeapPeak hp;
    VCDiffStreamingDecoder d;
    d.SetMaximumTargetFileSize(maxf);
    d.SetMaximumTargetWindowSize(maxw);
    d.StartDecoding(dict.data(), dict.size());
    size_t pos = 0;
    for (size_t n : ch) {
      if (!d.DecodeChunk(delta.data() + pos, n, &out)) { ok = false; break; }
      pos += n;
      CHECK_PROP(out.size() <= maxf, "%zu bytes of output exceed the file limit %llu", out.size(), (unsigned long long)maxf);
    }
    ok = d.FinishDecoding() && ok;
    peak = hp.Peak();
  }
  ++c.sub_evaluations;
  c.Label("hostile_sizes");
  if (HeapPeak::Enabled()) {
    c.Label("peak_memory_measured");
    const size_t limit = 8 * (size_t)(maxf + delta.size() + dict.size()) + 100000;
    CHECK_PROP(peak <= limit, "%s: decoding %zu bytes with limits %llu/%llu used %zu bytes of memory", what.c_str(), delta.size(),
               (unsigned long long)maxw, (unsigned long long)maxf, peak);
  }
  if (!want.either) CHECK_PROP(ok == (want.v == RefResult::ACCEPT), "%s: %s", what.c_str(), ok ? "accepted" : "rejected");
  const size_t have = std::min(out.size(), target.size());
  CHECK_PROP(out.compare(0, have, target, 0, have) == 0, "output is not a prefix of the target");
  c.nontrivial = true;
}
}  // namespace

namespace {
// Takes the output and keeps none of it: window i must be made of byte 'a' + i % 26.
class RunSink : public open_vcdiff::OutputStringInterface {
 public:
  explicit RunSink(const std::vector<uint64_t>& w) : w_(w) {}
  virtual open_vcdiff::OutputStringInterface& append(const char* p, size_t n) {
    while (n) {
      while (i_ < w_.size() && in_ == w_[i_]) { ++i_; in_ = 0; }
      if (i_ == w_.size()) { bad = true; total += n; return *this; }
      const size_t k = (size_t)std::min<uint64_t>(n, w_[i_] - in_);
      const char want = (char)('a' + i_ % 26);
      if (p[0] != want || p[k - 1] != want || p[k / 2] != want) bad = true;
      p += k; n -= k; in_ += k; total += k;
    }
    return *this;
  }
  virtual void clear() { bad = true; }
  virtual void push_back(char ch) { append(&ch, 1); }
  virtual void ReserveAdditionalBytes(size_t) {}
  virtual size_t size() const { return (size_t)total; }
  uint64_t total = 0;
  bool bad = false;

 private:
  const std::vector<uint64_t>& w_;
  size_t i_ = 0;
  uint64_t in_ = 0;
};

// Totals beyond 2^31 and 2^32 bytes: many large windows, one stream.
void FarTotal(Source& s, Ctx& c) {
  const uint64_t edge = s.Flip() ? 0x80000000ull : 0x100000000ull;
  const uint64_t win = 60000000 + s.Below(7000000);
  std::vector<uint64_t> w;
  uint64_t total = 0;
  while (total + win < edge) { w.push_back(win); total += win; }
  w.push_back(edge - total + (s.Flip() ? s.Below(3) : s.Below(3000000)));
  total += w.back();
  const uint64_t extra = s.Below(3);
  for (uint64_t i = 0; i < extra; ++i) { w.push_back(1 + s.Below(1000)); total += w.back(); }
  const bool expect = s.Flip();
  const uint64_t maxf = expect ? total + (s.Flip() ? 0 : s.Below(100)) : total - 1;
  const bool ext = s.Flip();
  Bytes delta = FileHeader(ext ? 'S' : 0, 0);
  std::vector<size_t> ends;
  for (size_t i = 0; i < w.size(); ++i) {
    Bytes inst, body;
    const char ch = (char)('a' + i % 26);
    inst.push_back(0);
    PutVarint(&inst, w[i]);
    const bool inter = ext && s.Flip();
    if (inter) inst.push_back(ch);
    PutVarint(&body, w[i]);
    body.push_back(0);
    PutVarint(&body, inter ? 0 : 1);
    PutVarint(&body, inst.size());
    PutVarint(&body, 0);
    if (!inter) body.push_back(ch);
    body += inst;
    delta.push_back(0);
    PutVarint(&delta, body.size());
    delta += body;
    ends.push_back(delta.size());
  }
  const bool whole = s.Flip();
  c.Desc("total of " + std::to_string(total) + " in " + std::to_string(w.size()) + " windows, file limit " + std::to_string(maxf) +
         (whole ? ", one chunk" : ", a chunk per window"));
  c.Label("total_beyond_2^31");
  if (edge > 0x80000000ull) c.Label("total_beyond_2^32");
  VCDiffStreamingDecoder d;
  d.SetAllowVcdTarget(false);
  CHECK_PROP(d.SetMaximumTargetFileSize(maxf), "file limit %llu refused", (unsigned long long)maxf);
  d.StartDecoding("", 0);
  RunSink sink(w);
  bool ok = true;
  size_t pos = 0;
  if (whole) ends.assign(1, delta.size());
  for (size_t e : ends) {
    if (!d.DecodeChunkToInterface(delta.data() + pos, e - pos, &sink)) { ok = false; break; }
    pos = e;
  }
  ok = d.FinishDecoding() && ok;
  ++c.sub_evaluations;
  CHECK_PROP(ok == expect, "total of %llu bytes with file limit %llu: %s", (unsigned long long)total, (unsigned long long)maxf,
             ok ? "accepted" : "rejected");
  CHECK_PROP(!sink.bad, "wrong output");
  if (ok) CHECK_PROP(sink.total == total, "%llu bytes of output instead of %llu", (unsigned long long)sink.total, (unsigned long long)total);
  else CHECK_PROP(sink.total <= total - w.back(), "output of the offending window");
  c.nontrivial = true;
}
}  // namespace

void prop_C05(Source& s, Ctx& c) {
  if (c.dbg_build && s.Chance(1, 9000)) { FarTotal(s, c); return; }
  if (s.Chance(1, 4)) { HostileSizes(s, c); return; }
  const bool big = s.Chance(1, 120);
  bool set_w = true, set_f = true;
  uint64_t maxw = 67108864, maxf = 67108864;
  if (big) {
    set_w = s.Flip();
    set_f = s.Flip();
    if (set_w) maxw = 60000000 + s.Below(20000000);
    if (set_f) maxf = 60000000 + s.Below(90000000);
  } else {
    maxw = s.Chance(1, 10) ? 0 : s.Len(20000);
    switch (s.Pick({3, 2, 1, 1})) {
      case 0: maxf = maxw + s.Len(20000); break;
      case 1: maxf = maxw * (1 + s.Below(4)); break;
      case 2: maxf = maxw; break;
      default: maxf = s.Len(20000); break;
    }
    if (s.Chance(1, 6)) {
      // Limits around the widths an implementation might use internally.
      static const uint64_t kEdges[] = {0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x10000000000ull,
                                        0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffff00ull,
                                        0xfffffffffffffffdull, 0xffffffffffffffffull};
      maxf = kEdges[s.Below(sizeof kEdges / sizeof *kEdges)];
      if (maxf >= 0x80000000ull && maxf < (1ull << 60) && s.Flip()) maxf += s.Below(30000);
      c.Label("wide_file_limit");
    }
    if (s.Chance(1, 8)) maxw = s.Flip() ? 2147483647u : 65535u + (uint64_t)s.Below(3);
    // The other limit may stay at its default.
    if (s.Chance(1, 8)) { set_w = false; maxw = 67108864; }
    if (s.Chance(1, 8)) { set_f = false; maxf = 67108864; }
  }
  VCDiffStreamingDecoder d;
  auto setters = [&]() {
    if (set_f) CHECK_PROP(d.SetMaximumTargetFileSize(maxf), "file limit %llu refused", (unsigned long long)maxf);
    if (set_w) CHECK_PROP(d.SetMaximumTargetWindowSize(maxw), "window limit %llu refused", (unsigned long long)maxw);
    if (s.Chance(1, 4)) {
      uint64_t bad = s.Flip() ? 2147483648ull : s.Flip() ? ~0ull : 2147483648ull + s.Below(1ull << 40);
      CHECK_PROP(!d.SetMaximumTargetWindowSize(bad), "window limit %llu accepted", (unsigned long long)bad);
      c.Label("out_of_range_window_limit");
    }
  };
  setters();
  const bool allow = !s.Chance(1, 4);
  d.SetAllowVcdTarget(allow);
  const int streams = s.Chance(1, 3) ? 2 : 1;
  for (int st = 0; st < streams; ++st) {
    BuildOpts bo;
    bo.version = s.Flip() ? 'S' : 0;
    Bytes delta, target, dict = "The quick brown fox jumps over the lazy dog";
    if (s.Chance(1, 10)) {
      bo.custom = true;
      bo.table = RefDefaultTable();
      delta = CustomTableHeader(s, bo.version, 4, 3, bo.table);
      c.Label("custom_table");
    } else {
      delta = FileHeader(bo.version, 0);
    }
    bool expect = true;
    uint64_t total = 0, good = 0;
    size_t offending_hdr = 0;
    std::string sizes;
    for (size_t i = 0; s.More(i, 5, 40) && expect; ++i) {
      uint64_t n;
      uint64_t left = maxf > total ? maxf - total : 0;
      const uint64_t cap = big ? 75000000 : 60000;  // keep windows affordable
      switch (s.Pick({3, 2, 2, 2, 2, 1})) {
        case 0: n = s.Len(std::min<uint64_t>(maxw + 10, cap)); break;
        case 1: n = maxw; break;
        case 2: n = maxw + 1; break;
        case 3: n = left; break;
        case 4: n = left + 1; break;
        default: n = left ? left - 1 : 0; break;
      }
      if (big && s.Flip()) n = left + (s.Flip() ? 1 : 0);
      if (n > cap) n = cap;
      BuildWindow w;
      w.kind = (int)s.Below(allow ? 3 : 2);
      if (w.kind == 1) w.seg_len = dict.size();
      if (w.kind == 2) w.seg_len = std::min<size_t>(target.size(), 50);
      if (bo.version == 'S') { w.interleaved = s.Flip(); w.checksum = s.Flip(); }
      uint64_t rem = n;
      while (rem) {
        BuildInst bi;
        bi.size = s.Flip() ? rem : std::min<uint64_t>(rem, 1 + s.Below(64));
        if (w.insts.size() > 20) bi.size = rem;
        if (s.Chance(1, 4) && bi.size < 100) { bi.type = R_ADD; bi.data = Fill(n, bi.size, 256, 0); }
        else if (w.seg_len && bi.size < 5000 && s.Flip()) { bi.type = R_COPY; bi.addr = s.Below(w.seg_len); }
        else { bi.type = R_RUN; bi.data.assign(1, (char)('a' + i % 26)); }
        rem -= bi.size;
        w.insts.push_back(bi);
      }
      offending_hdr = delta.size();
      BuildWindowBytes(s, dict, bo, w, &target, &delta, nullptr);
      total += n;
      sizes += " " + std::to_string(n);
      if (n > maxw || total > maxf) expect = false;
      else good = total;
    }
    c.Desc("max_window=" + std::to_string(maxw) + " max_file=" + std::to_string(maxf) + " window sizes:" + sizes +
           (expect ? " -> accept" : " -> reject"));
    std::vector<size_t> ch = GenChunks(s, delta.size());
    if (delta.size() > 50000) ch.assign(1, delta.size());
    d.StartDecoding(dict.data(), dict.size());
    Bytes out;
    bool ok = true;
    size_t pos = 0;
    for (size_t n : ch) {
      HeapCopy h(delta.data() + pos, n);
      if (!d.DecodeChunk(h.p, h.n, &out)) { ok = false; break; }
      pos += n;
    }
    bool fin = d.FinishDecoding();
    ok = ok && fin;
    CHECK_PROP(ok == expect, "window sizes%s with window limit %llu and file limit %llu: %s", sizes.c_str(),
               (unsigned long long)maxw, (unsigned long long)maxf, ok ? "accepted" : "rejected");
    if (ok) CHECK_PROP(out == target, "wrong output");
    else {
      CHECK_PROP(out.size() <= good && target.compare(0, out.size(), out) == 0,
                 "%zu bytes were output although only %llu precede the offending window", out.size(),
                 (unsigned long long)good);
    }
    (void)offending_hdr;
    c.Label(expect ? "within" : "exceeded");
    if (expect && total == maxf && total) c.Label("exactly_at_file_limit");
    if (big) c.Label("64MB_scale");
    if (!expect || total == maxf || sizes.find(' ' + std::to_string(maxw)) != std::string::npos) c.nontrivial = true;
    ++c.sub_evaluations;
    if (st + 1 < streams && s.Flip() && !big) {  // change the limits between streams
      maxw = s.Len(20000);
      maxf = maxw + s.Len(20000);
      set_w = set_f = true;
      setters();
    }
  }
}

// ---- C07 ----------------------------------------------------------------------
void prop_C07(Source& s, Ctx& c) {
  const bool misuse = !c.dbg_build;
  VCDiffStreamingDecoder d;
  VCDiffDecoder od;
  uint64_t maxf = 67108864, maxw = 67108864;
  bool allow = true;
  size_t streams = 0, failed = 0;
  std::vector<AnyDelta> pool;
  for (size_t step = 0; s.More(step, 7, 30); ++step) {
    switch (s.Pick({8, 2, 1, 1, misuse ? 1 : 0})) {
      default: {  // a stream
        AnyDelta a;
        if (!pool.empty() && s.Chance(1, 3)) a = pool[s.Below(pool.size())];
        else { a = GenAnyDelta(s, c, misuse); pool.push_back(a); }
        const bool has_target_windows_ok = allow || misuse;
        (void)has_target_windows_ok;
        std::vector<size_t> ch = GenChunks(s, a.delta.size());
        size_t stop = s.Chance(1, 4) ? s.Below(ch.size() + 1) : ch.size();
        c.Desc("stream " + DescAny(a) + " chunks=" + ChunksStr(ch) + " stop after " + std::to_string(stop) +
               " limits " + std::to_string(maxw) + "/" + std::to_string(maxf) + " allow_target=" + std::to_string(allow));
        VCDiffStreamingDecoder f;
        f.SetMaximumTargetFileSize(maxf);
        f.SetMaximumTargetWindowSize(maxw);
        f.SetAllowVcdTarget(allow);
        std::unique_ptr<HeapCopy> dc(new HeapCopy(a.dict));
        d.StartDecoding(dc->p, dc->n);
        f.StartDecoding(dc->p, dc->n);
        Bytes od_, of_ ;
        size_t pos = 0;
        bool bad = false;
        for (size_t i = 0; i < stop; ++i) {
          if (misuse && s.Chance(1, 12)) {
            Bytes other = "another dictionary that must not be used";
            if (s.Flip()) d.StartDecoding(other.data(), other.size());
            else d.SetAllowVcdTarget(!allow);
            c.Label("misuse_mid_stream");
          }
          bool rd, rf;
          { HeapCopy h(a.delta.data() + pos, ch[i]); rd = d.DecodeChunk(h.p, h.n, &od_); }
          { HeapCopy h(a.delta.data() + pos, ch[i]); rf = f.DecodeChunk(h.p, h.n, &of_); }
          pos += ch[i];
          CHECK_PROP(rd == rf, "stream %zu, call %zu: reused decoder returned %d, a fresh one %d", streams, i, rd, rf);
          CHECK_PROP(od_ == of_, "stream %zu, call %zu: outputs differ at %zu (%zu vs %zu bytes)", streams, i,
                     FirstDiff(od_, of_), od_.size(), of_.size());
          if (!rd) {
            bad = true;
            if (misuse && s.Chance(1, 3)) {
              Bytes before = od_;
              CHECK_PROP(!d.DecodeChunk("abc", 3, &od_) && od_ == before,
                         "DecodeChunk after a failure was not refused");
            }
            break;
          }
        }
        if (!(bad && misuse && s.Flip())) {  // FinishDecoding is optional after a failure
          bool rd = d.FinishDecoding(), rf = f.FinishDecoding();
          CHECK_PROP(rd == rf, "stream %zu: reused decoder finished with %d, a fresh one with %d", streams, rd, rf);
          if (!rd) ++failed;
        } else {
          ++failed;
        }
        ++streams;
        ++c.sub_evaluations;
        break;
      }
      case 1:
        if (s.Flip()) { maxf = s.Flip() ? 67108864 : s.Len(5000); d.SetMaximumTargetFileSize(maxf); c.Desc("max_file=" + std::to_string(maxf)); }
        else {
          uint64_t v = s.Flip() ? 67108864 : s.Chance(1, 4) ? 3000000000ull : s.Len(5000);
          c.Desc("max_window=" + std::to_string(v));
          if (d.SetMaximumTargetWindowSize(v)) maxw = v;
        }
        c.Label("set_limit");
        break;
      case 2:
        allow = s.Flip();
        d.SetAllowVcdTarget(allow);
        c.Desc("allow_target=" + std::to_string(allow));
        c.Label("set_allow_target");
        break;
      case 3: {  // the one-shot object
        AnyDelta a;
        if (!pool.empty() && s.Flip()) a = pool[s.Below(pool.size())];
        else { a = GenAnyDelta(s, c, misuse); pool.push_back(a); }
        c.Desc("one-shot " + DescAny(a));
        VCDiffDecoder f;
        Bytes o1 = "before", o2;
        bool r1 = od.Decode(a.dict.data(), a.dict.size(), a.delta, &o1);
        bool r2 = f.Decode(a.dict.data(), a.dict.size(), a.delta, &o2);
        CHECK_PROP(r1 == r2, "reused VCDiffDecoder returned %d, a fresh one %d", r1, r2);
        CHECK_PROP(o1 == o2, "reused VCDiffDecoder output differs at %zu", FirstDiff(o1, o2));
        ++streams;
        ++c.sub_evaluations;
        break;
      }
      case 4: {  // calls out of order between streams
        Bytes o = "kept";
        if (s.Flip()) CHECK_PROP(!d.DecodeChunk("\xd6\xc3\xc4", 3, &o), "DecodeChunk before StartDecoding succeeded");
        else CHECK_PROP(!d.FinishDecoding(), "FinishDecoding before StartDecoding succeeded");
        CHECK_PROP(o == "kept", "refused call changed the output");
        c.Desc("out-of-order call");
        c.Label("misuse_between_streams");
        break;
      }
    }
  }
  if (failed) c.Label("histories_with_failed_stream");
  c.nontrivial = streams >= 2;
  if (s.Chance(1, c.dbg_build ? 3000 : 9000)) {
    // A very long history: the same few streams again and again.
    struct Known { const AnyDelta* a; bool ok; Bytes out; };
    std::vector<Known> small;
    for (auto& a : pool) {
      if (a.delta.size() > 400) continue;
      VCDiffStreamingDecoder f;
      f.SetMaximumTargetFileSize(maxf);
      f.SetMaximumTargetWindowSize(maxw);
      f.SetAllowVcdTarget(allow);
      f.StartDecoding(a.dict.data(), a.dict.size());
      Known k;
      k.a = &a;
      k.ok = f.DecodeChunk(a.delta.data(), a.delta.size(), &k.out);
      k.ok = f.FinishDecoding() && k.ok;
      if (k.out.size() <= 20000) small.push_back(k);
    }
    if (small.empty()) return;
    c.Label("mass");
    Source b(s.Raw(), Source::Bulk());
    const size_t n = b.Flip() ? 300 : 66000;
    Bytes out;
    for (size_t i = 0; i < n; ++i) {
      const Known& k = small[b.Below(small.size())];
      out.clear();
      bool ok = true;
      const size_t cut = b.Below(k.a->delta.size() + 1);
      d.StartDecoding(k.a->dict.data(), k.a->dict.size());
      if (cut) ok = d.DecodeChunk(k.a->delta.data(), cut, &out);
      if (ok) ok = d.DecodeChunk(k.a->delta.data() + cut, k.a->delta.size() - cut, &out);
      ok = d.FinishDecoding() && ok;
      CHECK_PROP(ok == k.ok && (!ok || out == k.out), "stream %zu of a long history: %d, %zu bytes; a fresh decoder: %d, %zu bytes",
                 streams + i, ok, out.size(), k.ok, k.out.size());
    }
    c.sub_evaluations += n;
  }
}

// ---- C15 ----------------------------------------------------------------------
void prop_C15(Source& s, Ctx& c) {
  AnyDelta a = GenAnyDelta(s, c, !c.dbg_build && s.Chance(1, 3));
  c.Desc(DescAny(a));
  RefLimits ra, rn;
  ra.max_file = rn.max_file = ra.max_window = rn.max_window = 1 << 24;
  rn.allow_target = false;
  RefResult want_a = RefDecode(a.dict, a.delta, ra, false);
  RefResult want_n = RefDecode(a.dict, a.delta, rn, false);
  DecodeOpts oa, on;
  oa.set_limits = on.set_limits = true;
  oa.max_file = on.max_file = oa.max_window = on.max_window = 1 << 24;
  on.allow_target = false;
  bool uses = false;
  for (auto& w : want_a.windows) uses |= (w.win_indicator & 2) != 0;
  // One decoder that keeps the restriction over all the streams below.
  VCDiffStreamingDecoder keep;
  keep.SetAllowVcdTarget(false);
  keep.SetMaximumTargetFileSize(on.max_file);
  keep.SetMaximumTargetWindowSize(on.max_window);
  for (int k = 0; k < 3; ++k) {
    std::vector<size_t> ch = k ? GenChunks(s, a.delta.size()) : std::vector<size_t>(1, a.delta.size());
    DecodeResult ga = RealDecode(a.dict, a.delta, ch, oa);
    DecodeResult gn = RealDecode(a.dict, a.delta, ch, on);
    c.sub_evaluations += 2;
    if (k == 0 || s.Chance(1, 4)) {
      for (int again = 0; again < 2; ++again) {
        keep.StartDecoding(a.dict.data(), a.dict.size());
        Bytes ko;
        bool kok = true;
        size_t pos = 0;
        for (size_t n : ch) {
          if (!keep.DecodeChunk(a.delta.data() + pos, n, &ko)) { kok = false; break; }
          pos += n;
        }
        kok = keep.FinishDecoding() && kok;
        CHECK_PROP(kok == gn.ok, "disallowed, decoder used before (%d): %s, a new one %s", k * 2 + again,
                   kok ? "accepted" : "rejected", gn.ok ? "accepted" : "rejected");
        if (kok) CHECK_PROP(ko == gn.out, "disallowed, decoder used before: other output than a new one");
        // A stream that fails or is abandoned must not lift the restriction.
        if (again == 0 && s.Flip()) {
          keep.StartDecoding(a.dict.data(), a.dict.size());
          Bytes bad = s.Flip() ? a.delta.substr(0, s.Below(a.delta.size() + 1)) : Bytes("\xd6\xc3\xc4X", 4);
          keep.DecodeChunk(bad.data(), bad.size(), &ko);
          keep.FinishDecoding();
        }
      }
      c.sub_evaluations += 2;
    }
    if (uses) CHECK_PROP(!gn.ok, "a delta with an earlier-target window was accepted although they are disallowed");
    if (!want_n.either) {
      CHECK_PROP(gn.ok == (want_n.v == RefResult::ACCEPT), "disallowed, as %s: decoder %s, reference: %s",
                 ChunksStr(ch).c_str(), gn.ok ? "accepted" : "rejected", VName(want_n));
      if (gn.ok) CHECK_PROP(gn.out == want_n.out, "disallowed, as %s: wrong output (difference at %zu)",
                            ChunksStr(ch).c_str(), FirstDiff(gn.out, want_n.out));
    }
    if (!want_a.either) {
      CHECK_PROP(ga.ok == (want_a.v == RefResult::ACCEPT), "allowed, as %s: decoder %s, reference: %s",
                 ChunksStr(ch).c_str(), ga.ok ? "accepted" : "rejected", VName(want_a));
      if (ga.ok) CHECK_PROP(ga.out == want_a.out, "allowed: wrong output");
    }
    if (gn.ok) CHECK_PROP(ga.ok && ga.out == gn.out, "the two settings disagree on a delta accepted by both");
  }
  if (uses) c.Label("uses_target_segment");
  c.Label(want_n.v == RefResult::ACCEPT ? "accepted_when_disallowed" : "rejected_when_disallowed");
  c.nontrivial = want_a.windows.size() >= 2;
}

// ---- C16 ----------------------------------------------------------------------
void prop_C16(Source& s, Ctx& c) {
  GenDeltaOpts o = TieredDelta(s, true);
  if (s.Chance(1, 2)) { o.max_dict = 60; o.max_window = 60; o.max_windows = 4; }
  o.custom_table = s.Chance(1, 10);
  if (s.Chance(1, c.dbg_build ? 800 : 4000)) { o.max_dict = 200000; o.max_window = 900000; o.max_windows = 4; }
  GenDelta g;
  if (s.Chance(1, 5)) {
    BlobOpts b;
    b.max = s.Chance(1, 40) ? 60000 : 2000;
    g.dict = GenDict(s, b);
    g.target = GenTarget(s, g.dict, b);
    EncodeOpts eo;
    eo.flags = (int)s.Below(4);
    eo.target_matching = s.Flip();
    RealEncode(g.dict, g.target, GenChunks(s, g.target.size()), eo, &g.delta);
    c.Desc("encoder delta(" + std::to_string(g.delta.size()) + ") flags=" + std::to_string(eo.flags) + " " +
           DescribeBlobs(g.dict, g.target));
  } else {
    g = GenValidDelta(s, o);
    c.Desc(DescribeDelta(g));
  }
  RefResult full = RefDecode(g.dict, g.delta, RefLimits(), true);
  if (full.v != RefResult::ACCEPT || full.either || full.out != g.target) throw Discard();
  const size_t n = g.delta.size();
  // What must be available after p bytes, and whether p is a legal end.
  auto must_have = [&](size_t p) -> uint64_t {
    uint64_t m = 0;
    for (auto& w : full.windows) {
      if (w.end <= p) { m = w.target_start + w.target_len; continue; }
      if (w.interleaved && w.header_end <= p)
        for (auto& i : w.insts) { if (i.end_pos <= p) m = std::max(m, i.target_after); else break; }
      break;
    }
    return m;
  };
  auto legal_end = [&](size_t p) {
    if (p == 0 || p == full.header_end) return true;
    for (auto& w : full.windows) if (w.end == p) return true;
    return false;
  };
  auto run = [&](size_t p, const std::vector<size_t>& ch, bool allow) {
    VCDiffStreamingDecoder d;
    d.SetAllowVcdTarget(allow);
    HeapCopy dc(g.dict);
    d.StartDecoding(dc.p, dc.n);
    Bytes out;
    size_t pos = 0;
    for (size_t m : ch) {
      bool ok;
      { HeapCopy h(g.delta.data() + pos, m); ok = d.DecodeChunk(h.p, h.n, &out); }
      pos += m;
      CHECK_PROP(ok, "well-formed delta refused after %zu of %zu bytes", pos, n);
      CHECK_PROP(out.size() <= g.target.size() && memcmp(out.data(), g.target.data(), out.size()) == 0,
                 "after %zu bytes the output (%zu bytes) is not a prefix of the target", pos, out.size());
      uint64_t need = must_have(pos);
      CHECK_PROP(out.size() >= need, "after %zu of %zu bytes only %zu target bytes were output, %llu are determined",
                 pos, n, out.size(), (unsigned long long)need);
    }
    bool fin = d.FinishDecoding();
    CHECK_PROP(fin == legal_end(p), "input ended after %zu of %zu bytes: FinishDecoding returned %d", p, n, fin);
    if (fin) CHECK_PROP(out.size() == must_have(p), "finished with %zu bytes, the received windows hold %llu",
                        out.size(), (unsigned long long)must_have(p));
    ++c.sub_evaluations;
  };
  bool uses_target = false;
  for (auto& w : full.windows) uses_target |= w.win_indicator & 2;
  const bool allow = uses_target || !s.Chance(1, 3);
  if (n <= 250) {
    for (size_t p = 0; p <= n; ++p) run(p, std::vector<size_t>(1, p), allow);
    c.Label("all_truncation_points");
  } else {
    for (int k = 0; k < 10; ++k) {
      size_t p = s.Below(n + 1);
      if (!full.windows.empty() && s.Flip()) {
        p = full.windows[s.Below(full.windows.size())].end + s.Below(3);
        p = p ? std::min(n, p - 1) : 0;
      }
      run(p, GenChunks(s, p), allow);
    }
  }
  run(n, GenChunks(s, n), allow);
  if (n <= 2000) run(n, std::vector<size_t>(n, 1), allow);
  if (full.custom_table) c.Label("custom_table");
  for (auto& w : full.windows) c.Label(w.interleaved ? "interleaved_window" : "standard_window");
  c.nontrivial = !full.windows.empty() && !g.target.empty();
}
