#include "gen.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <memory>
#include "google/format_extension_flags.h"
#include "google/vcdecoder.h"
#include "google/vcencoder.h"

Bytes Fill(uint64_t seed, size_t n, unsigned alphabet, unsigned base) {
  Bytes b(n, '\0');
  uint64_t x = seed ^ 0x1234567ull;
  uint64_t z = 0;
  int left = 0;
  for (size_t i = 0; i < n; ++i) {
    if (left == 0) {
      x += 0x9E3779B97F4A7C15ull;
      z = x;
      z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
      z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
      z ^= z >> 31;
      left = 4;
    }
    b[i] = (char)(base + (z & 0xffff) % alphabet);
    z >>= 16;
    --left;
  }
  return b;
}

namespace {
struct Alpha { unsigned n, base; };
Alpha GenAlpha(Source& s, bool ascii) {
  if (ascii) {
    switch (s.Pick({4, 2, 2, 1})) {
      case 0: return {26, 'a'};
      case 1: return {128, 0};
      case 2: return {33, 0};     // control characters
      default: return {2, '"'};
    }
  }
  switch (s.Pick({4, 4, 1, 1, 1})) {
    case 0: return {256, 0};
    case 1: return {26, 'a'};
    case 2: return {2, 'a'};
    case 3: return {4, 250};
    default: return {3, 0};
  }
}
}  // namespace

BlobOpts GenSizeTier(Source& s, unsigned scale) {
  BlobOpts o;
  switch (s.Pick({240, 100, 24, 6, 1})) {
    case 0: o.max = 2000; break;
    case 1: o.max = 20000; break;
    case 2: o.max = 200000 / scale; o.fill = s.Flip(); break;
    case 3: o.max = 1200000 / scale; o.fill = true; break;
    default: o.max = 5000000 / scale; o.fill = true; break;
  }
  return o;
}

std::string DescribeBlobs(const Bytes& dict, const Bytes& target) {
  return "dict(" + std::to_string(dict.size()) + ")=\"" + Printable(dict, 80) + "\" target(" +
         std::to_string(target.size()) + ")=\"" + Printable(target, 160) + "\"";
}

static size_t GenBudget(Source& s, const BlobOpts& o) {
  if (o.fill) return o.max / 2 + s.Below(o.max / 2);
  if (s.Chance(2, 3)) return o.max / 8 + s.Below(o.max - o.max / 8 + 1);
  return s.Len(o.max);
}

Bytes GenDict(Source& s, const BlobOpts& o) {
  Bytes d;
  if (s.Chance(1, 16)) return d;
  Alpha a = GenAlpha(s, o.ascii);
  // Few letters in many megabytes: every block matches thousands of others,
  // which is slow (though linear; see C19).
  if (o.max > 3000000 && a.n < 26) a.n = 26, a.base = 'a';
  size_t budget = GenBudget(s, o);
  for (size_t i = 0; d.size() < budget && s.More(i, 6, 64); ++i) {
    size_t room = budget - d.size();
    switch (s.Pick({8, 1, 2, 2, 1})) {
      case 0: {
        size_t n = s.Len(room);
        d += Fill(s.Raw(), n, a.n, a.base);
        break;
      }
      case 1: d.append(s.Len(room), (char)(a.base + s.Below(a.n))); break;
      case 2:
        if (!d.empty()) {
          size_t p = s.Below(d.size());
          size_t n = s.Len(std::min(room, d.size() - p));
          d += d.substr(p, n);
        }
        break;
      case 3: {  // periodic
        size_t per = 1 + s.Below(70);
        Bytes unit = Fill(s.Raw(), per, a.n, a.base);
        size_t n = s.Len(room);
        Bytes t;
        while (t.size() < n) t += unit;
        d += t.substr(0, n);
        break;
      }
      default:
        d += Fill(s.Raw(), 16 * s.Below(room / 16 + 1), a.n, a.base);
        break;
    }
  }
  // Often fill up to the budget so that large dictionaries are common.
  if (d.size() < budget && (o.fill || s.Chance(2, 3))) d += Fill(s.Raw(), budget - d.size(), a.n, a.base);
  return d;
}

Bytes GenTarget(Source& s, const Bytes& dict, const BlobOpts& o) {
  Bytes t;
  if (s.Chance(1, 24)) return t;
  Alpha a = GenAlpha(s, o.ascii);
  // Few letters in many megabytes: every block matches thousands of others,
  // which is slow (though linear; see C19).
  if (o.max > 3000000 && a.n < 26) a.n = 26, a.base = 'a';
  size_t budget = GenBudget(s, o);
  const unsigned avg = s.Flip() ? 6 : 30;
  auto slice_len = [&](size_t max) -> size_t {
    // Lengths around the match threshold and instruction-size boundaries.
    if (s.Chance(2, 3)) return std::min<size_t>(max, 20 + s.Below(s.Flip() ? 60 : 300));
    return s.Len(max);
  };
  for (size_t i = 0; t.size() < budget && s.More(i, avg, 400); ++i) {
    size_t room = budget - t.size();
    switch (s.Pick({6, 8, 4, 1, 4, 2})) {
      case 0: {
        size_t n = s.Flip() ? s.Below(std::min<size_t>(room, 24) + 1) : s.Len(room);
        t += Fill(s.Raw(), n, a.n, a.base);
        break;
      }
      case 1:
        if (!dict.empty()) {
          size_t p;
          switch (s.Pick({3, 1, 1, 2})) {
            case 0: p = s.Below(dict.size()); break;
            case 1: p = 0; break;
            case 2: p = dict.size() - std::min(dict.size(), (size_t)s.Below(100)); break;
            default: p = (s.Below(dict.size()) / 16) * 16; break;
          }
          size_t n = slice_len(std::min(room, dict.size() - p));
          t += dict.substr(p, n);
        }
        break;
      case 2:
        if (!t.empty()) {
          size_t p = s.Flip() ? s.Below(t.size()) : t.size() - std::min<size_t>(t.size(), 1 + s.Below(80));
          size_t n = slice_len(std::min(room, t.size() - p));
          t += t.substr(p, n);
        }
        break;
      case 3: t.append(s.Len(room), (char)(a.base + s.Below(a.n))); break;
      case 4:
        if (!dict.empty()) {  // mutated slice
          size_t p = s.Below(dict.size());
          size_t n = s.Flip() ? s.Below(std::min<size_t>(std::min(room, dict.size() - p), 400) + 1)
                              : s.Len(std::min(room, dict.size() - p));
          Bytes x = dict.substr(p, n);
          size_t muts = x.empty() ? 0 : s.Below(1 + std::min<size_t>(6, x.size()));
          for (size_t m = 0; m < muts; ++m) {
            size_t q = s.Below(x.size());
            if (o.ascii) x[q] = (char)(x[q] ^ (1 + s.Below(127)));
            else x[q] = (char)(x[q] ^ (1 + s.Below(255)));
          }
          t += x;
        }
        break;
      default: {  // self-overlapping repetition
        size_t per = 1 + s.Below(40);
        Bytes unit = Fill(s.Raw(), per, a.n, a.base);
        size_t n = s.Len(room);
        Bytes x;
        while (x.size() < n) x += unit;
        t += x.substr(0, n);
        break;
      }
    }
  }
  while (o.fill && t.size() < budget) {
    size_t room = budget - t.size();
    switch (s.Pick({2, 3, 1})) {
      case 0: t += Fill(s.Raw(), 1 + s.Below(room), a.n, a.base); break;
      case 1: {
        if (dict.empty()) { t += Fill(s.Raw(), room, a.n, a.base); break; }
        size_t p = s.Below(dict.size());
        t += dict.substr(p, std::min(room, 1 + s.Below(dict.size() - p)));
        break;
      }
      default: {
        if (t.empty()) break;
        size_t p = s.Below(t.size());
        t += t.substr(p, std::min(room, 1 + s.Below(t.size() - p)));
        break;
      }
    }
  }
  return t;
}

std::vector<size_t> GenChunks(Source& s, size_t total, bool allow_empty) {
  std::vector<size_t> c;
  switch (s.Pick({3, 2, 2, 3, 1})) {
    case 0: c.push_back(total); break;
    case 1: {  // equal pieces
      size_t n = 1 + s.Below(40);
      if (total / n > 3000) n = total / 3000 + 1;
      for (size_t p = 0; p < total; p += n) c.push_back(std::min(n, total - p));
      break;
    }
    case 2: {  // one cut
      size_t p = s.Below(total + 1);
      c.push_back(p);
      c.push_back(total - p);
      break;
    }
    case 3: {  // random pieces
      size_t p = 0;
      while (p < total && c.size() < 600) {
        size_t n = s.Len(total - p);
        if (n == 0 && !allow_empty) n = 1;
        c.push_back(n);
        p += n;
      }
      if (p < total) c.push_back(total - p);
      break;
    }
    default: {  // single bytes (bounded), then the rest
      size_t p = 0;
      size_t lim = std::min<size_t>(total, 1500);
      size_t start = total > lim ? s.Below(total - lim + 1) : 0;
      if (start) { c.push_back(start); p = start; }
      for (size_t k = 0; k < lim; ++k, ++p) c.push_back(1);
      if (p < total) c.push_back(total - p);
      break;
    }
  }
  if (allow_empty && s.Chance(1, 6)) c.insert(c.begin() + s.Below(c.size() + 1), 0);
  if (!allow_empty) {
    std::vector<size_t> d;
    for (size_t x : c) if (x) d.push_back(x);
    c.swap(d);
  }
  return c;
}

std::string ChunksStr(const std::vector<size_t>& c) {
  std::string r = "[";
  for (size_t i = 0; i < c.size() && i < 40; ++i) {
    if (i) r += ",";
    r += std::to_string(c[i]);
  }
  if (c.size() > 40) r += ",...(" + std::to_string(c.size()) + ")";
  return r + "]";
}

// ---- custom tables ------------------------------------------------------------
RefTable GenTable(Source& s, int near, int same) {
  const int max_mode = 1 + near + same;
  RefTable t;
  memset(&t, 0, sizeof t);
  // Mandatory single, size-0 opcodes: ADD, RUN, COPY mode 0..max_mode.
  std::vector<int> perm(256);
  for (int i = 0; i < 256; ++i) perm[i] = i;
  if (s.Flip()) {  // shuffled opcode numbers
    uint64_t seed = s.Raw();
    for (int i = 255; i > 0; --i) {
      seed = Mix(seed, i);
      std::swap(perm[i], perm[seed % (i + 1)]);
    }
  }
  int k = 0;
  auto put = [&](int i1, int s1, int m1, int i2, int s2, int m2) {
    int op = perm[k++];
    t.inst1[op] = i1; t.size1[op] = s1; t.mode1[op] = m1;
    t.inst2[op] = i2; t.size2[op] = s2; t.mode2[op] = m2;
  };
  for (int m = 0; m <= max_mode && k < 254; ++m) put(R_COPY, 0, m, R_NOOP, 0, 0);
  put(R_ADD, 0, 0, R_NOOP, 0, 0);
  put(R_RUN, 0, 0, R_NOOP, 0, 0);
  // max_mode + 3 opcodes are used up (max_mode <= 253 so that this fits).
  const uint64_t seed = s.Raw();
  const int flavor = s.Pick({3, 1, 1, 1});
  uint64_t h = seed;
  auto rnd = [&](unsigned n) { h = Mix(h, n + 17); return (int)(h % n); };
  auto rsize = [&]() {
    switch (rnd(4)) {
      case 0: return 0;
      case 1: return rnd(256);
      default: return 1 + rnd(20);
    }
  };
  while (k < 256) {
    int i1 = 1 + rnd(3), i2 = rnd(4);
    if (flavor == 1) i2 = R_NOOP;
    if (flavor == 2 && rnd(3) == 0) i1 = R_NOOP;
    if (flavor == 3 && rnd(8) == 0) { i1 = R_NOOP; i2 = R_NOOP; }
    int s1 = i1 == R_NOOP ? 0 : rsize(), s2 = i2 == R_NOOP ? 0 : rsize();
    int m1 = i1 == R_COPY ? rnd(max_mode + 1) : 0, m2 = i2 == R_COPY ? rnd(max_mode + 1) : 0;
    put(i1, s1, m1, i2, s2, m2);
  }
  return t;
}

Bytes CustomTableHeader(Source& s, char version, int near, int same, const RefTable& t) {
  Bytes out = FileHeader(version, 2);
  PutVarint(&out, near);
  PutVarint(&out, same);
  // The table as a delta against the default table.
  Bytes tb = RefTableBytes(t);
  const Bytes base = RefTableBytes(RefDefaultTable());
  char ev = s.Flip() ? 'S' : 0;
  BuildOpts bo;
  bo.version = ev;
  out += FileHeader(ev, 0);
  Bytes done;
  size_t p = 0;
  while (p < tb.size()) {
    BuildWindow w;
    w.interleaved = ev == 'S' && s.Flip();
    w.checksum = ev == 'S' && s.Flip();
    size_t end = s.Chance(2, 3) ? tb.size() : p + 1 + s.Below(tb.size() - p);
    w.kind = s.Pick({1, 4});
    if (w.kind == 1) { w.seg_len = base.size(); w.seg_pos = 0; }
    size_t q = p;
    while (q < end) {
      BuildInst bi;
      // Longest equal stretch at the same offset in the base.
      size_t e = q;
      while (e < end && tb[e] == base[e]) ++e;
      size_t r = q;
      while (r < end && tb[r] == tb[q]) ++r;
      if (w.kind == 1 && e - q >= 4) {
        bi.type = R_COPY; bi.size = e - q; bi.addr = q;
        q = e;
      } else if (r - q >= 4) {
        bi.type = R_RUN; bi.size = r - q; bi.data.assign(1, tb[q]);
        q = r;
      } else {
        size_t n = std::min<size_t>(end - q, 1 + s.Below(60));
        bi.type = R_ADD; bi.size = n; bi.data = tb.substr(q, n);
        q += n;
      }
      w.insts.push_back(bi);
    }
    BuildWindowBytes(s, base, bo, w, &done, &out, nullptr);
    p = end;
  }
  return out;
}

// ---- valid deltas ---------------------------------------------------------------
static BuildWindow GenWindow(Source& s, const GenDeltaOpts& o, const BuildOpts& bo, const Bytes& dict,
                             const Bytes& target) {
  BuildWindow w;
  w.kind = s.Pick({4, 2, 3});
  w.kind = w.kind == 0 ? 1 : w.kind == 1 ? 0 : 2;
  if (w.kind == 2 && !o.allow_target_windows) w.kind = 1;
  if (bo.version == 'S') {
    w.interleaved = o.force_interleaved >= 0 ? o.force_interleaved : s.Flip();
    w.checksum = o.force_checksum >= 0 ? o.force_checksum : s.Flip();
  }
  const Bytes* from = w.kind == 1 ? &dict : w.kind == 2 ? &target : nullptr;
  if (from) {
    switch (s.Pick({4, 2, 2, 1})) {
      case 0: w.seg_pos = 0; w.seg_len = from->size(); break;
      case 1:
        w.seg_pos = s.Below(from->size() + 1);
        w.seg_len = s.Below(from->size() - w.seg_pos + 1);
        break;
      case 2:
        w.seg_len = s.Below(from->size() + 1);
        w.seg_pos = from->size() - w.seg_len;
        break;
      default: w.seg_len = 0; w.seg_pos = s.Below(from->size() + 1); break;
    }
  }
  if ((o.mass_windows || o.mass_insts) && from) {
    w.seg_len = std::min<uint64_t>(w.seg_len, 300 + s.Below(300));
  }
  size_t limit = o.mass_insts ? (size_t)1 << 40 : o.mass_windows ? 1 + s.Below(12) : s.Chance(1, 12) ? s.Below(40) : s.Flip() ? 1 + s.Below(o.max_window) : 1 + s.Len(o.max_window);
  uint64_t tlen = 0;
  std::vector<int64_t> recent;
  const unsigned avg = s.Chance(1, 80) ? 400 : 2 + (unsigned)s.Below(30);
  for (size_t i = 0; tlen < limit && (o.mass_insts ? i < o.mass_insts : s.More(i, avg, avg == 400 ? 3000 : 300)); ++i) {
    BuildInst bi;
    uint64_t here = w.seg_len + tlen;
    uint64_t room = limit - tlen;
    int ty = s.Pick({4, 2, 6});
    bi.type = ty == 0 ? R_ADD : ty == 1 ? R_RUN : R_COPY;
    if (bi.type == R_COPY && here == 0) bi.type = R_ADD;
    switch (s.Pick({5, 2, 3})) {
      case 0: bi.size = s.Below(20); break;
      case 1: bi.size = s.Len(std::min<uint64_t>(room, o.mass_insts ? 60 : room)); break;
      default: bi.size = bi.type == R_ADD ? 1 + s.Below(4) : 4 + s.Below(3); break;
    }
    if (bi.size > room) bi.size = room;
    if (bi.size == 0 && !s.Chance(1, 8)) bi.size = 1;
    if (bi.size > room) break;
    if (bi.type == R_ADD) {
      bi.data = Fill(s.Raw(), bi.size, 256, 0);
    } else if (bi.type == R_RUN) {
      bi.data.assign(1, (char)s.Below(256));
    } else {
      switch (s.Pick({4, 6, 3, 2, 2, 2})) {
        case 0: bi.addr = s.Below(here); break;
        case 1:  // exactly or near a recent address (SAME / NEAR modes)
          if (!recent.empty()) bi.addr = recent[s.Below(recent.size())] + (s.Chance(1, 3) ? s.Below(40) : 0);
          else bi.addr = s.Below(here);
          break;
        case 2: bi.addr = here - 1 - s.Below(std::min<uint64_t>(here, 40)); break;
        case 3:  // close to the end of the segment: straddling copies
          bi.addr = (int64_t)w.seg_len - (int64_t)s.Below(20);
          break;
        case 4: bi.addr = s.Below(std::min<uint64_t>(here, 300)); break;
        default:  // boundary values of the address varint
          {
            static const uint64_t kA[] = {0, 127, 128, 255, 256, 767, 768, 16383, 16384};
            bi.addr = kA[s.Below(9)];
          }
          break;
      }
      if (bi.addr < 0) bi.addr = 0;
      if ((uint64_t)bi.addr >= here) bi.addr = s.Below(here);
      recent.push_back(bi.addr);
      if (recent.size() > 12) recent.erase(recent.begin());
    }
    tlen += bi.size;
    w.insts.push_back(bi);
  }
  // Trailing zero-size instructions are left open by the RFC; drop them.
  while (!w.insts.empty() && w.insts.back().size == 0) w.insts.pop_back();
  return w;
}

void FarBlobs(Source& s, bool ascii, Bytes* dict, Bytes* target, std::vector<FarSlice>* slices) {
  static const size_t kAt[] = {1 << 14, 1 << 16, 1000000, 1 << 21, 1 << 22, 1 << 23, 10000000, 1 << 24, 3 << 23};
  const size_t n = kAt[2 + s.Below(7)] + 2000 + s.Below(100000);
  *dict = Fill(s.Raw(), n, ascii ? 96 : 256, ascii ? 32 : 0);
  target->clear();
  for (size_t i = 0; i == 0 || s.More(i, 5, 30); ++i) {
    if (s.Flip()) *target += Fill(s.Raw(), s.Below(30), ascii ? 128 : 256, 0);
    size_t src;
    switch (s.Pick({3, 1, 1, 1})) {
      case 0: src = kAt[s.Below(9)] - 100 + s.Below(200); break;
      case 1: src = n - 1 - s.Below(2000); break;
      case 2: src = s.Below(n); break;
      default: src = slices->empty() ? 0 : slices->back().src + s.Below(3000); break;
    }
    if (src >= n) src = n - 1 - s.Below(2000);
    const size_t len = std::min(n - src, 32 + (s.Flip() ? s.Below(60) : s.Len(3000)));
    slices->push_back({target->size(), src, len});
    *target += dict->substr(src, len);
  }
}

GenDeltaOpts MassDelta(Source& s) {
  static const size_t kN[] = {250, 5000, 33000, 65600, 140000};
  GenDeltaOpts o;
  const size_t n = kN[s.Pick({2, 2, 1, 3, 1})] + s.Below(100);
  if (s.Flip()) {
    o.mass_windows = n > 70000 ? 70000 : n;
    o.max_dict = 600;
  } else {
    o.mass_insts = n;
    o.mass_windows = s.Chance(1, 3) ? 2 : 1;
  }
  return o;
}

GenDelta GenValidDelta(Source& s, const GenDeltaOpts& o) {
  GenDelta g;
  BlobOpts bo;
  bo.max = o.max_dict;
  g.dict = o.far_dict ? Fill(s.Raw(), o.far_dict, 256, 0) : GenDict(s, bo);
  if (o.use_opts) {
    g.opts = *o.use_opts;
  } else {
    g.opts.version = o.want_version >= 0 ? (char)o.want_version : (s.Flip() ? 'S' : 0);
    if (o.custom_table) {
      g.opts.custom = true;
      switch (s.Pick({3, 2, 2, 1, 1})) {
        case 0: g.opts.near = 4; g.opts.same = 3; break;
        case 1: g.opts.near = (int)s.Below(10); g.opts.same = (int)s.Below(10); break;
        case 2: g.opts.near = (int)s.Below(60); g.opts.same = (int)s.Below(60); break;
        case 3: g.opts.near = 0; g.opts.same = 0; break;
        default:
          if (s.Flip()) { g.opts.near = (int)s.Below(253); g.opts.same = (int)s.Below(253 - g.opts.near); }
          else { g.opts.same = (int)s.Below(253); g.opts.near = (int)s.Below(253 - g.opts.same); }
          break;
      }
      if (g.opts.near == 4 && g.opts.same == 3 && s.Chance(1, 4)) {
        g.opts.table = RefDefaultTable();
      } else {
        g.opts.table = GenTable(s, g.opts.near, g.opts.same);
      }
    }
  }
  if (g.opts.custom) g.delta = CustomTableHeader(s, g.opts.version, g.opts.near, g.opts.same, g.opts.table);
  else g.delta = FileHeader(g.opts.version, 0);
  g.header_end = g.delta.size();
  for (size_t i = 0; o.mass_windows ? i < o.mass_windows : s.More(i, o.avg_windows, o.max_windows); ++i) {
    BuildWindow w = GenWindow(s, o, g.opts, g.dict, g.target);
    BuildWindowBytes(s, g.dict, g.opts, w, &g.target, &g.delta, &g.stats);
    if (w.kind == 2) g.uses_target_segment = true;
    g.windows.push_back(w);
    g.window_end.push_back(g.delta.size());
    g.target_end.push_back(g.target.size());
  }
  return g;
}

std::string DescribeDelta(const GenDelta& g) {
  std::string r = "dict(" + std::to_string(g.dict.size()) + ")=" + Hex(g.dict, 48);
  r += " delta(" + std::to_string(g.delta.size()) + ")=" + Hex(g.delta, 160);
  r += " version=" + std::string(g.opts.version ? "S" : "0");
  if (g.opts.custom) r += " custom near=" + std::to_string(g.opts.near) + " same=" + std::to_string(g.opts.same);
  for (size_t i = 0; i < g.windows.size(); ++i) {
    const BuildWindow& w = g.windows[i];
    r += "\n  window kind=" + std::to_string(w.kind) + " seg=" + std::to_string(w.seg_pos) + "+" +
         std::to_string(w.seg_len) + (w.interleaved ? " interleaved" : "") + (w.checksum ? " checksum" : "") + ":";
    for (size_t k = 0; k < w.insts.size() && k < 20; ++k) {
      const BuildInst& b = w.insts[k];
      char t[80];
      if (b.type == R_COPY) snprintf(t, sizeof t, " COPY(%lld,%llu)", (long long)b.addr, (unsigned long long)b.size);
      else snprintf(t, sizeof t, " %s(%llu)", b.type == R_ADD ? "ADD" : "RUN", (unsigned long long)b.size);
      r += t;
    }
    if (w.insts.size() > 20) r += " ...(" + std::to_string(w.insts.size()) + ")";
  }
  return r;
}

// ---- mutation -------------------------------------------------------------------
Bytes MutateDelta(Source& s, const Bytes& delta, const RefResult* parsed, std::string* what) {
  Bytes d = delta;
  size_t n = 1 + (s.Chance(1, 4) ? s.Below(4) : 0);
  for (size_t i = 0; i < n; ++i) {
    if (d.empty()) { d.push_back((char)s.Below(256)); continue; }
    size_t p;
    // Aim at headers and structure more often than at literals.
    if (parsed && !parsed->windows.empty() && s.Chance(3, 4)) {
      const RefWindow& w = parsed->windows[s.Below(parsed->windows.size())];
      switch (s.Pick({5, 4, 3, 1, 2})) {
        case 0: p = w.start + s.Below(w.header_end - w.start + 1); break;
        case 1: p = w.inst_len ? w.inst_off + s.Below(w.inst_len) : w.start; break;
        case 2: p = w.addr_len ? w.addr_off + s.Below(w.addr_len) : w.start; break;
        case 3: p = w.data_len ? w.data_off + s.Below(w.data_len) : w.start; break;
        default: p = w.end ? w.end - 1 : 0; break;
      }
    } else {
      p = s.Flip() ? s.Below(d.size()) : s.Below(std::min<size_t>(d.size(), 40));
    }
    if (p >= d.size()) p = d.size() - 1;
    int k = s.Pick({3, 3, 2, 2, 2, 1, 1, 1, 1});
    char t[80];
    snprintf(t, sizeof t, " mut%d@%zu", k, p);
    *what += t;
    switch (k) {
      case 0: d[p] = (char)(d[p] ^ (1 << s.Below(8))); break;
      case 1: d[p] = (char)(d[p] + (s.Flip() ? 1 : -1)); break;
      case 2: d[p] = (char)s.Below(256); break;
      case 3: d.insert(p, 1, (char)s.Below(256)); break;
      case 4: d.erase(p, 1 + s.Below(std::min<size_t>(4, d.size() - p))); break;
      case 5: d.resize(p); break;
      case 6: {  // replace a varint by an interesting one
        size_t e = p;
        while (e < d.size() && ((unsigned char)d[e] & 0x80) && e - p < 10) ++e;
        Bytes v;
        static const uint64_t kV[] = {0, 1, 0x7f, 0x80, 0x3fff, 0x4000, 0x1fffff, 0x200000, 0xfffffff, 0x10000000,
                                      0x7ffffffe, 0x7fffffff, 0x80000000ull, 0xffffffffull, 0x100000000ull,
                                      67108864, 67108865, 0x7fffffffffffffffull};
        PutVarint(&v, kV[s.Below(sizeof kV / sizeof kV[0])]);
        if (e < d.size()) ++e;
        d.replace(p, e - p, v);
        break;
      }
      case 7: {  // duplicate a stretch
        size_t l = 1 + s.Below(std::min<size_t>(d.size() - p, 64));
        d.insert(p, d.substr(p, l));
        break;
      }
      default: {  // append garbage
        d += Fill(s.Raw(), 1 + s.Below(12), 256, 0);
        break;
      }
    }
  }
  return d;
}

// ---- wrappers --------------------------------------------------------------------
HeapCopy::HeapCopy(const Bytes& b) : p((char*)malloc(b.size() ? b.size() : 1)), n(b.size()) {
  memcpy(p, b.data(), b.size());
}
HeapCopy::HeapCopy(const char* d, size_t len) : p((char*)malloc(len ? len : 1)), n(len) { memcpy(p, d, len); }
HeapCopy::~HeapCopy() {
  memset(p, 0xA5, n);
  free(p);
}

static void Apply(open_vcdiff::VCDiffStreamingDecoder* d, const DecodeOpts& o) {
  if (o.set_limits) {
    d->SetMaximumTargetFileSize(o.max_file);
    d->SetMaximumTargetWindowSize(o.max_window);
  }
  if (!o.allow_target) d->SetAllowVcdTarget(false);
}

DecodeResult RealDecode(const Bytes& dict, const Bytes& delta, const std::vector<size_t>& chunks,
                        const DecodeOpts& o) {
  DecodeResult r;
  HeapCopy dc(dict);
  open_vcdiff::VCDiffStreamingDecoder d;
  Apply(&d, o);
  d.StartDecoding(dc.p, dc.n);
  size_t pos = 0;
  for (size_t n : chunks) {
    bool ok;
    {
      HeapCopy c(delta.data() + pos, n);
      ok = d.DecodeChunk(c.p, c.n, &r.out);
    }
    pos += n;
    r.out_after.push_back(r.out.size());
    r.ok_after.push_back(ok);
    if (!ok) {
      r.chunk_failed = true;
      break;
    }
  }
  r.finish_ok = d.FinishDecoding();
  r.ok = !r.chunk_failed && r.finish_ok;
  CHECK_PROP(!(r.chunk_failed && r.finish_ok), "FinishDecoding succeeded after DecodeChunk failed");
  return r;
}

DecodeResult RealDecodeOne(const Bytes& dict, const Bytes& delta, const DecodeOpts& o) {
  return RealDecode(dict, delta, std::vector<size_t>(1, delta.size()), o);
}

bool RealDecodeSimple(const Bytes& dict, const Bytes& delta, Bytes* out) {
  HeapCopy dc(dict);
  open_vcdiff::VCDiffDecoder d;
  return d.Decode(dc.p, dc.n, delta, out);
}

bool RealEncode(const Bytes& dict, const Bytes& target, const std::vector<size_t>& chunks,
                const EncodeOpts& o, Bytes* out) {
  std::unique_ptr<open_vcdiff::HashedDictionary> hd;
  {
    HeapCopy dc(dict);
    hd.reset(new open_vcdiff::HashedDictionary(dc.p, dc.n));
  }
  if (!hd->Init()) return false;
  open_vcdiff::VCDiffStreamingEncoder e(hd.get(), o.flags, o.target_matching);
  if (!e.StartEncoding(out)) return false;
  size_t pos = 0;
  for (size_t n : chunks) {
    HeapCopy c(target.data() + pos, n);
    if (!e.EncodeChunk(c.p, c.n, out)) return false;
    pos += n;
  }
  return e.FinishEncoding(out);
}

bool RealEncodeSimple(const Bytes& dict, const Bytes& target, const EncodeOpts& o, Bytes* out) {
  HeapCopy dc(dict), tc(target);
  open_vcdiff::VCDiffEncoder e(dc.p, dc.n);
  e.SetFormatFlags(o.flags);
  e.SetTargetMatching(o.target_matching);
  return e.Encode(tc.p, tc.n, out);
}

// ---- structure-preserving edits ---------------------------------------------------
Bytes EditWindows(Source& s, const Bytes& delta, const RefResult& parsed, std::string* what) {
  if (parsed.windows.empty()) return MutateDelta(s, delta, &parsed, what);
  Bytes out = delta.substr(0, parsed.header_end);
  const size_t victim = s.Below(parsed.windows.size());
  for (size_t k = 0; k < parsed.windows.size(); ++k) {
    const RefWindow& w = parsed.windows[k];
    if (k != victim) {
      out += delta.substr(w.start, w.end - w.start);
      continue;
    }
    Bytes sec[3] = {delta.substr(w.data_off, w.data_len), delta.substr(w.inst_off, w.inst_len),
                    delta.substr(w.addr_off, w.addr_len)};
    int wi = w.win_indicator;
    uint64_t seg_len = w.seg_len, seg_pos = w.seg_pos, tlen = w.target_len, sum = w.checksum;
    bool has_sum = w.has_checksum;
    int di = 0;
    int64_t dlen_adj = 0;
    if (has_sum && s.Chance(3, 4)) { has_sum = false; wi &= ~4; }  // let the damage show
    size_t n = 1 + (s.Chance(1, 3) ? s.Below(3) : 0);
    auto nudge = [&](uint64_t* v, const char* name) {
      int64_t d;
      switch (s.Pick({4, 4, 2, 1})) {
        case 0: d = 1; break;
        case 1: d = -1; break;
        case 2: d = (int64_t)s.Below(41) - 20; break;
        default: {
          static const uint64_t kV[] = {0, 0x7f, 0x80, 0x7ffffffe, 0x7fffffff, 0x80000000ull, 0xffffffffull};
          *v = kV[s.Below(7)];
          *what += std::string(" ") + name + "=" + std::to_string(*v);
          return;
        }
      }
      if (d < 0 && (uint64_t)-d > *v) d = -(int64_t)*v;
      *v += (uint64_t)d;
      *what += std::string(" ") + name + (d < 0 ? "" : "+") + std::to_string(d);
    };
    for (size_t e = 0; e < n; ++e) {
      switch (s.Pick({8, 4, 2, 2, 1, 1, 1, 1})) {
        case 0: {  // edit a section
          int q = s.Pick({5, 2, 3});
          q = q == 0 ? 1 : q == 1 ? 0 : 2;
          Bytes& b = sec[q];
          size_t p = b.empty() ? 0 : s.Flip() ? b.size() - 1 : s.Below(b.size());
          *what += " sec" + std::to_string(q) + "@" + std::to_string(p);
          switch (b.empty() ? 1 : s.Pick({3, 2, 2, 2, 1, 1})) {
            case 0: b[p] = (char)(s.Flip() ? b[p] ^ (1 << s.Below(8)) : s.Below(256)); *what += " set"; break;
            case 1: b.insert(p, 1, (char)s.Below(256)); *what += " ins"; break;
            case 2: b.push_back((char)s.Below(256)); *what += " app"; break;
            case 3: b.erase(p, 1); *what += " del"; break;
            case 4: {
              Bytes v;
              static const uint64_t kV[] = {0, 1, 0x7f, 0x80, 0x3fff, 0x4000, 0x7ffffffe, 0x7fffffff, 0x80000000ull,
                                            0xffffffffull, 0x7fffffffffull};
              PutVarint(&v, kV[s.Below(11)]);
              b.replace(p, 1, v);
              *what += " varint";
              break;
            }
            default: b += b.substr(p); *what += " dup"; break;
          }
          break;
        }
        case 1: nudge(&tlen, "tlen"); break;
        case 2: nudge(&seg_len, "seg_len"); break;
        case 3: nudge(&seg_pos, "seg_pos"); break;
        case 4: dlen_adj = s.Flip() ? 1 : -1; *what += " dlen"; break;
        case 5: di = (int)s.Below(8); *what += " di=" + std::to_string(di); break;
        case 6: wi = (int)s.Below(8); has_sum = (wi & 4) && parsed.version == 'S'; *what += " wi=" + std::to_string(wi); break;
        default: {  // move a byte between sections
          int a = (int)s.Below(3), b = (int)s.Below(3);
          if (!sec[a].empty()) { sec[b].push_back(sec[a].back()); sec[a].pop_back(); *what += " move"; }
          break;
        }
      }
    }
    Bytes body;
    PutVarint(&body, tlen);
    body.push_back((char)di);
    for (auto& x : sec) PutVarint(&body, x.size());
    if (has_sum) PutVarint(&body, sum);
    for (auto& x : sec) body += x;
    out.push_back((char)wi);
    if (wi & 3) {
      PutVarint(&out, seg_len);
      PutVarint(&out, seg_pos);
    }
    PutVarint(&out, body.size() + (uint64_t)dlen_adj);
    out += body;
  }
  return out;
}
