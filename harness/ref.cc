#include "ref.h"
#include <string.h>

// ---- code table (RFC 3284 section 5.6) --------------------------------------
static RefTable MakeDefault() {
  RefTable t;
  memset(&t, 0, sizeof t);
  int op = 0;
  auto put = [&](int i1, int s1, int m1, int i2, int s2, int m2) {
    t.inst1[op] = i1; t.size1[op] = s1; t.mode1[op] = m1;
    t.inst2[op] = i2; t.size2[op] = s2; t.mode2[op] = m2;
    ++op;
  };
  put(R_RUN, 0, 0, R_NOOP, 0, 0);
  for (int s = 0; s <= 17; ++s) put(R_ADD, s, 0, R_NOOP, 0, 0);
  for (int m = 0; m <= 8; ++m) {
    put(R_COPY, 0, m, R_NOOP, 0, 0);
    for (int s = 4; s <= 18; ++s) put(R_COPY, s, m, R_NOOP, 0, 0);
  }
  for (int m = 0; m <= 5; ++m)
    for (int a = 1; a <= 4; ++a)
      for (int c = 4; c <= 6; ++c) put(R_ADD, a, 0, R_COPY, c, m);
  for (int m = 6; m <= 8; ++m)
    for (int a = 1; a <= 4; ++a) put(R_ADD, a, 0, R_COPY, 4, m);
  for (int m = 0; m <= 8; ++m) put(R_COPY, 4, m, R_ADD, 1, 0);
  if (op != 256) __builtin_trap();
  return t;
}
const RefTable& RefDefaultTable() {
  static const RefTable t = MakeDefault();
  return t;
}

Bytes RefTableBytes(const RefTable& t) {
  Bytes b;
  b.append((const char*)t.inst1, 256);
  b.append((const char*)t.inst2, 256);
  b.append((const char*)t.size1, 256);
  b.append((const char*)t.size2, 256);
  b.append((const char*)t.mode1, 256);
  b.append((const char*)t.mode2, 256);
  return b;
}

bool RefTableValid(const RefTable& t, int near_size, int same_size) {
  int max_mode = 1 + near_size + same_size;
  if (max_mode > 255) return false;
  bool add = false, run = false;
  std::vector<bool> copy(max_mode + 1, false);
  for (int i = 0; i < 256; ++i) {
    for (int h = 0; h < 2; ++h) {
      int in = h ? t.inst2[i] : t.inst1[i];
      int sz = h ? t.size2[i] : t.size1[i];
      int md = h ? t.mode2[i] : t.mode1[i];
      if (in > 3 || md > max_mode) return false;
      if (in == R_NOOP && sz) return false;
      if (in != R_COPY && md) return false;
    }
    if (t.inst2[i] == R_NOOP && t.size1[i] == 0) {
      if (t.inst1[i] == R_ADD) add = true;
      if (t.inst1[i] == R_RUN) run = true;
      if (t.inst1[i] == R_COPY) copy[t.mode1[i]] = true;
    }
  }
  if (!add || !run) return false;
  for (bool b : copy) if (!b) return false;
  return true;
}

// ---- address cache (RFC section 5.1) ----------------------------------------
RefCache::RefCache(int n, int s) : near_(n), same_(s), slot_(0), n_(n), s_((size_t)s * 256) { Reset(); }
void RefCache::Reset() {
  slot_ = 0;
  for (auto& x : n_) x = 0;
  for (auto& x : s_) x = 0;
}
void RefCache::Update(int64_t a) {
  if (near_ > 0) {
    n_[slot_] = a;
    slot_ = (slot_ + 1) % near_;
  }
  if (same_ > 0) s_[a % (same_ * 256)] = a;
}

uint32_t RefAdler0(const Bytes& b, size_t pos, size_t len) {
  uint32_t a = 0, c = 0;
  for (size_t i = 0; i < len;) {
    size_t n = len - i < 5000 ? len - i : 5000;
    for (size_t k = 0; k < n; ++k) {
      a += (unsigned char)b[pos + i + k];
      c += a;
    }
    a %= 65521;
    c %= 65521;
    i += n;
  }
  return (c << 16) | a;
}

size_t VarintLen(uint64_t v) {
  size_t n = 1;
  while (v >>= 7) ++n;
  return n;
}
void PutVarint(Bytes* out, uint64_t v) {
  size_t n = VarintLen(v);
  for (size_t i = n; i-- > 0;) {
    unsigned char c = (v >> (7 * i)) & 0x7f;
    if (i) c |= 0x80;
    out->push_back((char)c);
  }
}

// ---- decoder ----------------------------------------------------------------
namespace {
struct Incomplete {};
struct Reject { const char* why; };

struct Reader {
  const Bytes& d;
  size_t p, end;
  RefResult* r;
  // `hard`: running out of bytes is malformed (bounded section), else incomplete
  bool hard;
  int Byte() {
    if (p >= end) {
      if (hard) throw Reject{"section exhausted"};
      throw Incomplete();
    }
    return (unsigned char)d[p++];
  }
  uint64_t Varint(int bits) {
    uint64_t max = (1ull << bits) - 1;
    unsigned __int128 v = 0;
    bool first = true;
    for (;;) {
      int c = Byte();
      if (first && c == 0x80) {
        r->either = true;
        r->why_either = "non-minimal varint";
      }
      first = false;
      v = (v << 7) | (c & 0x7f);
      if (v > max) throw Reject{"varint too large"};
      if (!(c & 0x80)) return (uint64_t)v;
      if ((v << 7) > max) throw Reject{"varint too large"};
    }
  }
};

void Note(RefResult* r, const char* w) {
  r->either = true;
  r->why_either = w;
}

// Decodes windows from *pos until the end of input, or (planned != ~0) until
// the target size equals planned.  Throws Incomplete/Reject.
void Windows(const Bytes& dict, const Bytes& delta, size_t* pos, size_t limit_pos, int version,
             const RefTable& tab, int near, int same, const RefLimits& lim, uint64_t planned,
             bool keep, RefResult* r) {
  RefCache cache(near, same);
  const int max_mode = 1 + near + same;
  while (*pos < limit_pos) {
    if (planned != ~0ull && r->out.size() == planned) return;
    r->partial.clear();
    RefWindow w = RefWindow();
    w.start = *pos;
    Reader in{delta, *pos, limit_pos, r, false};
    w.win_indicator = in.Byte();
    if (w.win_indicator & ~7) Note(r, "unknown Win_Indicator bits");
    const Bytes* from = nullptr;
    switch (w.win_indicator & 3) {
      case 3: throw Reject{"both VCD_SOURCE and VCD_TARGET"};
      case 1: from = &dict; break;
      case 2:
        if (!lim.allow_target) throw Reject{"VCD_TARGET not allowed"};
        from = &r->out;
        break;
    }
    if (from) {
      w.seg_len = in.Varint(31);
      if (w.seg_len > from->size()) throw Reject{"segment longer than source"};
      w.seg_pos = in.Varint(31);
      if (w.seg_pos > from->size() || w.seg_pos + w.seg_len > from->size())
        throw Reject{w.seg_len ? "segment outside source" : "empty segment past the end"};
    }
    w.has_checksum = (w.win_indicator & 4) && version == 'S';
    if ((w.win_indicator & 4) && version != 'S') Note(r, "checksum bit in standard version");
    uint64_t delta_len = in.Varint(31);
    size_t enc_start = in.p;
    w.target_start = r->out.size();
    w.target_len = in.Varint(31);
    if (w.target_len > lim.max_window) throw Reject{"window too large"};
    if (planned != ~0ull && w.target_len > planned - r->out.size()) throw Reject{"exceeds planned size"};
    if (w.target_len > lim.max_file || r->out.size() > lim.max_file - w.target_len)
      throw Reject{"file too large"};
    int di = in.Byte();
    if (di & 7) throw Reject{"secondary compression"};
    if (di) Note(r, "unknown Delta_Indicator bits");
    w.data_len = in.Varint(31);
    w.inst_len = in.Varint(31);
    w.addr_len = in.Varint(31);
    if (w.has_checksum) {
      w.checksum_off = in.p;
      w.checksum = in.Varint(63);
      if (w.checksum > 0xffffffffull) throw Reject{"checksum too large"};
    }
    w.header_end = in.p;
    if (delta_len != (in.p - enc_start) + w.data_len + w.inst_len + w.addr_len)
      throw Reject{"inconsistent delta length"};
    w.interleaved = version == 'S' && w.data_len == 0 && w.addr_len == 0;
    w.data_off = in.p;
    w.inst_off = w.data_off + w.data_len;
    w.addr_off = w.inst_off + w.inst_len;
    w.end = w.addr_off + w.addr_len;
    bool have_all = w.end <= limit_pos;
    if (!w.interleaved && !have_all) throw Incomplete();

    // A section reader that runs out either proves the window malformed (all
    // of it is present) or just needs more input (interleaved, truncated).
    Reader inst{delta, w.inst_off, have_all ? w.inst_off + w.inst_len : limit_pos, r, have_all};
    Reader dat{delta, w.data_off, w.data_off + w.data_len, r, true};
    Reader adr{delta, w.addr_off, w.addr_off + w.addr_len, r, true};
    Reader& rd = w.interleaved ? inst : dat;
    Reader& ra = w.interleaved ? inst : adr;
    cache.Reset();
    Bytes win;
    win.reserve(w.target_len);
    int pending = -1;
    const size_t inst_end = w.inst_off + w.inst_len;
    try {
    for (;;) {
      const bool full = win.size() == w.target_len;
      if (full && pending < 0 && inst.p == inst_end) break;
      int type, mode;
      uint64_t size;
      if (pending >= 0) {
        type = tab.inst2[pending]; size = tab.size2[pending]; mode = tab.mode2[pending];
        pending = -1;
      } else {
        int op = inst.Byte();
        type = tab.inst1[op]; size = tab.size1[op]; mode = tab.mode1[op];
        if (tab.inst2[op] != R_NOOP) pending = op;
        if (type == R_NOOP) {
          if (full) Note(r, "trailing no-op");
          continue;
        }
      }
      if (size == 0) size = inst.Varint(31);
      if (size > w.target_len - win.size()) throw Reject{"instruction exceeds window"};
      if (full) Note(r, "trailing zero-size instruction");
      RefInst ri;
      ri.type = type; ri.size = size; ri.mode = mode; ri.addr = 0;
      if (type == R_ADD) {
        if (size > rd.end - rd.p) {
          if (rd.hard) throw Reject{"ADD data exhausted"};
          throw Incomplete();
        }
        win.append(delta, rd.p, size);
        if (keep) ri.data.assign(delta, rd.p, size);
        rd.p += size;
      } else if (type == R_RUN) {
        char c = (char)rd.Byte();
        win.append(size, c);
        ri.data.assign(1, c);
      } else {
        int64_t here = (int64_t)(w.seg_len + win.size());
        int64_t addr;
        if (mode > max_mode) throw Reject{"bad mode"};
        if (mode >= 2 + near) {
          int b = ra.Byte();
          addr = cache.same_at((mode - 2 - near) * 256 + b);
        } else {
          int64_t v = (int64_t)ra.Varint(31);
          if (mode == 0) addr = v;
          else if (mode == 1) addr = here - v;
          else addr = cache.near_at(mode - 2) + v;
        }
        if (addr < 0 || addr >= here) throw Reject{"bad address"};
        cache.Update(addr);
        ri.addr = addr;
        for (uint64_t k = 0; k < size;) {
          uint64_t a = (uint64_t)addr + k;
          if (a < w.seg_len) {
            uint64_t n = w.seg_len - a < size - k ? w.seg_len - a : size - k;
            win.append(*from, w.seg_pos + a, n);
            k += n;
          } else {
            win.push_back(win[a - w.seg_len]);
            ++k;
          }
        }
      }
      ri.end_pos = inst.p;
      ri.target_after = w.target_start + win.size();
      if (keep) w.insts.push_back(ri);
    }
    } catch (const Incomplete&) {
      if (w.interleaved) r->partial = win;
      throw;
    }
    w.actual = RefAdler0(win, 0, win.size());
    if (w.has_checksum && w.actual != w.checksum) throw Reject{"checksum mismatch"};
    if (!w.interleaved && (dat.p != dat.end || adr.p != adr.end)) throw Reject{"leftover section bytes"};
    r->partial.clear();
    r->out += win;
    r->windows.push_back(w);
    *pos = w.end;
  }
}

}  // namespace

RefResult RefDecode(const Bytes& dict, const Bytes& delta, const RefLimits& lim, bool keep) {
  RefResult r;
  try {
    if (delta.empty()) {
      r.v = RefResult::ACCEPT;
      return r;
    }
    static const unsigned char magic[3] = {0xD6, 0xC3, 0xC4};
    for (size_t i = 0; i < 3 && i < delta.size(); ++i)
      if ((unsigned char)delta[i] != magic[i]) throw Reject{"magic"};
    if (delta.size() >= 4) {
      r.version = (unsigned char)delta[3];
      if (r.version != 0 && r.version != 'S') throw Reject{"version"};
    }
    if (delta.size() < 5) throw Incomplete();
    r.hdr_indicator = (unsigned char)delta[4];
    if (r.hdr_indicator & 1) throw Reject{"secondary compressor"};
    if (r.hdr_indicator & ~3) Note(&r, "unknown Hdr_Indicator bits");
    size_t pos = 5;
    RefTable tab = RefDefaultTable();
    if (r.hdr_indicator & 2) {
      r.custom_table = true;
      Reader in{delta, pos, delta.size(), &r, false};
      uint64_t ns = in.Varint(31);
      uint64_t ss = in.Varint(31);
      if (ns > 255 || ss > 255) throw Reject{"cache size"};
      if (ns + ss > 254) throw Reject{"too many modes"};
      r.near = (int)ns;
      r.same = (int)ss;
      pos = in.p;
      // Embedded delta against the default table.
      RefResult e;
      size_t avail = delta.size() - pos;
      for (size_t i = 0; i < 3 && i < avail; ++i)
        if ((unsigned char)delta[pos + i] != magic[i]) throw Reject{"embedded magic"};
      int ev = 0;
      if (avail >= 4) {
        ev = (unsigned char)delta[pos + 3];
        if (ev != 0 && ev != 'S') throw Reject{"embedded version"};
      }
      if (avail < 5) throw Incomplete();
      int ei = (unsigned char)delta[pos + 4];
      if (ei & 3) throw Reject{"embedded header indicator"};
      if (ei) Note(&r, "unknown embedded Hdr_Indicator bits");
      pos += 5;
      RefLimits dl;
      try {
        Windows(RefTableBytes(RefDefaultTable()), delta, &pos, delta.size(), ev, RefDefaultTable(), 4,
                3, dl, 1536, false, &e);
      } catch (...) {
        if (e.either) Note(&r, "embedded");
        throw;
      }
      if (e.either) Note(&r, "embedded");
      if (e.out.size() < 1536) throw Incomplete();
      memcpy(tab.inst1, e.out.data(), 256);
      memcpy(tab.inst2, e.out.data() + 256, 256);
      memcpy(tab.size1, e.out.data() + 512, 256);
      memcpy(tab.size2, e.out.data() + 768, 256);
      memcpy(tab.mode1, e.out.data() + 1024, 256);
      memcpy(tab.mode2, e.out.data() + 1280, 256);
      if (!RefTableValid(tab, r.near, r.same)) throw Reject{"invalid code table"};
    }
    r.header_end = pos;
    Windows(dict, delta, &pos, delta.size(), r.version, tab, r.near, r.same, lim, ~0ull, keep, &r);
    r.v = RefResult::ACCEPT;
  } catch (const Incomplete&) {
    r.v = RefResult::INCOMPLETE;
    r.why = "incomplete";
  } catch (const Reject& e) {
    r.v = RefResult::REJECT;
    r.why = e.why;
  }
  return r;
}

// ---- builder ----------------------------------------------------------------
Bytes FileHeader(char version, int indicator) {
  Bytes b = "\xD6\xC3\xC4";
  b.push_back(version);
  b.push_back((char)indicator);
  return b;
}

void BuildWindowBytes(Source& s, const Bytes& dict, const BuildOpts& o, const BuildWindow& w,
                      Bytes* target, Bytes* out, BuildStats* st) {
  const RefTable& t = o.custom ? o.table : RefDefaultTable();
  const int near = o.near, same = o.same;
  RefCache cache(near, same);
  Bytes win, data, inst, addr;
  const Bytes* from = w.kind == 1 ? &dict : w.kind == 2 ? target : nullptr;
  Bytes seg = from ? from->substr(w.seg_pos, w.seg_len) : Bytes();
  Bytes& D = w.interleaved ? inst : data;
  Bytes& A = w.interleaved ? inst : addr;

  // How opcode choice is made for this window.
  const int style = s.Pick({2, 3, 1});  // 0 any single, 1 prefer pairs, 2 explicit sizes only

  // Candidate modes for a COPY at the current state.
  auto modes_for = [&](int64_t a, int64_t here) {
    std::vector<int> m;
    m.push_back(0);
    m.push_back(1);
    for (int i = 0; i < near; ++i)
      if (a >= cache.near_at(i)) m.push_back(2 + i);
    if (same > 0) {
      int pos = (int)(a % (same * 256));
      if (cache.same_at(pos) == a) m.push_back(2 + near + pos / 256);
    }
    (void)here;
    return m;
  };
  auto put_addr = [&](int mode, int64_t a, int64_t here) {
    if (mode >= 2 + near) {
      A.push_back((char)(a % 256));  // SAME: low byte of position in its block
    } else {
      int64_t v = mode == 0 ? a : mode == 1 ? here - a : a - cache.near_at(mode - 2);
      PutVarint(&A, (uint64_t)v);
    }
    cache.Update(a);
    if (st) ++st->modes[mode];
  };
  auto apply = [&](const BuildInst& bi) {
    if (bi.type == R_ADD) win += bi.data;
    else if (bi.type == R_RUN) win.append(bi.size, bi.data[0]);
    else
      for (uint64_t k = 0; k < bi.size; ++k) {
        uint64_t a = (uint64_t)bi.addr + k;
        win.push_back(a < seg.size() ? seg[a] : win[a - seg.size()]);
      }
  };
  auto pick_mode = [&](const BuildInst& bi) {
    int64_t here = (int64_t)(seg.size() + win.size());
    std::vector<int> m = modes_for(bi.addr, here);
    if (m.back() >= 2 + near && s.Flip()) return m.back();
    return m[s.Below(m.size())];
  };

  size_t i = 0;
  int second_of = -1;  // opcode whose second half encodes insts[i]
  while (i < w.insts.size()) {
    const BuildInst& bi = w.insts[i];
    int64_t here = (int64_t)(seg.size() + win.size());
    if (second_of >= 0) {
      int op = second_of;
      second_of = -1;
      if (t.size2[op] == 0) PutVarint(&inst, bi.size);
      if (bi.type == R_COPY) put_addr(t.mode2[op], bi.addr, here);
      else D += bi.data;
      apply(bi);
      ++i;
      continue;
    }
    int mode = bi.type == R_COPY ? pick_mode(bi) : 0;
    // Optionally pair with the next instruction.
    int op = -1;
    if (style != 2 && i + 1 < w.insts.size() && (style == 1 || s.Flip())) {
      const BuildInst& nx = w.insts[i + 1];
      std::vector<int> cand;
      // The second half's usable modes depend on the state after this one.
      RefCache saved = cache;
      std::vector<int> nm;
      if (nx.type == R_COPY) {
        if (bi.type == R_COPY) cache.Update(bi.addr);
        nm = modes_for(nx.addr, 0);
        cache = saved;
      }
      for (int k = 0; k < 256; ++k) {
        if (t.inst1[k] != bi.type || t.inst2[k] != nx.type) continue;
        if (t.size1[k] != 0 && t.size1[k] != bi.size) continue;
        if (t.size2[k] != 0 && t.size2[k] != nx.size) continue;
        if (bi.type == R_COPY && t.mode1[k] != mode) continue;
        if (nx.type == R_COPY) {
          bool ok = false;
          for (int x : nm) ok |= x == t.mode2[k];
          if (!ok) continue;
        }
        cand.push_back(k);
      }
      if (!cand.empty()) {
        op = cand[s.Below(cand.size())];
        if (st) ++st->pairs;
        second_of = op;
      }
    }
    if (op < 0) {
      std::vector<int> cand;
      for (int k = 0; k < 256; ++k) {
        // A (NOOP, inst) opcode is a single instruction too.
        const bool second = t.inst1[k] == R_NOOP;
        if (!second && t.inst2[k] != R_NOOP) continue;
        const int in = second ? t.inst2[k] : t.inst1[k], sz = second ? t.size2[k] : t.size1[k],
                  md = second ? t.mode2[k] : t.mode1[k];
        if (in == bi.type && (sz == 0 || (style != 2 && (uint64_t)sz == bi.size)) &&
            (bi.type != R_COPY || md == mode))
          cand.push_back(k);
      }
      op = cand[cand.size() > 1 ? s.Below(cand.size()) : 0];
    }
    if (st) ++st->opcodes[op];
    inst.push_back((char)op);
    if ((t.inst1[op] == R_NOOP ? t.size2[op] : t.size1[op]) == 0) PutVarint(&inst, bi.size);
    if (bi.type == R_COPY) put_addr(mode, bi.addr, here);
    else D += bi.data;
    apply(bi);
    ++i;
  }
  Bytes body;
  PutVarint(&body, win.size());
  body.push_back(0);
  PutVarint(&body, data.size());
  PutVarint(&body, inst.size());
  PutVarint(&body, addr.size());
  if (w.checksum) PutVarint(&body, RefAdler0(win, 0, win.size()));
  body += data;
  body += inst;
  body += addr;
  out->push_back((char)(w.kind | (w.checksum ? 4 : 0)));
  if (w.kind) {
    PutVarint(out, w.seg_len);
    PutVarint(out, w.seg_pos);
  }
  PutVarint(out, body.size());
  *out += body;
  *target += win;
}
