// C11 sharing across threads, C18 output sinks, C19 work bounds; registry.
#include <pthread.h>
#include <string.h>
#include <sys/mman.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <deque>
#include <memory>
#include <thread>
#include "google/output_string.h"
#include "google/vcdecoder.h"
#include "google/vcencoder.h"
#include "props.h"
#include "work.h"

using namespace open_vcdiff;

// ---- C11 --------------------------------------------------------------------
namespace {
struct Job {
  int kind;  // 0 shared dictionary, 1 one-shot with its own dictionary, 2 decode, 3 custom-table decode
  int flags;
  bool tm;
  Bytes target;
  std::vector<size_t> chunks;
  GenDelta g;
  Bytes out;
  bool ok = false;
};

void RunJob(const HashedDictionary* hd, const Bytes& dict, Job* j, Bytes* out, bool* ok) {
  *ok = true;
  if (j->kind == 0) {
    VCDiffStreamingEncoder e(hd, (VCDiffFormatExtensionFlags)j->flags, j->tm);
    *ok &= e.StartEncoding(out);
    size_t p = 0;
    for (size_t n : j->chunks) {
      *ok &= e.EncodeChunk(j->target.data() + p, n, out);
      p += n;
    }
    *ok &= e.FinishEncoding(out);
  } else if (j->kind == 1) {
    VCDiffEncoder e(dict.data(), dict.size());
    e.SetFormatFlags((VCDiffFormatExtensionFlags)j->flags);
    e.SetTargetMatching(j->tm);
    *ok &= e.Encode(j->target.data(), j->target.size(), out);
  } else {
    VCDiffStreamingDecoder d;
    d.StartDecoding(j->g.dict.data(), j->g.dict.size());
    *ok &= d.DecodeChunk(j->g.delta.data(), j->g.delta.size(), out);
    *ok &= d.FinishDecoding();
  }
}

// Runs in its own process so that every lazily initialised table of the
// library is untouched when the threads start.
std::string ThreadCase(Source& s, std::string* desc, bool* nontrivial, bool ascii_only) {
  BlobOpts b;
  b.max = s.Chance(1, 10) ? 30000 : 2500;
  if (s.Chance(1, 250)) { b.max = 400000; b.fill = true; }
  b.ascii = ascii_only;
  const Bytes dict = GenDict(s, b);
  HashedDictionary hd(dict.data(), dict.size());
  if (!hd.Init()) return "Init failed";
  const int nt = 2 + (int)s.Below(5);
  std::vector<std::vector<Job>> work(nt);
  *desc = "dict(" + std::to_string(dict.size()) + ") threads=" + std::to_string(nt);
  int sharing = 0;
  for (auto& w : work) {
    *desc += " [";
    bool shares = false;
    for (size_t i = 0; i == 0 || s.More(i, 1, 4); ++i) {
      Job j;
      j.kind = s.Pick({6, 1, 1, 1});
      j.flags = s.Chance(1, 5) && ascii_only ? 4 : (int)s.Below(4);
      j.tm = s.Flip();
      if (j.kind < 2) {
        j.target = GenTarget(s, dict, b);
        j.chunks = GenChunks(s, j.target.size());
        shares |= j.kind == 0 && j.target.size() >= 16;
      } else {
        GenDeltaOpts o;
        o.max_dict = o.max_window = 300;
        o.custom_table = j.kind == 3;
        j.g = GenValidDelta(s, o);
      }
      *desc += " k" + std::to_string(j.kind) + "/f" + std::to_string(j.flags) + "/" + std::to_string(j.target.size());
      w.push_back(j);
    }
    sharing += shares;
    *desc += " ]";
  }
  *nontrivial = sharing >= 2;
  pthread_barrier_t bar;
  pthread_barrier_init(&bar, nullptr, nt);
  std::vector<std::thread> th;
  for (auto& w : work)
    th.emplace_back([&] {
      pthread_barrier_wait(&bar);
      for (auto& j : w) RunJob(&hd, dict, &j, &j.out, &j.ok);
    });
  for (auto& t : th) t.join();
  pthread_barrier_destroy(&bar);
  // The same jobs alone, each with everything of its own.
  for (auto& w : work)
    for (auto& j : w) {
      HashedDictionary own(dict.data(), dict.size());
      if (!own.Init()) return "Init failed";
      Bytes out;
      bool ok;
      RunJob(&own, dict, &j, &out, &ok);
      if (ok != j.ok) return "a thread's call returned " + std::to_string(j.ok) + ", alone it returns " + std::to_string(ok);
      if (out != j.out)
        return "output of a thread differs from the sequential output at byte " + std::to_string(FirstDiff(out, j.out)) +
               " (kind " + std::to_string(j.kind) + ", flags " + std::to_string(j.flags) + ")";
      if (!ok) return "an operation failed";
      if (j.kind >= 2 && out != j.g.target) return "decoded target is wrong";
    }
  return "";
}
}  // namespace

void prop_C11(Source& s, Ctx& c) {
  struct Shared {
    uint32_t n;
    int nontrivial;
    char msg[1000];
    char desc[2000];
    uint64_t choices[1 << 16];
  };
  static Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sh->msg[0] = sh->desc[0] = 0;
  sh->nontrivial = 0;
  sh->n = 0;
  const bool ascii = s.Chance(1, 3);
  const size_t before = s.choices().size();
  pid_t pid = fork();
  if (pid < 0) throw Discard();
  if (pid == 0) {
    std::string desc, msg;
    bool nt = false;
    try {
      msg = ThreadCase(s, &desc, &nt, ascii);
    } catch (const Discard&) {
    } catch (const Failure& f) {
      msg = f.msg;
    }
    snprintf(sh->desc, sizeof sh->desc, "%s", desc.c_str());
    snprintf(sh->msg, sizeof sh->msg, "%s", msg.c_str());
    sh->nontrivial = nt;
    exit(msg.empty() ? 0 : 5);  // exit, not _exit: the race detector reports here
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0) {}
  // Hashing of distinct cases uses the choices of the parent: draw one value
  // that identifies the case.
  (void)before;
  s.Raw();
  c.Desc(sh->desc);
  c.nontrivial = sh->nontrivial;
  if (c.nontrivial) c.Label("two_or_more_threads_share");
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
  if (sh->msg[0]) FailCase("%s", sh->msg);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 66) FailCase("the race detector reported a data race");
  FailCase("threads ended with status %x (crash, race report or fatal error)", st);
}

// ---- C18 --------------------------------------------------------------------
namespace {
// A sink that only grows when it must and counts how often that happens.
class CountingSink : public OutputStringInterface {
 public:
  Bytes data;
  size_t cap = 0, growths = 0, clears = 0, reserves = 0, last_reserve_end = 0;
  virtual OutputStringInterface& append(const char* s, size_t n) {
    data.append(s, n);
    if (data.size() > cap) { cap = data.size(); ++growths; }
    return *this;
  }
  virtual void clear() { data.clear(); ++clears; }
  virtual void push_back(char ch) { append(&ch, 1); }
  virtual void ReserveAdditionalBytes(size_t n) {
    ++reserves;
    last_reserve_end = data.size() + n;
    if (last_reserve_end > cap) { cap = last_reserve_end; ++growths; }
  }
  virtual size_t size() const { return data.size(); }
};

// A string type of the caller's own, kept in pieces.
class Pieces {
 public:
  std::deque<char> d;
  void append(const char* s, size_t n) { d.insert(d.end(), s, s + n); }
  void clear() { d.clear(); }
  void push_back(char c) { d.push_back(c); }
  void reserve(size_t) {}
  size_t size() const { return d.size(); }
  Bytes str() const { return Bytes(d.begin(), d.end()); }
};
}  // namespace

// Any bytes at all: whatever the verdict, all sinks see the same, nothing that
// was in a sink before is touched, and a caller may empty (or exchange) its
// output between calls.
static void SinksOnAnyDelta(Source& s, Ctx& c) {
  AnyDelta a = GenAnyDelta(s, c, true);
  std::vector<size_t> ch = GenChunks(s, a.delta.size());
  const bool allow = s.Flip();
  c.Desc("decode any: " + a.kind + " delta(" + std::to_string(a.delta.size()) + ")=" + Hex(a.delta, 200) + " chunks=" + ChunksStr(ch));
  VCDiffStreamingDecoder d[4];
  for (auto& x : d) {
    x.SetMaximumTargetFileSize(1 << 21);
    x.SetMaximumTargetWindowSize(1 << 20);
    x.SetAllowVcdTarget(allow);
    x.StartDecoding(a.dict.data(), a.dict.size());
  }
  const Bytes pre = Fill(11, s.Below(40), 256, 0);
  Bytes str = pre, drained = pre;
  CountingSink k;
  k.data = pre;
  k.cap = pre.size();
  Pieces p;
  p.append(pre.data(), pre.size());
  size_t pos = 0;
  bool good = true;
  for (size_t n : ch) {
    const bool r0 = d[0].DecodeChunk(a.delta.data() + pos, n, &str);
    const bool r1 = d[1].DecodeChunkToInterface(a.delta.data() + pos, n, &k);
    const bool r2 = d[2].DecodeChunk(a.delta.data() + pos, n, &p);
    Bytes part;
    const bool r3 = d[3].DecodeChunk(a.delta.data() + pos, n, &part);
    drained += part;
    pos += n;
    CHECK_PROP(r0 == r1 && r0 == r2 && r0 == r3, "verdict depends on the sink: %d %d %d %d", r0, r1, r2, r3);
    CHECK_PROP(str.compare(0, pre.size(), pre) == 0 && k.data.compare(0, pre.size(), pre) == 0,
               "earlier contents of the output changed (%s call)", r0 ? "successful" : "failed");
    CHECK_PROP(str == k.data && str == drained, "sinks differ after a %s call: %zu, %zu and %zu bytes",
               r0 ? "successful" : "failed", str.size(), k.data.size(), drained.size());
    good = r0;
    if (!good) break;
  }
  CHECK_PROP(str == p.str(), "sinks of different types received different bytes");
  CHECK_PROP(k.clears == 0, "the streaming decoder cleared its output");
  const bool f = d[0].FinishDecoding();
  CHECK_PROP(f == d[1].FinishDecoding() && f == d[2].FinishDecoding() && f == d[3].FinishDecoding(),
             "FinishDecoding depends on the sink");
  Bytes x = pre;
  Pieces y;
  VCDiffDecoder q1, q2;
  const bool o1 = q1.Decode(a.dict.data(), a.dict.size(), a.delta, &x), o2 = q2.Decode(a.dict.data(), a.dict.size(), a.delta, &y);
  CHECK_PROP(o1 == o2 && x == y.str(), "one-shot decoder: result depends on the sink");
  c.sub_evaluations += 4;
  c.Label(good && f ? "any_accepted" : "any_rejected");
  c.nontrivial = str.size() > pre.size() && ch.size() >= 2;
}

void prop_C18(Source& s, Ctx& c) {
  if (!c.dbg_build && s.Chance(1, 5)) { SinksOnAnyDelta(s, c); return; }
  const bool encode = s.Chance(1, 3);
  if (encode) {
    BlobOpts b;
    b.max = s.Chance(1, 60) ? 100000 : 3000;
    b.ascii = s.Chance(1, 4);
    Bytes dict = GenDict(s, b), target = GenTarget(s, dict, b);
    int flags = b.ascii ? 4 : (int)s.Below(4);
    bool tm = s.Flip();
    std::vector<size_t> ch = GenChunks(s, target.size());
    c.Desc("encode " + DescribeBlobs(dict, target) + " flags=" + std::to_string(flags) + " chunks=" + ChunksStr(ch));
    HashedDictionary hd(dict.data(), dict.size());
    CHECK_PROP(hd.Init(), "Init");
    VCDiffStreamingEncoder e1(&hd, (VCDiffFormatExtensionFlags)flags, tm), e2(&hd, (VCDiffFormatExtensionFlags)flags, tm),
        e3(&hd, (VCDiffFormatExtensionFlags)flags, tm), e4(&hd, (VCDiffFormatExtensionFlags)flags, tm);
    Bytes pre = Fill(7, s.Below(30), 256, 0);
    Bytes a = pre;
    CountingSink k;
    k.data = pre;
    k.cap = pre.size();
    Pieces p;
    p.append(pre.data(), pre.size());
    Bytes all, part;  // an output that the caller empties after every call
    // Calls that are refused leave every output exactly as it was.
    auto refused = [&](const Bytes& data, bool finish, const char* when) {
      const Bytes a0 = a, k0 = k.data, p0 = p.str(), part0 = part;
      const size_t clears0 = k.clears;
      const bool any = finish ? (e1.FinishEncoding(&a) | e2.FinishEncodingToInterface(&k) | e3.FinishEncoding(&p) | e4.FinishEncoding(&part))
                              : (e1.EncodeChunk(data.data(), data.size(), &a) | e2.EncodeChunkToInterface(data.data(), data.size(), &k) |
                                 e3.EncodeChunk(data.data(), data.size(), &p) | e4.EncodeChunk(data.data(), data.size(), &part));
      CHECK_PROP(!any, "a call that must be refused was accepted (%s)", when);
      CHECK_PROP(a == a0 && k.data == k0 && p.str() == p0 && part == part0 && k.clears == clears0,
                 "a refused call changed the output (%s)", when);
      c.Label("refused_call");
    };
    if (s.Chance(1, 3)) refused(target, s.Flip(), "before StartEncoding");
    bool ok = e1.StartEncoding(&a) & e2.StartEncodingToInterface(&k) & e3.StartEncoding(&p) & e4.StartEncoding(&part);
    all += part;
    size_t pos = 0;
    for (size_t n : ch) {
      if (b.ascii && s.Chance(1, 4)) {
        Bytes bad = target.substr(0, s.Below(target.size() + 1));
        bad.insert(s.Below(bad.size() + 1), 1, (char)(128 + s.Below(128)));
        refused(bad, false, "chunk that JSON cannot carry");
      }
      const size_t before = k.data.size(), r0 = k.reserves;
      ok &= e1.EncodeChunk(target.data() + pos, n, &a);
      ok &= e2.EncodeChunkToInterface(target.data() + pos, n, &k);
      ok &= e3.EncodeChunk(target.data() + pos, n, &p);
      part.clear();
      ok &= e4.EncodeChunk(target.data() + pos, n, &part);
      all += part;
      pos += n;
      CHECK_PROP(a == k.data, "sinks differ after a chunk: %zu vs %zu bytes", a.size(), k.data.size());
      if (k.reserves > r0)
        CHECK_PROP(k.data.size() <= k.last_reserve_end, "%zu bytes written after announcing %zu", k.data.size() - before,
                   k.last_reserve_end - before);
    }
    part.clear();
    ok &= e1.FinishEncoding(&a) & e2.FinishEncodingToInterface(&k) & e3.FinishEncoding(&p) & e4.FinishEncoding(&part);
    all += part;
    CHECK_PROP(ok, "encoding failed");
    if (s.Chance(1, 3)) refused(target, s.Flip(), "after FinishEncoding");
    CHECK_PROP(a == k.data && a == p.str(), "different sinks received different bytes");
    CHECK_PROP(a == pre + all, "an output emptied after every call receives other bytes");
    CHECK_PROP(a.compare(0, pre.size(), pre) == 0, "earlier contents of the output changed");
    CHECK_PROP(k.clears == 0, "the streaming encoder cleared its output");
    VCDiffEncoder o1(dict.data(), dict.size()), o3(dict.data(), dict.size());
    o1.SetFormatFlags((VCDiffFormatExtensionFlags)flags);
    o3.SetFormatFlags((VCDiffFormatExtensionFlags)flags);
    o1.SetTargetMatching(tm);
    o3.SetTargetMatching(tm);
    Bytes x = pre;
    Pieces y;
    y.append("zzz", 3);
    CHECK_PROP(o1.Encode(target.data(), target.size(), &x) && o3.Encode(target.data(), target.size(), &y), "one-shot encode failed");
    CHECK_PROP(x == y.str(), "one-shot encoder: different sinks, different bytes");
    {  // The same one-shot encoders again, now with something else in the output.
      const Bytes first = x;
      const size_t cut = s.Below(target.size() + 1);
      if (s.Flip()) x = pre + "earlier";
      Pieces z;
      z.append("qq", 2);
      CHECK_PROP(o1.Encode(target.data(), cut, &x) && o3.Encode(target.data(), cut, &z), "one-shot encode failed");
      CHECK_PROP(x == z.str(), "one-shot encoder, second use: different sinks, different bytes (%zu vs %zu)", x.size(), z.size());
      VCDiffEncoder fresh(dict.data(), dict.size());
      fresh.SetFormatFlags((VCDiffFormatExtensionFlags)flags);
      fresh.SetTargetMatching(tm);
      Bytes f;
      CHECK_PROP(fresh.Encode(target.data(), cut, &f), "one-shot encode failed");
      CHECK_PROP(x == f, "one-shot encoder, second use: output is not replaced by what a new encoder writes (%zu vs %zu bytes)",
                 x.size(), f.size());
      CHECK_PROP(o1.Encode(target.data(), target.size(), &x) && o3.Encode(target.data(), target.size(), &y), "one-shot encode failed");
      CHECK_PROP(x == first && y.str() == first, "one-shot encoder does not replace the output when it is used again");
    }
    c.sub_evaluations += 2;
    c.Label("encode");
    c.nontrivial = ch.size() >= 2 && target.size() >= 32;
    return;
  }
  GenDeltaOpts o = TieredDelta(s, true);
  if (s.Flip()) { o.want_version = 'S'; o.force_interleaved = s.Chance(3, 4) ? 1 : -1; }
  const bool allow_target = s.Flip();
  o.allow_target_windows = allow_target;
  GenDelta g = GenValidDelta(s, o);
  c.Desc("decode allow_target=" + std::to_string(allow_target) + " " + DescribeDelta(g));
  std::vector<size_t> ch = GenChunks(s, g.delta.size());
  VCDiffStreamingDecoder d1, d2, d3, d4;
  for (VCDiffStreamingDecoder* d : {&d1, &d2, &d3, &d4}) {
    d->SetAllowVcdTarget(allow_target);
    d->StartDecoding(g.dict.data(), g.dict.size());
  }
  Bytes pre = Fill(9, s.Below(30), 256, 0);
  Bytes a = pre;
  CountingSink k;
  k.data = pre;
  k.cap = pre.size();
  Pieces p;
  p.append(pre.data(), pre.size());
  size_t pos = 0, partial = 0;
  Bytes all, part;
  for (size_t n : ch) {
    const size_t r0 = k.reserves;
    bool ok = d1.DecodeChunk(g.delta.data() + pos, n, &a);
    ok &= d2.DecodeChunkToInterface(g.delta.data() + pos, n, &k);
    ok &= d3.DecodeChunk(g.delta.data() + pos, n, &p);
    part.clear();
    ok &= d4.DecodeChunk(g.delta.data() + pos, n, &part);
    all += part;
    pos += n;
    CHECK_PROP(ok, "well-formed delta rejected");
    CHECK_PROP(a == k.data, "sinks differ after a call: %zu vs %zu bytes", a.size(), k.data.size());
    // Windows of which something was received (a header is enough to know how
    // much room the window needs), and the last one with output in the sink.
    const size_t have = k.data.size() - pre.size();
    size_t wins = 0, end = 0;
    bool mid = false;
    for (size_t i = 0; i < g.target_end.size(); ++i) {
      const size_t st = i ? g.target_end[i - 1] : 0;
      if (g.target_end[i] == st) continue;
      if ((i ? g.window_end[i - 1] : g.header_end) < pos) ++wins;
      if (st < have) {
        end = g.target_end[i];
        mid = have < end;
      }
    }
    CHECK_PROP(k.growths <= wins, "the output was resized %zu times for %zu windows", k.growths, wins);
    if (mid) ++partial;
    if (k.reserves > r0 && have)
      CHECK_PROP(k.last_reserve_end >= pre.size() + end, "reservation to %zu bytes, but the current window ends at %zu",
                 k.last_reserve_end, pre.size() + end);
  }
  CHECK_PROP(d1.FinishDecoding() & d2.FinishDecoding() & d3.FinishDecoding() & d4.FinishDecoding(), "FinishDecoding failed");
  CHECK_PROP(a == pre + all, "an output emptied after every call receives other bytes");
  CHECK_PROP(a == k.data && a == p.str(), "different sinks received different bytes");
  CHECK_PROP(a == pre + g.target, "output is not the earlier contents followed by the target");
  CHECK_PROP(k.clears == 0, "the streaming decoder cleared its output");
  // One-shot.
  Bytes x = pre;
  Pieces y;
  y.append("zzz", 3);
  Pieces z;
  z.append("qq", 2);
  if (allow_target) {
    VCDiffDecoder q1, q2;
    CHECK_PROP(q1.Decode(g.dict.data(), g.dict.size(), g.delta, &x) && q2.Decode(g.dict.data(), g.dict.size(), g.delta, &y),
               "one-shot decode failed");
    CHECK_PROP(x == g.target && y.str() == g.target, "one-shot decoder does not replace the output with the target");
    if (s.Flip()) x += "more";
    CHECK_PROP(q1.Decode(g.dict.data(), g.dict.size(), g.delta, &x) &&
               q2.Decode(g.dict.data(), g.dict.size(), g.delta, &z), "one-shot decode failed the second time");
    CHECK_PROP(x == g.target && z.str() == g.target, "one-shot decoder does not replace the output when it is used again");
  }
  c.sub_evaluations += 2;
  c.Label("decode");
  if (partial) c.Label("mid_window_output");
  c.nontrivial = g.target.size() > 1 && ch.size() >= 2;
}

// ---- C19 --------------------------------------------------------------------
#ifndef VERIF_WORK
WorkCount WorkNow() { return WorkCount(); }
bool WorkEnabled() { return false; }
#endif

namespace {
// Blocks of 16 bytes whose polynomial hashes (base 257) agree in the low 23
// bits: an adversary's dictionary.
Bytes CollidingBlocks(uint64_t seed, size_t blocks, unsigned want) {
  Bytes r;
  for (size_t i = 0; i < blocks; ++i) {
    Bytes b = Fill(Mix(seed, i), 16, 256, 0);
    uint64_t h = 0;
    for (int k = 0; k < 13; ++k) h = h * 257 + (unsigned char)b[k];
    h = h * 257 * 257 * 257;
    uint64_t x = (want - h) & 0x7fffff;
    if (x % 257 == 256 || x / 257 % 257 == 256) x += 0x800000;
    b[13] = (char)(x / (257 * 257));
    b[14] = (char)(x / 257 % 257);
    b[15] = (char)(x % 257);
    r += b;
  }
  return r;
}
unsigned BlockValue(const Bytes& b) {
  uint64_t h = 0;
  for (int k = 0; k < 16; ++k) h = h * 257 + (unsigned char)b[k];
  return (unsigned)(h & 0x7fffff);
}

Bytes Adversarial(Source& s, size_t n, std::string* what) {
  Bytes r;
  switch (s.Pick({2, 3, 3, 2, 2, 1})) {
    case 0: r.assign(n, (char)s.Below(3)); *what += " run"; break;
    case 1: {
      size_t per = s.Flip() ? 16 * (1 + s.Below(4)) : 1 + s.Below(70);
      Bytes u = Fill(s.Raw(), per, s.Flip() ? 2 : 256, 'a');
      while (r.size() < n) r += u;
      *what += " period" + std::to_string(per);
      break;
    }
    case 2: {  // long runs broken by single bytes
      size_t gap = 1 + (s.Flip() ? s.Below(40) : s.Below(600));
      uint64_t seed = s.Raw();
      for (size_t i = 0; r.size() < n; ++i) {
        r.append(gap, 'a');
        r.push_back((char)('b' + (Mix(seed, i) % (s.Chance(0, 1) ? 1 : 20))));
      }
      *what += " broken" + std::to_string(gap);
      break;
    }
    case 3: r = CollidingBlocks(s.Raw(), n / 16 + 1, (unsigned)s.Below(0x800000)); *what += " colliding"; break;
    case 4: {  // 17..31-byte pieces: long enough for a block, too short for a copy
      Bytes u = Fill(s.Raw(), 31, s.Flip() ? 1 : 256, 'a');
      uint64_t seed = s.Raw();
      size_t len = 16 + s.Below(16);
      for (size_t i = 0; r.size() < n; ++i) {
        r += u.substr(0, len);
        r += Fill(Mix(seed, i), 1 + s.Below(1) , 256, 0);
      }
      *what += " short-matches" + std::to_string(len);
      break;
    }
    default: r = Fill(s.Raw(), n, s.Flip() ? 2 : 256, 'a'); *what += " random"; break;
  }
  r.resize(n);
  return r;
}
// Limits, with head room of four or more over the largest value seen in long
// searches on the unchanged tree (see DESIGN.md).  For adversarial input the
// encoder may try 64 candidates of up to 31 bytes at each position, twice with
// target matching; for unrepetitive input it needs a few steps per byte.
const double kEncodeEdgesPerByte = 6000, kEncodeBytesPerByte = 6000, kEncodePerCall = 6000;
const double kInitEdgesPerByte = 40, kInitBytesPerByte = 60;
const double kPlainEdgesPerByte = 45, kPlainBytesPerByte = 30;
const double kDecodeEdgesPerByte = 8, kDecodeEdgesPerWindow = 6000, kDecodeEdgesPerCall = 4000;
const double kDecodeBytesPerByte = 15, kDecodeBytesPerWindow = 4000, kDecodeBytesPerCall = 4000;
}  // namespace

void prop_C19(Source& s, Ctx& c) {
  if (!WorkEnabled()) throw Discard();
  std::string what;
  size_t n = c.thorough ? 60000 + s.Below(200000) : 20000 + s.Below(60000);
  if (s.Chance(1, 300)) { n = 300000 + s.Below(200000); c.Label("large"); }
  if (s.Chance(2, 3)) {
    Bytes dict, target, delta;
    // Unrepetitive dictionary and target: every piece of the target occurs at
    // most once in the dictionary and once in the target.
    const bool plain = s.Chance(1, 3);
    bool crowded = false;
    size_t dn = s.Pick({3, 1}) ? s.Below(200) : n, tn = s.Chance(1, 4) ? n / 8 : n;
    if (s.Chance(1, 25)) { dn = 130000 + s.Below(400000); tn = 500 + s.Below(4000); c.Label("large_dictionary"); }
    what = plain ? "plain" : "dict:";
    dict = plain ? Fill(s.Raw(), dn, 256, 0) : Adversarial(s, dn, &what);
    what += " target:";
    if (plain) {
      const size_t lit = 1 + s.Len(3000), cp = s.Flip() ? 1 + s.Below(40) : s.Len(3000);
      const uint64_t seed = s.Raw();
      size_t from = 0;
      for (size_t i = 0; target.size() < tn; ++i) {
        target += Fill(Mix(seed, i), 1 + Mix(seed, i + 77) % lit, 256, 0);
        const size_t k = std::min(dict.size() - from, cp);
        target += dict.substr(from, k);
        from += k + Mix(seed, i + 99) % 50;
        if (from > dict.size()) from = dict.size();
      }
      target.resize(tn);
      what += " lit<=" + std::to_string(lit) + " copy=" + std::to_string(cp);
    } else if (s.Chance(1, 6)) {
      // Every position of the target (runs, with short breaks) falls into the
      // one crowded place of the dictionary's hash table.
      const char x = (char)s.Below(128);
      dict = CollidingBlocks(s.Raw(), dn / 16 + 1, BlockValue(Bytes(16, x)));
      const size_t gap = s.Flip() ? tn : 17 + s.Below(60);
      for (size_t i = 0; target.size() < tn; ++i) { target.append(gap, x); target.push_back((char)(x + 1 + i % 100)); }
      target.resize(tn);
      what += " crowded";
      c.Label("crowded_slot");
      crowded = true;
    } else switch (s.Pick({3, 2, 2})) {
      case 0: target = Adversarial(s, tn, &what); break;
      case 1: {  // pieces of the dictionary, broken up
        size_t len = s.Flip() ? 16 + s.Below(16) : 1 + s.Below(500);
        uint64_t seed = s.Raw();
        for (size_t i = 0; target.size() < tn; ++i) {
          uint64_t h = Mix(seed, i);
          if (!dict.empty()) target += dict.substr(h % dict.size(), len);
          target.push_back((char)(h >> 40));
        }
        what += " dict-pieces" + std::to_string(len);
        break;
      }
      default: {  // the dictionary shifted by a few bytes, repeated
        while (target.size() < tn) { target += dict.substr(std::min<size_t>(dict.size(), s.Below(20))); target += Fill(s.Raw(), 1 + s.Below(20), 256, 0); if (dict.size() < 100) target += dict + Fill(s.Raw(), 50, 256, 0); }
        target.resize(tn);
        what += " shifted";
        break;
      }
    }
    EncodeOpts eo;
    eo.flags = (int)s.Below(4);
    if (s.Chance(1, 6)) {
      eo.flags = 4;
      for (auto& x : dict) x = (char)(x & 127);
      for (auto& x : target) x = (char)(x & 127);
      what += " json";
      c.Label("json");
    }
    eo.target_matching = s.Chance(2, 3) && !(crowded && s.Flip());
    std::vector<size_t> ch(1, target.size());
    if (s.Chance(1, 4)) {
      ch.clear();
      size_t step = 1 + s.Len(20000);
      for (size_t p = 0; p < target.size(); p += step) ch.push_back(std::min(step, target.size() - p));
    }
    HashedDictionary* hd;
    WorkCount w0 = WorkNow();
    hd = new HashedDictionary(dict.data(), dict.size());
    bool ok = hd->Init();
    const WorkCount wi = WorkNow();
    {
      VCDiffStreamingEncoder e(hd, (VCDiffFormatExtensionFlags)eo.flags, eo.target_matching);
      ok &= e.StartEncoding(&delta);
      size_t p = 0;
      for (size_t k : ch) { ok &= e.EncodeChunk(target.data() + p, k, &delta); p += k; }
      ok &= e.FinishEncoding(&delta);
    }
    delete hd;
    WorkCount w1 = WorkNow();
    CHECK_PROP(ok, "encoding failed");
    // Each byte of the target costs a bounded search; the dictionary may be
    // looked through once per stream.
    const double size = (double)target.size() + 100, once = 40 * (double)dict.size();
    const double edges = (double)(w1.edges - wi.edges), bytes = (double)(w1.bytes - wi.bytes);
    const double calls = (double)ch.size();
    const double iedges = (double)(wi.edges - w0.edges), ibytes = (double)(wi.bytes - w0.bytes);
    CHECK_PROP(iedges <= kInitEdgesPerByte * (double)dict.size() + kEncodePerCall && ibytes <= kInitBytesPerByte * (double)dict.size() + kEncodePerCall,
               "hashing a dictionary of %zu bytes executed %.0f basic blocks and moved %.0f bytes; limits %.0f and %.0f per byte",
               dict.size(), iedges, ibytes, kInitEdgesPerByte, kInitBytesPerByte);
    c.Desc("encode " + what + " dict=" + std::to_string(dict.size()) + " target=" + std::to_string(target.size()) +
           " calls=" + std::to_string(ch.size()) + " tm=" + std::to_string(eo.target_matching) + " edges/byte=" +
           std::to_string(edges / size) + " moved/byte=" + std::to_string(bytes / size));
    c.Label("encode");
    char t[40];
    int lg = 0;
    while ((1u << lg) < edges / size) ++lg;
    snprintf(t, sizeof t, "encode_edges_per_byte<=2^%d", lg);
    c.Label(t);
    const double json = eo.flags & 4 ? 2 : 1;
    const double le = plain ? kPlainEdgesPerByte * json : kEncodeEdgesPerByte, lb = plain ? kPlainBytesPerByte * json : kEncodeBytesPerByte;
    if (plain) c.Label("plain");
    CHECK_PROP(edges <= le * size + kEncodePerCall * calls + once,
               "encoding %zu+%zu bytes in %zu calls executed %.0f basic blocks (%.0f per byte); limit %.0f per byte", dict.size(),
               target.size(), ch.size(), edges, edges / size, le);
    CHECK_PROP(bytes <= lb * size + kEncodePerCall * calls + once,
               "encoding %zu+%zu bytes in %zu calls moved/compared %.0f bytes (%.0f per byte)", dict.size(), target.size(),
               ch.size(), bytes, bytes / size);
    c.nontrivial = true;
    return;
  }
  // Decoding.
  GenDeltaOpts o;
  o.custom_table = false;
  Bytes dict, delta, target;
  size_t nwin = 0;
  double cache_cells = 0;
  bool uses_target = false;
  std::vector<size_t> units;  // lengths of what must arrive before it can be decoded
  auto unit = [&](const BuildWindow& w, size_t bytes) {
    ++nwin;
    if (w.kind == 2) uses_target = true;
    if (!w.interleaved) { units.push_back(bytes); return; }
    for (auto& i : w.insts) units.push_back(10 + i.data.size());
  };
  if (s.Flip()) {
    o = TieredDelta(s, true);
    if (s.Flip()) { o.max_dict = 100; o.max_window = 30; o.max_windows = 2000; o.avg_windows = 500; }
    else if (s.Chance(1, 4)) { o.custom_table = true; c.Label("custom_table"); }
    GenDelta g = GenValidDelta(s, o);
    dict = g.dict; delta = g.delta; target = g.target;
    for (size_t i = 0; i < g.windows.size(); ++i)
      unit(g.windows[i], g.window_end[i] - (i ? g.window_end[i - 1] : g.header_end));
    if (o.custom_table) {  // the embedded table, and caches cleared for each window
      ++nwin;
      units.push_back(g.header_end);
      cache_cells = g.opts.near + 256.0 * g.opts.same;
    }
    what = "built windows=" + std::to_string(g.windows.size());
  } else {
    // Many windows, each with a segment of everything decoded before.
    BuildOpts bo;
    bo.version = s.Flip() ? 'S' : 0;
    delta = FileHeader(bo.version, 0);
    dict = Adversarial(s, 1 + s.Below(20000), &what);
    const int kind = s.Pick({1, 1, 1});
    const size_t wins = 1 + s.Len(3000);
    const size_t per = 1 + s.Len(60);
    for (size_t i = 0; i < wins; ++i) {
      BuildWindow w;
      w.interleaved = bo.version == 'S' && (i & 1);
      w.kind = kind == 2 && target.empty() ? 0 : kind;
      if (w.kind == 1) w.seg_len = dict.size();
      if (w.kind == 2) w.seg_len = target.size();
      BuildInst bi;
      bi.type = R_ADD; bi.data = Fill(i, 1 + i % 3, 256, 0); bi.size = bi.data.size();
      w.insts.push_back(bi);
      for (size_t k = 0; k < per; ++k) {
        bi.type = R_COPY; bi.data = ""; bi.size = 1 + (k * 7 + i) % 9;
        bi.addr = (int64_t)(Mix(i, k) % (w.seg_len + 1));
        w.insts.push_back(bi);
      }
      if (s.Chance(1, 20)) { bi.type = R_RUN; bi.size = 1 + s.Len(3000); bi.data = "r"; w.insts.push_back(bi); }
      if (target.size() + delta.size() > 400000) break;
      const size_t was = delta.size();
      BuildWindowBytes(s, dict, bo, w, &target, &delta, nullptr);
      unit(w, delta.size() - was);
    }
    what += " windows=" + std::to_string(wins) + " kind=" + std::to_string(kind) + " insts=" + std::to_string(per);
  }
  // Pieces.  A window (interleaved: an instruction) that is not complete yet is
  // kept and looked at again with every piece, which `again` accounts for.
  std::vector<size_t> ch;
  size_t piece = delta.size();
  switch (s.Pick({2, 2, 2})) {
    case 0: break;
    case 1: piece = std::max<size_t>(1, delta.size() / (1 + s.Below(16))); break;
    default: piece = 1 + s.Len(300); break;
  }
  double again = 0;
  for (int tries = 0; tries < 20; ++tries, piece *= 2) {
    again = 0;
    for (size_t u : units) again += (double)u * ((double)u / (double)std::max<size_t>(1, piece));
    if (again < 2e6) break;
  }
  for (size_t p = 0; p < delta.size(); p += piece) ch.push_back(std::min(piece, delta.size() - p));
  const bool allow = uses_target || s.Flip();
  Bytes out;
  WorkCount w0 = WorkNow();
  bool ok = true;
  {
    VCDiffStreamingDecoder d;
    d.SetAllowVcdTarget(allow);
    d.StartDecoding(dict.data(), dict.size());
    size_t p = 0;
    for (size_t k : ch) { ok = ok && d.DecodeChunk(delta.data() + p, k, &out); p += k; }
    ok = ok && d.FinishDecoding();
  }
  WorkCount w1 = WorkNow();
  CHECK_PROP(ok && out == target, "decoding failed");
  const double size = (double)(delta.size() + target.size()) + 100;
  const double edges = (double)(w1.edges - w0.edges), bytes = (double)(w1.bytes - w0.bytes);
  c.Desc("decode " + what + " delta=" + std::to_string(delta.size()) + " target=" + std::to_string(target.size()) +
         " calls=" + std::to_string(ch.size()) + " edges/byte=" + std::to_string(edges / size) + " moved/byte=" +
         std::to_string(bytes / size));
  c.Label("decode");
  char t[40];
  int lg = 0;
  while ((1u << lg) < edges / size) ++lg;
  snprintf(t, sizeof t, "decode_edges_per_byte<=2^%d", lg);
  c.Label(t);
  const double calls = (double)ch.size(), wins = (double)nwin;
  // Checking an embedded table is a constant per stream; the address caches of
  // its sizes (up to 255 NEAR and 255*256 SAME entries) start afresh in each window.
  const double once_e = o.custom_table ? 8e6 + 5 * cache_cells * wins : 0, once_b = o.custom_table ? 4e6 + 16 * cache_cells * wins : 0;
  CHECK_PROP(edges <= kDecodeEdgesPerByte * size + kDecodeEdgesPerWindow * wins + kDecodeEdgesPerCall * calls + once_e,
             "decoding %zu bytes in %zu windows to %zu bytes in %zu calls executed %.0f basic blocks", delta.size(), nwin,
             target.size(), ch.size(), edges);
  CHECK_PROP(bytes <= kDecodeBytesPerByte * (size + again) + kDecodeBytesPerWindow * wins + kDecodeBytesPerCall * calls + once_b,
             "decoding %zu bytes in %zu windows to %zu bytes in %zu calls moved %.0f bytes", delta.size(), nwin, target.size(),
             ch.size(), bytes);
  c.nontrivial = target.size() > 1000;
}

// ---- registry -----------------------------------------------------------------
const std::vector<PropDef>& AllProps() {
  static const std::vector<PropDef> v = {
      {"C01", prop_C01,
       "dictionary and target from segment generators (literals, runs, periodic data, exact/mutated dictionary slices, "
       "self-repeats), random flags, target matching and chunking; non-trivial: the delta contains at least one COPY",
       20000, 25},
      {"C02", prop_C02,
       "well-formed deltas built instruction by instruction with random opcodes, address modes, pairings, segments and "
       "layouts; non-trivial: at least one non-empty COPY and a non-empty target",
       30000, 25},
      {"C03", prop_C03,
       "valid, edited, mutated, truncated and arbitrary deltas, decoded whole and in several chunkings (all two-way "
       "splits and byte-by-byte for small ones); non-trivial: more than one chunking compared on a delta with a window body",
       30000, 25},
      {"C04", prop_C04,
       "valid deltas edited structurally with consistent lengths, mutated, truncated, nested tables or arbitrary bytes, "
       "verdict and output compared with the reference decoder; non-trivial: header accepted by the reference",
       60000, 30},
      {"C05", prop_C05, "deltas decoded under limits at, just below and just above their window and total sizes; non-trivial: "
                        "a limit within 2 of an actual size was tried",
       20000, 25},
      {"C06", prop_C06,
       "checksummed deltas from the encoder and the builder, then damaged in literals, dictionary, addresses, "
       "instructions or checksum; non-trivial: the reference found a checksum mismatch in at least one damaged variant",
       20000, 25},
      {"C07", prop_C07,
       "histories of streams (valid, failing, abandoned, custom tables, misordered calls, settings) on one decoder, each "
       "compared with a fresh decoder; non-trivial: at least two streams after a failure or custom table",
       20000, 25},
      {"C08", prop_C08, "encoder output parsed by the strict reference; non-trivial: it contains at least one COPY", 20000, 25},
      {"C09", prop_C09,
       "interleaved histories of 1-3 streaming encoders over one hashed dictionary with misordered calls, compared "
       "stream by stream with fresh objects; non-trivial: a finished stream and at least two encoded chunks",
       30000, 25},
      {"C10", prop_C10,
       "ASCII dictionaries/targets encoded to JSON (streaming, one-shot, reused, writer driven directly), strictly parsed "
       "and applied; non-trivial: strings and copies both occur",
       30000, 25},
      {"C11", prop_C11,
       "2-6 threads with random encode/decode jobs over one hashed dictionary in a fresh process under ThreadSanitizer, "
       "compared with sequential runs; non-trivial: at least two threads encode through the shared dictionary",
       6000, 30},
      {"C12", prop_C12,
       "random valid tables and cache sizes (decoder, writer, encoder) and damaged ones judged by the reference; "
       "non-trivial: a table case was judged, or the writer was given more than one instruction",
       30000, 25},
      {"C13", prop_C13, "command-line encode/decode/test over files and pipes with random options; non-trivial: non-empty target",
       4000, 35},
      {"C14", prop_C14, "command-line runs with one injected fault each; non-trivial: the fault makes success impossible",
       4000, 35},
      {"C15", prop_C15,
       "deltas with and without earlier-target windows decoded with the switch on and off; non-trivial: an earlier-target "
       "window is present",
       30000, 25},
      {"C16", prop_C16,
       "well-formed deltas fed piece by piece with the output compared to the reference prefix after each call, and cut "
       "at random points; non-trivial: at least two windows or an interleaved window",
       30000, 25},
      {"C17", prop_C17,
       "random dictionaries with planted slices (or self-repeats) between separators; literal runs of the delta are "
       "compared with the planting; non-trivial: a planted slice of 32 bytes or more",
       20000, 25},
      {"C18", prop_C18,
       "encode/decode into std::string, a deque-backed string and a counting sink; non-trivial: at least two calls and a "
       "non-empty target",
       30000, 20},
      {"C19", prop_C19,
       "adversarial (periodic, broken-run, hash-colliding, short-match) inputs; basic blocks executed and bytes moved by "
       "the library are counted deterministically; non-trivial: an input of more than 1000 bytes was measured",
       4000, 35},
      {"C20", prop_C20,
       "histories of encoders, decoders and dictionaries (valid, failing, abandoned, refused, custom tables, JSON) with every heap "
       "block accounted for, and peak memory of long streams; non-trivial: at least two streams, or a stream at least four times "
       "larger than its largest piece",
       30000, 25},
      {"C21", prop_C21,
       "histories of a streaming encoder with a caller-supplied writer that records every call and may refuse dictionary or "
       "chunks; non-trivial: at least one COPY and one ADD recorded",
       30000, 25},
  };
  return v;
}
