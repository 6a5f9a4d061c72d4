// C13 command-line round trips, C14 command-line failures.
// Every file the tool can touch lies in the case's private scratch directory.
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <set>
#include "props.h"

namespace {
double Now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

// A size limit: mostly right at n, sometimes far above any 32-bit value.
uint64_t LimitAround(Source& s, uint64_t n) {
  static const uint64_t kWide[] = {0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x100000001ull,
                                   0x200000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull};
  if (s.Chance(1, 4)) return kWide[s.Below(sizeof kWide / sizeof *kWide)];
  const uint64_t d = s.Below(3);
  return n + d == 0 ? 0 : n + d - 1;
}

void WriteFile(const std::string& p, const Bytes& b) {
  FILE* f = fopen(p.c_str(), "wb");
  if (!f) throw Discard();
  if (!b.empty() && fwrite(b.data(), 1, b.size(), f) != b.size()) { fclose(f); throw Discard(); }
  fclose(f);
}
bool ReadFile(const std::string& p, Bytes* b) {
  b->clear();
  FILE* f = fopen(p.c_str(), "rb");
  if (!f) return false;
  char buf[65536];
  size_t n;
  while ((n = fread(buf, 1, sizeof buf, f)) > 0) b->append(buf, n);
  fclose(f);
  return true;
}

enum { IN_NULL, IN_FILE, IN_PIPE, IN_CLOSED };
enum { OUT_NULL, OUT_FILE, OUT_PIPE, OUT_CLOSED, OUT_BROKEN };

struct CliRun {
  std::vector<std::string> args;
  int in = IN_NULL, out = OUT_NULL;
  std::string in_path, out_path;
  Bytes in_data;            // IN_PIPE
  size_t pipe_piece = 0;    // writes of this size into the pipe (0: large)
  long fsize = -1;          // RLIMIT_FSIZE
  bool ignore_sigpipe = false;
  std::string shim, swap, mark;  // see shim.c
  std::string err_path;     // where standard error goes, if anywhere
  // results
  int code = -1, sig = 0;
  bool timeout = false;
  Bytes captured;           // OUT_PIPE
  bool Ok() const { return !timeout && sig == 0 && code == 0; }
  std::string Cmd() const {
    std::string r = "vcdiff";
    for (auto& a : args) r += " " + a;
    static const char* in_n[] = {"</dev/null", "<file", "<pipe", "<&-"};
    static const char* out_n[] = {">/dev/null", ">file", ">pipe", ">&-", "> broken pipe"};
    r += std::string(" ") + in_n[in] + (in == IN_FILE ? ":" + in_path : "") + " " + out_n[out] +
         (out == OUT_FILE ? ":" + out_path : "");
    if (fsize >= 0) r += " RLIMIT_FSIZE=" + std::to_string(fsize);
    if (!shim.empty()) r += " VERIF_SHIM=" + shim;
    return r;
  }
  std::string Result() const {
    if (timeout) return "did not terminate";
    if (sig) return "killed by signal " + std::to_string(sig);
    return "exit status " + std::to_string(code);
  }
};

// The preloaded fault injector (only built for the "fast" flavour).
std::string ShimPath(const Ctx& c) {
  size_t p = c.vcdiff.rfind('/');
  return p == std::string::npos ? "" : c.vcdiff.substr(0, p) + "/../libshim.so";
}
bool HaveShim(const Ctx& c) {
  static const bool have = access(ShimPath(c).c_str(), R_OK) == 0;
  return have && c.dbg_build;
}

void Exec(const Ctx& c, CliRun* r) {
  int inp[2] = {-1, -1}, outp[2] = {-1, -1};
  if (r->in == IN_PIPE && pipe2(inp, O_CLOEXEC)) throw Discard();
  if ((r->out == OUT_PIPE || r->out == OUT_BROKEN) && pipe2(outp, O_CLOEXEC)) throw Discard();
  std::vector<char*> av;
  av.push_back(const_cast<char*>(c.vcdiff.c_str()));
  for (auto& a : r->args) av.push_back(const_cast<char*>(a.c_str()));
  av.push_back(nullptr);
  pid_t pid = fork();
  if (pid < 0) throw Discard();
  if (pid == 0) {
    int n = open("/dev/null", O_RDWR);
    auto to = [](int fd, int want) {
      if (fd < 0) _exit(120);
      if (fd != want) { dup2(fd, want); close(fd); }
    };
    if (r->err_path.empty()) dup2(n, 2);
    else to(open(r->err_path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), 2);
    switch (r->in) {
      case IN_NULL: dup2(n, 0); break;
      case IN_FILE: to(open(r->in_path.c_str(), O_RDONLY), 0); break;
      case IN_PIPE: dup2(inp[0], 0); break;
      case IN_CLOSED: close(0); break;
    }
    switch (r->out) {
      case OUT_NULL: dup2(n, 1); break;
      case OUT_FILE: to(open(r->out_path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), 1); break;
      case OUT_PIPE: case OUT_BROKEN: dup2(outp[1], 1); break;
      case OUT_CLOSED: close(1); break;
    }
    if (n > 2) close(n);
    signal(SIGPIPE, r->ignore_sigpipe ? SIG_IGN : SIG_DFL);
    if (r->fsize >= 0) {
      signal(SIGXFSZ, SIG_IGN);
      rlimit l = {(rlim_t)r->fsize, (rlim_t)r->fsize};
      setrlimit(RLIMIT_FSIZE, &l);
    }
    if (!r->shim.empty()) {
      setenv("LD_PRELOAD", ShimPath(c).c_str(), 1);
      setenv("VERIF_SHIM", r->shim.c_str(), 1);
      setenv("VERIF_SHIM_SWAP", r->swap.c_str(), 1);
      setenv("VERIF_SHIM_MARK", r->mark.c_str(), 1);
    }
    rlimit cpu = {20, 25}, core = {0, 0};
    setrlimit(RLIMIT_CPU, &cpu);
    setrlimit(RLIMIT_CORE, &core);
    execv(av[0], av.data());
    _exit(121);
  }
  pid_t wr = -1;
  if (r->in == IN_PIPE) {
    close(inp[0]);
    wr = fork();
    if (wr == 0) {
      signal(SIGPIPE, SIG_DFL);
      if (outp[0] >= 0) close(outp[0]);
      if (outp[1] >= 0) close(outp[1]);
      size_t p = 0, piece = r->pipe_piece ? r->pipe_piece : 65536;
      while (p < r->in_data.size()) {
        ssize_t k = write(inp[1], r->in_data.data() + p, std::min(piece, r->in_data.size() - p));
        if (k <= 0) break;
        p += (size_t)k;
      }
      _exit(0);
    }
    close(inp[1]);
  }
  if (outp[1] >= 0) close(outp[1]);
  const double end = Now() + 60;
  if (r->out == OUT_BROKEN) close(outp[0]);
  if (r->out == OUT_PIPE) {
    char buf[65536];
    for (;;) {
      pollfd pf = {outp[0], POLLIN, 0};
      int k = poll(&pf, 1, 1000);
      if (k > 0) {
        ssize_t m = read(outp[0], buf, sizeof buf);
        if (m <= 0) break;
        r->captured.append(buf, (size_t)m);
      }
      if (Now() > end) break;
    }
    close(outp[0]);
  }
  int st = 0;
  useconds_t nap = 100;
  for (;;) {
    pid_t w = waitpid(pid, &st, WNOHANG);
    if (w == pid) break;
    if (Now() > end) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      r->timeout = true;
      break;
    }
    usleep(nap);
    if (nap < 5000) nap *= 2;
  }
  if (wr > 0) { int x; kill(wr, SIGKILL); waitpid(wr, &x, 0); }
  if (WIFSIGNALED(st)) r->sig = WTERMSIG(st);
  else r->code = WEXITSTATUS(st);
  if (r->sig == SIGXCPU || r->sig == SIGKILL) r->timeout = true;
  if (r->code == 120 || r->code == 121) throw Discard();
  CHECK_PROP(!r->timeout, "%s: did not terminate", r->Cmd().c_str());
  CHECK_PROP(r->sig != SIGSEGV && r->sig != SIGBUS && r->sig != SIGILL && r->sig != SIGFPE && r->code != 99,
             "%s: %s (memory error or undefined behaviour)", r->Cmd().c_str(), r->Result().c_str());
}

std::string Num(uint64_t v) { return std::to_string(v); }

// A flag in one of the spellings gflags documents.
void Flag(Source& s, CliRun* r, const std::string& name, const std::string& value) {
  const char* dash = s.Flip() ? "-" : "--";
  if (s.Flip()) r->args.push_back(dash + name + "=" + value);
  else { r->args.push_back(dash + name); r->args.push_back(value); }
}
void BoolFlag(Source& s, CliRun* r, const std::string& name, bool v) {
  const char* dash = s.Flip() ? "-" : "--";
  if (s.Flip()) r->args.push_back(dash + name + (v ? "=true" : "=false"));
  else r->args.push_back(dash + (v ? name : "no" + name));
}
void Command(Source& s, CliRun* r, const char* a, const char* b) {
  const char* w = b && s.Flip() ? b : a;
  if (s.Flip()) r->args.insert(r->args.begin(), w);
  else r->args.push_back(w);
}

struct CliOpts {
  bool checksum = false, interleaved = false, json = false, tm = false, stats = false;
  uint64_t buffersize = 0;  // 0: default
  int flags() const { return (interleaved ? 1 : 0) | (checksum ? 2 : 0) | (json ? 4 : 0); }
};

void AddEncodeFlags(Source& s, CliRun* r, const CliOpts& o) {
  if (o.checksum || s.Chance(1, 6)) BoolFlag(s, r, "checksum", o.checksum);
  if (o.interleaved || s.Chance(1, 6)) BoolFlag(s, r, "interleaved", o.interleaved);
  if (o.json) BoolFlag(s, r, "json", true);
  if (o.tm || s.Chance(1, 6)) BoolFlag(s, r, "target_matches", o.tm);
  if (o.stats) BoolFlag(s, r, "stats", true);
  if (o.buffersize) Flag(s, r, "buffersize", Num(o.buffersize));
}

// -stats reports the sizes: both numbers are among those printed.
void CheckStats(const CliRun& r, size_t original, size_t compressed) {
  Bytes e;
  CHECK_PROP(ReadFile(r.err_path, &e), "no standard error");
  std::set<std::string> nums;
  for (size_t i = 0; i < e.size();) {
    size_t j = i;
    while (j < e.size() && isdigit((unsigned char)e[j])) ++j;
    if (j > i) nums.insert(e.substr(i, j - i));
    i = j + 1;
  }
  CHECK_PROP(nums.count(Num(original)) && nums.count(Num(compressed)),
             "%s: -stats does not report the sizes %zu and %zu but: %s", r.Cmd().c_str(), original, compressed, e.substr(0, 200).c_str());
}

uint64_t GenBuffer(Source& s, size_t size) {
  if (s.Chance(1, 40)) return (2 << 20) + s.Len(80 << 20);
  switch (s.Pick({3, 2, 2, 1, 1})) {
    case 0: return 0;
    case 1: return 1 + s.Below(40) + size / 64;
    case 2: return std::max<uint64_t>(1, size + s.Below(3) - (size ? 1 : 0));
    case 3: return std::max<uint64_t>(1, size / (1 + s.Below(4)));
    default: return 1 + s.Len(1 << 21) + size / 64;
  }
}

BlobOpts CliTier(Source& s) {
  BlobOpts o;
  switch (s.Pick({40, 12, 2, 1})) {
    case 0: o.max = 1500; break;
    case 1: o.max = 20000; break;
    case 2: o.max = 150000; o.fill = true; break;
    default: o.max = 3000000; o.fill = true; break;
  }
  return o;
}
}  // namespace

// ---- C13 --------------------------------------------------------------------
void prop_C13(Source& s, Ctx& c) {
  const std::string D = c.scratch;
  const std::string fd = D + "/dict", ft = D + "/target", fx = D + "/delta", fo = D + "/out";
  Bytes dict, target, delta;
  const bool built = s.Chance(1, 3);
  CliOpts o;
  if (!built) {
    BlobOpts b = CliTier(s);
    o.json = s.Chance(1, 8);
    b.ascii = o.json;
    dict = GenDict(s, b);
    target = GenTarget(s, dict, b);
    if (s.Chance(1, 20)) target.clear();
    o.checksum = s.Flip();
    o.interleaved = s.Flip();
    o.tm = s.Flip();
    o.stats = s.Chance(1, 8);
    o.buffersize = GenBuffer(s, target.size());
    WriteFile(fd, dict);
    WriteFile(ft, target);
    c.Desc("encode " + DescribeBlobs(dict, target));
    CliRun e;
    Flag(s, &e, "dictionary", fd);
    AddEncodeFlags(s, &e, o);
    const int in = s.Pick({2, 1, 1}), out = s.Pick({2, 1, 1});
    if (in == 0) Flag(s, &e, "target", ft);
    else if (in == 1) { e.in = IN_FILE; e.in_path = ft; }
    else { e.in = IN_PIPE; e.in_data = target; e.pipe_piece = s.Flip() ? 0 : 1 + s.Below(5000) + target.size() / 100; }
    if (out == 0) Flag(s, &e, "delta", fx);
    else if (out == 1) { e.out = OUT_FILE; e.out_path = fx; }
    else e.out = OUT_PIPE;
    Command(s, &e, "encode", "delta");
    if (HaveShim(c) && s.Chance(1, 10)) {
      c.Label("short_reads");
      e.shim = "s:" + Num(1 + s.Below(600) + target.size() / 2000) + ":1:" + (in == 0 && s.Chance(2, 3) ? ft : fd);
    }
    if (o.stats) e.err_path = D + "/err";
    c.Desc(e.Cmd());
    Exec(c, &e);
    CHECK_PROP(e.Ok(), "%s: %s", e.Cmd().c_str(), e.Result().c_str());
    if (out == 2) delta = e.captured;
    else CHECK_PROP(ReadFile(fx, &delta), "%s: no delta file", e.Cmd().c_str());
    ++c.sub_evaluations;
    if (o.stats && !target.empty()) CheckStats(e, target.size(), delta.size());
    if (o.json) {
      c.Label("json");
      if (target.empty()) CHECK_PROP(delta.empty(), "JSON delta of an empty target is not empty");
      else {
        Bytes got = ApplyJsonText(dict, delta);
        CHECK_PROP(got == target, "JSON delta reconstructs another target (first difference at %zu)", FirstDiff(got, target));
      }
      c.nontrivial = !target.empty();
      return;
    }
    RefResult r = RefDecode(dict, delta, RefLimits(), true);
    CHECK_PROP(r.v == RefResult::ACCEPT, "%s: the delta is not conformant: %s", e.Cmd().c_str(), r.why.c_str());
    CHECK_PROP(r.out == target, "%s: the delta means another target", e.Cmd().c_str());
    CHECK_PROP(r.version == (o.flags() ? 'S' : 0), "%s: version byte %d", e.Cmd().c_str(), r.version);
    std::vector<size_t> lens;
    const uint64_t bs = o.buffersize ? o.buffersize : 1 << 20;
    for (auto& w : r.windows) {
      CHECK_PROP(w.has_checksum == o.checksum, "checksum presence does not match -checksum");
      CHECK_PROP((w.data_len == 0 && w.addr_len == 0) == o.interleaved, "layout does not match -interleaved");
      CHECK_PROP(w.target_len <= bs, "window of %llu bytes exceeds -buffersize %llu", (unsigned long long)w.target_len,
                 (unsigned long long)bs);
      lens.push_back(w.target_len);
      if (!o.tm)
        for (auto& i : w.insts)
          CHECK_PROP(i.type != R_COPY || (uint64_t)i.addr + i.size <= w.seg_len, "target match without -target_matches");
    }
    EncodeOpts eo;
    eo.flags = o.flags();
    eo.target_matching = o.tm;
    Bytes lib;
    CHECK_PROP(RealEncode(dict, target, lens, eo, &lib), "library encode failed");
    CHECK_PROP(lib == delta, "%s: delta differs from the library's for the same windows at byte %zu", e.Cmd().c_str(),
               FirstDiff(lib, delta));
    if (lens.size() > 1) c.Label("multi_window");
    if (s.Chance(1, 3)) {
      CliRun t;
      Flag(s, &t, "dictionary", fd);
      AddEncodeFlags(s, &t, o);
      Flag(s, &t, "target", ft);
      Flag(s, &t, "delta", D + "/delta2");
      // The limits apply to the decoding half of "test" too.
      RefLimits tl;
      if (s.Chance(1, 3)) {
        uint64_t biggest = 0;
        for (size_t l : lens) biggest = std::max<uint64_t>(biggest, l);
        if (s.Flip()) { tl.max_file = LimitAround(s, target.size()); Flag(s, &t, "max_target_file_size", Num(tl.max_file)); }
        else { tl.max_window = std::max<int64_t>(0, (int64_t)biggest + (int64_t)s.Below(3) - 1); Flag(s, &t, "max_target_window_size", Num(tl.max_window)); }
      }
      Command(s, &t, "test", nullptr);
      c.Desc(t.Cmd());
      Exec(c, &t);
      Bytes d2;
      const bool left = ReadFile(D + "/delta2", &d2);
      RefResult r3 = RefDecode(dict, d2, tl, false);
      CHECK_PROP(left, "test command left no delta");
      if (r3.v != RefResult::ACCEPT && RefDecode(dict, d2, RefLimits(), false).v == RefResult::ACCEPT) {
        CHECK_PROP(!t.Ok(), "%s: exit status 0, but the options forbid this delta (%s)", t.Cmd().c_str(), r3.why.c_str());
        c.Label("limit_enforced");
      } else {
        CHECK_PROP(t.Ok(), "%s: %s", t.Cmd().c_str(), t.Result().c_str());
      }
      RefResult r2 = RefDecode(dict, d2, RefLimits(), false);
      CHECK_PROP(r2.v == RefResult::ACCEPT && r2.out == target, "the test command's delta is wrong");
      ++c.sub_evaluations;
      c.Label("test_command");
    }
  } else {
    GenDeltaOpts go = TieredDelta(s, true);
    go.custom_table = s.Chance(1, 8);
    if (go.custom_table) go.max_dict = go.max_window = 500;
    GenDelta g = GenValidDelta(s, go);
    dict = g.dict; delta = g.delta; target = g.target;
    RefResult r = RefDecode(dict, delta, RefLimits(), false);
    if (r.v != RefResult::ACCEPT || r.either || r.out != target) throw Discard();
    c.Desc("built " + DescribeDelta(g));
    WriteFile(fd, dict);
    c.Label("built_delta");
  }
  // Decode, with limits and the earlier-target switch.
  WriteFile(fx, delta);
  RefResult full = RefDecode(dict, delta, RefLimits(), false);
  for (int round = 0; round < 2; ++round) {
    RefLimits lim;
    CliRun d;
    Flag(s, &d, "dictionary", fd);
    if (round == 1) {
      uint64_t biggest = 0;
      for (auto& w : full.windows) biggest = std::max<uint64_t>(biggest, w.target_len);
      if (s.Flip()) { lim.max_file = LimitAround(s, target.size()); Flag(s, &d, "max_target_file_size", Num(lim.max_file)); }
      if (s.Flip()) { lim.max_window = std::max<int64_t>(0, (int64_t)biggest + (int64_t)s.Below(3) - 1); Flag(s, &d, "max_target_window_size", Num(lim.max_window)); }
      if (s.Flip()) { lim.allow_target = s.Flip(); BoolFlag(s, &d, "allow_vcd_target", lim.allow_target); }
    }
    RefResult want = RefDecode(dict, delta, lim, false);
    uint64_t bs = GenBuffer(s, delta.size());
    if (bs) Flag(s, &d, "buffersize", Num(bs));
    const bool stats = s.Chance(1, 8);
    if (stats) { BoolFlag(s, &d, "stats", true); d.err_path = D + "/err"; }
    const int in = s.Pick({2, 1, 1}), out = s.Pick({2, 1, 1});
    if (in == 0) Flag(s, &d, "delta", fx);
    else if (in == 1) { d.in = IN_FILE; d.in_path = fx; }
    else { d.in = IN_PIPE; d.in_data = delta; d.pipe_piece = s.Flip() ? 0 : 1 + s.Below(5000) + delta.size() / 100; }
    unlink(fo.c_str());
    if (out == 0) Flag(s, &d, "target", fo);
    else if (out == 1) { d.out = OUT_FILE; d.out_path = fo; }
    else d.out = OUT_PIPE;
    Command(s, &d, "decode", "patch");
    c.Desc(d.Cmd());
    Exec(c, &d);
    ++c.sub_evaluations;
    if (want.v != RefResult::ACCEPT) {
      CHECK_PROP(!d.Ok(), "%s: exit status 0, but the options forbid this delta (%s)", d.Cmd().c_str(), want.why.c_str());
      c.Label("limit_enforced");
      continue;
    }
    CHECK_PROP(d.Ok(), "%s: %s", d.Cmd().c_str(), d.Result().c_str());
    Bytes got;
    if (out == 2) got = d.captured;
    else CHECK_PROP(ReadFile(fo, &got), "%s: no output file", d.Cmd().c_str());
    CHECK_PROP(got == target, "%s: output of %zu bytes differs from the target (%zu bytes) at %zu", d.Cmd().c_str(), got.size(),
               target.size(), FirstDiff(got, target));
    if (stats && !target.empty()) CheckStats(d, target.size(), delta.size());
  }
  if (target.empty()) c.Label("empty_target");
  if (dict.empty()) c.Label("empty_dictionary");
  c.nontrivial = !target.empty();
}

// ---- C14 --------------------------------------------------------------------
namespace {
// "test" where one file plays two parts, so that what is decoded differs from
// what was encoded: the final comparison has to notice.
void AliasedTest(Source& s, Ctx& c) {
  const std::string D = c.scratch;
  const std::string fd = D + "/dict", ft = D + "/target", fx = D + "/delta";
  Bytes dict = Fill(s.Raw(), 32 + s.Below(200), s.Flip() ? 256 : 4, 'a'), target;
  const int pieces = 1 + (int)s.Below(4);
  for (int i = 0; i < pieces; ++i) {
    const size_t from = s.Below(dict.size());
    target += dict.substr(from, 1 + s.Below(dict.size()));
    target += Fill(s.Raw(), s.Below(150), 256, 0);
  }
  CliOpts o;
  o.checksum = s.Chance(1, 4);
  o.interleaved = s.Flip();
  o.tm = s.Flip();
  if (s.Chance(1, 3)) o.buffersize = GenBuffer(s, target.size());
  WriteFile(ft, target);
  CliRun r;
  const int kind = s.Pick({3, 1});
  std::string delta_path, why;
  if (kind == 0) {
    // The delta overwrites the dictionary between encoding and decoding.
    why = "the delta file is the dictionary file";
    WriteFile(fd, dict);
    delta_path = fd;
    if (s.Chance(1, 3)) {
      unlink(fx.c_str());
      if (symlink(fd.c_str(), fx.c_str())) throw Discard();
      delta_path = fx;
    }
  } else {
    why = "the delta file is the target file";
    WriteFile(fd, dict);
    delta_path = ft;
  }
  Flag(s, &r, "dictionary", fd);
  AddEncodeFlags(s, &r, o);
  Flag(s, &r, "target", ft);
  Flag(s, &r, "delta", delta_path);
  Command(s, &r, "test", nullptr);
  c.Desc("fault: " + why + " | " + r.Cmd() + " " + DescribeBlobs(dict, target));
  Exec(c, &r);
  if (delta_path == fx) unlink(fx.c_str());
  ++c.sub_evaluations;
  // What the files say now: "test" passed if decoding the delta file with the
  // dictionary file gives the target file.
  Bytes d, t, x;
  if (!ReadFile(fd, &d) || !ReadFile(ft, &t) || !ReadFile(kind == 0 ? fd : ft, &x)) throw Discard();
  RefResult ref = RefDecode(d, x, RefLimits(), false);
  c.Label("aliased_test");
  if (ref.either) return;
  const bool same = ref.v == RefResult::ACCEPT && ref.out == t;
  if (!same) {
    c.Label("must_fail");
    if (ref.v == RefResult::ACCEPT) {
      c.Label("decodes_to_something_else");
      if (ref.out.size() == t.size()) c.Label("same_length_other_bytes");
    }
    c.nontrivial = true;
    CHECK_PROP(!r.Ok(), "exit status 0, but decoding %s (%s)\n  %s",
               ref.v == RefResult::ACCEPT ? "gives something other than the target file" : "fails", why.c_str(), r.Cmd().c_str());
  }
}

// A read error, a full disk or changed contents at a chosen position of a
// chosen file, delivered to the real executable through its stdio calls.
void StdioFaults(Source& s, Ctx& c) {
  const std::string D = c.scratch;
  const std::string fd = D + "/dict", ft = D + "/target", fx = D + "/delta", fo = D + "/out", fm = D + "/mark", fw = D + "/swap";
  for (const std::string& p : {fo, fm, fw, fx}) unlink(p.c_str());
  BlobOpts b;
  b.max = s.Chance(1, 6) ? 60000 : s.Chance(1, 2) ? 9000 : 400;
  Bytes dict = GenDict(s, b), target = GenTarget(s, dict, b), delta;
  if (s.Chance(1, 3)) dict = Fill(s.Raw(), 1 + s.Below(b.max), 256, 0);  // incompressible
  if (s.Chance(1, 3)) target = Fill(s.Raw(), 1 + s.Below(b.max), 256, 0);
  CliOpts o;
  o.checksum = s.Flip();
  o.interleaved = s.Flip();
  o.tm = s.Flip();
  EncodeOpts eo;
  eo.flags = o.flags();
  eo.target_matching = o.tm;
  RealEncode(dict, target, GenChunks(s, target.size()), eo, &delta);
  WriteFile(fd, dict);
  WriteFile(ft, target);
  WriteFile(fx, delta);
  enum { ENC, DEC, TEST };
  const int op = s.Pick({3, 3, 3});
  CliRun r;
  r.mark = fm;
  if (s.Flip()) o.buffersize = GenBuffer(s, op == DEC ? delta.size() : target.size());
  Flag(s, &r, "dictionary", fd);
  if (op == DEC) { if (o.buffersize) Flag(s, &r, "buffersize", Num(o.buffersize)); }
  else AddEncodeFlags(s, &r, o);
  const bool out_std = op != TEST && s.Chance(1, 4);
  const std::string inf = op == DEC ? fx : ft, outf = op == TEST ? fx : fo;
  Flag(s, &r, op == DEC ? "delta" : "target", inf);
  if (!out_std) Flag(s, &r, op == DEC ? "target" : "delta", outf);
  if (op == ENC) Command(s, &r, "encode", "delta");
  else if (op == DEC) Command(s, &r, "decode", "patch");
  else Command(s, &r, "test", nullptr);
  std::string why;
  Bytes swapped;
  const Bytes& in = op == DEC ? delta : target;
  const int kind = s.Pick({4, op == TEST || !out_std ? 3 : 0, op == TEST ? 5 : 0, op == TEST ? 0 : 4});
  size_t cut = 0;
  bool cut_dict = false;
  if (kind == 0) {
    const int which = (int)s.Below(op == TEST ? 3 : 2);  // dictionary, input, the delta read back
    const std::string path = which == 0 ? fd : which == 1 ? inf : fx;
    const size_t len = which == 0 ? dict.size() : which == 1 ? in.size() : delta.size();
    if (!len) throw Discard();
    const size_t at = s.Flip() ? s.Below(len) : len - 1 - std::min<size_t>(len - 1, s.Below(4));
    r.shim = "r:" + Num(at) + ":" + Num(op == TEST && which < 2 ? 1 + s.Below(2) : 1) + ":" + path;
    why = "read error";
  } else if (kind == 1) {
    const size_t full = op == DEC ? target.size() : delta.size();
    r.shim = "w:" + Num(s.Flip() ? s.Below(full + 1) : full - std::min<size_t>(full, s.Below(20))) + ":1:" + outf;
    why = "output device full";
  } else if (kind == 3) {
    // A file that has become shorter since its size was asked for.
    cut_dict = s.Flip();
    const size_t len = cut_dict ? dict.size() : in.size();
    if (!len) throw Discard();
    cut = s.Flip() ? s.Below(len) : len - 1 - std::min<size_t>(len - 1, s.Below(20));
    r.shim = "e:" + Num(cut) + ":1:" + (cut_dict ? fd : inf);
    why = std::string(cut_dict ? "dictionary" : "input") + " ends early";
  } else {
    // "test": the target file is another one by the time it is compared.
    swapped = target;
    switch (s.Pick({4, 2, 2})) {
      case 0: {  // shorter, often by whole buffers
        size_t keep = s.Below(target.size() + 1);
        if (o.buffersize && s.Flip()) keep = std::min<size_t>(target.size(), o.buffersize * s.Below(target.size() / o.buffersize + 1));
        swapped.resize(keep);
        break;
      }
      case 1: swapped += Fill(s.Raw(), 1 + s.Below(3), 256, 0); break;
      default:
        if (!swapped.empty()) { char& x = swapped[s.Flip() ? swapped.size() - 1 : s.Below(swapped.size())]; x = (char)(x ^ (1 << s.Below(8))); }
        break;
    }
    WriteFile(fw, swapped);
    r.swap = fw;
    r.shim = "x:0:2:" + ft;
    why = "other target contents";
  }
  c.Desc("stdio fault: " + why + " | " + r.Cmd() + " " + DescribeBlobs(dict, target) +
         (kind == 2 ? " other target(" + Num(swapped.size()) + ")" : ""));
  r.out = out_std ? OUT_FILE : OUT_NULL;
  r.out_path = outf;
  Exec(c, &r);
  ++c.sub_evaluations;
  const bool delivered = access(fm.c_str(), F_OK) == 0;
  c.Label(("stdio_" + std::string(kind == 0 ? "read" : kind == 1 ? "write" : kind == 2 ? "swap" : "shrunk") + (delivered ? "" : "_not_reached")).c_str());
  if (delivered && kind == 3) {
    // Refusing is fine; success must be for the contents there are (or were).
    c.nontrivial = true;
    if (!r.Ok()) { c.Label("refused"); return; }
    Bytes got;
    CHECK_PROP(ReadFile(outf, &got), "no output file");
    std::vector<Bytes> dicts = {dict};
    if (cut_dict) dicts.push_back(dict.substr(0, cut));
    const Bytes use_in = cut_dict ? in : in.substr(0, cut);
    bool right = false;
    for (const Bytes& d : dicts) {
      RefResult ref = RefDecode(d, op == DEC ? use_in : got, RefLimits(), false);
      if (ref.v == RefResult::ACCEPT && ref.out == (op == DEC ? got : use_in)) right = true;
    }
    CHECK_PROP(right, "exit status 0 despite: %s at %zu, and the output is not right for any contents the file had\n  %s",
               why.c_str(), cut, r.Cmd().c_str());
    return;
  }
  if (delivered && !(kind == 2 && swapped == target)) {
    c.Label("must_fail");
    c.nontrivial = true;
    CHECK_PROP(!r.Ok(), "exit status 0 despite: %s\n  %s", why.c_str(), r.Cmd().c_str());
    return;
  }
  CHECK_PROP(r.Ok(), "%s although nothing went wrong\n  %s", r.Result().c_str(), r.Cmd().c_str());
  Bytes got;
  CHECK_PROP(ReadFile(outf, &got), "no output file");
  if (op == DEC) CHECK_PROP(got == target, "exit status 0 but the output is not the target");
  else {
    RefResult ref = RefDecode(dict, got, RefLimits(), false);
    CHECK_PROP(ref.v == RefResult::ACCEPT && ref.out == target, "exit status 0 but the delta is wrong");
  }
}
}  // namespace

void prop_C14(Source& s, Ctx& c) {
  const std::string D = c.scratch;
  const std::string fd = D + "/dict", ft = D + "/target", fx = D + "/delta", fo = D + "/out", dir = D + "/dir";
  mkdir(dir.c_str(), 0700);
  unlink(fo.c_str());
  if (s.Chance(1, 12)) { AliasedTest(s, c); return; }
  if (HaveShim(c) && s.Chance(1, 5)) { StdioFaults(s, c); return; }
  BlobOpts b;
  b.max = s.Chance(1, 12) ? 60000 : s.Chance(1, 3) ? 8000 : 400;
  Bytes dict = GenDict(s, b), target = GenTarget(s, dict, b), delta;
  CliOpts o;
  o.checksum = s.Flip();
  o.interleaved = s.Flip();
  o.tm = s.Flip();
  EncodeOpts eo;
  eo.flags = o.flags();
  eo.target_matching = o.tm;
  RealEncode(dict, target, GenChunks(s, target.size()), eo, &delta);
  WriteFile(fd, dict);
  WriteFile(ft, target);
  WriteFile(fx, delta);
  c.Desc(DescribeBlobs(dict, target) + " delta(" + Num(delta.size()) + ")");
  enum { ENC, DEC, TEST };
  const int op = s.Pick({3, 5, 2});
  CliRun r;
  bool must_fail = false;
  std::string why;
  std::string dictf = fd, inf = op == DEC ? fx : ft, outf = fo;
  bool in_std = op != TEST && s.Flip(), out_std = op != TEST && s.Flip();
  bool out_pipe = out_std && s.Flip();
  RefLimits lim;
  Bytes use_delta = delta, use_dict = dict;
  std::vector<std::string> extra;
  bool skip_dict = false, skip_in = false, skip_out = false;
  uint64_t bs = 0;
  if (s.Flip()) bs = GenBuffer(s, op == DEC ? delta.size() : target.size());
  const int fault = s.Pick({3, 5, 3, 2, 4, 4, 3, 3, 3});
  switch (fault) {
    case 0: {  // an input that cannot be opened or read
      const std::string bad[] = {D + "/missing", D + "/dict/x", D + "/" + std::string(300, 'n'), dir};
      const std::string& p = bad[s.Below(4)];
      // (The size of a directory is up to the file system, so a directory is
      // not used as a dictionary.)
      if (p != dir && s.Flip()) { dictf = p; why = "unreadable dictionary " + p; }
      else {
        if (in_std && p == dir) { inf = p; }
        else { in_std = false; inf = p; }
        why = "unreadable input " + p;
      }
      must_fail = true;
      break;
    }
    case 1:  // damaged or truncated delta / wrong dictionary
      if (op == DEC) {
        switch (s.Pick({3, 3, 2})) {
          case 0: {
            RefResult p = RefDecode(dict, delta, RefLimits(), false);
            std::string w;
            use_delta = s.Flip() ? MutateDelta(s, delta, &p, &w) : EditWindows(s, delta, p, &w);
            why = "damaged delta: " + w;
            break;
          }
          case 1: use_delta = delta.substr(0, s.Below(delta.size() + 1)); why = "truncated delta"; break;
          default:
            if (!dict.empty()) {
              size_t p = s.Below(dict.size());
              use_dict[p] = (char)(use_dict[p] ^ (1 + s.Below(255)));
              if (s.Chance(1, 3)) use_dict.resize(s.Below(dict.size()));
            }
            why = "wrong dictionary";
            break;
        }
      } else {
        // JSON cannot be decoded, so "test" must not succeed with it.
        if (op == TEST && !target.empty()) { o.json = true; must_fail = true; why = "test with -json"; }
        else why = "none";
      }
      break;
    case 2:  // limits
      if (op != ENC) {
        if (s.Flip()) lim.max_file = s.Below(target.size() + 2);
        else lim.max_window = s.Below(target.size() + 2);
        if (lim.max_file < 67108864) extra.push_back("--max_target_file_size=" + Num(lim.max_file));
        if (lim.max_window < 67108864) extra.push_back("--max_target_window_size=" + Num(lim.max_window));
        why = "limits";
      } else {
        why = "none";
      }
      break;
    case 3:  // output that cannot be opened
      out_std = out_pipe = false;
      outf = s.Flip() ? D + "/nodir/out" : dir;
      must_fail = true;
      why = "unopenable output " + outf;
      break;
    case 4:  // output that cannot be written
      if (out_std && s.Flip()) {
        why = "closed or broken stdout";
      } else {
        out_pipe = false;
        outf = "/dev/full";
        why = "output to /dev/full";
      }
      break;
    case 5:  // output that can be written only in part
      out_pipe = false;
      why = "file size limit";
      break;
    case 6:  // standard input broken
      if (op != TEST) {
        in_std = true;
        must_fail = true;
        why = "standard input closed or unreadable";
      } else {
        why = "none";
      }
      break;
    case 7: {  // unusable arguments
      must_fail = true;
      switch (s.Below(8)) {
        case 0: why = "no command"; break;
        case 1: why = "two commands"; extra.push_back(s.Flip() ? "encode" : "decode"); break;
        case 2: why = "unknown command"; break;
        case 3: why = "no dictionary"; skip_dict = true; break;
        case 4: why = "buffersize 0"; extra.push_back("--buffersize=0"); bs = 0; break;
        case 5: why = "unknown flag"; extra.push_back("--no_such_flag=1"); break;
        case 6:
          why = "bad flag value";
          extra.push_back(s.Flip() ? "--buffersize=abc" : s.Flip() ? "--checksum=maybe" : "--max_target_file_size=x1");
          break;
        default:
          if (op == TEST) {
            why = "test without both files";
            if (s.Flip()) skip_in = true; else skip_out = true;
          } else {
            why = "empty dictionary name";
            dictf = "";
          }
          break;
      }
      break;
    }
    default: why = "none"; break;
  }
  if (op == DEC) WriteFile(fx, use_delta);
  if (use_dict != dict) WriteFile(fd, use_dict);
  // Arguments.
  if (!skip_dict) Flag(s, &r, "dictionary", dictf);
  if (op != DEC) AddEncodeFlags(s, &r, o);
  if (bs && op == DEC) Flag(s, &r, "buffersize", Num(bs));
  if (bs && op != DEC) Flag(s, &r, "buffersize", Num(bs));
  for (auto& x : extra) r.args.push_back(x);
  if (in_std) {
    if (fault == 6) {
      if (s.Flip()) { r.in = IN_CLOSED; }
      else { r.in = IN_FILE; r.in_path = dir; }
    } else {
      r.in = IN_FILE;
      r.in_path = inf;
    }
  } else if (!skip_in) {
    Flag(s, &r, op == DEC ? "delta" : "target", inf);
  }
  if (out_std) {
    if (out_pipe) {
      r.out = OUT_PIPE;
      if (fault == 4) {
        r.out = s.Flip() ? OUT_BROKEN : OUT_CLOSED;
        r.ignore_sigpipe = s.Flip();
      }
    } else if (fault == 4 && outf != "/dev/full") {
      r.out = s.Flip() ? OUT_BROKEN : OUT_CLOSED;
      r.ignore_sigpipe = s.Flip();
    } else {
      r.out = OUT_FILE;
      r.out_path = outf;
    }
  } else if (!skip_out) {
    Flag(s, &r, op == DEC ? "target" : "delta", outf);
  }
  if (why == "unknown command") Command(s, &r, s.Flip() ? "frobnicate" : "Encode", nullptr);
  else if (why != "no command") {
    if (op == ENC) Command(s, &r, "encode", "delta");
    else if (op == DEC) Command(s, &r, "decode", "patch");
    else Command(s, &r, "test", nullptr);
  }
  // What success would have to look like.
  bool open_verdict = false, out_empty = false;
  Bytes want_out;
  if (op == DEC) {
    RefResult ref = RefDecode(use_dict, use_delta, lim, false);
    open_verdict = ref.either || use_delta.empty();
    if (ref.v != RefResult::ACCEPT && !open_verdict) { must_fail = true; why += " (" + ref.why + ")"; }
    want_out = ref.out;
    out_empty = ref.out.empty();
  }
  if (op == TEST && fault == 2 && lim.max_file < target.size()) must_fail = true;
  if (fault == 5) {
    size_t full = op == DEC ? want_out.size() : delta.size() + 200;
    r.fsize = (long)(s.Flip() ? s.Below(full + 1) : full > 0 ? full - std::min<size_t>(full, 1 + s.Below(20)) : 0);
    if (op == DEC && (size_t)r.fsize < want_out.size()) must_fail = true;
  }
  if (fault == 4 && !(op == DEC && out_empty)) must_fail = true;
  c.Desc("fault: " + why + " | " + r.Cmd());
  Exec(c, &r);
  ++c.sub_evaluations;
  c.Label(("fault" + std::to_string(fault)).c_str());
  if (must_fail) {
    c.Label("must_fail");
    c.nontrivial = true;
    CHECK_PROP(!r.Ok(), "exit status 0 despite: %s\n  %s", why.c_str(), r.Cmd().c_str());
    return;
  }
  if (!r.Ok()) return;
  // Success: the output must be complete and right.
  Bytes got;
  bool have = true;
  if (r.out == OUT_PIPE) got = r.captured;
  else if (r.out != OUT_CLOSED && r.out != OUT_BROKEN && outf != "/dev/full") have = ReadFile(outf, &got);
  CHECK_PROP(have, "exit status 0 but no output (%s)\n  %s", why.c_str(), r.Cmd().c_str());
  if (op == DEC) {
    if (!open_verdict)
      CHECK_PROP(got == want_out, "exit status 0 but %zu of %zu bytes are right (%s)\n  %s", FirstDiff(got, want_out),
                 want_out.size(), why.c_str(), r.Cmd().c_str());
  } else {
    RefResult ref = RefDecode(use_dict, got, RefLimits(), false);
    CHECK_PROP(ref.v == RefResult::ACCEPT && ref.out == target && !(got.empty()),
               "exit status 0 but the delta written (%zu bytes) is not complete (%s)\n  %s", got.size(), why.c_str(),
               r.Cmd().c_str());
    if (op == TEST) {
      RefResult rl = RefDecode(use_dict, got, lim, false);
      CHECK_PROP(rl.v == RefResult::ACCEPT, "test succeeded although the limits forbid the delta\n  %s", r.Cmd().c_str());
    }
  }
  c.Label("succeeded_correctly");
  c.nontrivial = fault != 8;
}
