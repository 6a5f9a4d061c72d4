// Runner: parallel forked workers, crash/hang isolation, replay confirmation,
// shrinking, result file.
#include <errno.h>
#include <fcntl.h>
#include <math.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <filesystem>
#include <fstream>
#include <sstream>
#include <unordered_set>
#include "core.h"

#ifndef VERIF_FLAVOUR
#define VERIF_FLAVOUR "unknown"
#endif
#ifndef VERIF_DBG
#define VERIF_DBG 0
#endif

static const uint32_t kCap = 1 << 20;
struct Shm {
  volatile uint64_t case_index;
  volatile uint64_t cases_done;
  volatile double started;
  uint32_t nchoices;
  int failed;
  char msg[2048];
  uint64_t choices[kCap];
};

static double Now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

static struct Config {
  std::string prop, tier = "quick", out, replay_dir = ".", replay, import, vcdiff, scratch_root;
  uint64_t seed = 1, cases = 0, only_index = ~0ull;
  double secs = 0;
  int workers = 8;
  double hang = 120;
} cfg;

static const PropDef* g_def;

static Shm* NewShm() {
  void* p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(3); }
  return (Shm*)p;
}

static uint64_t CaseSeed(uint64_t idx) {
  uint64_t h = 1469598103934665603ull;
  for (char c : cfg.prop) h = (h ^ (unsigned char)c) * 1099511628211ull;
  // Different builds explore different cases, so their counts add up.
  for (const char* c = VERIF_FLAVOUR; *c; ++c) h = (h ^ (unsigned char)*c) * 1099511628211ull;
  return Mix(Mix(cfg.seed, h), idx);
}

static void FillCtx(Ctx* c, const std::string& scratch) {
  c->scratch = scratch;
  c->vcdiff = cfg.vcdiff;
  c->thorough = cfg.tier == "thorough";
  c->dbg_build = VERIF_DBG;
}

static std::string MakeScratch(const char* tag) {
  if (cfg.scratch_root.empty()) return "";
  std::string d = cfg.scratch_root + "/" + tag + std::to_string(getpid());
  mkdir(d.c_str(), 0700);
  return d;
}

// A runaway allocation must end the case, not the machine.  Address-space
// limits do not work under the sanitizers; those use their own rss limit.
static void LimitMemory() {
  if (strcmp(VERIF_FLAVOUR, "fast") == 0 || strcmp(VERIF_FLAVOUR, "work") == 0) {
    rlimit rl = {3ull << 30, RLIM_INFINITY};
    setrlimit(RLIMIT_AS, &rl);
  }
}

static void Quiet(const char* path = "/dev/null") {
  int fd = open(path, O_WRONLY | O_CREAT | O_APPEND, 0600);
  if (fd >= 0) { dup2(fd, 2); if (fd > 2) close(fd); }
}

// ---- worker ---------------------------------------------------------------------
struct Stats {
  uint64_t evals = 0, discards = 0, nontrivial = 0, sub = 0, choices = 0;
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, uint64_t> labels;
  std::vector<uint64_t> samples;
};

static uint64_t HashChoices(const std::vector<uint64_t>& c) {
  uint64_t h = c.size();
  for (uint64_t v : c) h = (h ^ v) * 0x9E3779B97F4A7C15ull + (h >> 29);
  return h;
}

static void WriteStats(const Stats& st, const std::string& path) {
  FILE* f = fopen(path.c_str(), "wb");
  if (!f) _exit(3);
  fprintf(f, "%llu %llu %llu %llu %llu\n", (unsigned long long)st.evals, (unsigned long long)st.discards,
          (unsigned long long)st.nontrivial, (unsigned long long)st.sub, (unsigned long long)st.choices);
  fprintf(f, "%zu\n", st.labels.size());
  for (auto& l : st.labels) fprintf(f, "%s\t%llu\n", l.first.c_str(), (unsigned long long)l.second);
  fprintf(f, "%zu\n", st.samples.size());
  for (auto s : st.samples) fprintf(f, "%llu\n", (unsigned long long)s);
  fprintf(f, "%zu\n", st.distinct.size());
  for (auto h : st.distinct) fprintf(f, "%llx\n", (unsigned long long)h);
  fclose(f);
}

static void Worker(int w, int W, Shm* shm, double deadline, const std::string& stat_path,
                   uint64_t first, uint64_t count) {
  Quiet();
  LimitMemory();
  Source::SetTrace(shm->choices, &shm->nchoices, kCap);
  std::string scratch = MakeScratch("w");
  Stats st;
  for (uint64_t k = 0; k < count; ++k) {
    uint64_t idx = first + k * W;
    if (idx >= cfg.cases || Now() > deadline) break;
    shm->case_index = idx;
    shm->nchoices = 0;
    shm->started = Now();
    Ctx ctx;
    FillCtx(&ctx, scratch);
    Source s(CaseSeed(idx));
    try {
      g_def->fn(s, ctx);
      ++st.evals;
      st.sub += ctx.sub_evaluations;
      st.choices += s.choices().size();
      if (ctx.nontrivial) {
        ++st.nontrivial;
        st.distinct.insert(HashChoices(s.choices()));
        if (st.samples.size() < 3 || (st.samples.size() < 6 && st.evals % 97 == 0)) st.samples.push_back(idx);
      }
      for (auto& l : ctx.labels) st.labels[l.first] += l.second;
    } catch (const Discard&) {
      ++st.discards;
    } catch (const Failure& f) {
      snprintf(shm->msg, sizeof shm->msg, "%s", f.msg.c_str());
      shm->failed = 1;
      _exit(77);
    } catch (const std::exception& e) {
      snprintf(shm->msg, sizeof shm->msg, "uncaught exception %s", e.what());
      shm->failed = 1;
      _exit(77);
    }
    ++shm->cases_done;
  }
  shm->started = 0;
  WriteStats(st, stat_path);
  (void)w;
  _exit(0);
}

// ---- running one case in a child ---------------------------------------------------
struct Outcome {
  bool failed = false, hang = false;
  std::string msg, desc, log;
  std::vector<uint64_t> used;
};

static std::string ReadTail(const std::string& path, size_t max) {
  std::ifstream f(path, std::ios::binary);
  std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
  if (s.size() > max) {
    // Keep the sanitizer headline if there is one.
    size_t p = s.find("ERROR: AddressSanitizer");
    if (p == std::string::npos) p = s.find("runtime error:");
    if (p == std::string::npos) p = s.find("WARNING: ThreadSanitizer");
    if (p != std::string::npos) { p = p > 200 ? p - 200 : 0; s = s.substr(p, max); }
    else s = s.substr(s.size() - max);
  }
  return s;
}

static Shm* g_one;
static Outcome RunOne(const uint64_t* choices, size_t n, bool gen, uint64_t idx, bool want_desc, double limit,
                      bool keep_log) {
  Outcome o;
  if (!g_one) g_one = NewShm();
  g_one->failed = 0;
  g_one->msg[0] = 0;
  g_one->nchoices = 0;
  static Shm* dshm = nullptr;  // description buffer
  if (!dshm) dshm = NewShm();
  char* dbuf = (char*)dshm->choices;
  dbuf[0] = 0;
  std::string log = cfg.scratch_root + "/one.log";
  if (keep_log) unlink(log.c_str());
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(3); }
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    setpgid(0, 0);
    Quiet(keep_log ? log.c_str() : "/dev/null");
    LimitMemory();
    rlimit rl = {(rlim_t)limit + 1, (rlim_t)limit + 5};
    setrlimit(RLIMIT_CPU, &rl);
    rlimit core = {0, 0};
    setrlimit(RLIMIT_CORE, &core);
    Source::SetTrace(g_one->choices, &g_one->nchoices, kCap);
    Ctx ctx;
    FillCtx(&ctx, MakeScratch("o"));
    ctx.want_desc = want_desc;
    int rc = 0;
    auto body = [&](Source& s) {
      try {
        g_def->fn(s, ctx);
      } catch (const Discard&) {
      } catch (const Failure& f) {
        snprintf(g_one->msg, sizeof g_one->msg, "%s", f.msg.c_str());
        g_one->failed = 1;
        rc = 77;
      } catch (const std::exception& e) {
        snprintf(g_one->msg, sizeof g_one->msg, "uncaught exception %s", e.what());
        g_one->failed = 1;
        rc = 77;
      }
    };
    if (gen) { Source s(CaseSeed(idx)); body(s); }
    else { Source s(choices, n); body(s); }
    if (want_desc) {
      size_t m = std::min<size_t>(ctx.desc.size(), sizeof(dshm->choices) - 1);
      memcpy(dbuf, ctx.desc.data(), m);
      dbuf[m] = 0;
    }
    if (!ctx.scratch.empty()) { std::error_code ec; std::filesystem::remove_all(ctx.scratch, ec); }
    _exit(rc);
  }
  double t0 = Now();
  int st = 0;
  for (;;) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    double dt = Now() - t0;
    if (dt > limit * 3 + 30) {
      kill(-pid, SIGKILL);
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      o.hang = true;
      break;
    }
    usleep(dt < 0.02 ? 200 : 3000);
  }
  kill(-pid, SIGKILL);
  o.used.assign(g_one->choices, g_one->choices + g_one->nchoices);
  if (want_desc) o.desc = dbuf;
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU) o.hang = true;
  if (o.hang) {
    o.failed = true;
    o.msg = "did not terminate within the CPU limit of " + std::to_string((int)limit) + " s";
  } else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
    o.failed = false;
  } else if (WIFEXITED(st) && WEXITSTATUS(st) == 77 && g_one->failed) {
    o.failed = true;
    o.msg = g_one->msg;
  } else {
    o.failed = true;
    char b[120];
    if (WIFSIGNALED(st)) snprintf(b, sizeof b, "crashed with signal %d", WTERMSIG(st));
    else snprintf(b, sizeof b, "process ended with status %d (sanitizer report, fatal error or abort)", WEXITSTATUS(st));
    o.msg = b;
  }
  if (keep_log && o.failed) o.log = ReadTail(log, 3000);
  return o;
}

// ---- shrinking ------------------------------------------------------------------------
static std::vector<uint64_t> Shrink(std::vector<uint64_t> c, Outcome* last, double budget) {
  const double end = Now() + budget;
  int attempts = 0;
  auto fails = [&](const std::vector<uint64_t>& x) {
    if (Now() > end || attempts > 4000) return false;
    ++attempts;
    Outcome o = RunOne(x.data(), x.size(), false, 0, false, 20, false);
    if (o.hang) return false;
    if (o.failed) *last = o;
    return o.failed;
  };
  bool progress = true;
  while (progress && Now() < end) {
    progress = false;
    // The part actually consumed is enough.
    if (last->used.size() && last->used.size() < c.size()) c = last->used;
    for (size_t blk = std::max<size_t>(1, c.size() / 2); blk >= 1; blk /= 2) {
      for (size_t p = c.size(); p > 0 && Now() < end;) {
        size_t st = p > blk ? p - blk : 0;
        std::vector<uint64_t> x(c.begin(), c.begin() + st);
        x.insert(x.end(), c.begin() + p, c.end());
        if (x.size() < c.size() && fails(x)) { c = x; progress = true; p = std::min(st, c.size()); }
        else p = st;
      }
      if (blk == 1) break;
    }
    for (size_t i = 0; i < c.size() && Now() < end; ++i) {
      if (c[i] == 0) continue;
      std::vector<uint64_t> x = c;
      x[i] = 0;
      if (fails(x)) { c = x; progress = true; continue; }
      uint64_t lo = 0, hi = c[i];
      if (hi > (1ull << 40)) continue;  // fill seeds: zero or leave
      while (hi - lo > 1 && Now() < end) {
        uint64_t mid = lo + (hi - lo) / 2;
        x = c;
        x[i] = mid;
        if (fails(x)) { hi = mid; c = x; progress = true; }
        else lo = mid;
      }
    }
  }
  while (!c.empty() && c.back() == 0) c.pop_back();
  return c;
}

static std::string JsonStr(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"') r += "\\\"";
    else if (c == '\\') r += "\\\\";
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c >= 127) { char t[8]; snprintf(t, sizeof t, "\\u%04x", c); r += t; }
    else r += (char)c;
  }
  return r + "\"";
}

static std::string OneLine(std::string s) {
  for (char& c : s) if (c == '\n' || c == '\r') c = ' ';
  return s;
}

static std::string WriteReplay(const char* kind, const std::vector<uint64_t>& c, const std::string& extra,
                               const Outcome& o) {
  char name[200];
  snprintf(name, sizeof name, "%s/%s-%s-seed%llu-%016llx.replay", cfg.replay_dir.c_str(), cfg.prop.c_str(),
           VERIF_FLAVOUR, (unsigned long long)cfg.seed, (unsigned long long)HashChoices(c));
  std::ofstream f(name);
  f << "property " << cfg.prop << "\nflavour " << VERIF_FLAVOUR << "\nkind " << kind << "\n" << extra;
  f << "msg " << OneLine(o.msg) << "\n";
  f << "choices " << c.size();
  for (uint64_t v : c) f << " " << v;
  f << "\n--- case ---\n" << o.desc << "\n--- log ---\n" << o.log << "\n";
  return name;
}

// Runs cases first, first+stride, ... in ONE process (for failures that depend
// on process-wide state left by earlier cases).
static bool RunRange(uint64_t first, uint64_t stride, uint64_t count, std::string* msg) {
  Shm* shm = NewShm();
  pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    Worker(0, (int)stride, shm, Now() + 600, cfg.scratch_root + "/range.stat", first, count);
  }
  int st;
  waitpid(pid, &st, 0);
  bool failed = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
  *msg = shm->failed ? shm->msg : "crashed";
  munmap(shm, sizeof(Shm));
  return failed;
}

int main(int argc, char** argv) {
  setvbuf(stdout, nullptr, _IOLBF, 0);
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { if (i + 1 >= argc) exit(3); return argv[++i]; };
    if (a == "--prop") cfg.prop = val();
    else if (a == "--tier") cfg.tier = val();
    else if (a == "--seed") cfg.seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--out") cfg.out = val();
    else if (a == "--replay-dir") cfg.replay_dir = val();
    else if (a == "--replay") cfg.replay = val();
    else if (a == "--import") cfg.import = val();
    else if (a == "--cases") cfg.cases = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--index") cfg.only_index = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--secs") cfg.secs = atof(val().c_str());
    else if (a == "--workers") cfg.workers = atoi(val().c_str());
    else if (a == "--vcdiff") cfg.vcdiff = val();
    else if (a == "--scratch") cfg.scratch_root = val();
    else if (a == "--list") { for (auto& d : AllProps()) printf("%s\n", d.id); return 0; }
    else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 3; }
  }
  std::vector<uint64_t> rchoices;
  std::string rkind;
  uint64_t rfirst = 0, rstride = 1, rcount = 0;
  if (!cfg.replay.empty()) {
    std::ifstream f(cfg.replay);
    if (!f) { fprintf(stderr, "cannot open %s\n", cfg.replay.c_str()); return 3; }
    std::string line;
    while (std::getline(f, line)) {
      std::istringstream is(line);
      std::string k;
      is >> k;
      if (k == "property") is >> cfg.prop;
      else if (k == "kind") is >> rkind;
      else if (k == "range") is >> cfg.seed >> rfirst >> rstride >> rcount;
      else if (k == "choices") {
        size_t n;
        is >> n;
        rchoices.resize(n);
        for (auto& v : rchoices) is >> v;
        break;
      }
    }
  }
  for (auto& d : AllProps()) if (cfg.prop == d.id) g_def = &d;
  if (!g_def) { fprintf(stderr, "unknown property %s\n", cfg.prop.c_str()); return 3; }
  bool own_scratch = false;
  if (cfg.scratch_root.empty()) {
    char t[] = "/tmp/vverif.XXXXXX";
    if (!mkdtemp(t)) { perror("mkdtemp"); return 3; }
    cfg.scratch_root = t;
    own_scratch = true;
  }
  auto cleanup = [&]() {
    if (own_scratch) { std::error_code ec; std::filesystem::remove_all(cfg.scratch_root, ec); }
  };

  if (cfg.only_index != ~0ull) {
    Outcome o = RunOne(nullptr, 0, true, cfg.only_index, true, 120, true);
    printf("%s\n%s\n%s\n%s\n", o.failed ? "FAIL" : "ok", o.msg.c_str(), o.desc.c_str(), o.log.c_str());
    cleanup();
    return o.failed;
  }
  if (!cfg.replay.empty()) {
    bool failed;
    std::string msg;
    Outcome o;
    if (rkind == "range") {
      cfg.cases = ~0ull;
      failed = RunRange(rfirst, rstride, rcount, &msg);
    } else {
      o = RunOne(rchoices.data(), rchoices.size(), false, 0, true, 120, true);
      failed = o.failed;
      msg = o.msg;
    }
    if (failed) {
      printf("%s\n%s\n%s\nVIOLATION property=%s replay=%s\n", msg.c_str(), o.desc.c_str(), o.log.c_str(),
             cfg.prop.c_str(), cfg.replay.c_str());
    } else {
      printf("replay passes: property=%s\n%s\n", cfg.prop.c_str(), o.desc.c_str());
    }
    cleanup();
    return failed ? 1 : 0;
  }

  if (!cfg.import.empty()) {
    // A failing choice list saved by the coverage-guided fuzzer: confirm,
    // shrink, write a replay file.
    std::ifstream f(cfg.import);
    std::string line;
    std::getline(f, line);
    std::vector<uint64_t> c;
    uint64_t v;
    while (f >> v) c.push_back(v);
    Outcome o;
    int bad = 0;
    for (int k = 0; k < 5 && !bad; ++k) {
      o = RunOne(c.data(), c.size(), false, 0, true, 120, true);
      bad = o.failed;
    }
    if (!bad) { printf("import does not reproduce\n"); cleanup(); return 0; }
    if (!o.hang) {
      Outcome so = o;
      std::vector<uint64_t> x = Shrink(o.used.empty() ? c : o.used, &so, 60);
      Outcome a = RunOne(x.data(), x.size(), false, 0, true, 120, true);
      if (a.failed) { c = x; o = a; }
    }
    std::string r = WriteReplay("choices", c, "", o);
    printf("failure: %s\nVIOLATION property=%s replay=%s\n", o.msg.c_str(), cfg.prop.c_str(), r.c_str());
    cleanup();
    return 1;
  }

  if (cfg.cases == 0) cfg.cases = g_def->quick_cases;
  if (cfg.secs == 0) cfg.secs = g_def->quick_secs;
  const double t0 = Now();
  const double deadline = t0 + cfg.secs;
  const int W = cfg.workers;
  std::vector<Shm*> shm(W);
  std::vector<pid_t> pid(W, 0);
  std::vector<std::string> stat(W);
  auto spawn = [&](int w, uint64_t first) {
    shm[w]->failed = 0;
    shm[w]->started = Now();
    pid[w] = fork();
    if (pid[w] < 0) { perror("fork"); exit(3); }
    if (pid[w] == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      setpgid(0, 0);
      rlimit core = {0, 0};
      setrlimit(RLIMIT_CORE, &core);
      Worker(w, W, shm[w], deadline, stat[w], first, ~0ull >> 8);
    }
  };
  for (int w = 0; w < W; ++w) {
    shm[w] = NewShm();
    stat[w] = cfg.scratch_root + "/stat" + std::to_string(w);
    unlink(stat[w].c_str());
    spawn(w, w);
  }
  bool violation = false;
  std::string vmsg, vreplay;
  uint64_t lost = 0;
  std::vector<std::string> unreproduced;
  int live = W;
  while (live > 0 && !violation) {
    usleep(20000);
    for (int w = 0; w < W && !violation; ++w) {
      if (!pid[w]) continue;
      int st;
      pid_t r = waitpid(pid[w], &st, WNOHANG);
      bool hung = false;
      if (r == 0) {
        double s = shm[w]->started;
        if (s > 0 && Now() - s > cfg.hang) {
          kill(-pid[w], SIGKILL);
          kill(pid[w], SIGKILL);
          waitpid(pid[w], &st, 0);
          hung = true;
        } else {
          continue;
        }
      } else {
        kill(-pid[w], SIGKILL);  // stray grandchildren
      }
      pid_t gone = pid[w];
      pid[w] = 0;
      --live;
      (void)gone;
      if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
      // A failure: confirm it in fresh processes before believing it.
      uint64_t idx = shm[w]->case_index;
      lost += shm[w]->cases_done;
      std::vector<uint64_t> c(shm[w]->choices, shm[w]->choices + shm[w]->nchoices);
      if (shm[w]->nchoices >= kCap) c.clear();
      std::string first_msg = shm[w]->failed ? shm[w]->msg : hung ? "hang" : "crash";
      Outcome o;
      int bad = 0;
      // A case is normally deterministic, so one repetition confirms it; races
      // and uninitialised memory may need several.  A hang has to repeat
      // every time, since a loaded machine can look like one.
      for (int k = 0; k < (hung ? 2 : 12) && !bad; ++k) {
        Outcome a = RunOne(nullptr, 0, true, idx, true, hung ? cfg.hang / 2 : 120, true);
        if (a.failed && !(hung && !a.hang && k == 0)) { o = a; ++bad; }
        else if (hung) break;
      }
      if (bad && hung) {
        Outcome a = RunOne(nullptr, 0, true, idx, true, cfg.hang / 2, true);
        bad = a.failed;
      }
      if (bad) {
        violation = true;
        for (int v = 0; v < W; ++v) if (pid[v]) { kill(-pid[v], SIGKILL); kill(pid[v], SIGKILL); waitpid(pid[v], &st, 0); pid[v] = 0; }
        fprintf(stderr, "failing case %llu: %s\n", (unsigned long long)idx, o.msg.c_str());
        std::vector<uint64_t> sc = o.used.empty() ? c : o.used;
        if (!o.hang) {
          Outcome so = o;
          std::vector<uint64_t> x = Shrink(sc, &so, cfg.tier == "thorough" ? 90 : 30);
          int good = 0;
          Outcome fo;
          for (int k = 0; k < 3; ++k) {
            Outcome a = RunOne(x.data(), x.size(), false, 0, true, 120, true);
            if (a.failed) { fo = a; ++good; }
          }
          if (good) { sc = x; o = fo; }
        }
        vmsg = o.msg;
        vreplay = WriteReplay("choices", sc, "", o);
      } else {
        // Perhaps the failure depends on what the process did before.
        uint64_t n = (idx - w) / W + 1;
        int rb = 0;
        std::string m;
        uint64_t take = n;
        if (shm[w]->cases_done + 1 < take) take = shm[w]->cases_done + 1;
        uint64_t first = idx - (take - 1) * W;
        for (int k = 0; k < 3 && !hung && !rb; ++k) { if (RunRange(first, W, take, &m)) ++rb; }
        if (rb) {
          violation = true;
          for (int v = 0; v < W; ++v) if (pid[v]) { kill(-pid[v], SIGKILL); kill(pid[v], SIGKILL); waitpid(pid[v], &st, 0); pid[v] = 0; }
          // Shorten the prefix by halving.
          uint64_t lo = 1, hi = take;
          while (lo < hi) {
            uint64_t mid = lo + (hi - lo) / 2;
            if (RunRange(idx - (mid - 1) * W, W, mid, &m)) hi = mid; else lo = mid + 1;
          }
          RunRange(idx - (hi - 1) * W, W, hi, &m);
          o.msg = m + " (depends on earlier cases in the same process)";
          vmsg = o.msg;
          char ex[160];
          snprintf(ex, sizeof ex, "range %llu %llu %d %llu\n", (unsigned long long)cfg.seed,
                   (unsigned long long)(idx - (hi - 1) * W), W, (unsigned long long)hi);
          vreplay = WriteReplay("range", c, ex, o);
        } else {
          unreproduced.push_back(first_msg + " (case " + std::to_string(idx) + ")");
          if (unreproduced.size() < 20) {
            shm[w]->cases_done = 0;
            spawn(w, idx + W);
            ++live;
          }
        }
      }
    }
  }
  // Merge statistics.
  Stats all;
  if (violation) {
    lost = 0;
    for (int w = 0; w < W; ++w) lost += shm[w]->cases_done;
  }
  for (int w = 0; w < W; ++w) {
    std::ifstream f(stat[w]);
    if (!f) continue;
    uint64_t a, b, c, d, e;
    if (!(f >> a >> b >> c >> d >> e)) continue;
    all.evals += a; all.discards += b; all.nontrivial += c; all.sub += d; all.choices += e;
    size_t n;
    f >> n;
    f.ignore();
    for (size_t i = 0; i < n; ++i) {
      std::string line;
      std::getline(f, line);
      size_t t = line.find('\t');
      if (t != std::string::npos) all.labels[line.substr(0, t)] += strtoull(line.c_str() + t + 1, nullptr, 10);
    }
    f >> n;
    for (size_t i = 0; i < n; ++i) { uint64_t x; f >> x; all.samples.push_back(x); }
    f >> n;
    for (size_t i = 0; i < n; ++i) { std::string h; f >> h; all.distinct.insert(strtoull(h.c_str(), nullptr, 16)); }
  }
  std::vector<std::string> sample_desc;
  std::sort(all.samples.begin(), all.samples.end());
  for (size_t i = 0; i < all.samples.size() && sample_desc.size() < 4; i += std::max<size_t>(1, all.samples.size() / 4)) {
    Outcome o = RunOne(nullptr, 0, true, all.samples[i], true, 60, false);
    std::string d = o.desc;
    if (d.size() > 1200) d = d.substr(0, 1200) + "...";
    sample_desc.push_back("case " + std::to_string(all.samples[i]) + ": " + d);
  }
  double secs = Now() - t0;
  if (!cfg.out.empty()) {
    std::ofstream f(cfg.out);
    f << "{\"property\":" << JsonStr(cfg.prop) << ",\"flavour\":" << JsonStr(VERIF_FLAVOUR)
      << ",\"evaluations\":" << (violation ? lost : all.evals + all.discards) << ",\"discarded\":" << all.discards
      << ",\"sub_evaluations\":" << all.sub << ",\"nontrivial\":" << all.nontrivial
      << ",\"distinct_nontrivial\":" << all.distinct.size() << ",\"choices\":" << all.choices
      << ",\"rule\":" << JsonStr(g_def->rule) << ",\"secs\":" << secs
      << ",\"case_budget\":" << cfg.cases << ",\"time_cap\":" << cfg.secs
      << ",\"time_capped\":" << (all.evals + all.discards < cfg.cases && !violation ? "true" : "false");
    f << ",\"labels\":{";
    bool first = true;
    for (auto& l : all.labels) { f << (first ? "" : ",") << JsonStr(l.first) << ":" << l.second; first = false; }
    f << "},\"samples\":[";
    for (size_t i = 0; i < sample_desc.size(); ++i) f << (i ? "," : "") << JsonStr(sample_desc[i]);
    f << "],\"unreproduced\":[";
    for (size_t i = 0; i < unreproduced.size(); ++i) f << (i ? "," : "") << JsonStr(unreproduced[i]);
    f << "],\"violation\":" << (violation ? JsonStr(vmsg) : "null")
      << ",\"replay\":" << (violation ? JsonStr(vreplay) : "null") << "}\n";
  }
  printf("%s[%s]: %llu cases, %zu distinct non-trivial, %.1f s%s\n", cfg.prop.c_str(), VERIF_FLAVOUR,
         (unsigned long long)(violation ? lost : all.evals + all.discards), all.distinct.size(), secs,
         unreproduced.empty() ? "" : " (some unreproduced failures)");
  cleanup();
  if (violation) {
    printf("failure: %s\n", vmsg.c_str());
    printf("VIOLATION property=%s replay=%s\n", cfg.prop.c_str(), vreplay.c_str());
    return 1;
  }
  return 0;
}
