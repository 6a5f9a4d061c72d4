// Property-based testing core: choice sequences, case context, registry.
//
// Every random decision of a case is drawn from a Source.  In generation mode
// the Source is a PRNG seeded from (VERIF_SEED, property, case index) and
// records what it drew; in replay mode it plays back a recorded (possibly
// shrunk) list.  A case is therefore fully described by its list of choices.
#ifndef VERIF_CORE_H_
#define VERIF_CORE_H_

#include <stddef.h>
#include <stdint.h>
#include <initializer_list>
#include <map>
#include <set>
#include <string>
#include <vector>

typedef std::string Bytes;

// Thrown when the property does not hold on the generated case.
struct Failure {
  std::string msg;
};
// Thrown when a case turns out not to be in the domain (kept rare).
struct Discard {};

class Source {
 public:
  // Generation mode.
  explicit Source(uint64_t seed);
  // A nested generator for bulk data, described by its seed alone: what it
  // draws is not recorded.
  struct Bulk {};
  Source(uint64_t seed, Bulk);
  // Replay mode.
  Source(const uint64_t* choices, size_t n);
  // Byte mode (libFuzzer).
  Source(const uint8_t* data, size_t n, int /*bytes*/);

  uint64_t Below(uint64_t n);                    // [0, n), 0 is simplest
  uint64_t Range(uint64_t lo, uint64_t hi) {     // [lo, hi], lo is simplest
    return lo + Below(hi - lo + 1);
  }
  bool Chance(unsigned num, unsigned den);       // false is simplest
  bool Flip() { return Chance(1, 2); }
  uint64_t Raw();                                // 64 bits, e.g. a fill seed
  // Lengths: mixture of small, boundary and log-uniform values in [0, max].
  uint64_t Len(uint64_t max);
  // Weighted pick: index i with probability w[i]/sum; index 0 is simplest.
  int Pick(std::initializer_list<int> w);
  // "one more element?" with geometric mean `avg`, at most max.
  bool More(size_t i, unsigned avg, size_t max);

  const std::vector<uint64_t>& choices() const { return rec_; }
  static void SetTrace(uint64_t* buf, uint32_t* n, uint32_t cap);

 private:
  uint64_t Next(uint64_t bound);  // bound==0: full range
  void Record(uint64_t v);
  enum Mode { GEN, REPLAY, BYTES } mode_;
  bool bulk_ = false;
  uint64_t s_[4];
  const uint64_t* play_;
  const uint8_t* bytes_;
  size_t n_, pos_;
  std::vector<uint64_t> rec_;
};

struct Ctx {
  bool nontrivial = false;
  bool want_desc = false;           // describe the case in `desc`
  std::string desc;
  std::map<std::string, uint64_t> labels;
  std::string scratch;              // private scratch dir (CLI properties)
  std::string vcdiff;               // path of the executable under test
  bool thorough = false;
  bool dbg_build = false;           // library built without NDEBUG
  uint64_t sub_evaluations = 0;     // extra oracle evaluations inside a case
  void Label(const char* l, uint64_t n = 1) { labels[l] += n; }
  void Desc(const std::string& s) { if (want_desc) { desc += s; desc += "\n"; } }
};

typedef void (*PropFn)(Source&, Ctx&);
struct PropDef {
  const char* id;
  PropFn fn;
  const char* rule;       // how cases are made, what makes one non-trivial
  uint64_t quick_cases;   // upper bound on cases
  double quick_secs;      // time cap of the exploration
};
const std::vector<PropDef>& AllProps();

[[noreturn]] void FailCase(const char* fmt, ...)
    __attribute__((format(printf, 1, 2)));
#define CHECK_PROP(cond, ...) \
  do { if (!(cond)) FailCase(__VA_ARGS__); } while (0)

uint64_t Mix(uint64_t a, uint64_t b);
std::string Hex(const Bytes& b, size_t max = 64);
std::string Printable(const Bytes& b, size_t max = 120);
size_t FirstDiff(const Bytes& a, const Bytes& b);

// Largest amount of heap memory in use at once since the tracker was made, in
// builds that can tell (Enabled).  One at a time.
class HeapPeak {
 public:
  HeapPeak();
  ~HeapPeak();
  static bool Enabled();
  size_t Peak() const;
  // Bytes allocated and not freed since construction.
  long long Now() const;
};
#endif  // VERIF_CORE_H_
