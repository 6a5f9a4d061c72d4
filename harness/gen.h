// Generators and thin wrappers around the library's public API.
#ifndef VERIF_GEN_H_
#define VERIF_GEN_H_
#include "core.h"
#include "ref.h"

// n bytes from a PRNG seeded with `seed`, over `alphabet` symbols (1..256)
// starting at `base`.
Bytes Fill(uint64_t seed, size_t n, unsigned alphabet, unsigned base);

struct BlobOpts {
  size_t max = 4096;
  bool ascii = false;
  bool fill = false;   // make the size at least half of `max`
};
// Size bound of a blob: mostly small, sometimes up to several MB.  `scale`
// divides the large tiers (slow builds).
BlobOpts GenSizeTier(Source& s, unsigned scale);
// A dictionary: a few segments of literals, runs, periodic data, repeats.
Bytes GenDict(Source& s, const BlobOpts& o);
// A target related to dict: literals, dictionary slices (exact or mutated),
// repeats of the target itself, runs.
Bytes GenTarget(Source& s, const Bytes& dict, const BlobOpts& o);
// A dictionary of many megabytes and a small target made of slices of it, taken
// from around the places where offsets need one more digit or byte.
struct FarSlice { size_t t0, src, len; };
void FarBlobs(Source& s, bool ascii, Bytes* dict, Bytes* target, std::vector<FarSlice>* slices);
// Splits [0,total) into consecutive pieces (possibly empty ones).
std::vector<size_t> GenChunks(Source& s, size_t total, bool allow_empty = true);

// A well-formed delta built instruction by instruction.
struct GenDeltaOpts {
  size_t max_dict = 2000;
  size_t max_window = 3000;     // typical window target size bound
  size_t max_windows = 6;
  unsigned avg_windows = 3;
  int want_version = -1;        // -1 any, 0, 'S'
  int force_checksum = -1;      // -1 any
  int force_interleaved = -1;
  bool allow_target_windows = true;
  bool custom_table = false;    // generate a custom table + cache sizes
  bool big = false;             // allow rare large sizes
  const BuildOpts* use_opts = nullptr;
  size_t far_dict = 0;  // size of an incompressible dictionary of many megabytes
  size_t mass_windows = 0;      // exactly so many small windows
  size_t mass_insts = 0;        // exactly so many instructions in each window
};
// Options for a delta with very many windows or instructions (counters beyond
// 8 and 16 bits); use with a Source::Bulk.
GenDeltaOpts MassDelta(Source& s);
struct GenDelta {
  Bytes dict, delta, target;
  BuildOpts opts;
  std::vector<BuildWindow> windows;
  std::vector<size_t> window_end;      // delta offset after window i
  std::vector<size_t> target_end;      // target size after window i
  size_t header_end = 0;
  BuildStats stats;
  bool uses_target_segment = false;
};
GenDelta GenValidDelta(Source& s, const GenDeltaOpts& o);
RefTable GenTable(Source& s, int near, int same);
// Header + embedded table delta for a custom table.
Bytes CustomTableHeader(Source& s, char version, int near, int same, const RefTable& t);
std::string DescribeDelta(const GenDelta& g);
std::string DescribeBlobs(const Bytes& dict, const Bytes& target);

// Mutates a delta: bit flips, byte sets, field edits, inserts, deletes,
// duplications, truncation, varint extensions.  Uses the parse to aim.
Bytes MutateDelta(Source& s, const Bytes& delta, const RefResult* parsed, std::string* what);

// Edits one window's sections and fields and re-serialises it with consistent
// lengths, so that the damage reaches the instruction interpreter.
Bytes EditWindows(Source& s, const Bytes& delta, const RefResult& parsed, std::string* what);

// ---- the library under test ------------------------------------------------
struct DecodeOpts {
  bool set_limits = false;
  uint64_t max_file = 67108864, max_window = 67108864;
  bool allow_target = true;
};
struct DecodeResult {
  bool ok = false;
  bool chunk_failed = false;
  bool finish_ok = false;
  Bytes out;
  std::vector<size_t> out_after;   // output size after each chunk
  std::vector<bool> ok_after;
};
// Decodes through the streaming decoder, feeding exact-size heap copies of
// each piece which are scribbled over and freed right after the call.
DecodeResult RealDecode(const Bytes& dict, const Bytes& delta, const std::vector<size_t>& chunks,
                        const DecodeOpts& o = DecodeOpts());
DecodeResult RealDecodeOne(const Bytes& dict, const Bytes& delta, const DecodeOpts& o = DecodeOpts());
bool RealDecodeSimple(const Bytes& dict, const Bytes& delta, Bytes* out);

struct EncodeOpts {
  int flags = 0;
  bool target_matching = true;
};
// Streaming encoder; returns false if any call failed.
bool RealEncode(const Bytes& dict, const Bytes& target, const std::vector<size_t>& chunks,
                const EncodeOpts& o, Bytes* out);
bool RealEncodeSimple(const Bytes& dict, const Bytes& target, const EncodeOpts& o, Bytes* out);

std::string ChunksStr(const std::vector<size_t>& c);
// Exact-size heap copy (so a sanitizer sees any over-read).
struct HeapCopy {
  explicit HeapCopy(const Bytes& b);
  HeapCopy(const char* d, size_t n);
  ~HeapCopy();
  char* p;
  size_t n;
 private:
  HeapCopy(const HeapCopy&);
  void operator=(const HeapCopy&);
};
#endif  // VERIF_GEN_H_
