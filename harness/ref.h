// Independent VCDIFF (RFC 3284 + the documented 'S' extensions) reference:
// code tables, address cache, strict decoder, delta builder.  Written from the
// RFC and the public headers' documentation; shares no code with /repo.
#ifndef VERIF_REF_H_
#define VERIF_REF_H_
#include "core.h"

enum { R_NOOP = 0, R_ADD = 1, R_RUN = 2, R_COPY = 3 };

struct RefTable {
  // laid out as in RFC section 7: inst1, inst2, size1, size2, mode1, mode2
  unsigned char inst1[256], inst2[256], size1[256], size2[256], mode1[256], mode2[256];
};
const RefTable& RefDefaultTable();
bool RefTableValid(const RefTable& t, int near_size, int same_size);
Bytes RefTableBytes(const RefTable& t);

class RefCache {
 public:
  RefCache(int near_size, int same_size);
  void Reset();
  void Update(int64_t a);
  int near_size() const { return near_; }
  int same_size() const { return same_; }
  int64_t near_at(int i) const { return n_[i]; }
  int64_t same_at(int i) const { return s_[i]; }
 private:
  int near_, same_, slot_;
  std::vector<int64_t> n_, s_;
};

struct RefInst {
  int type;          // R_ADD, R_RUN, R_COPY
  uint64_t size;
  int mode;          // COPY
  int64_t addr;      // COPY: decoded address
  Bytes data;        // ADD: bytes; RUN: one byte
  size_t end_pos;    // offset in delta just after its last byte (interleaved)
  uint64_t target_after;  // absolute target size after it
};

struct RefWindow {
  size_t start, end;        // offsets in the delta
  size_t header_end;        // offset just after the window header
  int win_indicator;
  uint64_t seg_len, seg_pos;
  uint64_t target_start, target_len;
  bool interleaved, has_checksum;
  uint64_t checksum;        // field value
  uint32_t actual;          // Adler of the decoded window
  size_t checksum_off;      // offset of the checksum field (if any)
  size_t data_off, data_len, inst_off, inst_len, addr_off, addr_len;
  std::vector<RefInst> insts;
};

struct RefLimits {
  uint64_t max_file = 67108864, max_window = 67108864;
  bool allow_target = true;
};

struct RefResult {
  enum V { ACCEPT, INCOMPLETE, REJECT } v = REJECT;
  bool either = false;      // the RFC leaves the verdict open (see `why_either`)
  std::string why, why_either;
  int version = -1;         // 0 or 'S'
  int hdr_indicator = 0;
  size_t header_end = 0;    // where the windows start
  bool custom_table = false;
  int near = 4, same = 3;
  Bytes out;                // target of all complete windows
  Bytes partial;            // additional target bytes of an incomplete
                            // interleaved window
  std::vector<RefWindow> windows;
};

RefResult RefDecode(const Bytes& dict, const Bytes& delta, const RefLimits& lim,
                    bool keep_insts = true);

uint32_t RefAdler0(const Bytes& b, size_t pos, size_t len);  // initial value 0

void PutVarint(Bytes* out, uint64_t v);
size_t VarintLen(uint64_t v);

// ---- builder --------------------------------------------------------------
struct BuildInst {
  int type;
  uint64_t size;
  int64_t addr = 0;   // COPY
  Bytes data;         // ADD: size bytes, RUN: 1 byte
};
struct BuildWindow {
  int kind = 0;             // 0 none, 1 SOURCE, 2 TARGET
  uint64_t seg_len = 0, seg_pos = 0;
  bool interleaved = false, checksum = false;
  std::vector<BuildInst> insts;
};
struct BuildOpts {
  char version = 0;         // 0 or 'S'
  bool custom = false;
  RefTable table;
  int near = 4, same = 3;
};
// What building a window produced besides bytes.
struct BuildStats {
  uint64_t opcodes[256] = {0};
  uint64_t modes[260] = {0};
  uint64_t pairs = 0;
};
// Appends the encoded window; *target is the target decoded so far and is
// extended by this window.  Choices (opcode, mode, pairing) come from s.
void BuildWindowBytes(Source& s, const Bytes& dict, const BuildOpts& o, const BuildWindow& w,
                      Bytes* target, Bytes* out, BuildStats* st);
Bytes FileHeader(char version, int indicator);
#endif  // VERIF_REF_H_
