#ifndef VERIF_PROPS_H_
#define VERIF_PROPS_H_
#include "core.h"
#include "gen.h"
#define P(n) void prop_C##n(Source& s, Ctx& c)
P(01); P(02); P(03); P(04); P(05); P(06); P(07); P(08); P(09); P(10);
P(11); P(12); P(13); P(14); P(15); P(16); P(17); P(18); P(19); P(20); P(21);
#undef P
GenDeltaOpts TieredDelta(Source& s, bool slow);
void LabelDelta(Ctx& c, const GenDelta& g);
// A byte string to feed a decoder: valid, mutated, truncated or arbitrary.
struct AnyDelta {
  Bytes dict, delta;
  std::string kind;
  bool valid = false;
};
// Strictly parses a JSON delta and applies it (fails the case if malformed).
Bytes ApplyJsonText(const Bytes& dict, const Bytes& text);
AnyDelta GenAnyDelta(Source& s, Ctx& c, bool allow_invalid);
#endif
