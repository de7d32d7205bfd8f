#include "replay.h"
#define VARIANT "clang variant"
#include "p16_body.inc"
void gcc_variant();
void vp_replay(const rp::Cands&, rp::Clock) {
  for (int i = 0; i < 20; ++i) { one(); gcc_variant(); }
}
