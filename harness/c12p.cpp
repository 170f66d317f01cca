// C12: payloads with unusual type traits.
#include "prof.h"
#define SWAP_P(name, O, P, F)                                                                                          \
  VP_HARNESS(name) { differential<O, P, F>(opSwap, opSelfSwap + 1, 0, true); }                                         \
  VP_HARNESS(name##_throw) { differential<O, P, F>(opSwap, opSelfSwap + 1, 3, true); }
PROFILES(SWAP_P)
