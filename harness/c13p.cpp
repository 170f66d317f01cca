// C13: payloads with unusual type traits.
#include "prof.h"
#define CM_P(name, O, P, F)                                                                                            \
  VP_HARNESS(name##_cm) { differential<O, P, F>(0, opSwap, 0, true); }                                                 \
  VP_HARNESS(name##_val) { differential<O, P, F>(opValAsgL, opEnd, 0, true); }
PROFILES(CM_P)
