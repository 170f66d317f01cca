// C07: payloads with unusual type traits, an exception at every point.
#include "prof.h"
#define EXC_P(name, O, P, F) VP_HARNESS(name) { differential<O, P, F>(0, opEnd, 3, true); }
PROFILES(EXC_P)
