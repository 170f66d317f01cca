// C06: payloads with unusual type traits.
#include "prof.h"
#define LIFE_P(name, O, P, F) VP_HARNESS(name) { differential<O, P, F>(0, opEnd, 0, false); }
PROFILES(LIFE_P)
