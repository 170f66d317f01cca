// C05: sequences of two operations.
#include "life.h"
// sequences of two operations
VP_HARNESS(inpl_two) { differential<Inpl<TS>, TS, true>(0, opAliasL, 0, false, 2); }
VP_HARNESS(mem_two) { differential<MemTr<WMN>, WMN, kMem>(0, opAliasL, 0, false, 2); }

