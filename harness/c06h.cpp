// C06: sequences of two operations.
#include "life.h"
VP_HARNESS(sep_two) { differential<Sep<TS>, TS, false>(0, opAliasL, 0, false, 2); }
VP_HARNESS(memint_two) { differential<MemInt<TT>, TT, false>(0, opAliasL, 0, false, 2); }
#if !defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS) || defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_MEMBER)
VP_HARNESS(memdbl_two) { differential<MemDbl<TN>, TN, false>(0, opAliasL, 0, false, 2); }
#endif
