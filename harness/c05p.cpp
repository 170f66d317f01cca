// C05: payloads with unusual type traits.
#include "prof.h"
#define FLAGS_P(name, P)                                                                                               \
  VP_HARNESS(name##_ops) { differential<Inpl<P>, P, true>(0, opEnd, 0, false); }                                       \
  VP_HARNESS(name##_throw) { differential<Inpl<P>, P, true>(0, opEnd, 3, false); }
FLAGS_P(construct, P_construct)
FLAGS_P(assign, P_assign)
FLAGS_P(copies, P_copies)
FLAGS_P(nswap, P_nswap)
FLAGS_P(alls, P_alls)
FLAGS_P(Dnone, D_none)
FLAGS_P(Dswap, D_swap)
FLAGS_P(Dconstruct, D_construct)
FLAGS_P(Cnone, C_none)
FLAGS_P(Cswap, C_swap)
FLAGS_P(Anone, A_none)
FLAGS_P(Vnone, V_none)
FLAGS_P(Hnone, H_none)
FLAGS_P(Hall, H_all)
