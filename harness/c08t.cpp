#define VP_K 3
#include "c08.cpp"
