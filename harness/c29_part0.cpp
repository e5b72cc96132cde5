#define PART 0
#include "c29_refl.cpp"
