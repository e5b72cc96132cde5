#define PART 2
#include "c29_refl.cpp"
