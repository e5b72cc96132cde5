#define PART 3
#include "c29_refl.cpp"
