#define PART 6
#include "c29_refl.cpp"
