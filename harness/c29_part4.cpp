#define PART 4
#include "c29_refl.cpp"
