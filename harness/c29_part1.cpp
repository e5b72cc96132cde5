#define PART 1
#include "c29_refl.cpp"
