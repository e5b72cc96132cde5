#define PART 5
#include "c29_refl.cpp"
