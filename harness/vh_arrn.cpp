// The driver of the two-dimensional arrays, with the arrays compiled without debugging aids.
#undef DEBUG
#define NDEBUG 1
#if __has_include("utilities/aarray2d.cpp")
#include "utilities/aarray2d.cpp"
#endif
#include "vh_arr.cpp"
