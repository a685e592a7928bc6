#define NDEBUG 1
#include "mutex.cpp"
