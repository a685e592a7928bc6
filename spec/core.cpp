// The same instantiations with the single threaded smart pointer counters, so that the smart pointer code itself is verified along.
#define BOOST_SP_DISABLE_THREADS
#include "sig.cpp"
