// The same instantiations of the implementation for compilers without variadic templates.
#define BOOST_NO_CXX11_VARIADIC_TEMPLATES 1
#define BOOST_SP_DISABLE_THREADS
#include "sig.cpp"
