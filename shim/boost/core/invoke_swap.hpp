#pragma once
#include <utility>
namespace boost { namespace core { 
namespace invoke_swap_detail { using std::swap; template<class T> void sw(T&a,T&b){ swap(a,b);} }
template<class T> inline void invoke_swap(T& l,T& r){ invoke_swap_detail::sw(l,r);} } }
