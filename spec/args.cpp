// Instantiates the real variadic_slot_invoker for 0 to 9 arguments of mixed categories with opaque slot functions and argument classes
// (declared, never defined).  Each entry makes one invoker and uses it twice, as an invocation with two slots does.
#include <boost/signals2/detail/signals_common.hpp>
#include <boost/signals2/detail/result_type_wrapper.hpp>
#include <boost/mpl/size_t.hpp>
#include <boost/utility/enable_if.hpp>
#include <boost/type_traits/is_void.hpp>
#include <boost/signals2/detail/variadic_slot_invoker.hpp>
namespace spec {
  template<int N> struct P { P(const P&); P(P&&); P& operator=(const P&); P& operator=(P&&); ~P(); long v; };
  struct V { V(const V&); V(V&&); ~V(); long v; };
  template<class R, class... A> struct Fn { typedef R result_type; R operator()(A...); long id; };
  template<class F> struct Slot { F &slot_function(); const F &slot_function() const; long id; };
  template<class F> struct Body { Slot<F> &slot(); const Slot<F> &slot() const; long id; };
}
namespace d = boost::signals2::detail;
extern "C" {
void inv_int_0(spec::Body<spec::Fn<int> > *b) {
  d::variadic_slot_invoker<int> i;
  extern void got(int); got(i(b)); got(i(b));
}
void inv_void_0(spec::Body<spec::Fn<void> > *b) {
  d::variadic_slot_invoker<boost::signals2::detail::void_type> i;
  i(b); i(b);
}
void inv_obj_0(spec::Body<spec::Fn<spec::V> > *b) {
  d::variadic_slot_invoker<spec::V> i;
  extern void got_obj(const spec::V &); got_obj(i(b)); got_obj(i(b));
}
void inv_ref_0(spec::Body<spec::Fn<spec::V&> > *b) {
  d::variadic_slot_invoker<spec::V&> i;
  extern void got_obj(const spec::V &); got_obj(i(b)); got_obj(i(b));
}
void inv_int_1(spec::Body<spec::Fn<int, spec::P<1>> > *b, spec::P<1> & a1) {
  d::variadic_slot_invoker<int, spec::P<1>> i(a1);
  extern void got(int); got(i(b)); got(i(b));
}
void inv_void_1(spec::Body<spec::Fn<void, spec::P<1>> > *b, spec::P<1> & a1) {
  d::variadic_slot_invoker<boost::signals2::detail::void_type, spec::P<1>> i(a1);
  i(b); i(b);
}
void inv_obj_1(spec::Body<spec::Fn<spec::V, spec::P<1>> > *b, spec::P<1> & a1) {
  d::variadic_slot_invoker<spec::V, spec::P<1>> i(a1);
  extern void got_obj(const spec::V &); got_obj(i(b)); got_obj(i(b));
}
void inv_ref_1(spec::Body<spec::Fn<spec::V&, spec::P<1>> > *b, spec::P<1> & a1) {
  d::variadic_slot_invoker<spec::V&, spec::P<1>> i(a1);
  extern void got_obj(const spec::V &); got_obj(i(b)); got_obj(i(b));
}
void inv_int_2(spec::Body<spec::Fn<int, spec::P<1>, spec::P<2>&> > *b, spec::P<1> & a1, spec::P<2>& a2) {
  d::variadic_slot_invoker<int, spec::P<1>, spec::P<2>&> i(a1, a2);
  extern void got(int); got(i(b)); got(i(b));
}
void inv_void_2(spec::Body<spec::Fn<void, spec::P<1>, spec::P<2>&> > *b, spec::P<1> & a1, spec::P<2>& a2) {
  d::variadic_slot_invoker<boost::signals2::detail::void_type, spec::P<1>, spec::P<2>&> i(a1, a2);
  i(b); i(b);
}
void inv_int_3(spec::Body<spec::Fn<int, spec::P<1>, spec::P<2>&, const spec::P<3>&> > *b, spec::P<1> & a1, spec::P<2>& a2, const spec::P<3>& a3) {
  d::variadic_slot_invoker<int, spec::P<1>, spec::P<2>&, const spec::P<3>&> i(a1, a2, a3);
  extern void got(int); got(i(b)); got(i(b));
}
void inv_void_3(spec::Body<spec::Fn<void, spec::P<1>, spec::P<2>&, const spec::P<3>&> > *b, spec::P<1> & a1, spec::P<2>& a2, const spec::P<3>& a3) {
  d::variadic_slot_invoker<boost::signals2::detail::void_type, spec::P<1>, spec::P<2>&, const spec::P<3>&> i(a1, a2, a3);
  i(b); i(b);
}
void inv_obj_3(spec::Body<spec::Fn<spec::V, spec::P<1>, spec::P<2>&, const spec::P<3>&> > *b, spec::P<1> & a1, spec::P<2>& a2, const spec::P<3>& a3) {
  d::variadic_slot_invoker<spec::V, spec::P<1>, spec::P<2>&, const spec::P<3>&> i(a1, a2, a3);
  extern void got_obj(const spec::V &); got_obj(i(b)); got_obj(i(b));
}
void inv_ref_3(spec::Body<spec::Fn<spec::V&, spec::P<1>, spec::P<2>&, const spec::P<3>&> > *b, spec::P<1> & a1, spec::P<2>& a2, const spec::P<3>& a3) {
  d::variadic_slot_invoker<spec::V&, spec::P<1>, spec::P<2>&, const spec::P<3>&> i(a1, a2, a3);
  extern void got_obj(const spec::V &); got_obj(i(b)); got_obj(i(b));
}
void inv_int_4(spec::Body<spec::Fn<int, spec::P<1>, spec::P<2>&, const spec::P<3>&, int> > *b, spec::P<1> & a1, spec::P<2>& a2, const spec::P<3>& a3, int & a4) {
  d::variadic_slot_invoker<int, spec::P<1>, spec::P<2>&, const spec::P<3>&, int> i(a1, a2, a3, a4);
  extern void got(int); got(i(b)); got(i(b));
}
void inv_void_4(spec::Body<spec::Fn<void, spec::P<1>, spec::P<2>&, const spec::P<3>&, int> > *b, spec::P<1> & a1, spec::P<2>& a2, const spec::P<3>& a3, int & a4) {
  d::variadic_slot_invoker<boost::signals2::detail::void_type, spec::P<1>, spec::P<2>&, const spec::P<3>&, int> i(a1, a2, a3, a4);
  i(b); i(b);
}
void inv_int_5(spec::Body<spec::Fn<int, spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::P<5>> > *b, spec::P<1> & a1, spec::P<2>& a2, const spec::P<3>& a3, int & a4, spec::P<5> & a5) {
  d::variadic_slot_invoker<int, spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::P<5>> i(a1, a2, a3, a4, a5);
  extern void got(int); got(i(b)); got(i(b));
}
void inv_void_5(spec::Body<spec::Fn<void, spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::P<5>> > *b, spec::P<1> & a1, spec::P<2>& a2, const spec::P<3>& a3, int & a4, spec::P<5> & a5) {
  d::variadic_slot_invoker<boost::signals2::detail::void_type, spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::P<5>> i(a1, a2, a3, a4, a5);
  i(b); i(b);
}
void inv_int_6(spec::Body<spec::Fn<int, spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::P<5>, const int&> > *b, spec::P<1> & a1, spec::P<2>& a2, const spec::P<3>& a3, int & a4, spec::P<5> & a5, const int& a6) {
  d::variadic_slot_invoker<int, spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::P<5>, const int&> i(a1, a2, a3, a4, a5, a6);
  extern void got(int); got(i(b)); got(i(b));
}
void inv_void_6(spec::Body<spec::Fn<void, spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::P<5>, const int&> > *b, spec::P<1> & a1, spec::P<2>& a2, const spec::P<3>& a3, int & a4, spec::P<5> & a5, const int& a6) {
  d::variadic_slot_invoker<boost::signals2::detail::void_type, spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::P<5>, const int&> i(a1, a2, a3, a4, a5, a6);
  i(b); i(b);
}
void inv_int_7(spec::Body<spec::Fn<int, spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::P<5>, const int&, spec::P<7>*> > *b, spec::P<1> & a1, spec::P<2>& a2, const spec::P<3>& a3, int & a4, spec::P<5> & a5, const int& a6, spec::P<7>* & a7) {
  d::variadic_slot_invoker<int, spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::P<5>, const int&, spec::P<7>*> i(a1, a2, a3, a4, a5, a6, a7);
  extern void got(int); got(i(b)); got(i(b));
}
void inv_void_7(spec::Body<spec::Fn<void, spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::P<5>, const int&, spec::P<7>*> > *b, spec::P<1> & a1, spec::P<2>& a2, const spec::P<3>& a3, int & a4, spec::P<5> & a5, const int& a6, spec::P<7>* & a7) {
  d::variadic_slot_invoker<boost::signals2::detail::void_type, spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::P<5>, const int&, spec::P<7>*> i(a1, a2, a3, a4, a5, a6, a7);
  i(b); i(b);
}
void inv_int_8(spec::Body<spec::Fn<int, spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::P<5>, const int&, spec::P<7>*, long> > *b, spec::P<1> & a1, spec::P<2>& a2, const spec::P<3>& a3, int & a4, spec::P<5> & a5, const int& a6, spec::P<7>* & a7, long & a8) {
  d::variadic_slot_invoker<int, spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::P<5>, const int&, spec::P<7>*, long> i(a1, a2, a3, a4, a5, a6, a7, a8);
  extern void got(int); got(i(b)); got(i(b));
}
void inv_void_8(spec::Body<spec::Fn<void, spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::P<5>, const int&, spec::P<7>*, long> > *b, spec::P<1> & a1, spec::P<2>& a2, const spec::P<3>& a3, int & a4, spec::P<5> & a5, const int& a6, spec::P<7>* & a7, long & a8) {
  d::variadic_slot_invoker<boost::signals2::detail::void_type, spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::P<5>, const int&, spec::P<7>*, long> i(a1, a2, a3, a4, a5, a6, a7, a8);
  i(b); i(b);
}
void inv_int_9(spec::Body<spec::Fn<int, spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::P<5>, const int&, spec::P<7>*, long, spec::P<9>> > *b, spec::P<1> & a1, spec::P<2>& a2, const spec::P<3>& a3, int & a4, spec::P<5> & a5, const int& a6, spec::P<7>* & a7, long & a8, spec::P<9> & a9) {
  d::variadic_slot_invoker<int, spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::P<5>, const int&, spec::P<7>*, long, spec::P<9>> i(a1, a2, a3, a4, a5, a6, a7, a8, a9);
  extern void got(int); got(i(b)); got(i(b));
}
void inv_void_9(spec::Body<spec::Fn<void, spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::P<5>, const int&, spec::P<7>*, long, spec::P<9>> > *b, spec::P<1> & a1, spec::P<2>& a2, const spec::P<3>& a3, int & a4, spec::P<5> & a5, const int& a6, spec::P<7>* & a7, long & a8, spec::P<9> & a9) {
  d::variadic_slot_invoker<boost::signals2::detail::void_type, spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::P<5>, const int&, spec::P<7>*, long, spec::P<9>> i(a1, a2, a3, a4, a5, a6, a7, a8, a9);
  i(b); i(b);
}
}
