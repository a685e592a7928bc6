// The slot invoker for compilers without variadic templates (a local class of signalN_impl) for 0 to 9 arguments of mixed categories,
// with opaque slot functions and argument classes (declared, never defined).  Each entry makes one invoker and uses it twice.
#define BOOST_SP_DISABLE_THREADS 1
#define BOOST_NO_CXX11_VARIADIC_TEMPLATES 1
#include <functional>
#include <boost/signals2/signal.hpp>
namespace spec {
  template<int N> struct P { P(const P&); P(P&&); P& operator=(const P&); P& operator=(P&&); ~P(); long v; };
  struct V { V(const V&); V(V&&); ~V(); long v; };
  template<class S> struct Fn;
  template<class S> struct Comb { typedef S result_type; };
  struct Mutex { void lock(); void unlock(); bool try_lock(); };
}
namespace d = boost::signals2::detail; namespace s2 = boost::signals2;
namespace spec { template<class R> struct Fn<R()> { typedef R result_type; Fn(); Fn(const Fn&); Fn& operator=(const Fn&); ~Fn(); R operator()(); R operator()() const; long id; }; }
namespace spec { template<class R, class A0> struct Fn<R(A0)> { typedef R result_type; Fn(); Fn(const Fn&); Fn& operator=(const Fn&); ~Fn(); R operator()(A0); R operator()(A0) const; long id; }; }
namespace spec { template<class R, class A0, class A1> struct Fn<R(A0, A1)> { typedef R result_type; Fn(); Fn(const Fn&); Fn& operator=(const Fn&); ~Fn(); R operator()(A0, A1); R operator()(A0, A1) const; long id; }; }
namespace spec { template<class R, class A0, class A1, class A2> struct Fn<R(A0, A1, A2)> { typedef R result_type; Fn(); Fn(const Fn&); Fn& operator=(const Fn&); ~Fn(); R operator()(A0, A1, A2); R operator()(A0, A1, A2) const; long id; }; }
namespace spec { template<class R, class A0, class A1, class A2, class A3> struct Fn<R(A0, A1, A2, A3)> { typedef R result_type; Fn(); Fn(const Fn&); Fn& operator=(const Fn&); ~Fn(); R operator()(A0, A1, A2, A3); R operator()(A0, A1, A2, A3) const; long id; }; }
namespace spec { template<class R, class A0, class A1, class A2, class A3, class A4> struct Fn<R(A0, A1, A2, A3, A4)> { typedef R result_type; Fn(); Fn(const Fn&); Fn& operator=(const Fn&); ~Fn(); R operator()(A0, A1, A2, A3, A4); R operator()(A0, A1, A2, A3, A4) const; long id; }; }
namespace spec { template<class R, class A0, class A1, class A2, class A3, class A4, class A5> struct Fn<R(A0, A1, A2, A3, A4, A5)> { typedef R result_type; Fn(); Fn(const Fn&); Fn& operator=(const Fn&); ~Fn(); R operator()(A0, A1, A2, A3, A4, A5); R operator()(A0, A1, A2, A3, A4, A5) const; long id; }; }
namespace spec { template<class R, class A0, class A1, class A2, class A3, class A4, class A5, class A6> struct Fn<R(A0, A1, A2, A3, A4, A5, A6)> { typedef R result_type; Fn(); Fn(const Fn&); Fn& operator=(const Fn&); ~Fn(); R operator()(A0, A1, A2, A3, A4, A5, A6); R operator()(A0, A1, A2, A3, A4, A5, A6) const; long id; }; }
namespace spec { template<class R, class A0, class A1, class A2, class A3, class A4, class A5, class A6, class A7> struct Fn<R(A0, A1, A2, A3, A4, A5, A6, A7)> { typedef R result_type; Fn(); Fn(const Fn&); Fn& operator=(const Fn&); ~Fn(); R operator()(A0, A1, A2, A3, A4, A5, A6, A7); R operator()(A0, A1, A2, A3, A4, A5, A6, A7) const; long id; }; }
namespace spec { template<class R, class A0, class A1, class A2, class A3, class A4, class A5, class A6, class A7, class A8> struct Fn<R(A0, A1, A2, A3, A4, A5, A6, A7, A8)> { typedef R result_type; Fn(); Fn(const Fn&); Fn& operator=(const Fn&); ~Fn(); R operator()(A0, A1, A2, A3, A4, A5, A6, A7, A8); R operator()(A0, A1, A2, A3, A4, A5, A6, A7, A8) const; long id; }; }
namespace spec { template<class R, class A0, class A1, class A2, class A3, class A4, class A5, class A6, class A7, class A8, class A9> struct Fn<R(A0, A1, A2, A3, A4, A5, A6, A7, A8, A9)> { typedef R result_type; Fn(); Fn(const Fn&); Fn& operator=(const Fn&); ~Fn(); R operator()(A0, A1, A2, A3, A4, A5, A6, A7, A8, A9); R operator()(A0, A1, A2, A3, A4, A5, A6, A7, A8, A9) const; long id; }; }
extern "C" {
void got(int); void got_obj(const spec::V &);
typedef d::signal0_impl<int, spec::Comb<int>, int, std::less<int>, spec::Fn<int()>, spec::Fn<int(const s2::connection &)>, spec::Mutex> I_int_0;
void inv_int_0(I_int_0::connection_body_type *b) { I_int_0::slot_invoker i; got(i(*b)); got(i(*b)); }
typedef d::signal0_impl<void, spec::Comb<void>, int, std::less<int>, spec::Fn<void()>, spec::Fn<void(const s2::connection &)>, spec::Mutex> I_void_0;
void inv_void_0(I_void_0::connection_body_type *b) { I_void_0::slot_invoker i; i(*b); i(*b); }
typedef d::signal0_impl<spec::V, spec::Comb<spec::V>, int, std::less<int>, spec::Fn<spec::V()>, spec::Fn<spec::V(const s2::connection &)>, spec::Mutex> I_obj_0;
void inv_obj_0(I_obj_0::connection_body_type *b) { I_obj_0::slot_invoker i; got_obj(i(*b)); got_obj(i(*b)); }
typedef d::signal0_impl<spec::V&, spec::Comb<spec::V&>, int, std::less<int>, spec::Fn<spec::V&()>, spec::Fn<spec::V&(const s2::connection &)>, spec::Mutex> I_ref_0;
void inv_ref_0(I_ref_0::connection_body_type *b) { I_ref_0::slot_invoker i; got_obj(i(*b)); got_obj(i(*b)); }
typedef d::signal1_impl<int, spec::P<1>, spec::Comb<int>, int, std::less<int>, spec::Fn<int(spec::P<1>)>, spec::Fn<int(const s2::connection &, spec::P<1>)>, spec::Mutex> I_int_1;
void inv_int_1(I_int_1::connection_body_type *b, spec::P<1> & a1) { I_int_1::slot_invoker i(a1); got(i(*b)); got(i(*b)); }
typedef d::signal1_impl<void, spec::P<1>, spec::Comb<void>, int, std::less<int>, spec::Fn<void(spec::P<1>)>, spec::Fn<void(const s2::connection &, spec::P<1>)>, spec::Mutex> I_void_1;
void inv_void_1(I_void_1::connection_body_type *b, spec::P<1> & a1) { I_void_1::slot_invoker i(a1); i(*b); i(*b); }
typedef d::signal1_impl<spec::V, spec::P<1>, spec::Comb<spec::V>, int, std::less<int>, spec::Fn<spec::V(spec::P<1>)>, spec::Fn<spec::V(const s2::connection &, spec::P<1>)>, spec::Mutex> I_obj_1;
void inv_obj_1(I_obj_1::connection_body_type *b, spec::P<1> & a1) { I_obj_1::slot_invoker i(a1); got_obj(i(*b)); got_obj(i(*b)); }
typedef d::signal1_impl<spec::V&, spec::P<1>, spec::Comb<spec::V&>, int, std::less<int>, spec::Fn<spec::V&(spec::P<1>)>, spec::Fn<spec::V&(const s2::connection &, spec::P<1>)>, spec::Mutex> I_ref_1;
void inv_ref_1(I_ref_1::connection_body_type *b, spec::P<1> & a1) { I_ref_1::slot_invoker i(a1); got_obj(i(*b)); got_obj(i(*b)); }
typedef d::signal2_impl<int, spec::P<1>, spec::P<2>&, spec::Comb<int>, int, std::less<int>, spec::Fn<int(spec::P<1>, spec::P<2>&)>, spec::Fn<int(const s2::connection &, spec::P<1>, spec::P<2>&)>, spec::Mutex> I_int_2;
void inv_int_2(I_int_2::connection_body_type *b, spec::P<1> & a1, spec::P<2>& a2) { I_int_2::slot_invoker i(a1, a2); got(i(*b)); got(i(*b)); }
typedef d::signal2_impl<void, spec::P<1>, spec::P<2>&, spec::Comb<void>, int, std::less<int>, spec::Fn<void(spec::P<1>, spec::P<2>&)>, spec::Fn<void(const s2::connection &, spec::P<1>, spec::P<2>&)>, spec::Mutex> I_void_2;
void inv_void_2(I_void_2::connection_body_type *b, spec::P<1> & a1, spec::P<2>& a2) { I_void_2::slot_invoker i(a1, a2); i(*b); i(*b); }
typedef d::signal3_impl<int, spec::P<1>, spec::P<2>&, const spec::P<3>&, spec::Comb<int>, int, std::less<int>, spec::Fn<int(spec::P<1>, spec::P<2>&, const spec::P<3>&)>, spec::Fn<int(const s2::connection &, spec::P<1>, spec::P<2>&, const spec::P<3>&)>, spec::Mutex> I_int_3;
void inv_int_3(I_int_3::connection_body_type *b, spec::P<1> & a1, spec::P<2>& a2, const spec::P<3>& a3) { I_int_3::slot_invoker i(a1, a2, a3); got(i(*b)); got(i(*b)); }
typedef d::signal3_impl<void, spec::P<1>, spec::P<2>&, const spec::P<3>&, spec::Comb<void>, int, std::less<int>, spec::Fn<void(spec::P<1>, spec::P<2>&, const spec::P<3>&)>, spec::Fn<void(const s2::connection &, spec::P<1>, spec::P<2>&, const spec::P<3>&)>, spec::Mutex> I_void_3;
void inv_void_3(I_void_3::connection_body_type *b, spec::P<1> & a1, spec::P<2>& a2, const spec::P<3>& a3) { I_void_3::slot_invoker i(a1, a2, a3); i(*b); i(*b); }
typedef d::signal4_impl<int, spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::Comb<int>, int, std::less<int>, spec::Fn<int(spec::P<1>, spec::P<2>&, const spec::P<3>&, int)>, spec::Fn<int(const s2::connection &, spec::P<1>, spec::P<2>&, const spec::P<3>&, int)>, spec::Mutex> I_int_4;
void inv_int_4(I_int_4::connection_body_type *b, spec::P<1> & a1, spec::P<2>& a2, const spec::P<3>& a3, int & a4) { I_int_4::slot_invoker i(a1, a2, a3, a4); got(i(*b)); got(i(*b)); }
typedef d::signal4_impl<void, spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::Comb<void>, int, std::less<int>, spec::Fn<void(spec::P<1>, spec::P<2>&, const spec::P<3>&, int)>, spec::Fn<void(const s2::connection &, spec::P<1>, spec::P<2>&, const spec::P<3>&, int)>, spec::Mutex> I_void_4;
void inv_void_4(I_void_4::connection_body_type *b, spec::P<1> & a1, spec::P<2>& a2, const spec::P<3>& a3, int & a4) { I_void_4::slot_invoker i(a1, a2, a3, a4); i(*b); i(*b); }
typedef d::signal5_impl<int, spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::P<5>, spec::Comb<int>, int, std::less<int>, spec::Fn<int(spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::P<5>)>, spec::Fn<int(const s2::connection &, spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::P<5>)>, spec::Mutex> I_int_5;
void inv_int_5(I_int_5::connection_body_type *b, spec::P<1> & a1, spec::P<2>& a2, const spec::P<3>& a3, int & a4, spec::P<5> & a5) { I_int_5::slot_invoker i(a1, a2, a3, a4, a5); got(i(*b)); got(i(*b)); }
typedef d::signal5_impl<void, spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::P<5>, spec::Comb<void>, int, std::less<int>, spec::Fn<void(spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::P<5>)>, spec::Fn<void(const s2::connection &, spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::P<5>)>, spec::Mutex> I_void_5;
void inv_void_5(I_void_5::connection_body_type *b, spec::P<1> & a1, spec::P<2>& a2, const spec::P<3>& a3, int & a4, spec::P<5> & a5) { I_void_5::slot_invoker i(a1, a2, a3, a4, a5); i(*b); i(*b); }
typedef d::signal6_impl<int, spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::P<5>, const int&, spec::Comb<int>, int, std::less<int>, spec::Fn<int(spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::P<5>, const int&)>, spec::Fn<int(const s2::connection &, spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::P<5>, const int&)>, spec::Mutex> I_int_6;
void inv_int_6(I_int_6::connection_body_type *b, spec::P<1> & a1, spec::P<2>& a2, const spec::P<3>& a3, int & a4, spec::P<5> & a5, const int& a6) { I_int_6::slot_invoker i(a1, a2, a3, a4, a5, a6); got(i(*b)); got(i(*b)); }
typedef d::signal6_impl<void, spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::P<5>, const int&, spec::Comb<void>, int, std::less<int>, spec::Fn<void(spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::P<5>, const int&)>, spec::Fn<void(const s2::connection &, spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::P<5>, const int&)>, spec::Mutex> I_void_6;
void inv_void_6(I_void_6::connection_body_type *b, spec::P<1> & a1, spec::P<2>& a2, const spec::P<3>& a3, int & a4, spec::P<5> & a5, const int& a6) { I_void_6::slot_invoker i(a1, a2, a3, a4, a5, a6); i(*b); i(*b); }
typedef d::signal7_impl<int, spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::P<5>, const int&, spec::P<7>*, spec::Comb<int>, int, std::less<int>, spec::Fn<int(spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::P<5>, const int&, spec::P<7>*)>, spec::Fn<int(const s2::connection &, spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::P<5>, const int&, spec::P<7>*)>, spec::Mutex> I_int_7;
void inv_int_7(I_int_7::connection_body_type *b, spec::P<1> & a1, spec::P<2>& a2, const spec::P<3>& a3, int & a4, spec::P<5> & a5, const int& a6, spec::P<7>* & a7) { I_int_7::slot_invoker i(a1, a2, a3, a4, a5, a6, a7); got(i(*b)); got(i(*b)); }
typedef d::signal7_impl<void, spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::P<5>, const int&, spec::P<7>*, spec::Comb<void>, int, std::less<int>, spec::Fn<void(spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::P<5>, const int&, spec::P<7>*)>, spec::Fn<void(const s2::connection &, spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::P<5>, const int&, spec::P<7>*)>, spec::Mutex> I_void_7;
void inv_void_7(I_void_7::connection_body_type *b, spec::P<1> & a1, spec::P<2>& a2, const spec::P<3>& a3, int & a4, spec::P<5> & a5, const int& a6, spec::P<7>* & a7) { I_void_7::slot_invoker i(a1, a2, a3, a4, a5, a6, a7); i(*b); i(*b); }
typedef d::signal8_impl<int, spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::P<5>, const int&, spec::P<7>*, long, spec::Comb<int>, int, std::less<int>, spec::Fn<int(spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::P<5>, const int&, spec::P<7>*, long)>, spec::Fn<int(const s2::connection &, spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::P<5>, const int&, spec::P<7>*, long)>, spec::Mutex> I_int_8;
void inv_int_8(I_int_8::connection_body_type *b, spec::P<1> & a1, spec::P<2>& a2, const spec::P<3>& a3, int & a4, spec::P<5> & a5, const int& a6, spec::P<7>* & a7, long & a8) { I_int_8::slot_invoker i(a1, a2, a3, a4, a5, a6, a7, a8); got(i(*b)); got(i(*b)); }
typedef d::signal8_impl<void, spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::P<5>, const int&, spec::P<7>*, long, spec::Comb<void>, int, std::less<int>, spec::Fn<void(spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::P<5>, const int&, spec::P<7>*, long)>, spec::Fn<void(const s2::connection &, spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::P<5>, const int&, spec::P<7>*, long)>, spec::Mutex> I_void_8;
void inv_void_8(I_void_8::connection_body_type *b, spec::P<1> & a1, spec::P<2>& a2, const spec::P<3>& a3, int & a4, spec::P<5> & a5, const int& a6, spec::P<7>* & a7, long & a8) { I_void_8::slot_invoker i(a1, a2, a3, a4, a5, a6, a7, a8); i(*b); i(*b); }
typedef d::signal9_impl<int, spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::P<5>, const int&, spec::P<7>*, long, spec::P<9>, spec::Comb<int>, int, std::less<int>, spec::Fn<int(spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::P<5>, const int&, spec::P<7>*, long, spec::P<9>)>, spec::Fn<int(const s2::connection &, spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::P<5>, const int&, spec::P<7>*, long, spec::P<9>)>, spec::Mutex> I_int_9;
void inv_int_9(I_int_9::connection_body_type *b, spec::P<1> & a1, spec::P<2>& a2, const spec::P<3>& a3, int & a4, spec::P<5> & a5, const int& a6, spec::P<7>* & a7, long & a8, spec::P<9> & a9) { I_int_9::slot_invoker i(a1, a2, a3, a4, a5, a6, a7, a8, a9); got(i(*b)); got(i(*b)); }
typedef d::signal9_impl<void, spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::P<5>, const int&, spec::P<7>*, long, spec::P<9>, spec::Comb<void>, int, std::less<int>, spec::Fn<void(spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::P<5>, const int&, spec::P<7>*, long, spec::P<9>)>, spec::Fn<void(const s2::connection &, spec::P<1>, spec::P<2>&, const spec::P<3>&, int, spec::P<5>, const int&, spec::P<7>*, long, spec::P<9>)>, spec::Mutex> I_void_9;
void inv_void_9(I_void_9::connection_body_type *b, spec::P<1> & a1, spec::P<2>& a2, const spec::P<3>& a3, int & a4, spec::P<5> & a5, const int& a6, spec::P<7>* & a7, long & a8, spec::P<9> & a9) { I_void_9::slot_invoker i(a1, a2, a3, a4, a5, a6, a7, a8, a9); i(*b); i(*b); }
}
