// deconstruct for compilers without variadic templates: the overloads for 0 to 9 arguments
#define BOOST_SP_DISABLE_THREADS 1
#define BOOST_NO_CXX11_VARIADIC_TEMPLATES 1
#include <boost/shared_ptr.hpp>
#include <boost/signals2/deconstruct.hpp>
namespace s2=boost::signals2; using boost::shared_ptr;
namespace spec {
struct A;
struct T { T(); T(const A&); T(const A&,const A&); T(const A&,const A&,const A&); T(const A&,const A&,const A&,const A&); T(const A&,const A&,const A&,const A&,const A&); T(const A&,const A&,const A&,const A&,const A&,const A&); T(const A&,const A&,const A&,const A&,const A&,const A&,const A&); T(const A&,const A&,const A&,const A&,const A&,const A&,const A&,const A&); T(const A&,const A&,const A&,const A&,const A&,const A&,const A&,const A&,const A&); ~T(); long x[5]; private: T(const T&); T&operator=(const T&); };
void adl_postconstruct(const shared_ptr<T>&,T*);
void adl_postconstruct(const shared_ptr<T>&,T*,const A&);
void adl_postconstruct(const shared_ptr<T>&,T*,const A&,const A&);
void adl_postconstruct(const shared_ptr<T>&,T*,const A&,const A&,const A&);
void adl_postconstruct(const shared_ptr<T>&,T*,const A&,const A&,const A&,const A&);
void adl_postconstruct(const shared_ptr<T>&,T*,const A&,const A&,const A&,const A&,const A&);
void adl_postconstruct(const shared_ptr<T>&,T*,const A&,const A&,const A&,const A&,const A&,const A&);
void adl_postconstruct(const shared_ptr<T>&,T*,const A&,const A&,const A&,const A&,const A&,const A&,const A&);
void adl_postconstruct(const shared_ptr<T>&,T*,const A&,const A&,const A&,const A&,const A&,const A&,const A&,const A&);
void adl_postconstruct(const shared_ptr<T>&,T*,const A&,const A&,const A&,const A&,const A&,const A&,const A&,const A&,const A&);
void adl_predestruct(T*) noexcept;
template<class X> void handed(const shared_ptr<X>&); bool choice() noexcept; void moment() noexcept; void releasing() noexcept;
}
using namespace spec;
template<class X> static inline void use(shared_ptr<X>&p){ handed(p); if(choice()){ shared_ptr<X> q(p); p.reset(); moment(); if(choice()){ p=q; q.reset(); moment(); releasing(); } else { releasing(); } } else releasing(); }
extern "C" {
void spec_both0(){ shared_ptr<T> p=s2::deconstruct<T>().postconstruct(); use(p); }
void spec_cast0(){ shared_ptr<T> p=s2::deconstruct<T>(); use(p); }
void spec_again0(){ s2::postconstructor_invoker<T> i=s2::deconstruct<T>(); shared_ptr<T> p=i.postconstruct(); p=i.postconstruct(); p=i; use(p); }
void spec_both1(A&a1){ shared_ptr<T> p=s2::deconstruct<T>(a1).postconstruct(a1); use(p); }
void spec_cast1(A&a1){ shared_ptr<T> p=s2::deconstruct<T>(a1); use(p); }
void spec_again1(A&a1){ s2::postconstructor_invoker<T> i=s2::deconstruct<T>(a1); shared_ptr<T> p=i.postconstruct(a1); p=i.postconstruct(a1); p=i; use(p); }
void spec_both2(A&a1,A&a2){ shared_ptr<T> p=s2::deconstruct<T>(a1,a2).postconstruct(a1,a2); use(p); }
void spec_cast2(A&a1,A&a2){ shared_ptr<T> p=s2::deconstruct<T>(a1,a2); use(p); }
void spec_again2(A&a1,A&a2){ s2::postconstructor_invoker<T> i=s2::deconstruct<T>(a1,a2); shared_ptr<T> p=i.postconstruct(a1,a2); p=i.postconstruct(a1,a2); p=i; use(p); }
void spec_both3(A&a1,A&a2,A&a3){ shared_ptr<T> p=s2::deconstruct<T>(a1,a2,a3).postconstruct(a1,a2,a3); use(p); }
void spec_cast3(A&a1,A&a2,A&a3){ shared_ptr<T> p=s2::deconstruct<T>(a1,a2,a3); use(p); }
void spec_again3(A&a1,A&a2,A&a3){ s2::postconstructor_invoker<T> i=s2::deconstruct<T>(a1,a2,a3); shared_ptr<T> p=i.postconstruct(a1,a2,a3); p=i.postconstruct(a1,a2,a3); p=i; use(p); }
void spec_both4(A&a1,A&a2,A&a3,A&a4){ shared_ptr<T> p=s2::deconstruct<T>(a1,a2,a3,a4).postconstruct(a1,a2,a3,a4); use(p); }
void spec_cast4(A&a1,A&a2,A&a3,A&a4){ shared_ptr<T> p=s2::deconstruct<T>(a1,a2,a3,a4); use(p); }
void spec_again4(A&a1,A&a2,A&a3,A&a4){ s2::postconstructor_invoker<T> i=s2::deconstruct<T>(a1,a2,a3,a4); shared_ptr<T> p=i.postconstruct(a1,a2,a3,a4); p=i.postconstruct(a1,a2,a3,a4); p=i; use(p); }
void spec_both5(A&a1,A&a2,A&a3,A&a4,A&a5){ shared_ptr<T> p=s2::deconstruct<T>(a1,a2,a3,a4,a5).postconstruct(a1,a2,a3,a4,a5); use(p); }
void spec_cast5(A&a1,A&a2,A&a3,A&a4,A&a5){ shared_ptr<T> p=s2::deconstruct<T>(a1,a2,a3,a4,a5); use(p); }
void spec_again5(A&a1,A&a2,A&a3,A&a4,A&a5){ s2::postconstructor_invoker<T> i=s2::deconstruct<T>(a1,a2,a3,a4,a5); shared_ptr<T> p=i.postconstruct(a1,a2,a3,a4,a5); p=i.postconstruct(a1,a2,a3,a4,a5); p=i; use(p); }
void spec_both6(A&a1,A&a2,A&a3,A&a4,A&a5,A&a6){ shared_ptr<T> p=s2::deconstruct<T>(a1,a2,a3,a4,a5,a6).postconstruct(a1,a2,a3,a4,a5,a6); use(p); }
void spec_cast6(A&a1,A&a2,A&a3,A&a4,A&a5,A&a6){ shared_ptr<T> p=s2::deconstruct<T>(a1,a2,a3,a4,a5,a6); use(p); }
void spec_again6(A&a1,A&a2,A&a3,A&a4,A&a5,A&a6){ s2::postconstructor_invoker<T> i=s2::deconstruct<T>(a1,a2,a3,a4,a5,a6); shared_ptr<T> p=i.postconstruct(a1,a2,a3,a4,a5,a6); p=i.postconstruct(a1,a2,a3,a4,a5,a6); p=i; use(p); }
void spec_both7(A&a1,A&a2,A&a3,A&a4,A&a5,A&a6,A&a7){ shared_ptr<T> p=s2::deconstruct<T>(a1,a2,a3,a4,a5,a6,a7).postconstruct(a1,a2,a3,a4,a5,a6,a7); use(p); }
void spec_cast7(A&a1,A&a2,A&a3,A&a4,A&a5,A&a6,A&a7){ shared_ptr<T> p=s2::deconstruct<T>(a1,a2,a3,a4,a5,a6,a7); use(p); }
void spec_again7(A&a1,A&a2,A&a3,A&a4,A&a5,A&a6,A&a7){ s2::postconstructor_invoker<T> i=s2::deconstruct<T>(a1,a2,a3,a4,a5,a6,a7); shared_ptr<T> p=i.postconstruct(a1,a2,a3,a4,a5,a6,a7); p=i.postconstruct(a1,a2,a3,a4,a5,a6,a7); p=i; use(p); }
void spec_both8(A&a1,A&a2,A&a3,A&a4,A&a5,A&a6,A&a7,A&a8){ shared_ptr<T> p=s2::deconstruct<T>(a1,a2,a3,a4,a5,a6,a7,a8).postconstruct(a1,a2,a3,a4,a5,a6,a7,a8); use(p); }
void spec_cast8(A&a1,A&a2,A&a3,A&a4,A&a5,A&a6,A&a7,A&a8){ shared_ptr<T> p=s2::deconstruct<T>(a1,a2,a3,a4,a5,a6,a7,a8); use(p); }
void spec_again8(A&a1,A&a2,A&a3,A&a4,A&a5,A&a6,A&a7,A&a8){ s2::postconstructor_invoker<T> i=s2::deconstruct<T>(a1,a2,a3,a4,a5,a6,a7,a8); shared_ptr<T> p=i.postconstruct(a1,a2,a3,a4,a5,a6,a7,a8); p=i.postconstruct(a1,a2,a3,a4,a5,a6,a7,a8); p=i; use(p); }
void spec_both9(A&a1,A&a2,A&a3,A&a4,A&a5,A&a6,A&a7,A&a8,A&a9){ shared_ptr<T> p=s2::deconstruct<T>(a1,a2,a3,a4,a5,a6,a7,a8,a9).postconstruct(a1,a2,a3,a4,a5,a6,a7,a8,a9); use(p); }
void spec_cast9(A&a1,A&a2,A&a3,A&a4,A&a5,A&a6,A&a7,A&a8,A&a9){ shared_ptr<T> p=s2::deconstruct<T>(a1,a2,a3,a4,a5,a6,a7,a8,a9); use(p); }
void spec_again9(A&a1,A&a2,A&a3,A&a4,A&a5,A&a6,A&a7,A&a8,A&a9){ s2::postconstructor_invoker<T> i=s2::deconstruct<T>(a1,a2,a3,a4,a5,a6,a7,a8,a9); shared_ptr<T> p=i.postconstruct(a1,a2,a3,a4,a5,a6,a7,a8,a9); p=i.postconstruct(a1,a2,a3,a4,a5,a6,a7,a8,a9); p=i; use(p); }
}
