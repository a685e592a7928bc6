// deconstruct and deconstruct_ptr over opaque classes; the shared_ptr they use is part of the verified code
#define BOOST_SP_DISABLE_THREADS 1
#include <boost/shared_ptr.hpp>
#include <boost/enable_shared_from_this.hpp>
#include <boost/signals2/deconstruct.hpp>
#include <boost/signals2/deconstruct_ptr.hpp>
namespace s2=boost::signals2; using boost::shared_ptr;
namespace spec {
struct A; struct B; struct C;
struct T { T(); T(A&); T(A&,const B&,C&&); T(const B&,A&,A&,A&,A&,A&,A&,A&,C&&); ~T(); long x[5];
 private: T(const T&); T&operator=(const T&); };
void adl_postconstruct(const shared_ptr<T>&,T*); void adl_postconstruct(const shared_ptr<const T>&,T*); void adl_postconstruct(const shared_ptr<T>&,T*,A&,C&&,const B&);
void adl_predestruct(T*) noexcept;
struct N { N(); ~N(); long x[2]; private: N(const N&); };                    // no predestruct of its own
void adl_postconstruct(const shared_ptr<N>&,N*);
void ctor(void*); void dtor(void*) noexcept; void post(void*); void pre(void*) noexcept;
struct E: boost::enable_shared_from_this<E> { E(){ ctor(this); } ~E(){ dtor(this); } long x[2]; private: E(const E&); };
void wrong(); inline void adl_postconstruct(const shared_ptr<E>&sp,E*p){ shared_ptr<E> s=p->shared_from_this(); if(s.get()!=sp.get()||s<sp||sp<s) wrong(); post(p); }
void adl_predestruct(E*) noexcept;
// virtual interfaces
struct V: s2::postconstructible, s2::predestructible { V(){ ctor(this); } ~V(){ dtor(this); } void postconstruct(){ post(this); } void predestruct(){ pre(this); } long x[2]; private: V(const V&); };
struct VP: s2::postconstructible { VP(){ ctor(this); } ~VP(){ dtor(this); } void postconstruct(){ post(this); } long x[2]; private: VP(const VP&); };
struct VD: s2::predestructible { VD(){ ctor(this); } ~VD(){ dtor(this); } void predestruct(){ pre(this); } long x[2]; private: VD(const VD&); };
struct D { void operator()(const T*) const; void operator()(const V*) const; };  // a user's deleter: ends the life of the object
template<class X> void handed(const shared_ptr<X>&); bool choice() noexcept; void moment() noexcept; void releasing() noexcept;
}
using namespace spec;
// owners come and go; after releasing() the last ones go away
template<class X> static inline void use(shared_ptr<X>&p){ handed(p); if(choice()){ shared_ptr<X> q(p); p.reset(); moment(); if(choice()){ p=q; q.reset(); moment(); releasing(); } else { releasing(); } } else releasing(); }
extern "C" {
void spec_dec0(){ shared_ptr<T> p=s2::deconstruct<T>(); use(p); }
void spec_dec0c(){ shared_ptr<const T> p=s2::deconstruct<const T>(); use(p); }
void spec_dec1(A&a){ shared_ptr<T> p=s2::deconstruct<T>(a); use(p); }
void spec_dec3(A&a,const B&b,C&c){ shared_ptr<T> p=s2::deconstruct<T>(a,b,static_cast<C&&>(c)); use(p); }
void spec_dec9(A&a,const B&b,C&c,A&a2,A&a3,A&a4,A&a5,A&a6,A&a7){ shared_ptr<T> p=s2::deconstruct<T>(b,a,a2,a3,a4,a5,a6,a7,static_cast<C&&>(c)); use(p); }
void spec_post0(){ shared_ptr<T> p=s2::deconstruct<T>().postconstruct(); use(p); }
void spec_post3(A&a,const B&b,C&c){ shared_ptr<T> p=s2::deconstruct<T>().postconstruct(a,static_cast<C&&>(c),b); use(p); }
void spec_postconstruct_again(A&a,const B&b,C&c){ s2::postconstructor_invoker<T> i=s2::deconstruct<T>(); shared_ptr<T> p=i; p=i; p=i.postconstruct(); p=i.postconstruct(a,static_cast<C&&>(c),b); use(p); }
void spec_post_retry(){ s2::postconstructor_invoker<T> i=s2::deconstruct<T>(); try { i.postconstruct(); } catch(...){ i.postconstruct(); } shared_ptr<T> p=i.postconstruct(); use(p); }
void spec_never_posted(){ s2::deconstruct<T>(); }
void spec_dec_n(){ shared_ptr<N> p=s2::deconstruct<N>(); use(p); }
void spec_dec_e(){ shared_ptr<E> p=s2::deconstruct<E>(); use(p); }
void spec_dec_v(){ shared_ptr<V> p=s2::deconstruct<V>(); use(p); }
void spec_ptr_t(){ shared_ptr<T> p=s2::deconstruct_ptr(new T); use(p); }
void spec_ptr_v(){ shared_ptr<V> p=s2::deconstruct_ptr(new V); use(p); }
void spec_ptr_vc(){ shared_ptr<const V> p=s2::deconstruct_ptr<const V>(new V); use(p); }
void spec_ptr_vp(){ shared_ptr<VP> p=s2::deconstruct_ptr(new VP); use(p); }
void spec_ptr_vd(){ shared_ptr<VD> p=s2::deconstruct_ptr(new VD); use(p); }
void spec_ptr_td(){ shared_ptr<T> p=s2::deconstruct_ptr(new T,D()); use(p); }
void spec_ptr_vdel(){ shared_ptr<V> p=s2::deconstruct_ptr(new V,D()); use(p); }
void spec_ptr_null(){ shared_ptr<V> p=s2::deconstruct_ptr((V*)0); handed(p); }
void spec_ptr_nulld(){ shared_ptr<V> p=s2::deconstruct_ptr((V*)0,D()); handed(p); }
void spec_deleter(){ shared_ptr<V> p(new V,s2::predestructing_deleter<V>()); use(p); }
}
