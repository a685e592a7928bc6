// Weak and shared pointers of other libraries (foreign_ptr.hpp) and the visitors over tracked objects (slot_base.hpp), with the real
// boost::variant; the pointers are opaque classes, boost::shared_ptr is part of the verified code.
#define BOOST_SP_DISABLE_THREADS 1
#include <boost/shared_ptr.hpp>
#include <boost/weak_ptr.hpp>
#include <boost/variant/get.hpp>
#include <boost/signals2/slot_base.hpp>
#include <boost/signals2/trackable.hpp>
namespace d=boost::signals2::detail;
namespace spec {
struct FShared { FShared(const FShared&); ~FShared(); long id; };
struct FWeak { FWeak(const FWeak&); explicit FWeak(const FShared&); ~FWeak(); FShared lock() const; bool expired() const; long id; };
struct X { X(); ~X(); long x; private: X(const X&); };
bool choice() noexcept; void weak(const FWeak&,int) noexcept; void shared(const FShared&,int) noexcept; void count(int,int) noexcept;
void locked(int) noexcept; void is_expired(bool) noexcept; void alive(bool) noexcept; void expired_obj(bool) noexcept; void null(bool) noexcept; void after() noexcept;
}
using namespace spec;
typedef d::foreign_void_weak_ptr FW; typedef d::foreign_void_shared_ptr FS; typedef d::void_weak_ptr_variant WV; typedef d::void_shared_ptr_variant SV;
extern "C" {
void w_make(const FWeak&w){ FW a(w); weak(w,1); count(1,0); }
void w_copy(const FWeak&w){ FW a(w); { FW b(a); weak(w,2); } weak(w,1); count(1,0); }
void w_assign(const FWeak&w,const FWeak&v){ FW a(w); FW b(v); try { b=a; } catch(...) { weak(w,1); weak(v,1); count(2,0); throw; } weak(w,2); weak(v,0); count(2,0); }
void w_assign_empty(const FWeak&w){ FW a(w); FW b; b=a; weak(w,2); }
void w_self(const FWeak&w){ FW a(w); a=a; weak(w,1); count(1,0); }
void w_swap(const FWeak&w,const FWeak&v){ FW b(v); { FW a(w); a.swap(b); weak(w,1); weak(v,1); count(2,0); } weak(w,1); weak(v,0); count(1,0); }
void w_lock(const FWeak&w){ FW a(w); FS r=a.lock(); locked(1); count(1,1); }
void w_expired(const FWeak&w){ FW a(w); is_expired(a.expired()); count(1,0); }
void s_make(const FShared&s){ FS a(s); shared(s,1); count(0,1); }
void s_copy(const FShared&s){ FS a(s); { FS b(a); shared(s,2); } shared(s,1); }
void s_assign(const FShared&s,const FShared&t){ FS a(s); FS b(t); try { b=a; } catch(...) { shared(s,1); shared(t,1); throw; } shared(s,2); shared(t,0); }
void s_assign_empty(const FShared&s){ FS a(s); FS b; b=a; shared(s,2); FS c; c.swap(a); shared(s,2); }
void s_self(const FShared&s){ FS a(s); a=a; shared(s,1); count(0,1); }
void s_swap(const FShared&s,const FShared&t){ FS b(t); { FS a(s); a.swap(b); shared(s,1); shared(t,1); } shared(s,1); shared(t,0); }
// the visitors, through boost::variant
void v_foreign(const FWeak&w){ WV v=WV(FW(w)); weak(w,1); { SV r=boost::apply_visitor(d::lock_weak_ptr_visitor(),v); locked(1); count(1,1); } count(1,0); is_expired(boost::apply_visitor(d::expired_weak_ptr_visitor(),v)); }
void v_foreign_copy(const FWeak&w){ WV v=WV(FW(w)); { WV u(v); weak(w,2); } weak(w,1); }
void v_foreign_locked(const FWeak&w){ WV v=WV(FW(w)); SV r=boost::apply_visitor(d::lock_weak_ptr_visitor(),v); SV q(r); locked(2); }
void v_weak(){ boost::shared_ptr<void> p(new X); WV v=WV(boost::weak_ptr<void>(p)); bool c=choice(); if(c) p.reset();
  { SV r=boost::apply_visitor(d::lock_weak_ptr_visitor(),v); null(c==!boost::get<boost::shared_ptr<void> >(r)); p.reset(); alive(!c); expired_obj(c==boost::apply_visitor(d::expired_weak_ptr_visitor(),v)); } alive(false); }
void v_pointee(){ boost::shared_ptr<d::trackable_pointee> p(new d::trackable_pointee); WV v=WV(boost::weak_ptr<d::trackable_pointee>(p)); bool c=choice(); if(c) p.reset();
  { SV r=boost::apply_visitor(d::lock_weak_ptr_visitor(),v); null(!boost::get<boost::shared_ptr<void> >(r)); expired_obj(c==boost::apply_visitor(d::expired_weak_ptr_visitor(),v)); if(!c) null(p.use_count()==1); } }
}
