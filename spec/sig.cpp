// Instantiates the real signal templates with opaque user types: everything in namespace spec is declared, never defined.
#include <boost/signals2.hpp>
#ifdef BOOST_NO_CXX11_VARIADIC_TEMPLATES
#define EXTARG const Arg      // extended slots get references to const there
#else
#define EXTARG Arg
#endif
namespace spec {
  struct Mutex { Mutex(); ~Mutex(); void lock(); bool try_lock(); void unlock(); long m; };
  struct Group { Group(const Group&); ~Group(); Group& operator=(const Group&); long id; };
  struct GroupLike { operator Group() const; long id; };      // converts to the group type
  struct GroupCompare { GroupCompare(); GroupCompare(const GroupCompare&); ~GroupCompare();
    bool operator()(const Group&, const Group&) const; long st; };
  struct Arg { Arg(const Arg&); ~Arg(); long v; };
  struct Fn { long v; };           // some user function object
  struct OtherFn { typedef int result_type; OtherFn(const OtherFn&); ~OtherFn(); int operator()(Arg &, long) const; long f; };  // of another signature
  struct SlotFn {
    typedef int result_type;
    SlotFn(); SlotFn(const SlotFn&); SlotFn(const OtherFn&); ~SlotFn(); SlotFn& operator=(const SlotFn&);
    template<class F> SlotFn& operator=(const F&);
    int operator()(Arg &, int) const;
    int operator()(Arg &, int);
    template<class F> bool contains(const F&) const;
    template<class F> F* target();
    template<class F> const F* target() const;
    long f;
  };
  struct ExtSlotFn {
    typedef int result_type;
    ExtSlotFn(); ExtSlotFn(const ExtSlotFn&); ~ExtSlotFn(); ExtSlotFn& operator=(const ExtSlotFn&);
    template<class F> ExtSlotFn& operator=(const F&);
    int operator()(const boost::signals2::connection &, EXTARG &, int) const;
    int operator()(const boost::signals2::connection &, EXTARG &, int);
    template<class F> bool contains(const F&) const;
    long f;
  };
  struct Result { Result(const Result&); ~Result(); long v; };
  struct Combiner {
    typedef Result result_type;
    Combiner(); Combiner(const Combiner&); ~Combiner(); Combiner& operator=(const Combiner&);
    template<class It> Result operator()(It, It);
    template<class It> Result operator()(It, It) const;
    long c;
  };
}
namespace s2 = boost::signals2;
#define SPEC_TYPES spec::Combiner, spec::Group, spec::GroupCompare, spec::SlotFn, spec::ExtSlotFn, spec::Mutex
#ifdef BOOST_NO_CXX11_VARIADIC_TEMPLATES    // the implementation for compilers without variadic templates, for two arguments
#define SIGT s2::signal2<int, spec::Arg &, int, SPEC_TYPES>
#define IMPLT s2::detail::signal2_impl<int, spec::Arg &, int, SPEC_TYPES>
#define WEAKT s2::detail::weak_signal2<int, spec::Arg &, int, SPEC_TYPES>
#define SLOTT s2::slot2<int, spec::Arg &, int, spec::SlotFn>
#define SLOTO s2::slot2<int, spec::Arg &, long, spec::OtherFn>
#define INVT Impl::slot_invoker
#define BOUNDT s2::detail::bound_extended_slot_function2<spec::ExtSlotFn>
#else
#define SIGT s2::signal<int(spec::Arg &, int), SPEC_TYPES>
#define IMPLT s2::detail::signal_impl<int(spec::Arg &, int), SPEC_TYPES>
#define WEAKT s2::detail::weak_signal<int(spec::Arg &, int), SPEC_TYPES>
#define SLOTT s2::slot<int(spec::Arg &, int), spec::SlotFn>
#define SLOTO s2::slot<int(spec::Arg &, long), spec::OtherFn>
#define INVT s2::detail::variadic_slot_invoker<int, spec::Arg &, int>
#define BOUNDT s2::detail::bound_extended_slot_function<spec::ExtSlotFn>
#endif
typedef SIGT Sig;
template class SIGT;
typedef IMPLT Impl;
template class IMPLT;
typedef Impl::slot_type Slot;
template class SLOTT;
typedef s2::detail::connection_body<s2::detail::group_key<spec::Group>::type, Slot, spec::Mutex> Body;
template class s2::detail::connection_body<s2::detail::group_key<spec::Group>::type, Slot, spec::Mutex>;
template class s2::detail::grouped_list<spec::Group, spec::GroupCompare, boost::shared_ptr<Body> >;
template class s2::detail::slot_call_iterator_t<INVT,
  s2::detail::grouped_list<spec::Group, spec::GroupCompare, boost::shared_ptr<Body> >::iterator, Body>;
template class s2::detail::slot_call_iterator_cache<int, INVT >;
typedef Impl::slot_call_iterator It;
template class WEAKT;
typedef BOUNDT Bound;
// control blocks of the states the contracts start from
template class boost::detail::sp_counted_impl_p<int>;
template class boost::detail::sp_counted_impl_p<spec::Mutex>;
template class boost::detail::sp_counted_impl_p<Slot>;
// uses of member templates
extern "C" {
int spec_use_bound(Bound &b, const Bound &c, spec::Arg &a, int i) { return b(a, static_cast<int&&>(i)) + c(a, static_cast<int&&>(i)); }
void spec_use_sig(Sig &a, Sig &b) { Sig c(static_cast<Sig&&>(a)); b = static_cast<Sig&&>(c); swap(a, b); a == b; }
bool spec_use_weak(WEAKT &w, Sig &s) { return w.contains(s); }
void spec_use_disconnect_fn(Sig &s, const spec::Fn &f) { s.disconnect(f); }
void spec_use_disconnect_group_c(Sig &s, const spec::GroupLike &f) { s.disconnect(f); }
void spec_use_disconnect_rf(Sig &s, const boost::reference_wrapper<spec::Fn> &f, const boost::reference_wrapper<const spec::Group> &g) { s.disconnect(f); s.disconnect(g); }
void spec_use_disconnect_group_t(Sig &s, const spec::Group &f) { s.disconnect(f); }
int spec_use_deref(It &i) { return *i; }
void spec_use_incr(It &i) { ++i; }
bool spec_use_eq(It &a, It &b) { return a == b; }
bool spec_use_neq(It &a, It &b) { return a != b; }
It spec_use_copy(It &a) { return a; }
void spec_use_slot(Slot &s, const spec::Fn &f, Slot &o, const boost::weak_ptr<void> &w, const boost::shared_ptr<void> &sp, const std::weak_ptr<void> &fw, const std::shared_ptr<void> &fs, const Sig &sg)
{ Slot n(f); n.track(w); n.track(sp); n.track(sg); n.track(o); n.track_foreign(fw); n.track_foreign(fs); Slot m(n); Slot k(sg); }
void spec_use_slot3(const SLOTO &o) { Slot a(o); }
struct TFn : s2::trackable { long v; };   // a function object that is trackable
void spec_use_slot2(const TFn &t, TFn &r, TFn *p, Sig &g)
{ Slot a(t); Slot b(boost::ref(r)); Slot c(p); Slot d(boost::ref(g)); }
void spec_use_conn(s2::connection &a, s2::connection &b, s2::scoped_connection &c, s2::scoped_connection &d)
{ s2::connection x(a); s2::connection y; s2::connection z(std::move(a)); a = b; a = std::move(b); swap(a,b); a.swap(b);
  a==b; a!=b; a<b; a.connected(); a.blocked(); a.disconnect();
  s2::scoped_connection sa; s2::scoped_connection sb(a); s2::scoped_connection sc(std::move(c)); s2::scoped_connection sd(std::move(a));
  sa = a; sa = std::move(sb); sa = std::move(a); sa.release(); swap(sa,sb);
  s2::shared_connection_block bl(a); s2::shared_connection_block b2(a,false); s2::shared_connection_block b3(b2); b3 = b2; b2.block(); b2.unblock(); b2.blocking(); b2.connection();
  s2::shared_connection_block b4(std::move(b3)); b2 = std::move(b4); }
}
