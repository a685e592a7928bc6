// Instantiates the real auto_buffer with an opaque element class and an opaque allocator (declared, never defined).
#include <iterator>
#include <boost/signals2/detail/auto_buffer.hpp>
namespace spec {
  struct E { E(); E(const E&); E(E&&); E& operator=(const E&); E& operator=(E&&); ~E(); long v[3]; };
  struct En { En(); En(const En&) noexcept; En(En&&) noexcept; En& operator=(const En&); En& operator=(En&&) noexcept; ~En(); long v; };
  struct Et { Et(); Et(const Et&); Et& operator=(const Et&) = default; ~Et(); long v; };
  struct Ew { long v[3]; };   // trivial, larger than what is passed by value
  bool operator==(const Ew&, const Ew&); bool operator<(const Ew&, const Ew&);
  bool operator==(const Et&, const Et&); bool operator<(const Et&, const Et&);
  bool operator==(const E&, const E&); bool operator<(const E&, const E&);
  bool operator==(const En&, const En&); bool operator<(const En&, const En&);
  template<class T> struct Alloc {
    typedef T value_type;
    Alloc(); Alloc(const Alloc&); Alloc& operator=(const Alloc&); ~Alloc();
    T *allocate(std::size_t); void deallocate(T*, std::size_t); long id;
  };
}
namespace d = boost::signals2::detail;
template<class X> void uses(X &b, X &c, const typename X::value_type *f, const typename X::value_type *l, typename X::const_iterator w, const typename X::allocator_type &a)
{ b.push_back(f, l); b.unchecked_push_back(f, l); b.insert(w, f, l); X m(f, l); X n(f, l, a);
  swap(b, c); b == c; b != c; b < c; b > c; b <= c; b >= c; }
#define INST(N, T, K) \
template class d::auto_buffer<T, d::store_n_objects<K>, d::default_grow_policy, spec::Alloc<T> >; \
typedef d::auto_buffer<T, d::store_n_objects<K>, d::default_grow_policy, spec::Alloc<T> > N; \
template void uses(N &, N &, const T *, const T *, N::const_iterator, const N::allocator_type &);
INST(B, spec::E, 10)
INST(B0, spec::E, 0)
INST(Bn, spec::En, 10)
INST(Bl, long, 10)
INST(Bw, spec::Ew, 10)
INST(Bt, spec::Et, 10)
