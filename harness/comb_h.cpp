// Bounded, concrete companion of the C09 proof: every throw pattern of short ranges, checked against the sequence oracle.
#include <boost/signals2/last_value.hpp>
#include <boost/signals2/optional_last_value.hpp>
#include <boost/signals2/expired_slot.hpp>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <memory>
#include <stdexcept>
namespace s2 = boost::signals2;
static long evals = 0;
struct Script { std::vector<int> ev; std::vector<int> derefs; };   // ev: 0 value, 1 expired, 2 other std exception, 3 int, 4 bad_weak
struct My : std::runtime_error { int p; My(int p) : std::runtime_error("my"), p(p) {} };
template<class R> struct Val { static R get(int i) { return R(i + 100); } static bool is(const R &r, int i) { return r == R(i + 100); } };
static int refs[64];
template<> struct Val<int&> { static int &get(int i) { return refs[i]; } static bool is(int &r, int i) { return &r == &refs[i]; } };
struct Mv { std::unique_ptr<int> v; Mv(int i) : v(new int(i)) {} Mv(const Mv &o) : v(o.v ? new int(*o.v) : nullptr) {} Mv(Mv &&o) : v(std::move(o.v)) {}
  Mv &operator=(const Mv &o) { v.reset(o.v ? new int(*o.v) : nullptr); return *this; } Mv &operator=(Mv &&o) { v = std::move(o.v); return *this; }
  bool operator==(const Mv &o) const { return v && o.v && *v == *o.v; } };
template<> struct Val<std::string> { static std::string get(int i) { return "v" + std::to_string(i); } static bool is(const std::string &r, int i) { return r == get(i); } };
template<> struct Val<void> { static void get(int) {} };
template<class R> struct It {
  typedef std::input_iterator_tag iterator_category; typedef R value_type; typedef long difference_type; typedef void pointer; typedef R reference;
  Script *s; int i;
  R operator*() const { s->derefs.push_back(i);
    switch (s->ev[i]) { case 1: boost::throw_exception(s2::expired_slot()); case 2: throw My(i); case 3: throw i; case 4: boost::throw_exception(boost::bad_weak_ptr()); }
    return Val<R>::get(i); }
  It &operator++() { ++i; return *this; } It operator++(int) { It t(*this); ++i; return t; }
  bool operator==(const It &o) const { return i == o.i; } bool operator!=(const It &o) const { return i != o.i; }
};
static std::string show(const Script &s) { std::string r = "events="; for (int e : s.ev) r += "VEMIB"[e]; r += " derefs="; for (int d : s.derefs) r += std::to_string(d) + ","; return r; }
static void fail(const char *w, const char *t, const Script &s) { printf("FAIL %s: %s: %s\n", t, w, show(s).c_str()); exit(1); }
// oracle: visits 0..; stops at the first exception other than expired_slot
struct Or { std::vector<int> d; int last; int ex; };
static Or oracle(const Script &s) { Or o; o.last = -1; o.ex = -1;
  for (int i = 0; i < (int)s.ev.size(); i++) { o.d.push_back(i); if (s.ev[i] == 0) o.last = i; else if (s.ev[i] > 1) { o.ex = i; break; } } return o; }
template<class F> static int run(F f) { try { f(); return -1; } catch (s2::no_slots_error &) { return 1000; } catch (My &m) { return m.p; } catch (int p) { return p; }
  catch (s2::expired_slot &) { return 3000; } catch (boost::bad_weak_ptr &) { return 2000; } catch (std::exception &) { return 4000; } }
static int expect_ex(const Or &o, const Script &s) { return o.ex < 0 ? -1 : s.ev[o.ex] == 4 ? 2000 : o.ex; }
template<class R> static void one(const Script &sc, const char *t, bool cst) {
  evals++;
  Script s = sc; Or o = oracle(s); int n = s.ev.size(); typedef It<R> I; bool got = false;
  s2::last_value<R> lv; const s2::last_value<R> &clv = lv;
  int r = run([&]{ decltype(auto) v = cst ? clv(I{&s,0}, I{&s,n}) : lv(I{&s,0}, I{&s,n}); got = o.last >= 0 && Val<R>::is(v, o.last); });
  if (s.derefs != o.d) fail("last_value does not dereference each position once in order", t, s);
  int ee = expect_ex(o, s); if (ee == -1 && o.last < 0) ee = 1000;
  if (r != ee) fail("last_value: wrong exception", t, s);
  if (r == -1 && !got) fail("last_value: wrong value", t, s);
  s = sc; got = false; s2::optional_last_value<R> ol; const s2::optional_last_value<R> &col = ol; bool has = false;
  r = run([&]{ boost::optional<R> v = cst ? col(I{&s,0}, I{&s,n}) : ol(I{&s,0}, I{&s,n}); has = !!v; got = has && o.last >= 0 && Val<R>::is(*v, o.last); });
  if (s.derefs != o.d) fail("optional_last_value does not dereference each position once in order", t, s);
  if (r != expect_ex(o, s)) fail("optional_last_value: wrong exception", t, s);
  if (r == -1 && has != (o.last >= 0)) fail("optional_last_value: wrong emptiness", t, s);
  if (r == -1 && has && !got) fail("optional_last_value: wrong value", t, s);
}
static void onev(const Script &sc) {
  for (int k = 0; k < 4; k++) { evals++;
    Script s = sc; Or o = oracle(s); int n = s.ev.size(); typedef It<void> I; s2::last_value<void> lv; const s2::last_value<void> &clv = lv; s2::optional_last_value<void> ol; const s2::optional_last_value<void> &col = ol;
    int r = run([&]{ I a{&s,0}, b{&s,n}; if (k == 0) lv(a, b); else if (k == 1) clv(a, b); else if (k == 2) ol(a, b); else col(a, b); });
    if (s.derefs != o.d) fail("void combiner does not dereference each position once in order", "void", s);
    if (r != expect_ex(o, s)) fail("void combiner: wrong exception", "void", s); }
}
template<> struct Val<Mv> { static Mv get(int i) { return Mv(i); } static bool is(const Mv &r, int i) { return r.v && *r.v == i; } };
template<> struct Val<bool> { static bool get(int i) { return i % 2; } static bool is(bool r, int i) { return r == bool(i % 2); } };
int main(int argc, char **argv) {
  int maxn = argc > 2 ? atoi(argv[2]) : 5; long distinct = 0;
  for (int n = 0; n <= maxn; n++) { long tot = 1; for (int i = 0; i < n; i++) tot *= 5;
    for (long c = 0; c < tot; c++) { Script s; long x = c; for (int i = 0; i < n; i++) { s.ev.push_back(x % 5); x /= 5; } distinct++;
      for (int cst = 0; cst < 2; cst++) { one<int>(s, "int", cst); one<std::string>(s, "std::string", cst); one<int&>(s, "int&", cst); one<Mv>(s, "Mv", cst); one<bool>(s, "bool", cst); } onev(s); } }
  printf("OK evaluations=%ld distinct=%ld sample=ranges of length 0..%d over {value,expired_slot,std exception,int,bad_weak_ptr}\n", evals, distinct, maxn);
}
