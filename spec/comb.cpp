// Instantiates the real library combiners with an opaque single-pass iterator and opaque value type (declared, never defined).
#include <boost/signals2/last_value.hpp>
#include <boost/signals2/optional_last_value.hpp>
#include <utility>
namespace spec {
  struct V { V(const V&); V(V&&); V& operator=(const V&); V& operator=(V&&); ~V(); long v; };
  template<class R> struct It {
    It(const It&); ~It(); It& operator=(const It&);
    bool operator==(const It&) const; bool operator!=(const It&) const;
    It& operator++(); It operator++(int);
    R operator*() const;
    long pos;
  };
}
namespace s2 = boost::signals2;
extern "C" {
spec::V spec_lv(const s2::last_value<spec::V> &c, spec::It<spec::V&> a, spec::It<spec::V&> b) { return c(a, b); }
int spec_lv_int(const s2::last_value<int> &c, spec::It<int&> a, spec::It<int&> b) { return c(a, b); }
spec::V & spec_lv_ref(const s2::last_value<spec::V&> &c, spec::It<spec::V&> a, spec::It<spec::V&> b) { return c(a, b); }
void spec_lv_void(const s2::last_value<void> &c, spec::It<spec::V&> a, spec::It<spec::V&> b) { c(a, b); }
boost::optional<spec::V> spec_olv(const s2::optional_last_value<spec::V> &c, spec::It<spec::V&> a, spec::It<spec::V&> b) { return c(a, b); }
boost::optional<int> spec_olv_int(const s2::optional_last_value<int> &c, spec::It<int&> a, spec::It<int&> b) { return c(a, b); }
boost::optional<spec::V&> spec_olv_ref(const s2::optional_last_value<spec::V&> &c, spec::It<spec::V&> a, spec::It<spec::V&> b) { return c(a, b); }
void spec_olv_void(const s2::optional_last_value<void> &c, spec::It<spec::V&> a, spec::It<spec::V&> b) { c(a, b); }
}
