// the library's mutexes: every member function is instantiated here
#include <new>
#include <boost/signals2/mutex.hpp>
#include <boost/signals2/dummy_mutex.hpp>
#include <boost/signals2/detail/unique_lock.hpp>
namespace s2=boost::signals2; using s2::detail::unique_lock;
extern "C" {
void spec_init(void*p){ new(p) s2::mutex; }
void spec_destroy(s2::mutex*m){ m->~mutex(); }
void spec_lock(s2::mutex*m){ m->lock(); }
bool spec_try_lock(s2::mutex*m){ return m->try_lock(); }
void spec_unlock(s2::mutex*m){ m->unlock(); }
bool spec_try_result(s2::mutex*m){ if(m->try_lock()){ m->unlock(); return true; } return false; }
void spec_guard_begin(void*p,s2::mutex*m){ new(p) unique_lock<s2::mutex>(*m); }
void spec_guard_end(unique_lock<s2::mutex>*g){ g->~unique_lock(); }
void spec_may_throw();
void spec_guard(s2::mutex*m){ unique_lock<s2::mutex> g(*m); spec_may_throw(); }
void spec_dummy_lock(s2::dummy_mutex*m){ m->lock(); }
bool spec_dummy_try(s2::dummy_mutex*m){ return m->try_lock(); }
void spec_dummy_unlock(s2::dummy_mutex*m){ m->unlock(); }
void spec_dummy_life(){ s2::dummy_mutex m; unique_lock<s2::dummy_mutex> g(m); unique_lock<s2::dummy_mutex> h(m); }
}
