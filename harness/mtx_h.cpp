// the library's mutex over recording stand-ins for the pthread functions, and over the real ones with threads
#include <pthread.h>
#include <cstdio>
#include <cstdlib>
#include <cerrno>
#include <cstring>
#include <new>
#include <type_traits>
#include <vector>
#include <string>
static std::string log_; static int tryres=0; static void*arg=0; static const void*attr=0; static bool sim=false;
#include <dlfcn.h>
template<class F> static F real(const char*n){ return (F)dlsym(RTLD_NEXT,n); }
extern "C" { int pthread_mutex_init(pthread_mutex_t*m,const pthread_mutexattr_t*a) __THROW { if(sim){ log_+='i'; arg=m; attr=a; return 0; } static auto f=real<int(*)(pthread_mutex_t*,const pthread_mutexattr_t*)>("pthread_mutex_init"); return f(m,a); }
int pthread_mutex_destroy(pthread_mutex_t*m) __THROW { if(sim){ log_+='d'; arg=m; return 0; } static auto f=real<int(*)(pthread_mutex_t*)>("pthread_mutex_destroy"); return f(m); }
int pthread_mutex_lock(pthread_mutex_t*m) __THROWNL { if(sim){ log_+='l'; arg=m; return 0; } static auto f=real<int(*)(pthread_mutex_t*)>("pthread_mutex_lock"); return f(m); }
int pthread_mutex_trylock(pthread_mutex_t*m) __THROWNL { if(sim){ log_+='t'; arg=m; return tryres; } static auto f=real<int(*)(pthread_mutex_t*)>("pthread_mutex_trylock"); return f(m); }
int pthread_mutex_unlock(pthread_mutex_t*m) __THROWNL { if(sim){ log_+='u'; arg=m; return 0; } static auto f=real<int(*)(pthread_mutex_t*)>("pthread_mutex_unlock"); return f(m); } }
#include <boost/signals2/mutex.hpp>
#include <boost/signals2/dummy_mutex.hpp>
#include <boost/signals2/detail/unique_lock.hpp>
namespace s2=boost::signals2; static long checks=0;
#define CHECK(c,t) do{ ++checks; if(!(c)){ sim=false; printf("FAIL [%s] line %d: %s (calls %s)\n",#c,__LINE__,t,log_.c_str()); exit(1);} }while(0)
struct Box { s2::mutex m; long n=0; };
static void*work(void*p){ Box*b=(Box*)p; for(int i=0;i<20000;++i){ if(i%3==0){ s2::detail::unique_lock<s2::mutex> l(b->m); long x=b->n; b->n=x+1; } else if(i%3==1){ b->m.lock(); ++b->n; b->m.unlock(); } else { while(!b->m.try_lock()) sched_yield(); ++b->n; b->m.unlock(); } } return 0; }
static void*tr(void*p){ return (void*)(long)((Box*)p)->m.try_lock(); }
int main(int,char**){ static_assert(!std::is_copy_constructible<s2::mutex>::value&&!std::is_copy_assignable<s2::mutex>::value,"mutex can be copied");
  int res[]={0,EBUSY,EINVAL,EAGAIN,EDEADLK,EOWNERDEAD,-1,1<<30};
  for(int rep=0;rep<64;++rep){ alignas(s2::mutex) static char buf[sizeof(s2::mutex)]; memset(buf,rep*37,sizeof buf); log_.clear(); log_.reserve(64); sim=true; s2::mutex*m=new(buf) s2::mutex; CHECK(log_=="i"&&arg>=buf&&(char*)arg+sizeof(pthread_mutex_t)<=buf+sizeof buf,"construction"); CHECK(attr==0,"not a normal mutex"); void*a=arg;
    std::string want="i"; unsigned q=rep*2654435761u; for(int i=0;i<6;++i){ q=q*1664525u+1013904223u; arg=0; switch((q>>16)%4){ case 0: m->lock(); want+='l'; CHECK(log_==want&&arg==a,"lock"); break; case 1: m->unlock(); want+='u'; CHECK(log_==want&&arg==a,"unlock"); break;
      case 2: { tryres=res[(q>>20)%8]; bool r=m->try_lock(); want+='t'; CHECK(log_==want&&arg==a,"try_lock"); CHECK(r==(tryres==0),"try_lock result"); break; } default: { { s2::detail::unique_lock<s2::mutex> l(*m); want+='l'; CHECK(log_==want&&arg==a,"unique_lock"); arg=0; } want+='u'; CHECK(log_==want&&arg==a,"unique_lock"); } } }
    arg=0; m->~mutex(); want+='d'; CHECK(log_==want&&arg==a,"destruction"); s2::dummy_mutex d; for(int i=0;i<3;++i){ d.lock(); CHECK(d.try_lock(),"dummy_mutex"); d.unlock(); d.unlock(); d.lock(); d.lock(); } CHECK(log_==want,"dummy_mutex uses a system mutex"); sim=false; }
  { Box b; CHECK(b.m.try_lock(),"a new mutex is locked"); void*r=0; pthread_t t; pthread_create(&t,0,tr,&b); pthread_join(t,&r); CHECK(r==0,"try_lock of a locked mutex succeeds"); b.m.unlock(); pthread_create(&t,0,tr,&b); pthread_join(t,&r); CHECK(r!=0,"try_lock of an unlocked mutex fails"); b.m.unlock(); }
  { Box b; pthread_t t[4]; for(auto&x:t) pthread_create(&x,0,work,&b); for(auto&x:t) pthread_join(x,0); CHECK(b.n==80000,"lost updates: no mutual exclusion"); }
  printf("OK %ld checks\n",checks); return 0; }
