// Threads sharing one signal and its connections, run under ThreadSanitizer.  usage: thr_h SEED ROUNDS OPS
#include <boost/signals2.hpp>
#include <boost/signals2/shared_connection_block.hpp>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>
#include <unistd.h>
#include <signal.h>
namespace s2=boost::signals2;
static std::atomic<long> live(0), calls(0), bad(0);
struct Obj { int n; Obj():n(1){} ~Obj(){ n=0; } void touch(){ if(n!=1) ++bad; } };
struct F { boost::weak_ptr<Obj> w; int id; std::unique_ptr<int> p; F(int i):id(i),p(new int(i)){ ++live; } F(const F&o):w(o.w),id(o.id),p(new int(*o.p)){ ++live; } ~F(){ *p=-1; --live; }
  int operator()(int x) const { if(*p!=id) ++bad; if(boost::shared_ptr<Obj> s=w.lock()) s->touch(); ++calls; return x; } int operator()(const s2::connection&c,int x) const { (*this)(x); if(x%7==0) c.disconnect(); return x; } bool operator==(const F&o) const { return id==o.id; } };
struct Comb { typedef long result_type; int k; std::shared_ptr<int> data; Comb(int k=0):k(k),data(new int(k)){} template<class I> long operator()(I f,I l) const { long n=*data; for(;f!=l;++f) n+=*f; return n; } };
#ifdef STDM
typedef std::mutex Mx;
#else
typedef s2::mutex Mx;
#endif
typedef s2::signal<int(int),Comb,int,std::less<int>,boost::function<int(int)>,boost::function<int(const s2::connection&,int)>,Mx> Sig; typedef Sig::slot_type Slot; typedef Sig::extended_slot_type XSlot;
static void watchdog(int){ const char m[]="STOP watchdog\n"; (void)!write(1,m,sizeof m-1); _exit(4); }
int main(int c,char**v){ unsigned seed=atoi(v[1]); int rounds=atoi(v[2]),ops=atoi(v[3]); signal(SIGALRM,watchdog); alarm(c>4?atoi(v[4]):150); long tot=0;
  for(int r=0;r<rounds;++r){ live=0; { Sig s; std::vector<s2::connection> shared; for(int i=0;i<6;++i) shared.push_back(s.connect(i%3,F(i))); std::vector<std::thread> th; std::atomic<int> go(0); std::vector<boost::shared_ptr<Obj>> objs; for(int i=0;i<4;++i) objs.push_back(boost::shared_ptr<Obj>(new Obj));
    boost::shared_ptr<Obj> common(new Obj); for(int i=0;i<2;++i){ F f(50+i); f.w=common; shared.push_back(s.connect(Slot(f).track(common))); }
    for(int t=0;t<4;++t) th.emplace_back([&,t,r]{ unsigned x=(seed*977u+r*131u+t*17u)|1; auto rn=[&](int n){ x^=x<<13;x^=x>>17;x^=x<<5; return int((x>>3)%unsigned(n)); }; ++go; while(go<4) std::this_thread::yield(); std::vector<s2::connection> mine; boost::shared_ptr<Obj> o(objs[t]);
      int focus=rn(3);
      for(int i=0;i<ops;++i){ int k=rn(24); if(focus==0&&rn(3)==0) k=0; if(focus==1&&rn(3)==0) k=rn(2)?4:7; switch(k){
        case 0: case 1: case 2: s(rn(100)); break;
        case 3: { const Sig&cs=s; cs(rn(100)); } break;
        case 4: mine.push_back(s.connect(rn(3),F(rn(10)),rn(2)?s2::at_back:s2::at_front)); break;
        case 5: mine.push_back(s.connect(F(rn(10)),rn(2)?s2::at_back:s2::at_front)); break;
        case 6: { F f(20+rn(5)); f.w=o; mine.push_back(s.connect(Slot(f).track(o))); } break;
        case 7: if(!mine.empty()){ int j=rn(mine.size()); mine[j].disconnect(); if(mine[j].connected()) ++bad; mine.erase(mine.begin()+j); } break;
        case 8: shared[rn(shared.size())].disconnect(); break;
        case 9: shared[rn(shared.size())].connected(); break;
        case 10: shared[rn(shared.size())].blocked(); break;
        case 11: { s2::shared_connection_block b(shared[rn(shared.size())]); s(1); } break;
        case 12: s.num_slots(); break; case 13: s.empty(); break;
        case 14: s.set_combiner(Comb(rn(9))); break; case 15: { Comb q=s.combiner(); if(*q.data!=q.k) ++bad; } break;
        case 16: s.disconnect(rn(3)); break; case 17: { F f(rn(10)); s.disconnect(boost::cref(f)); } break; case 18: if(rn(8)==0) s.disconnect_all_slots(); break;
        case 19: o.reset(new Obj); break;
        case 20: { s2::connection c(shared[0]), d(shared[1]); (void)(c==d); (void)(c<d); c=d; } break;
        case 21: mine.push_back(s.connect_extended(rn(3),XSlot(F(30+rn(5))))); break;
        case 22: { s2::scoped_connection sc(s.connect(F(3))); s(2); } break;
        case 23: { Slot sl(F(40)); sl.track(o); if(rn(2)) o.reset(new Obj); try { sl(3); } catch(s2::expired_slot&){} } break; } }
      for(auto&k:mine) k.disconnect(); });
    for(auto&t:th) t.join(); tot+=ops*4; }
    if(live!=0){ printf("FAIL %ld function objects alive after all was destroyed (round %d)\n",live.load(),r); return 1; }
    if(bad!=0){ printf("FAIL a slot ran on destroyed data or a disconnected slot was connected (round %d)\n",r); return 1; } }
  printf("OK %d rounds, %ld operations in 4 threads, %ld slot calls\n",rounds,tot,calls.load()); return 0; }
