// other signatures, converted slots, copies of connections, ordering of extended slots. usage: misc_h SEED PROPERTY
#include <boost/signals2.hpp>
#include <boost/make_shared.hpp>
#include <boost/ref.hpp>
#include <cstdio>
#include <functional>
#include <mutex>
#include <memory>
#include <string>
#include <vector>
namespace s2=boost::signals2;
enum { C02=1<<2,C05=1<<5,C07=1<<7,C08=1<<8,C15=1<<15 }; static unsigned want=~0u; static long checks=0; static int failed=0;
#define CHK(m,c,w) do{ ++checks; if(!(c)&&((m)&want)){ printf("FAIL line %d: %s\n",__LINE__,w); failed=1; } }while(0)
// ---------------------------------------------------------------- other signatures, converted slots, copies of connections
namespace mi {
static std::vector<long> got; static void take(){ } template<class...A> void take(long a,A...b){ got.push_back(a); take(b...); }
template<class...A> static void arity(A...a){ std::vector<long> e{(long)a...}; 
  { s2::signal<int(A...)> s; int n=0; for(int i=0;i<2;++i) s.connect([&](A...b){ take(b...); return ++n; }); got.clear(); boost::optional<int> r=s(a...); std::vector<long> w(e); w.insert(w.end(),e.begin(),e.end()); CHK(C02,got==w&&r&&*r==2,"arguments or result of a signal with several arguments"); }
  { s2::signal<void(A...)> s; for(int i=0;i<2;++i) s.connect([&](A...b){ take(b...); }); got.clear(); s(a...); std::vector<long> w(e); w.insert(w.end(),e.begin(),e.end()); CHK(C02,got==w,"arguments of a void signal with several arguments"); }
  { s2::signal<long(A...)> s,o; s2::connection in; s2::connection c=s.connect_extended([&](const s2::connection&x,A...b){ in=x; take(b...); return 5L; }); o.connect(typename s2::signal<long(A...)>::slot_type([&](A...b){ return *s(b...); })); got.clear(); boost::optional<long> r=o(a...); CHK(C15|C02,got==e&&r&&*r==5&&in==c&&in.connected(),"arguments, connection or result of an extended slot"); in.disconnect(); CHK(C15,s.empty(),"disconnecting an extended slot through its connection"); }
  { s2::slot<long(A...)> sl([&](A...b){ take(b...); return 6L; }); const s2::slot<long(A...)> k(sl); got.clear(); long r=sl(a...); CHK(C02|C05,r==6&&got==e,"arguments or result of a slot"); got.clear(); r=k(a...); CHK(C02|C05,r==6&&got==e,"arguments or result of a const slot"); } }
// a mutex after whose release something else happens once, as if another thread had run in between
struct HM { static std::function<void()> after; std::mutex m; void lock(){ m.lock(); } bool try_lock(){ return m.try_lock(); } void unlock(){ m.unlock(); if(after){ std::function<void()> f; f.swap(after); f(); } } };
std::function<void()> HM::after;
typedef s2::signal<void(),s2::optional_last_value<void>,int,std::less<int>,boost::function<void()>,boost::function<void(const s2::connection&)>,HM> HSig;
struct Mv { std::shared_ptr<int> p; };
static void all(){ 
  arity<int>(1); arity<int,long>(1,2); arity<int,long,short>(1,2,3); arity<int,int,int,int>(1,2,3,4); arity<int,long,int,int,int,short>(1,2,3,4,5,6); arity<int,int,int,int,int,int,int,int,int>(1,2,3,4,5,6,7,8,9); 
  { s2::signal<int()> s; int n=0; s.connect([&]{ return ++n; }); CHK(C02,*s()==1&&n==1,"a signal without arguments"); }
  { s2::signal<void(Mv)> s; int n=0; for(int i=0;i<3;++i) s.connect([&](Mv m){ n+=m.p?1:0; Mv t(std::move(m)); }); s(Mv{std::make_shared<int>(1)}); CHK(C02,n==3,"an argument passed by value reaches later slots changed"); s2::signal<int(Mv)> t; n=0; for(int i=0;i<3;++i) t.connect([&](Mv m){ n+=m.p?1:0; Mv q(std::move(m)); return 1; }); t(Mv{std::make_shared<int>(1)}); CHK(C02,n==3,"an argument passed by value reaches later slots changed"); }
  { s2::signal<void(int&)> s; for(int i=0;i<3;++i) s.connect([](int&x){ ++x; }); int v=0; s(v); CHK(C02,v==3,"an argument passed by reference"); s2::signal<int&(int&),s2::last_value<int&> > t; t.connect([](int&x)->int&{ return x; }); CHK(C02,&t(v)==&v,"a reference result"); }
  for(int k=0;k<6;++k){ // slots made from other slots keep their tracked objects
    boost::shared_ptr<int> a(new int(1)),b(new int(2)); int n=0; s2::slot<void(long)> x([&](long){ ++n; }); x.track(a); if(k%2) x.track(b); 
    s2::slot<void(int)> y(x); s2::slot<void(int)> z(y); s2::signal<void(int)> s; s2::connection c; if(k<2) c=s.connect(y); else if(k<4) c=s.connect(z); else c=s.connect(s2::slot<void(int)>(s2::slot<void(short)>(x)));
    s(1); CHK(C05|C02,n==1,"a converted slot is not called"); CHK(C05,y.tracked_objects().size()==x.tracked_objects().size()&&z.tracked_objects().size()==x.tracked_objects().size(),"a converted slot tracks something else"); if(k%2) b.reset(); else a.reset(); s(1); CHK(C05,n==1&&!c.connected(),"a converted slot runs although an object it tracks is gone"); bool t=false; try{ z(1); }catch(s2::expired_slot&){ t=true; } CHK(C05,t&&n==1,"calling a converted slot whose tracked object is gone"); }
  for(int k=0;k<8;++k){ // slots which are skipped do not keep their objects alive
    s2::signal<void()> s; boost::shared_ptr<int> p(new int(1)); boost::weak_ptr<int> w=p; bool alive=true; std::vector<s2::connection> cs; std::vector<s2::shared_connection_block> bl; for(int i=0;i<1+k%3;++i){ cs.push_back(s.connect(s2::signal<void()>::slot_type([]{}).track(p))); bl.emplace_back(cs.back()); } int n=0; s.connect([&]{ p.reset(); alive=!w.expired(); ++n; }); if(k&4) s.connect(s2::signal<void()>::slot_type([]{}).track(boost::shared_ptr<int>(new int(2)))); s(); CHK(C05,n==1&&!alive,"an object tracked by a skipped slot is kept alive by an invocation"); }
  for(int k=0;k<64;++k){ // extended slots are ordered like plain ones
    s2::signal<void()> s; std::string o,w[3]; auto f=[&](char c){ return [&o,c]{ o+=c; }; }; auto x=[&](char c){ return [&o,c](const s2::connection&){ o+=c; }; }; s.connect(1,f('a')); s.connect(2,f('b')); s.connect(f('c')); s.connect(f('d'),s2::at_front); w[0]="d"; 
    bool front=k&1,grouped=k&2; int g=(k>>2)%4; std::string e; s2::connect_position ps=front?s2::at_front:s2::at_back; if(grouped) s.connect_extended(g,x('X'),ps); else s.connect_extended(x('X'),ps); s();
    if(!grouped) e=front?"Xdabc":"dabcX"; else e=g==0?"dXabc":g==1?(front?"dXabc":"daXbc"):g==2?(front?"daXbc":"dabXc"):"dabXc"; CHK(C15,o==e,"place of an extended slot"); }
  for(int k=0;k<8;++k){ // extended slots track what they are given
    s2::signal<int()> s; int n=0; std::vector<boost::shared_ptr<int> > p; typedef s2::signal<int()>::extended_slot_type E; E e([&](const s2::connection&){ return ++n; }); for(int i=0;i<1+k/2;++i){ p.push_back(boost::make_shared<int>(i)); e.track(p.back()); } s2::connection c=k&1?s.connect_extended(e):s.connect_extended(3,e,s2::at_front); s(); CHK(C15|C05,n==1&&s.num_slots()==1,"extended slot with tracked objects"); { s2::shared_connection_block b(c); s(); CHK(C15,n==1,"a blocked extended slot runs"); } p[k%p.size()].reset(); s(); CHK(C15|C05,n==1&&!c.connected()&&s.empty(),"an extended slot runs although an object it tracks is gone"); }
  for(int k=0;k<4;++k){ // the same signal or function several times
    s2::signal<void()> a,b; int n=0; b.connect([&]{ ++n; }); a.connect(b); a.connect(1,b,k&1?s2::at_front:s2::at_back); s2::connection f=a.connect([]{}); a.connect(b,s2::at_front); if(k&2) a.connect_extended([](const s2::connection&){}); a(); CHK(C02,n==3,"a signal used as slot several times"); a.disconnect(b); CHK(C07,a.num_slots()==(k&2?2u:1u)&&f.connected(),"disconnecting a signal that is connected several times"); n=0; a(); CHK(C07,n==0,"a disconnected signal is called"); }
  { s2::signal<void()> s; boost::shared_ptr<int> p(new int(1)); s.connect(s2::signal<void()>::slot_type([]{}).track(p)); CHK(C07,!s.empty(),"empty() is wrong"); p.reset(); CHK(C07,s.empty()&&s.num_slots()==0,"empty() counts an expired slot"); }
  for(int k=0;k<5;++k){ // groups and functions given through other types
    struct G{ int g; operator int()const{ return g; } }; struct Q{ int*n; void operator()(){ ++*n; } bool operator==(const Q&o)const{ return n==o.n; } }; s2::signal<void()> s; int n[4]={0,0,0,0}; s2::connection c[4]; for(int i=0;i<4;++i) c[i]=s.connect(i,Q{n+i}); s2::connection c2=s.connect(2,Q{n+2}); Q q{n+2}; const int g=2; G h={2}; short sh=2;
    if(k==0) s.disconnect(h); else if(k==1) s.disconnect(sh); else if(k==2) s.disconnect(boost::cref(g)); else if(k==3) s.disconnect(boost::ref(q)); else s.disconnect(q);
    s(); CHK(C07,!c[2].connected()&&!c2.connected()&&s.num_slots()==3&&n[0]==1&&n[1]==1&&n[2]==0&&n[3]==1,"disconnect by a group or function given through another type"); }
  for(int k=0;k<4;++k) for(int m=0;m<2;++m){ // an extended slot called by another thread as soon as it can be
    HSig s; bool ok=true; int n=0; s2::connection c; auto f=[&](const s2::connection&x){ ++n; if(!x.connected()||x==s2::connection()) ok=false; }; HM::after=[&]{ s(); }; s2::connect_position ps=k&1?s2::at_front:s2::at_back; c=k&2?s.connect_extended(3,f,ps):s.connect_extended(f,ps); HM::after=std::function<void()>(); s(); CHK(C15,ok&&n>=1&&c.connected(),"an extended slot called right after it was connected does not get its connection"); }
  for(int k=0;k<4;++k){ // handles to a slot compare equal as long as it exists
    s2::signal<void()> s; bool ok=true; s2::connection a,b,d; s.connect([&]{ a.disconnect(); ok=ok&&a==b&&!(a!=b)&&!(a<b)&&!(b<a)&&a!=d&&d!=a; }); a=s.connect([]{}); b=a; d=s.connect([]{}); if(k==1) a.disconnect(); if(k==2){ s2::shared_connection_block l(a); s(); } if(k==3){ s(); s(); } s(); CHK(C08,ok,"handles to one slot compare unequal"); }
  { // handles to a disconnected slot that is still running
    s2::signal<void()> s; int r=0; s2::connection x; x=s.connect([&]{ s2::scoped_connection q(x); s2::connection y=s.connect([]{}),y2=y; q=std::move(y); if(y==x||!(y==s2::connection())) r|=1; if(!q.connected()||!(q==y2)) r|=2; if(x.connected()) r|=4; { s2::scoped_connection z(std::move(q)); if(!(q==s2::connection())) r|=8; s2::scoped_connection u; u=std::move(z); if(!(z==s2::connection())||!(u==y2)) r|=16; s2::connection v=u.release(); if(!(u==s2::connection())||!(v==y2)) r|=32; } if(!y2.connected()) r|=64; const s2::connection e; s2::scoped_connection k(y2); k=e; if(y2.connected()) r|=128; }); s(); CHK(C08,r==0,"moves of connections inside a running slot"); } }
}
int main(int argc,char**argv){ int p=argc>2?atoi(argv[2]):0; if(p) want=1u<<p; mi::all(); if(failed) return 1; printf("OK %ld checks\n",checks); return 0; }
