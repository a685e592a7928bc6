// Concrete companion of the proofs: random histories on the real signals2 code against an exact oracle.
// Everything runs in one thread and is determined by the seed; the mutex type of the signals checks the locking discipline
// and can inject an operation (as another thread would do) wherever the library takes or has released its mutex.
#include <boost/signals2.hpp>
#include <boost/signals2/shared_connection_block.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <string>
#include <vector>
#include <functional>
#include <unistd.h>
#include <signal.h>
namespace s2 = boost::signals2;
typedef unsigned Mask;
enum : Mask { C01=1u<<1,C02=1u<<2,C03=1u<<3,C04=1u<<4,C05=1u<<5,C06=1u<<6,C07=1u<<7,C08=1u<<8,C10=1u<<10,C11=1u<<11,C12=1u<<12,C15=1u<<15,C16=1u<<16,C17=1u<<17,ANY=~0u };
static Mask want=ANY; static bool dead=false; static bool failed=false; static std::string ctx; static long nchecks=0, nops=0, ncalls=0;
static std::string oplog;
static void logop(const std::string &s){ oplog+=s; oplog+='\n'; if(oplog.size()>20000) oplog.erase(0,10000); }
static void chk_(Mask m,bool ok,const char *what,int line){ ++nchecks; if(ok||dead) return;
  if(m&want){ failed=true; printf("FAIL %s [%s] (line %d)\n",what,ctx.c_str(),line); printf("operations:\n%s",oplog.c_str()); fflush(stdout); _exit(1); } dead=true; }
#define CHK(m,c,w) chk_(m,(c),w,__LINE__)
// ---------------------------------------------------------------- allocation control
static long live_allocs=0; static long fail_at=-1; static bool fail_fired=false; static int no_fail=0; static void (*fail_hook)()=nullptr;  // fail_hook: what other code does at the moment the allocation fails
void *operator new(std::size_t n){ if(fail_at>=0&&!no_fail){ if(fail_at--==0){ fail_fired=true; if(fail_hook) fail_hook(); throw std::bad_alloc(); } } void *p=malloc(n?n:1); if(!p) throw std::bad_alloc(); ++live_allocs; return p; }
void *operator new[](std::size_t n){ return operator new(n); }
void operator delete(void *p) noexcept { if(p){ --live_allocs; free(p);} }
void operator delete(void *p,std::size_t) noexcept { operator delete(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete[](void *p,std::size_t) noexcept { operator delete(p); }
struct NoFail { NoFail(){++no_fail;} ~NoFail(){--no_fail;} };
static long copy_fail=-1;  // countdown: the copy of a functor, group or combiner throws
struct CopyFail{};
static void copy_point(){ if(copy_fail>=0&&!no_fail){ if(copy_fail--==0){ fail_fired=true; throw CopyFail(); } } }
// ---------------------------------------------------------------- mutex
static int held=0; static long lock_points=0; static long inject_at=-1; static std::function<void()> inject; static bool injected=false; static int inj_depth=0;
static void lock_point(){ if(inject_at>=0&&inj_depth==0&&lock_points++==inject_at&&inject){ ++inj_depth; injected=true; { NoFail nf; auto f=inject; f(); } --inj_depth; } }
struct HMutex { bool locked; HMutex():locked(false){} ~HMutex(){ CHK(C10,!locked,"mutex destroyed while locked"); }
  HMutex(const HMutex&)=delete; HMutex&operator=(const HMutex&)=delete;
  void lock(){ lock_point(); if(locked||held){ CHK(C10|C11,false,locked?"the library locks a mutex it already holds":"the library locks a second mutex while holding one"); printf("STOP deadlock\n"); fflush(stdout); _exit(failed?1:3);} locked=true; ++held; }
  bool try_lock(){ if(locked) return false; locked=true; ++held; return true; }
  void unlock(){ CHK(C10,locked,"unlock of an unlocked mutex"); locked=false; --held; lock_point(); } };
// ---------------------------------------------------------------- user types
struct Grp { int v; Grp(int v):v(v){} Grp(const Grp&o):v(o.v){ copy_point(); } Grp&operator=(const Grp&o){ copy_point(); v=o.v; return *this; } };
struct GrpCmp { int mode; explicit GrpCmp(int m=0):mode(m){} bool operator()(const Grp&a,const Grp&b) const { switch(mode){ case 1: return a.v>b.v; case 2: return a.v/2<b.v/2; default: return a.v<b.v; } } };
struct Arg { int tag; };
struct Obj; struct World; static World *W=nullptr;
static int slot_entry(int id,const s2::connection *c,Arg &a,int x);
static std::map<int,int> live;   // function objects alive per slot
static void functor_gone(int id);
struct F { int id,key; F(int id,int key):id(id),key(key){ NoFail nf; ++live[id]; } F(const F&o):id(o.id),key(o.key){ copy_point(); NoFail nf; ++live[id]; }
  ~F(){ NoFail nf; --live[id]; functor_gone(id); }
  int operator()(Arg &a,int x) const { return slot_entry(id,nullptr,a,x); } int operator()(const s2::connection &c,Arg &a,int x) const { return slot_entry(id,&c,a,x); }
  bool operator==(const F&o) const { return key==o.key; } };
struct Ex { int id; };
struct Res { int comb; std::vector<int> v; Res():comb(-1){} };
struct Comb { typedef Res result_type; int cid; Comb(int c=0):cid(c){} Comb(const Comb&o):cid(o.cid){ copy_point(); } Comb&operator=(const Comb&o){ copy_point(); cid=o.cid; return *this; }
  ~Comb(){ CHK(C10,held==0||true,""); }
  template<class It> Res operator()(It f,It l) const; };
typedef s2::signal<int(Arg&,int),Comb,Grp,GrpCmp,boost::function<int(Arg&,int)>,boost::function<int(const s2::connection&,Arg&,int)>,HMutex> Sig;
typedef Sig::slot_type Slot; typedef Sig::extended_slot_type XSlot;
static unsigned rs=1; static unsigned rnd(){ rs^=rs<<13; rs^=rs>>17; rs^=rs<<5; return rs; } static int rn(int n){ return int((rnd()>>3)%unsigned(n)); } static bool pr(int pct){ return rn(100)<pct; }
// tracked objects
struct Obj { int id; bool *gone; Obj(int id,bool*g):id(id),gone(g){} ~Obj(); };
struct BObj : s2::trackable { int id; explicit BObj(int i):id(i){} };
struct BF { int id; BF(int id):id(id){ NoFail nf; ++live[id]; } BF(const BF&o):id(o.id){ copy_point(); NoFail nf; ++live[id]; } ~BF(){ NoFail nf; --live[id]; functor_gone(id); }
  typedef int result_type; int operator()(BObj*,Arg&a,int x) const { return slot_entry(id,nullptr,a,x); } };
// ---------------------------------------------------------------- oracle
struct Rec { int id=0,sig=0; int front=0; /*0 front,1 group,2 back*/ int grp=0; int key=0; bool ext=false; bool act=false; int blockers=0; std::vector<int> objs; int bobj=-1; s2::connection probe; bool noticed=false; int running=0; };
struct Frame { int sig; std::vector<int> order; size_t pos; int comb; int expect; int calls; Arg *arg; int x; bool entered; int cmode; int stop; std::vector<int> exp_res; int throw_id; };
struct TObj { boost::shared_ptr<Obj> p; std::shared_ptr<Obj> fp; bool gone; bool foreign; };
struct BlkH { std::unique_ptr<s2::shared_connection_block> b; int rec; bool on; };
struct Conn { std::unique_ptr<s2::connection> c; std::unique_ptr<s2::scoped_connection> s; int rec; };
struct Cfg { int depth=3, pthrow=0, pnest=40, pexp=0; bool groups=true,ext=false,track=false,block=false,setcomb=false,handles=false,moves=false,alloc=false,discfn=true,comb_modes=false,query=true,destroy=false,discall=true; int cmp=-1; int nsig=1; int maxslots=14; };
struct World {
  Cfg cfg; std::vector<std::unique_ptr<Sig>> sig; std::vector<std::vector<int>> order; std::vector<int> comb; std::vector<int> cmp; std::vector<bool> null;
  std::vector<Rec> rec; std::vector<Frame*> fr; std::vector<std::unique_ptr<TObj>> obj; std::vector<std::unique_ptr<BObj>> bobj;
  std::vector<BlkH> blk; std::vector<Conn> con; int depth=0; int nextcomb=1; std::vector<int> trace; bool tracing=false; std::function<void(int)> hook;
  World(const Cfg &c):cfg(c){ W=this; for(int i=0;i<cfg.nsig;++i){ int m=cfg.cmp>=0?cfg.cmp:rn(3); cmp.push_back(m); comb.push_back(nextcomb); sig.emplace_back(new Sig(Comb(nextcomb++),GrpCmp(m))); order.emplace_back(); null.push_back(false);} blk.resize(5); con.resize(8); for(auto&b:blk){b.rec=-1;b.on=false;} for(auto&k:con) k.rec=-1; }
  ~World(){ W=this; closing=1; for(auto&k:con){k.c.reset();k.s.reset();} blk.clear(); sig.clear(); rec.clear(); obj.clear(); W=nullptr; }
  int rank(int s,const Rec&r) const { return r.front; }
  bool less(int s,const Rec&a,const Rec&b) const { if(a.front!=b.front) return a.front<b.front; if(a.front!=1) return false; return GrpCmp(cmp[s])(Grp(a.grp),Grp(b.grp)); }
  bool gone(const Rec&r) const { for(int o:r.objs) if(obj[o]->gone) return true; return r.bobj>=0&&!bobj[r.bobj]; }
  bool active(int id) const { const Rec&r=rec[id]; return r.act&&!gone(r); }
  bool callable(int id) const { return active(id)&&rec[id].blockers==0; }
  void drop(int id){ Rec&r=rec[id]; if(!r.act) return; r.act=false; auto&o=order[r.sig]; for(size_t i=0;i<o.size();++i) if(o[i]==id){ o.erase(o.begin()+i); break; } }
  void add(int id,bool atfront){ Rec&r=rec[id]; auto&o=order[r.sig]; size_t i=0; if(atfront){ while(i<o.size()&&less(r.sig,rec[o[i]],r)) ++i; } else { while(i<o.size()&&!less(r.sig,r,rec[o[i]])) ++i; } o.insert(o.begin()+i,id); }
  int nact(int s) const { int n=0; for(int id:order[s]) if(active(id)) ++n; return n; }
  bool inuse(int id) const { for(auto f:fr) if(f->expect==id) return true; return false; }
  void swept(int s){ for(int id:std::vector<int>(order[s])) if(gone(rec[id])) drop(id); }
  // functor released as soon as the slot is disconnected and not in use
  void check_released(int id){ Rec&r=rec[id]; if(!r.act&&!inuse(id)) CHK(C12|C03,live[id]==0,"the function object of a disconnected slot is still alive"); if(r.act&&!gone(r)) CHK(C12|C03|C02,live[id]>=1,"the function object of a connected slot was destroyed"); }
  std::string str(){ std::string s; for(auto&o:order){ s+="{"; for(int id:o) s+=std::to_string(id)+(rec[id].blockers?"b":"")+(gone(rec[id])?"x":"")+" "; s+="}"; } return s; }
  int pickrec(){ return rec.empty()?-1:(pr(70)&&rec.size()>12?int(rec.size())-1-rn(12):rn(rec.size())); }
  int picksig(){ return rn(sig.size()); }
  struct Closing { int&c; Closing(int&c):c(c){ ++c; } ~Closing(){ --c; } };
  // ---- operations
  void op_connect(int s){ if(null[s]||(int)order[s].size()>=cfg.maxslots) return; int id=rec.size();
    Rec r; r.id=id; r.sig=s; r.key=rn(4); r.act=false; r.blockers=0; r.bobj=-1; r.noticed=false; r.running=0; r.ext=cfg.ext&&pr(60); bool front=pr(30);
    bool grouped=cfg.groups&&pr(65); r.front=grouped?1:front?0:2; r.grp=grouped?rn(5):-1;
    bool bound=!r.ext&&cfg.track&&pr(15);
    if(cfg.track&&pr(60)){ int n=1+rn(2); for(int i=0;i<n;++i) r.objs.push_back(pick_obj()); }
    if(bound){ for(size_t i=0;i<bobj.size();++i) if(bobj[i]&&pr(50)) r.bobj=i; if(r.bobj<0){ bobj.emplace_back(new BObj(bobj.size())); r.bobj=bobj.size()-1; } }
    bool armed=cfg.alloc&&pr(60);
    { char b[200]; snprintf(b,200,"%*sconnect #%d sig%d %s%s%s",depth*2,"",id,s,r.front==0?"front":r.front==2?"back":("group "+std::to_string(r.grp)).c_str(),grouped?(front?" at_front":" at_back"):"",r.ext?" extended":""); logop(b); }
    rec.push_back(r); s2::connect_position p=front?s2::at_front:s2::at_back; s2::connection c; bool threw=false;
    try {
      if(r.ext){ XSlot sl((F(id,r.key))); track(sl,r); arm(armed); c=grouped?sig[s]->connect_extended(Grp(r.grp),sl,p):sig[s]->connect_extended(sl,p); disarm(); }
      else if(bound){ Slot sl(boost::bind(BF(id),bobj[r.bobj].get(),boost::placeholders::_1,boost::placeholders::_2)); track(sl,r); arm(armed); c=grouped?sig[s]->connect(Grp(r.grp),sl,p):sig[s]->connect(sl,p); disarm(); }
      else { Slot sl((F(id,r.key))); track(sl,r); arm(armed); c=grouped?sig[s]->connect(Grp(r.grp),sl,p):sig[s]->connect(sl,p); disarm(); }
    } catch(std::bad_alloc&){ disarm(); threw=true; } catch(CopyFail&){ disarm(); threw=true; }
    if(threw){ logop("  ... threw"); CHK(C16,fail_fired,"connect throws by itself"); CHK(C16|C12,live[id]==0,"a slot whose connect threw is kept"); rec[id].act=false; check_state(s); if(depth==0) op_invoke(s,true); return; }
    Rec&q=rec[id]; q.act=true; q.probe=c; add(id,front); check_handle(c,id); if(con.size()&&pr(60)) set_con(rn(con.size()),c,id); }
  void arm(bool a){ fail_fired=false; if(a){ if(pr(70)) fail_at=rn(14); else copy_fail=rn(8); } }
  void disarm(){ fail_at=-1; copy_fail=-1; }
  template<class S> void track(S &sl,const Rec&r){ for(int o:r.objs){ if(obj[o]->foreign){ if(pr(50)&&obj[o]->fp) sl.track_foreign(obj[o]->fp); else sl.track_foreign(std::weak_ptr<Obj>(obj[o]->fp)); } else { if(pr(50)) sl.track(obj[o]->p); else sl.track(boost::weak_ptr<Obj>(obj[o]->p)); } } }
  int pick_obj(){ for(int t=0;t<4;++t) if(!obj.empty()){ int o=rn(obj.size()); if(obj[o]->p||obj[o]->fp) return o; }
    obj.emplace_back(new TObj); int o=obj.size()-1; TObj&t=*obj[o]; t.gone=false; t.foreign=pr(40); if(t.foreign) t.fp=std::make_shared<Obj>(o,&t.gone); else t.p=boost::make_shared<Obj>(o,&t.gone); return o; }
  bool obj_in_use(int o){ for(auto f:fr){ if(f->expect>=0){ for(int x:rec[f->expect].objs) if(x==o) return true; } else if(f->pos>0) return true; } return false; }
  void op_expire(){ if(obj.empty()&&bobj.empty()) return; if(!bobj.empty()&&pr(30)){ int b=rn(bobj.size()); for(auto f:fr) if(f->expect>=0&&rec[f->expect].bobj==b) return; logop("destroy trackable"); bobj[b].reset(); return; }
    if(obj.empty()) return; int o=rn(obj.size()); TObj&t=*obj[o]; if(!t.p&&!t.fp) return; logop(std::string(depth*2,' ')+"release object "+std::to_string(o)); t.p.reset(); t.fp.reset();
    if(!obj_in_use(o)) CHK(C05,t.gone,"a tracked object is kept alive although no slot that tracks it is running"); }
  void op_disc(int id){ if(id<0) return; logop(std::string(depth*2,' ')+"disconnect #"+std::to_string(id)); rec[id].probe.disconnect(); drop(id); CHK(C03,!rec[id].probe.connected(),"connected() after disconnect()"); check_released(id); }
  void op_disc_group(int s){ int g=rn(5); logop(std::string(depth*2,' ')+"disconnect group "+std::to_string(g)); std::vector<int> hit; Rec k; k.front=1; k.grp=g; for(int id:order[s]) if(rec[id].front==1&&!less(s,rec[id],k)&&!less(s,k,rec[id])) hit.push_back(id);
    Grp gg(g); sig[s]->disconnect(gg); if(null[s]) return; for(int id:hit){ drop(id); } after_disc(s,hit); }
  void after_disc(int s,std::vector<int>&hit){ for(int id:hit){ CHK(C07|C03,!rec[id].probe.connected(),"a slot selected for disconnection is still connected"); check_released(id); }
    for(int id:std::vector<int>(order[s])) if(active(id)) CHK(C07|C03,rec[id].probe.connected(),"a slot that was not selected was disconnected"); }
  void op_disc_fn(int s){ int k=rn(4); std::vector<int> hit; for(int id:order[s]) if(rec[id].bobj<0&&rec[id].key==k) hit.push_back(id); logop(std::string(depth*2,' ')+"disconnect function key "+std::to_string(k));
    { int tmp=1000000+k; { F f(tmp,k); if(pr(50)) sig[s]->disconnect(f); else sig[s]->disconnect(boost::cref(f)); } live.erase(tmp); } if(null[s]) return; for(int id:hit) drop(id); after_disc(s,hit); }
  void op_disc_all(int s){ logop(std::string(depth*2,' ')+"disconnect_all_slots"); sig[s]->disconnect_all_slots(); if(null[s]) return; std::vector<int> hit=order[s]; for(int id:hit) drop(id); after_disc(s,hit); }
  void check_handle(const s2::connection&c,int id){ if(id<0){ CHK(C08,!c.connected()&&c.blocked(),"an empty handle is connected"); return; } bool a=active(id); CHK(C03|C05|C07|C08|C16|C17,c.connected()==a,a?"connected() is false for a connected slot":"connected() is true for a disconnected or expired slot"); if(!a) drop(id);
    CHK(C04|C08,c.blocked()==(!a||rec[id].blockers>0),"blocked() is wrong"); }
  void check_state(int s){ int n=nact(s); if(pr(50)) CHK(C07|C03|C17,sig[s]->empty()==(n==0),"empty() is wrong"); size_t m=sig[s]->num_slots(); CHK(C07|C03|C05|C16|C17,(int)m==n,"num_slots() is not the number of connected slots"); swept(s); bool e=sig[s]->empty(); CHK(C07|C03|C17,e==(n==0),"empty() is wrong"); for(Rec&r:rec) if(r.sig==s&&r.id>=int(rec.size())-20) check_released(r.id); }
  void op_query(int s){ if(pr(50)){ logop("query"); check_state(s); } else { int id=pickrec(); if(id>=0) check_handle(rec[id].probe,id); } }
  void op_block(){ int i=rn(blk.size()); BlkH&b=blk[i]; int k=rn(6); if(!b.b||k==0){ int id=pickrec(); if(id<0) return; bool init=pr(70); if(b.b){ rel(b); b.b.reset(); } b.b.reset(new s2::shared_connection_block(rec[id].probe,init)); b.rec=id; b.on=false; if(init) acq(b); logop("new block on #"+std::to_string(id)); }
    else if(k==1){ b.b->block(); if(!b.on) acq(b); logop("block #"+std::to_string(b.rec)); } else if(k==2){ b.b->unblock(); rel(b); logop("unblock #"+std::to_string(b.rec)); }
    else if(k==3){ rel(b); b.b.reset(); b.rec=-1; logop("destroy block"); return; }
    else { int j=rn(blk.size()); BlkH&c=blk[j]; if(!c.b) { c.b.reset(new s2::shared_connection_block(*b.b)); c.rec=b.rec; c.on=false; if(b.on) acq2(c); } else if(j!=i) { *c.b=*b.b; bool on=b.on; rel(c); c.rec=b.rec; if(on) acq2(c); } logop("copy block"); CHK(C04,c.b->blocking()==c.on,"blocking() is wrong after a copy"); }
    CHK(C04,b.b->blocking()==b.on,"blocking() is wrong"); int id=b.rec; if(id>=0) check_handle(rec[id].probe,id); if(id>=0&&rec[id].act) CHK(C04|C08,b.b->connection()==rec[id].probe,"the block's connection() is another one"); }
  void acq(BlkH&b){ b.on=true; if(b.rec>=0) rec[b.rec].blockers++; } void acq2(BlkH&b){ acq(b); } void rel(BlkH&b){ if(b.on){ b.on=false; if(b.rec>=0) rec[b.rec].blockers--; } }
  // ---- handles
  void set_con(int i,const s2::connection&c,int id){ Conn&k=con[i]; if(k.s){ *k.s=c; if(k.rec>=0){ drop(k.rec);} } else { if(!k.c) k.c.reset(new s2::connection(c)); else *k.c=c; } k.rec=id; }
  s2::connection &h(Conn&k){ return k.s?*k.s:*k.c; }
  void op_handle(){ int i=rn(con.size()),j=rn(con.size()); Conn&a=con[i],&b=con[j]; int k=rn(16); char t[100]; snprintf(t,100,"handle op %d on %d(%d%s) %d(%d%s)",k,i,a.rec,a.s?"s":"",j,b.rec,b.s?"s":""); logop(t);
    auto has=[&](Conn&x){ return x.c||x.s; };
    switch(k){
    case 0: if(!has(a)){ a.c.reset(new s2::connection); a.rec=-1; } break;
    case 1: if(!has(a)){ a.s.reset(new s2::scoped_connection); a.rec=-1; } break;
    case 2: if(!has(a)&&has(b)){ a.c.reset(new s2::connection(h(b))); a.rec=b.rec; } break;
    case 3: if(!has(a)&&has(b)){ if(pr(50)) a.s.reset(new s2::scoped_connection(h(b))); else { a.s.reset(new s2::scoped_connection); *a.s=h(b); } a.rec=b.rec; } break;
    case 4: if(!has(a)&&has(b)){ a.c.reset(new s2::connection(std::move(h(b)))); a.rec=b.rec; b.rec=-1; } break;
    case 5: if(!has(a)&&has(b)){ if(b.s) a.s.reset(new s2::scoped_connection(std::move(*b.s))); else a.s.reset(new s2::scoped_connection(std::move(*b.c))); a.rec=b.rec; b.rec=-1; } break;
    case 6: if(has(a)){ bool sc=!!a.s; int id=a.rec; a.c.reset(); a.s.reset(); a.rec=-1; if(sc&&id>=0){ drop(id); CHK(C08|C03,!rec[id].probe.connected(),"a destroyed scoped_connection did not disconnect"); check_released(id);} else if(id>=0) check_handle(rec[id].probe,id); } break;
    case 7: if(a.c&&has(b)&&i!=j){ *a.c=h(b); a.rec=b.rec; } break;
    case 8: if(a.s&&has(b)&&i!=j){ int id=a.rec; *a.s=h(b); if(id>=0){ drop(id); CHK(C08|C03,!rec[id].probe.connected(),"assigning to a scoped_connection did not disconnect the old one"); } a.rec=b.rec; } break;
    case 9: if(a.c&&has(b)&&i!=j){ *a.c=std::move(h(b)); a.rec=b.rec; b.rec=-1; } break;
    case 10: if(a.s&&has(b)&&i!=j){ int id=a.rec,nb=b.rec; if(b.s) *a.s=std::move(*b.s); else *a.s=std::move(*b.c); if(id>=0) drop(id); a.rec=nb; b.rec=-1; if(id>=0) CHK(C08|C03,!rec[id].probe.connected(),"move assignment to a scoped_connection did not disconnect the old one"); } break;
    case 11: if(a.s){ int id=a.rec; s2::connection c=a.s->release(); a.rec=-1; check_handle(c,id); if(id>=0) CHK(C08,c==rec[id].probe||!active(id),"release() returned another connection"); } break;
    case 12: if(a.c&&b.c&&i!=j){ if(pr(50)) a.c->swap(*b.c); else swap(*a.c,*b.c); std::swap(a.rec,b.rec); } break;
    case 13: if(a.s&&b.s&&i!=j){ if(pr(50)) a.s->swap(*b.s); else swap(*a.s,*b.s); std::swap(a.rec,b.rec); } break;
    case 14: if(has(a)){ int id=a.rec; h(a).disconnect(); if(id>=0){ drop(id); CHK(C03|C08,!h(a).connected(),"connected() after disconnect()"); check_released(id);} } break;
    case 15: if(a.s&&b.c&&i!=j){ s2::connection&ac=*a.s; ac.swap(*b.c); std::swap(a.rec,b.rec); } break;
    }
    for(Conn*x:{&a,&b}) if(has(*x)) check_handle(h(*x),x->rec);
    if(has(a)&&has(b)){ int x=a.rec,y=b.rec; bool ax=x>=0&&active(x),ay=y>=0&&active(y); if(ax||ay){ CHK(C08,(h(a)==h(b))==(x==y),"== of two handles is wrong"); CHK(C08,(h(a)!=h(b))==(x!=y),"!= of two handles is wrong"); CHK(C08,((h(a)<h(b))||(h(b)<h(a)))==(x!=y),"< of two handles is wrong"); } }
    for(Conn&x:con) if(has(x)&&x.rec>=0&&pr(20)) check_handle(h(x),x.rec); }
  void op_setcomb(int s){ if(null[s]) return; bool armed=cfg.alloc&&pr(50); int c=nextcomb++; logop(std::string(depth*2,' ')+"set_combiner "+std::to_string(c)); Comb cc(c); arm(armed); try{ sig[s]->set_combiner(cc); disarm(); comb[s]=c; } catch(std::bad_alloc&){ disarm(); check_state(s);} catch(CopyFail&){ disarm(); check_state(s);} NoFail nf; CHK(C06|C16,sig[s]->combiner().cid==comb[s],"combiner() is not the one installed last"); }
  void op_move(){ int i=picksig(),j=picksig(); if(depth) return; Closing cl(closing); int k=rn(5); char t[80]; snprintf(t,80,"signal move op %d: %d %d",k,i,j); logop(t);
    auto sw=[&](int a,int b){ std::swap(order[a],order[b]); std::swap(comb[a],comb[b]); std::swap(cmp[a],cmp[b]); bool n=null[a]; null[a]=null[b]; null[b]=n; for(Rec&r:rec){ if(r.sig==a) r.sig=b; else if(r.sig==b) r.sig=a; } };
    if(k==0&&i!=j){ std::vector<int> lost=order[i]; *sig[i]=std::move(*sig[j]); for(int id:lost){ drop(id); } order[i].clear(); for(Rec&r:rec) if(r.sig==i) r.sig=-1; sw(i,j); order[j].clear(); null[j]=true; for(int id:lost){ CHK(C17|C03,!rec[id].probe.connected(),"a slot of an overwritten signal is still connected"); check_released2(id);} }
    else if(k==1&&i!=j){ if(pr(50)) sig[i]->swap(*sig[j]); else { using std::swap; swap(*sig[i],*sig[j]); } sw(i,j); }
    else if(k==2){ std::unique_ptr<Sig> n(new Sig(std::move(*sig[i]))); CHK(C17,sig[i]->num_slots()==0&&sig[i]->empty(),"a moved-from signal has slots"); Sig&old=*sig[i]; old.disconnect_all_slots(); old.disconnect(Grp(1)); { F f(1000001,1); old.disconnect(f); } live.erase(1000001); sig[i].reset(n.release()); }
    else if(k==3){ Sig&a=*sig[i]; Sig&b=a; a=std::move(b); }
    else if(k==4&&null[i]){ sig[i].reset(new Sig(Comb(nextcomb),GrpCmp(cmp[i]))); comb[i]=nextcomb++; null[i]=false; }
    for(int s:{i,j}){ check_state(s); if(!null[s]){ for(int id:std::vector<int>(order[s])) check_handle(rec[id].probe,id); op_invoke(s,true);} } }
  void check_released2(int id){ CHK(C17|C12|C03,live[id]==0,"the slots of an overwritten or destroyed signal are not released"); }
  void op_destroy(int s){ if(depth||sig.size()<1) return; Closing cl(closing); logop("destroy signal "+std::to_string(s)); std::vector<int> o=order[s]; sig[s].reset(); for(int id:o) drop(id); for(Rec&r:rec) if(r.sig==s) r.sig=-1; for(int id:o){ CHK(C03|C17|C08,!rec[id].probe.connected(),"a handle is connected after the signal was destroyed"); CHK(C03|C04,rec[id].probe.blocked(),"a handle is not blocked after the signal was destroyed"); rec[id].probe.disconnect(); check_released2(id);} comb[s]=nextcomb; null[s]=false; cmp[s]=rn(3); sig[s].reset(new Sig(Comb(nextcomb++),GrpCmp(cmp[s]))); }
  void op_slot_direct(){ if(dead) return; int o=pick_obj(); int id=rec.size(); Rec r; r.id=id; r.sig=-1; r.act=false; r.bobj=-1; r.blockers=0; r.objs={o}; r.ext=false; r.running=0; r.front=2; r.key=0; rec.push_back(r);
    Slot sl((F(id,0))); track(sl,rec[id]); Slot other((F(id,0))); other.track(sl); bool use=pr(50); Slot&x=use?other:sl;
    bool exp=pr(50); if(exp){ obj[o]->p.reset(); obj[o]->fp.reset(); } bool g=obj[o]->gone; logop("direct slot call"); CHK(C05,x.expired()==g,"slot.expired() is wrong");
    Arg a{77}; Frame f; f.sig=-1; f.arg=&a; f.x=5; f.expect=id; f.pos=1; f.calls=0; f.comb=-1; f.entered=true; f.cmode=0; f.stop=-1; f.throw_id=-1; fr.push_back(&f); ++depth; bool threw=false; int calls0=f.calls;
    try { if(pr(50)) x(a,5); else { const Slot&y=x; y(a,5); } } catch(s2::expired_slot&){ threw=true; } catch(Ex&){ }
    --depth; fr.pop_back(); CHK(C05,threw==g||(f.calls>calls0&&f.throw_id==-2),"calling a slot object whose tracked object is gone does not throw expired_slot"); if(g) CHK(C05,f.calls==calls0,"the function of an expired slot object was run");
    bool th2=false; try { Slot::locked_container_type l=x.lock(); } catch(s2::expired_slot&){ th2=true; } CHK(C05,th2==obj[o]->gone||obj_in_use(o),"slot.lock() is wrong"); }
  // ---- invocation
  size_t next(Frame&f){ while(f.pos<f.order.size()){ int id=f.order[f.pos]; if(callable(id)) return f.pos; if(rec[id].act&&gone(rec[id])) drop(id); ++f.pos; } return f.pos; }
  void op_invoke(int s,bool plain=false){ if(null[s]||dead) return; Frame f; f.sig=s; f.order=order[s]; f.pos=0; f.comb=comb[s]; f.expect=-1; f.calls=0; Arg a{rn(1000)}; f.arg=&a; f.x=rn(1000); f.entered=false; f.throw_id=-1;
    f.cmode=plain||!cfg.comb_modes?0:rn(6); f.stop=rn(5); if(cfg.pexp&&f.cmode==0&&pr(50)) f.cmode=4; bool quiet=plain; logop(std::string(depth*2,' ')+"invoke sig"+std::to_string(s)+" mode "+std::to_string(f.cmode)+" "+str());
    fr.push_back(&f); ++depth; int savenest=cfg.pnest; if(quiet) cfg.pnest=0; int savethrow=cfg.pthrow; if(quiet) cfg.pthrow=0; int savee=cfg.pexp; if(quiet) cfg.pexp=0; bool threw=false; int thrown=-1; Res r; int kind=0;
    try { if(pr(50)) r=(*sig[s])(a,f.x); else { const Sig&cs=*sig[s]; r=cs(a,f.x); } } catch(Ex&e){ threw=true; thrown=e.id; kind=1; } catch(s2::expired_slot&){ threw=true; kind=2; }
    cfg.pnest=savenest; cfg.pthrow=savethrow; cfg.pexp=savee; --depth; fr.pop_back();
    if(dead) return;
    CHK(C10,held==0,"a mutex is held when the invocation has ended"); CHK(C02|C06,f.entered,"the combiner was not run");
    if(threw){ CHK(C16,f.throw_id!=-1,"an invocation throws although no slot did"); if(kind==1) CHK(C16,f.throw_id==-3||thrown==f.throw_id,"another exception left the invocation"); if(kind==2) CHK(C16,f.throw_id==-2,"expired_slot left the invocation although no slot threw it"); }
    else { CHK(C16,f.throw_id==-1||f.cmode==4,"the exception of a slot did not leave the invocation"); CHK(C02|C06,r.comb==f.comb,"the result is not that of the combiner in use"); CHK(C02|C15,r.v==f.exp_res,"the result of the invocation is not what the combiner returned"); }
    f.expect=-1; for(int id:f.order) check_released(id); }
  int slot_called(int id,const s2::connection*c,Arg&a,int x){ ++ncalls; if(dead) return 0; CHK(C10,held==0,"a slot runs while the library holds a mutex");
    if(fr.empty()||id>=(int)rec.size()) { CHK(ANY,false,"unexpected slot call"); return 0; } Frame&f=*fr.back(); Rec&r=rec[id];
    if(tracing) trace.push_back(id); 
    if(f.expect!=id&&hook==nullptr){ Mask m=C02; const char*w="a slot was called that is not the next one";
      if(f.sig!=r.sig&&r.sig!=-1){ m=C02|C17|C06; w="a slot of another signal was called"; }
      else if(!r.act){ m=C03|C02|C07; w="a disconnected slot was called"; } else if(gone(r)){ m=C05; w="a slot was called although a tracked object is gone"; } else if(r.blockers){ m=C04|C02; w="a blocked slot was called"; }
      else { size_t i=0; for(;i<f.order.size()&&f.order[i]!=id;++i); if(i==f.order.size()){ m=C06|C02; w="a slot connected during the invocation was called"; } else if(i<f.pos){ m=C01|C02|C06|C16; w="a slot was called again or out of order"; } else if(f.expect>=0){ m=C01|C02|C06|C04|C16|C17|C07|C03|C05; w="an active slot was skipped or slots are out of order"; } }
      CHK(m,false,w); return 0; }
    ++f.calls; CHK(C02|C15,&a==f.arg&&x==f.x,"the slot does not receive the arguments of the invocation"); CHK(C02|(r.ext?C15:0),r.ext==(c!=nullptr),"wrong signature");
    if(!hook&&f.cmode==2) CHK(C02,f.calls<=1||true,"");
    CHK(C12,live[id]>=1,"the function object of a running slot does not exist"); for(int o:r.objs) CHK(C05,!obj[o]->gone,"a slot runs although a tracked object is gone");
    ++r.running;
    if(c){ if(!hook) CHK(C15,c->connected(),"the connection passed to an extended slot is not connected"); if(r.sig>=0&&!hook) CHK(C15,*c==r.probe,"the connection passed to an extended slot is not its own"); if(!hook&&cfg.ext&&pr(15)){ logop("self disconnect through own connection #"+std::to_string(id)); c->disconnect(); drop(id); CHK(C15|C03,!r.probe.connected(),"disconnecting through the connection of an extended slot did not disconnect it"); check_state(rec[id].sig<0?0:rec[id].sig);} }
    int res=id*10+7; bool thr=false,ex=false;
    if(hook) hook(id);
    else { if(depth<=cfg.depth&&pr(cfg.pnest)){ int n=1+rn(2); for(int i=0;i<n&&!dead;++i) step(); } }
    Frame&g=*fr.back(); if(dead) return 0;
    CHK(C12,live[id]>=1,"the function object of a slot was destroyed while it was running"); for(int o:rec[id].objs) CHK(C05,!obj[o]->gone,"a tracked object was destroyed while the slot was running");
    --rec[id].running;
    if(cfg.pthrow&&pr(cfg.pthrow)) thr=true; else if(cfg.pexp&&pr(cfg.pexp)) ex=true;
    if(thr){ logop("slot #"+std::to_string(id)+" throws"); g.throw_id=id; throw Ex{id}; }
    if(ex){ logop("slot #"+std::to_string(id)+" throws expired_slot"); g.throw_id=-2; if(rec[id].sig>=0) drop(id); boost::throw_exception(s2::expired_slot()); }
    return res; }
  template<class It> Res combine(int cid,It first,It last){ Res r; r.comb=cid; CHK(C10,held==0,"a combiner runs while the library holds a mutex"); if(fr.empty()||dead) { return r; } Frame&f=*fr.back(); f.entered=true; CHK(C06,cid==f.comb||hook!=nullptr,"the combiner is not the one installed when the invocation started");
    if(hook){ for(;first!=last;++first) r.v.push_back(*first); return r; }
    const Mask MISS=C02|C03|C04|C05|C06|C07|C16|C17|C12|C01|C15; int n=0;
    for(;;){ size_t p=next(f); bool more=p<f.order.size(); bool lm=first!=last; CHK(C02,lm==!(first==last),"== and != of slot call iterators disagree"); if(dead) return r;
      if(more!=lm){ if(more){ printf("missing #%d\n",f.order[p]); } CHK(more?MISS:(C02|C03|C04|C05|C06|C07),false,more?"an active slot is not called by an invocation":"an invocation visits a slot that should not be called"); return r; }
      if(!more) break; int id=f.order[p]; f.expect=id; int c0=f.calls; if(f.cmode==1&&n>=f.stop) return r;
      if(f.cmode==3&&rn(2)){ /* not dereferenced: not called */ }
      else if(f.cmode==4){ try { int v=*first; r.v.push_back(v); f.exp_res.push_back(id*10+7); } catch(Ex&){ f.throw_id=-1; } catch(s2::expired_slot&){ if(f.throw_id==-2) f.throw_id=-1; CHK(C16,rec[id].sig<0||!rec[id].probe.connected(),"a slot that threw expired_slot is still connected"); } }
      else { bool cp=f.cmode==2; if(cp){ It c(first); int v=*c; int w=*first; int z=*c; It d(c); CHK(C02,d==first&&!(d!=first),"copies of an iterator differ"); int u=*d; CHK(C02,v==id*10+7&&w==v&&z==v&&u==v,"dereferencing again yields another value"); r.v.push_back(u);} else { int v=*first; CHK(C02|C15,v==id*10+7,"dereferencing does not yield the result of the slot"); r.v.push_back(v);} f.exp_res.push_back(id*10+7); CHK(C02,f.calls==c0+1,"a slot was not called exactly once for one position"); }
      if(f.cmode==3&&f.calls==c0) {} if(dead) return r; ++n; f.pos=p+1; int was=id; if(rec[was].act==false||true){ } 
      if(f.cmode==5&&pr(50)){ f.expect=-1; first++; } else { f.expect=-1; ++first; } for(int o=0;o<1;++o) if(!inuse(was)&&!rec[was].act) check_released(was); }
    CHK(C02,f.pos>=f.order.size(),"end"); return r; }
  void functor_dtor(int id){ if(dead) return; if(id<1000000) { CHK(C10,held==0||live[id]>0,"the function object of a slot is destroyed while the library holds a mutex"); if(held==0&&!sig.empty()&&live[id]==0&&!fail_fired&&sig[0]&&!in_dtor&&!hook&&!closing){ in_dtor=true; (void)sig[0]->null(); if(sig[0]&&!null[0]) (void)sig[0]->combiner(); in_dtor=false; } } }
  bool in_dtor=false; int closing=0;
  void step(){ if(dead) return; ++nops; int s=picksig(); int k=rn(100); NoFail *nf=nullptr; (void)nf;
    if(k<26) op_connect(s); else if(k<36) op_disc(pickrec()); else if(k<40&&cfg.groups) op_disc_group(s); else if(k<43&&cfg.discfn) op_disc_fn(s); else if(k<44&&cfg.discall) op_disc_all(s);
    else if(k<62) { if(depth<cfg.depth) op_invoke(s); } else if(k<70&&cfg.block) op_block(); else if(k<76&&cfg.track) { if(pr(75)) op_expire(); else if(depth<cfg.depth) op_slot_direct(); } else if(k<86&&cfg.handles) op_handle(); else if(k<90&&cfg.setcomb) op_setcomb(s); else if(k<93&&cfg.moves) op_move(); else if(k<94&&cfg.destroy) op_destroy(s); else if(cfg.query) op_query(s);
    if(!dead&&depth==0) CHK(C10,held==0,"a mutex is held after an operation"); }
};
static int slot_entry(int id,const s2::connection *c,Arg &a,int x){ return W?W->slot_called(id,c,a,x):0; }
static void functor_gone(int id){ if(W) W->functor_dtor(id); }
Obj::~Obj(){ *gone=true; if(W&&!dead){ CHK(C10,held==0,"a tracked object is destroyed while the library holds a mutex"); if(held==0&&!W->sig.empty()&&W->sig[0]&&!W->null[0]&&!W->hook&&!W->closing) (void)W->sig[0]->combiner(); } }
template<class It> Res Comb::operator()(It f,It l) const { return W?W->combine(cid,f,l):Res(); }
