#include "world.hpp"
// usage: sig_h SEED PROPERTY HISTORIES LENGTH
static Cfg cfg_for(int p){ Cfg c; switch(p){
  case 1: c.block=pr(30); c.track=pr(30); break;
  case 2: c.comb_modes=true; c.pthrow=pr(50)?8:0; c.block=pr(50); c.track=pr(30); break;
  case 3: c.nsig=2; c.destroy=true; c.handles=pr(50); c.block=pr(30); break;
  case 4: c.block=true; c.handles=pr(30); c.destroy=pr(50); break;
  case 5: c.track=true; c.block=pr(20); c.pthrow=pr(30)?5:0; break;
  case 6: c.setcomb=true; c.pnest=70; c.track=pr(40); break;
  case 7: c.track=pr(50); c.ext=pr(50); c.block=pr(30); break;
  case 8: c.handles=true; c.nsig=2; c.block=pr(30); c.track=pr(20); break;
  case 10: c.track=true; c.ext=pr(50); c.block=true; c.setcomb=true; c.handles=true; c.comb_modes=true; break;
  case 12: c.pthrow=10; c.comb_modes=true; c.ext=pr(50); c.track=pr(50); c.block=pr(30); break;
  case 15: c.ext=true; c.track=pr(40); c.block=pr(40); break;
  case 16: c.alloc=pr(70); c.pthrow=15; c.pexp=10; c.setcomb=pr(50); c.ext=pr(40); c.track=pr(30); break;
  case 17: c.nsig=3; c.moves=true; c.handles=pr(40); c.block=pr(30); c.ext=pr(30); c.track=pr(30); break; }
  if(pr(20)) c.maxslots=40; if(pr(20)) c.pnest=0; return c; }
static void watchdog(int){ const char m[]="STOP watchdog\n"; (void)!write(1,m,sizeof m-1); _exit(4); }
static void growth(){ // repeated connects and disconnects do not make the bookkeeping grow
  for(int variant=0;variant<6;++variant){ Cfg c; World w(c); W=&w; NoFail nf; w.hook=[](int){}; Sig&s=*w.sig[0]; std::vector<s2::connection> keep; int keepn=variant*3; for(int i=0;i<keepn;++i) keep.push_back(s.connect(Grp(i%3),F(1000000,9)));
    long base=live_allocs; long worst=0; std::unique_ptr<int> tr; for(int i=0;i<3000;++i){ s2::connection k; switch(variant){ case 0: k=s.connect(F(1000001,1)); k.disconnect(); break; case 1: k=s.connect(Grp(i%5),F(1000001,1)); k.disconnect(); break; case 2: s.connect(Grp(i%5),F(1000001,1),s2::at_front); s.disconnect(Grp(i%5)); if(i%5<3) for(int j=i%5;j<keepn;j+=3) keep[j]=s.connect(Grp(j%3),F(1000000,9)); break;
        case 3: { boost::shared_ptr<int> t(new int(1)); s.connect(Slot(F(1000001,1)).track(t)); } break; case 4: k=s.connect(F(1000001,1),s2::at_front); s.disconnect(F(1000003,1)); break; default: k=s.connect_extended(XSlot(F(1000001,1))); k.disconnect(); }
      if(live_allocs-base>worst) worst=live_allocs-base; }
    if(worst>1500){ printf("variant %d: %ld live allocations after 3000 connects and disconnects\n",variant,worst); CHK(C12|C07,false,"repeated connects and disconnects make the bookkeeping grow without bound"); }
    // invocations only
    W=nullptr; }
  // disconnected slots are removed by invocations as well, also while an invocation of the same signal keeps a copy of the list
  { Cfg c; World w(c); NoFail nf; w.hook=[](int){}; Sig&s=*w.sig[0]; W=nullptr; long base=live_allocs; Arg a{0}; std::vector<s2::connection> v; for(int i=0;i<400;++i) v.push_back(s.connect(F(1000001,1))); for(auto&k:v) k.disconnect(); v.clear(); for(int i=0;i<800;++i){ s2::connection k=s.connect(F(1000001,1)); k.disconnect(); } long g=live_allocs-base; if(g>200){ printf("%ld live allocations\n",g); CHK(C12|C07,false,"disconnected slots are not cleaned up by later connects"); } }
}
// the same function connected as plain slot, extended slot and signal; disconnected by equality (C07), signals as slots (C05)
static void sigslots(){ for(int t=0;t<60;++t){ World w{Cfg()}; W=nullptr; NoFail nf; Sig a{Comb(1),GrpCmp(0)}; std::unique_ptr<Sig> b(new Sig(Comb(2),GrpCmp(0))), d(new Sig(Comb(3),GrpCmp(0)));
    typedef s2::signal<void(int)> VS; static int hits; struct L{ static void f(int){ ++hits; } static void g(int){ hits+=100; } }; VS x; std::unique_ptr<VS> y(new VS), z(new VS); y->connect(&L::f); z->connect(&L::g); s2::connection cy=x.connect(*y), cz=x.connect(*z), cf=x.connect(&L::f);
    hits=0; x(1); CHK(C05|C02,hits==102,"a signal used as slot is not called"); 
    int k=t%4; if(k==0){ x.disconnect(*y); CHK(C07,!cy.connected()&&cz.connected()&&cf.connected(),"disconnecting a signal used as slot"); hits=0; x(1); CHK(C07,hits==101,"disconnecting a signal used as slot"); }
    else if(k==1){ y.reset(); CHK(C05|C07,!cy.connected()&&cz.connected()&&x.num_slots()==2,"a destroyed signal used as slot is still connected"); hits=0; x(1); CHK(C05,hits==101,"a destroyed signal used as slot"); }
    else if(k==2){ x.disconnect(&L::f); CHK(C07,cy.connected()&&cz.connected()&&!cf.connected(),"disconnecting a function pointer"); x.disconnect(&L::g); CHK(C07,cy.connected()&&cz.connected(),"disconnecting a function that is not connected"); x.disconnect(*z); CHK(C07,!cz.connected()&&cy.connected(),"disconnecting a signal"); }
    else { VS q; s2::slot<void(int)> sl(&L::f); sl.track(*z); s2::connection c=q.connect(sl); s2::slot<void(int)> sl2(&L::g); sl2.track(sl); s2::connection c2=q.connect(sl2); hits=0; q(1); CHK(C05,hits==101,"tracked signal"); z.reset(); hits=0; q(1); CHK(C05,hits==0&&!c.connected()&&!c2.connected(),"a slot runs although a tracked signal is gone"); } } 
  { // trackable base, copies do not track the original
    struct T: s2::trackable { int n; T():n(0){} void f(int){ ++n; } }; s2::signal<void(int)> s; std::unique_ptr<T> a(new T); s2::connection c=s.connect(boost::bind(&T::f,a.get(),boost::placeholders::_1)); s(1); CHK(C05|C02,a->n==1,"trackable slot not called"); T b(*a); a.reset(); CHK(C05,!c.connected(),"slot of a destroyed trackable is connected"); s(1); s2::connection c2=s.connect(boost::bind(&T::f,boost::ref(b),boost::placeholders::_1)); s(1); CHK(C05|C02,b.n==2,"trackable slot not called"); T d; d=b; { T e; e=d; } s(1); CHK(C05,c2.connected()&&b.n==3,"copying a trackable disconnects"); } }
// every allocation an operation makes fails in turn, while other code gives up the tracked objects; the signal must stay usable and keep
// the slots it had, and nothing may be destroyed while the mutex is held
struct Quiet { int d; Quiet(){ ++hits_; } Quiet(const Quiet&){ ++hits_; } ~Quiet(){ CHK(C10,held==0,"a slot function is destroyed while the mutex is held"); } void operator()() const {} static int hits_; }; int Quiet::hits_=0;
static bool elsewhere=false;   // stands for another thread
struct Kept { ~Kept(){ CHK(C10,held==0||elsewhere,"a tracked object is destroyed while the mutex is held"); } };
static std::vector<boost::shared_ptr<Kept> > owners;
static void oom(){ typedef s2::signal<void(),s2::optional_last_value<void>,int,std::less<int>,boost::function<void()>,boost::function<void(const s2::connection&)>,HMutex> VS; static int hits;
  for(int expired:{0,1,3,9,11,12,25}) for(int many:{1,11,14}) for(int late=0;late<2;++late) for(int shared=0;shared<2;++shared) for(int op=0;op<8;++op) for(int n=0;n<400;++n){ if((many>1)!=(expired==3||expired==11)) break;
    ctx="allocation "+std::to_string(n)+" fails in operation "+std::to_string(op)+" with "+std::to_string(expired)+" slots tracking "+std::to_string(many)+" objects"+(late?" given up at that moment":"")+(shared?", during an invocation":"");
    bool fired=false,threw=false; std::vector<s2::connection> made; int got=0;
    { NoFail outer; std::unique_ptr<VS> s(new VS); owners.clear(); bool armed=true; std::vector<s2::connection> keep,gone; s2::connection fresh_;
      auto act=[&]{ if(!armed) return; armed=false; if(late) fail_hook=[]{ NoFail nf; elsewhere=true; owners.clear(); elsewhere=false; }; else owners.clear(); --no_fail; fail_fired=false; fail_at=n;
        try { switch(op){ case 0: fresh_=s->connect([]{ ++hits; }); break; case 1: fresh_=s->connect(3,[]{ ++hits; },s2::at_front); break; case 2: fresh_=s->connect_extended([](const s2::connection&){ ++hits; }); break;
          case 3: s->set_combiner(VS::combiner_type()); break; case 4: (*s)(); break; case 5: for(int i=0;i<6;++i) (void)s->num_slots(); break; case 6: if(!gone.empty()) (void)gone[0].connected(); break;
          case 7: for(auto&k:gone) k.disconnect(); break; } } catch(std::bad_alloc&){ threw=true; }
        fired=fail_fired; fail_at=-1; fail_hook=nullptr; ++no_fail; owners.clear(); };
      if(shared) s->connect([&]{ act(); });
      for(int i=0;i<expired;++i){ VS::slot_type sl((Quiet())); for(int j=0;j<many;++j){ owners.push_back(boost::shared_ptr<Kept>(new Kept)); sl.track(owners.back()); } gone.push_back(s->connect(sl)); if(i%4==1) keep.push_back(s->connect(i%3,[]{ ++hits; })); }
      keep.push_back(s->connect([]{ ++hits; }));
      if(shared) (*s)(); else act();
      got=fresh_.connected(); CHK(C16,!(threw&&got),"an operation that threw has connected a slot"); if(op<3&&!threw) CHK(C16,got,"connect did not connect");
      for(auto&k:keep) CHK(C16,k.connected(),"a failed allocation disconnected a slot");
      for(int k=0;k<3;++k){ hits=0; (*s)(); CHK(C16|C02,hits==(int)keep.size()+got+k,"after a failed allocation the wrong slots are called"); made.push_back(s->connect([]{ ++hits; })); }
      CHK(C16,s->num_slots()==keep.size()+got+3+shared,"num_slots after a failed allocation"); s.reset(); for(auto&k:made) CHK(C16|C03,!k.connected(),"connected after the signal is gone"); }
    CHK(C16,fired||!threw,"bad_alloc without a failing allocation"); if(!fired) break; } }
// pairs of operations, the second one injected at every point where the library locks or unlocks: the outcome must be that of some serial order
struct Outcome { std::vector<int> calls; std::vector<std::vector<int>> fin; std::vector<int> flags; std::string exc; bool operator==(const Outcome&o) const { return calls==o.calls&&fin==o.fin&&flags==o.flags&&exc==o.exc; } };
static Outcome run_pair(unsigned seed,Cfg cfg,int opa,int opb,int where,long point,bool *hit){ // where: 0 B;A  1 A;B  2 injected at a lock point  3 in slot call j (start) 4 in slot call j (end)
  rs=seed; live.clear(); oplog.clear(); World w(cfg); Outcome o; w.cfg.pnest=0; w.cfg.pthrow=0; w.cfg.pexp=0; int n=4+rn(6); for(int i=0;i<n;++i){ w.op_connect(0); if(pr(15)) w.op_disc(w.pickrec()); if(cfg.block&&pr(25)) w.op_block(); if(cfg.track&&pr(10)) w.op_expire(); }
  if(pr(50)) w.op_invoke(0,true); unsigned sa=rnd(),sb=rnd(),sc=rnd(); NoFail nf; int nrec=w.rec.size(); w.hook=[](int){}; int shared=w.pickrec(); bool sh=pr(50);
  std::map<int,s2::connection> pc; std::vector<s2::connection> made(2); std::vector<int> madeid(2,-1);
  // operations draw their parameters from their own generator, so that they do not depend on the order of execution
  struct P{ int kind; int rec; int key; int grp; bool front; int obj; int comb; bool grouped; bool ext; bool trk; }; auto mk=[&](int kind,unsigned s){ unsigned save=rs; rs=s|1; for(int i=0;i<5;++i) rnd(); P p; p.kind=kind; p.rec=(sh&&shared>=0)?shared:(nrec?rn(nrec):-1); p.key=rn(4); p.grp=rn(5); p.front=pr(30); p.grouped=pr(60); p.obj=w.obj.empty()?-1:rn(w.obj.size()); p.comb=1000+rn(1000); p.ext=pr(30); p.trk=pr(40); rs=save; return p; };
  P A=mk(opa,sa),B=mk(opb,sb); std::unique_ptr<s2::shared_connection_block> bl[2]; size_t qa[2]={0,0}; bool qb[2]={false,false};
  std::vector<Frame*> dummy; Arg a{5}; bool inv=false;
  auto exec=[&](const P&p,int which){ Sig&s=*w.sig[0]; switch(p.kind){
    case 0: { int id=200+which; madeid[which]=id; while((int)w.rec.size()<=id){ Rec r; r.id=w.rec.size(); r.sig=0; r.act=true; r.blockers=0; r.bobj=-1; r.ext=false; r.front=2; r.grp=-1; r.key=0; r.running=0; r.noticed=false; w.rec.push_back(r);} w.rec[id].ext=p.ext; if(p.ext){ XSlot sl((F(id,p.key))); if(p.trk&&p.obj>=0) { w.track(sl,w.rec[id]); } made[which]=p.grouped?s.connect_extended(Grp(p.grp),sl,p.front?s2::at_front:s2::at_back):s.connect_extended(sl,p.front?s2::at_front:s2::at_back); } else { Slot sl((F(id,p.key))); made[which]=p.grouped?s.connect(Grp(p.grp),sl,p.front?s2::at_front:s2::at_back):s.connect(sl,p.front?s2::at_front:s2::at_back); } } break;
    case 1: if(p.rec>=0) w.rec[p.rec].probe.disconnect(); break; case 2: s.disconnect(Grp(p.grp)); break; case 3: { F f(1000000,p.key); s.disconnect(f); } break; case 4: s.disconnect_all_slots(); break;
    case 5: { inv=true; Frame f; f.sig=0; f.arg=&a; f.x=9; f.pos=0; f.comb=-1; f.expect=-1; f.calls=0; f.cmode=0; f.entered=false; f.stop=0; f.throw_id=-1; w.fr.push_back(&f); w.tracing=true; try { Res r=s(a,9); o.flags.push_back(-r.comb); } catch(...) { o.exc="threw"; } w.tracing=false; w.fr.pop_back(); } break;
    case 6: if(p.rec>=0) bl[which].reset(new s2::shared_connection_block(w.rec[p.rec].probe)); break;
    case 7: if(p.obj>=0){ w.obj[p.obj]->p.reset(); w.obj[p.obj]->fp.reset(); } break;
    case 8: qa[which]=s.num_slots(); break; case 9: qb[which]=p.rec>=0&&w.rec[p.rec].probe.connected(); break; case 10: s.set_combiner(Comb(p.comb)); break; case 11: qb[which]=s.empty(); break; case 12: qb[which]=p.rec>=0&&w.rec[p.rec].probe.blocked(); break; } };
  int callno=0; *hit=false; CHK(C10,held==0,"held");
  if(where==0){ exec(B,1); exec(A,0); *hit=true; } else if(where==1){ exec(A,0); exec(B,1); *hit=true; }
  else if(where==2){ lock_points=0; inject_at=point; injected=false; inject=[&]{ bool t=w.tracing; w.tracing=false; exec(B,1); w.tracing=t; }; exec(A,0); *hit=injected; inject_at=-1; inject=nullptr; }
  else { w.hook=[&](int){ int k=callno++; if(k==point&&B.kind!=5){ *hit=true; exec(B,1);} }; exec(A,0); w.hook=[](int){}; }
  CHK(C10,held==0,"a mutex is held after the operations");
  // these operations visit several slots one after the other, so a count taken meanwhile may be in between
  if((opb==8&&(opa==2||opa==3||opa==4))||(opa==8&&(opb==2||opb==3||opb==4||opb==7))) qa[0]=qa[1]=0;
  o.calls=w.trace; for(int i=0;i<2;++i){ o.flags.push_back(qa[i]); o.flags.push_back(qb[i]); }
  // final state
  for(int i=0;i<2;++i){ o.flags.push_back(made[i].connected()); o.flags.push_back(made[i].blocked()); }
  for(int i=0;i<nrec;++i){ o.flags.push_back(w.rec[i].probe.connected()); o.flags.push_back(w.rec[i].probe.blocked()); }
  o.flags.push_back(w.sig[0]->num_slots()); o.flags.push_back(w.sig[0]->combiner().cid); for(int i=0;i<nrec;++i) o.flags.push_back(live[i]); for(int i=0;i<2;++i) if(madeid[i]>=0) o.flags.push_back(live[madeid[i]]); for(auto&t:w.obj) o.flags.push_back(t->gone);
  { w.trace.clear(); w.tracing=true; Frame f; f.sig=0; f.arg=&a; f.x=9; f.pos=0; f.comb=-1; f.expect=-1; f.calls=0; f.cmode=0; f.entered=false; f.stop=0; f.throw_id=-1; w.fr.push_back(&f); try { (*w.sig[0])(a,9); } catch(...) {} w.fr.pop_back(); o.fin.push_back(w.trace); }
  w.hook=nullptr; w.rec.resize(nrec); for(auto&r:w.rec) r.act=false; { for(int i=0;i<2;++i) bl[i].reset(); }
  dead=dead; return o; }
static std::string show(const Outcome&o){ std::string s="calls:"; for(int c:o.calls) s+=" "+std::to_string(c); s+=" | then:"; for(int c:o.fin.empty()?std::vector<int>():o.fin[0]) s+=" "+std::to_string(c); s+=" | state:"; for(int c:o.flags) s+=" "+std::to_string(c); return s+" "+o.exc; }
// which pairs of operations exercise a property
static bool relevant(int p,int a,int b){ auto any=[&](unsigned m){ return (m>>a&1)||(m>>b&1); }; switch(p){ case 2: return a==5; case 3: return any(2)&&any(1u<<5|1u<<9|1u<<4|1u<<8); case 4: return any(1u<<6|1u<<12); case 5: return any(1u<<7);
  case 6: return a==5&&(b==0||b==10||b==1||b==2||b==4); case 7: return any(1u<<2|1u<<3|1u<<4|1u<<8|1u<<11); case 12: return a==5&&b>=1&&b<=4; default: return true; } }
static void pairs(int prop,unsigned seed,int rounds){ static const char*names[]={"connect","disconnect","disconnect(group)","disconnect(function)","disconnect_all_slots","invoke","block","release tracked object","num_slots","connected","set_combiner","empty","blocked"};
  unsigned q=seed*7919u+prop; for(int t=0;t<rounds;++t){ q=q*1664525u+1013904223u; rs=(q>>4)|1; for(int i=0;i<4;++i) rnd(); int a,b; for(int k=0;k<500;++k){ a=rn(13); b=rn(13); if(pr(50)) a=5; if(b==5) b=rn(5); if(relevant(prop,a,b)) break; } unsigned s=rnd()|1; Cfg c; c.block=pr(50); c.track=pr(60); c.ext=pr(30); c.discfn=true; bool hit; dead=false;
    ctx=std::string(names[a])+" with "+names[b]+" at a lock point, seed "+std::to_string(s);
    std::vector<Outcome> ok; ok.push_back(run_pair(s,c,a,b,0,0,&hit)); ok.push_back(run_pair(s,c,a,b,1,0,&hit));
    if(a==5) for(int j=0;j<40;++j){ Outcome o=run_pair(s,c,a,b,3,j,&hit); if(!hit) break; ok.push_back(o); }
    for(long p=0;p<400;++p){ Outcome o=run_pair(s,c,a,b,2,p,&hit); if(!hit||dead) break; bool f=false; for(auto&x:ok) if(x==o) f=true; nchecks++; 
      if(!f&&!dead){ printf("point %ld:  %s\n",p,show(o).c_str()); for(auto&x:ok) printf("  serial:  %s\n",show(x).c_str()); CHK(ANY,false,"an operation interleaved at a lock point has an outcome no serial order has"); } } } }
int main(int argc,char**argv){ unsigned seed=atoi(argv[1]); int p=atoi(argv[2]); int hist=atoi(argv[3]),len=atoi(argv[4]); int prs=argc>5?atoi(argv[5]):0; if(p) want=1u<<p; signal(SIGALRM,watchdog); alarm(argc>6?atoi(argv[6]):150);
  if(!p||p==12||p==7){ ctx="growth"; oplog.clear(); growth(); } if(!p||p==16||p==10){ oplog.clear(); oom(); }
  if(!p||p==5||p==7||p==2){ ctx="signals as slots"; oplog.clear(); sigslots(); }
  for(int h=0;h<hist;++h){ rs=(seed*1000003u+h*7919u+p*31u)|1; for(int i=0;i<8;++i) rnd(); dead=false; live.clear(); oplog.clear(); ctx="history "+std::to_string(h); int pp=p?p:(h%13==0?1:h%13==1?2:h%13==2?3:h%13==3?4:h%13==4?5:h%13==5?6:h%13==6?7:h%13==7?8:h%13==8?10:h%13==9?12:h%13==10?15:h%13==11?16:17); Cfg c=cfg_for(pp); c.depth=2+rn(2);
    { World w(c); for(int i=0;i<len&&!dead;++i) w.step(); if(!dead) for(size_t s=0;s<w.sig.size();++s){ w.check_state(s); w.op_invoke(s,true); } }
    if(!dead) for(auto&l:live) CHK(C12|C03,l.second==0,"a function object is still alive after everything was destroyed"); }
  if(prs) pairs(p,seed,prs);
  printf("OK %d histories of %d operations, %ld operations, %ld slot calls, %d interleaved pairs, %ld checks\n",hist,len,nops,ncalls,prs,nchecks); return 0; }
