// deconstruct and deconstruct_ptr: every allocation failure, throwing constructors and postconstructors, all argument categories
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <string>
#include <vector>
#include <stdexcept>
static long allocs=0,failat=-1,live=0;
static void*get(std::size_t n,std::size_t al=0){ if(failat>=0&&allocs++==failat) throw std::bad_alloc(); void*p=al?aligned_alloc(al,(n+al-1)/al*al):malloc(n?n:1); if(!p) throw std::bad_alloc(); ++live; return p; }
static void put(void*p){ if(p){ --live; free(p); } }
void*operator new(std::size_t n){ return get(n); } void*operator new[](std::size_t n){ return get(n); }
void operator delete(void*p)noexcept{ put(p); } void operator delete[](void*p)noexcept{ put(p); } void operator delete(void*p,std::size_t)noexcept{ put(p); } void operator delete[](void*p,std::size_t)noexcept{ put(p); }
void*operator new(std::size_t n,std::align_val_t a){ return get(n,(std::size_t)a); } void operator delete(void*p,std::align_val_t)noexcept{ put(p); } void operator delete(void*p,std::size_t,std::align_val_t)noexcept{ put(p); }
#include <boost/shared_ptr.hpp>
#include <boost/weak_ptr.hpp>
#include <boost/enable_shared_from_this.hpp>
#include <boost/signals2/deconstruct.hpp>
#include <boost/signals2/deconstruct_ptr.hpp>
namespace s2=boost::signals2; static long checks=0; static std::string where;
#define CHECK(c,t) do{ ++checks; if(!(c)){ printf("FAIL %s [%s] line %d: %s\n",where.c_str(),#c,__LINE__,t); exit(1);} }while(0)
// event log of the current object: c constructor, p postconstruct, e predestruct, d destructor, x constructor threw, q postconstruct threw
static std::string ev; static int thr_c=0,thr_p=0; static std::vector<std::string> cargs,pargs; static const void*self=0; static bool handed=false;
struct Arg { int v; const char*how; Arg(int n):v(n),how("new"){} Arg(const Arg&o):v(o.v),how("copy"){} Arg(Arg&&o):v(o.v),how("move"){ o.v=-1; } };
static std::string d(Arg&a){ return "L"+std::to_string(a.v); } static std::string d(const Arg&a){ return "C"+std::to_string(a.v); } static std::string d(Arg&&a){ return "R"+std::to_string(a.v); } static std::string d(const Arg&&a){ return "K"+std::to_string(a.v); }
template<int N> struct Blob { char c[N]; };
struct Base { Base(){} };
namespace ns {
template<class B,int Al> struct alignas(Al) Obj: B { long canary; Blob<Al> blob; int pod;
  void begin(){ CHECK((std::size_t)this%Al==0,"object misaligned"); self=this; canary=0x5a5a; if(thr_c){ ev+='x'; throw thr_c; } ev+='c'; }
  Obj():pod(){ cargs.clear(); begin(); }
  template<class A0,class...A> explicit Obj(A0&&a0,A&&...a):pod(){ cargs={d(std::forward<A0>(a0)),d(std::forward<A>(a))...}; begin(); }
  Obj(const Obj&)=delete;
  ~Obj(){ CHECK(this==self,"a different object is destroyed"); CHECK(canary==0x5a5a,"storage overwritten or already destroyed"); canary=0; ev+='d'; }
  template<class T,class...A> friend void adl_postconstruct(const boost::shared_ptr<T>&sp,Obj*p,A&&...a){ CHECK(p==self&&sp.get()==p,"postconstruct of another object"); CHECK(!handed,"postconstruct after the object was handed out"); CHECK(sp.use_count()>=1,"no owner"); pargs={d(std::forward<A>(a))...};
    check_esft(sp,p); if(thr_p){ ev+='q'; throw thr_p; } ev+='p'; }
  template<class T> static void check_esft(const boost::shared_ptr<T>&sp,boost::enable_shared_from_this<Obj>*p){ boost::shared_ptr<Obj> s=p->shared_from_this(); CHECK(s.get()==sp.get()&&!(s<sp)&&!(sp<s),"shared_from_this is not the owner"); }
  template<class T> static void check_esft(const boost::shared_ptr<T>&,...){}
  friend void adl_predestruct(Obj*p){ CHECK(p==self&&p->canary==0x5a5a,"predestruct of a destroyed object"); ev+='e'; } };
// no predestruct, virtual interface
struct Plain { long canary; Plain(){ self=this; canary=7; if(thr_c){ ev+='x'; throw thr_c; } ev+='c'; } ~Plain(){ CHECK(canary==7&&self==this,"destroyed twice"); canary=0; ev+='d'; } template<class T> friend void adl_postconstruct(const boost::shared_ptr<T>&sp,Plain*p){ CHECK(sp.get()==p&&!handed,"postconstruct"); if(thr_p){ ev+='q'; throw thr_p; } ev+='p'; } };
struct Agg { int a,b; long c[4]; template<class T> friend void adl_postconstruct(const boost::shared_ptr<T>&,Agg*p){ ev+='p'; } };
}
struct Virt: s2::postconstructible, s2::predestructible { long canary; Virt(){ self=this; canary=7; if(thr_c){ ev+='x'; throw thr_c; } ev+='c'; } ~Virt(){ CHECK(canary==7&&self==this,"destroyed twice"); canary=0; ev+='d'; } void postconstruct(){ if(thr_p){ ev+='q'; throw thr_p; } ev+='p'; } void predestruct(){ ev+='e'; } };
struct VPost: s2::postconstructible { long canary; VPost(){ self=this; canary=7; if(thr_c){ ev+='x'; throw thr_c; } ev+='c'; } ~VPost(){ CHECK(canary==7&&self==this,"destroyed twice"); canary=0; ev+='d'; } void postconstruct(){ if(thr_p){ ev+='q'; throw thr_p; } ev+='p'; } };
struct VPre: s2::predestructible { long canary; VPre(){ self=this; canary=7; if(thr_c){ ev+='x'; throw thr_c; } ev+='c'; } ~VPre(){ CHECK(canary==7&&self==this,"destroyed twice"); canary=0; ev+='d'; } void predestruct(){ ev+='e'; } };
struct None { long canary; None(){ self=this; canary=7; if(thr_c){ ev+='x'; throw thr_c; } ev+='c'; } ~None(){ CHECK(canary==7&&self==this,"destroyed twice"); canary=0; ev+='d'; } };
struct Esf: boost::enable_shared_from_this<Esf> { long canary; Esf(){ self=this; canary=7; if(thr_c){ ev+='x'; throw thr_c; } ev+='c'; } ~Esf(){ CHECK(canary==7&&self==this,"destroyed twice"); canary=0; ev+='d'; }
  template<class T> friend void adl_postconstruct(const boost::shared_ptr<T>&sp,Esf*p){ boost::shared_ptr<Esf> s; try { s=p->shared_from_this(); } catch(boost::bad_weak_ptr&){} CHECK(s.get()==p&&!(s<sp)&&!(sp<s),"shared_from_this does not work in postconstruct"); if(thr_p){ ev+='q'; throw thr_p; } ev+='p'; }
  friend void adl_predestruct(Esf*p){ CHECK(p==self&&p->canary==7,"predestruct of a destroyed object"); ev+='e'; } };
template<class T> struct Del { void operator()(const T*p) const { if(!p){ ev+='n'; return; } ev+='D'; delete p; } };
// runs make with every combination of failures; post: postconstruct is run, pre: predestruct is run
template<class M> static void scen(const std::string&name,bool post,bool pre,bool cthrow,bool custom,M make){
  for(int tc=0;tc<(cthrow?2:1);++tc) for(int tp=0;tp<(post?2:1);++tp) for(long fa=-1;fa<6;++fa) for(int own=0;own<4;++own){
    where=name+" ctor throws "+std::to_string(tc)+" postconstruct throws "+std::to_string(tp)+" allocation "+std::to_string(fa)+" owners "+std::to_string(own); ev.reserve(64); cargs.reserve(16); pargs.reserve(16); cargs.clear(); pargs.clear();
    ev.clear(); handed=false; thr_c=tc?41:0; thr_p=tp?42:0; long l0=live; allocs=0; failat=-1; bool bad=false; int got=0; bool ok=false; long used=0;
    { failat=fa; try { auto sp=make(); failat=-1; ok=true; handed=true; CHECK(sp.get()!=0,"null"); CHECK(!tc&&!tp,"an exception was swallowed"); CHECK(ev==std::string("c")+(post?"p":""),"wrong events before the object is handed out"); CHECK(sp.use_count()==1,"too many owners");
        typedef typename std::remove_reference<decltype(*sp)>::type E; boost::weak_ptr<E> w; boost::shared_ptr<E> b; if(own==1) b=sp; if(own==2) w=sp; if(own==3){ boost::shared_ptr<E> t; t.swap(sp); b=t; sp=b; }
        std::string before=ev; sp.reset(); if(b){ CHECK(ev==before,"destroyed while owned"); b.reset(); } CHECK(ev==before+(pre?"e":"")+(custom?"D":"")+"d","wrong events at the end of the object"); CHECK(w.expired(),"still owned"); }
      catch(std::bad_alloc&){ bad=true; } catch(int e){ got=e; } used=allocs; failat=-1; }
    if(!ok){ CHECK(bad||got,"no exception"); if(got==41) CHECK(tc&&ev=="x","events when the constructor throws"); else if(got==42) CHECK(tp&&ev==std::string("cq")+(pre?"e":"")+(custom?"D":"")+"d","events when postconstruct throws");
      else CHECK(ev==""||ev==std::string("c")+(pre?"e":"")+(custom?"D":"")+"d","events when an allocation fails"); }
    ev.clear(); ev.shrink_to_fit(); cargs.clear(); cargs.shrink_to_fit(); pargs.clear(); pargs.shrink_to_fit(); (void)l0; (void)used; }
  thr_c=thr_p=0; }
template<class O> static void argtest(const char*n){ where=n; handed=false; ev.clear(); Arg a(1); const Arg b(2);
  { s2::postconstructor_invoker<O> i=s2::deconstruct<O>(a,b,Arg(3)); CHECK((cargs==std::vector<std::string>{"L1","C2","R3"}),"constructor arguments"); CHECK(ev=="c","events"); const boost::shared_ptr<O>&p=i.postconstruct(b,Arg(4),a); CHECK((pargs==std::vector<std::string>{"C2","R4","L1"}),"postconstruct arguments"); CHECK(ev=="cp","events"); boost::shared_ptr<O> q=i; CHECK(ev=="cp","postconstruct runs again"); q=i.postconstruct(); q=i.postconstruct(a); CHECK(ev=="cp"&&q.get()==p.get(),"postconstruct runs again"); handed=true; }
  CHECK(ev=="cped","events at the end"); handed=false; ev.clear(); { boost::shared_ptr<O> q=s2::deconstruct<O>(a).postconstruct(); CHECK((cargs==std::vector<std::string>{"L1"})&&pargs.empty(),"arguments"); } CHECK(ev=="cped","events"); ev.clear();
  { boost::shared_ptr<O> q=s2::deconstruct<O>(a,a,a,a,a,a,a,a,Arg(9)); CHECK(cargs.size()==9&&cargs[8]=="R9","arguments"); } CHECK(ev=="cped","events"); ev.clear();
  // postconstruct throws once, is retried
  { s2::postconstructor_invoker<O> i=s2::deconstruct<O>(); thr_p=42; try { i.postconstruct(); CHECK(false,"exception lost"); } catch(int e){ CHECK(e==42,"exception changed"); } thr_p=0; CHECK(ev=="cq","events"); boost::shared_ptr<O> q=i; CHECK(ev=="cqp","a postconstruct that threw counts as done"); } CHECK(ev=="cqped","events"); ev.clear(); }
int main(int,char**){
  { typedef ns::Obj<Base,16> O; scen("deconstruct<T>()",true,true,true,false,[]{ return (boost::shared_ptr<O>)s2::deconstruct<O>(); }); scen("deconstruct<const T>()",true,true,true,false,[]{ return (boost::shared_ptr<const O>)s2::deconstruct<const O>(); });
    scen("deconstruct<T>().postconstruct()",true,true,true,false,[]{ return boost::shared_ptr<O>(s2::deconstruct<O>().postconstruct()); });
    scen("deconstruct as shared_ptr to base",true,true,true,false,[]{ boost::shared_ptr<O> p=s2::deconstruct<O>(); return boost::static_pointer_cast<void>(p),p; }); argtest<O>("arguments"); }
  { typedef ns::Obj<Base,64> O; scen("overaligned",true,true,true,false,[]{ return (boost::shared_ptr<O>)s2::deconstruct<O>(); }); argtest<O>("arguments, overaligned"); }
  scen("deconstruct<enable_shared_from_this>",true,true,true,false,[]{ return (boost::shared_ptr<Esf>)s2::deconstruct<Esf>(); });
  { scen("deconstruct without predestruct",true,false,true,false,[]{ return (boost::shared_ptr<ns::Plain>)s2::deconstruct<ns::Plain>(); }); }
  { scen("deconstruct<postconstructible>",true,true,true,false,[]{ return (boost::shared_ptr<Virt>)s2::deconstruct<Virt>(); }); }
  for(int i=0;i<50;++i){ where="value initialisation"; std::vector<void*> v; for(int k=0;k<8;++k){ void*m=operator new(sizeof(ns::Agg)+64); memset(m,0xee,sizeof(ns::Agg)+64); v.push_back(m);} for(void*m:v) operator delete(m); ev.clear(); boost::shared_ptr<ns::Agg> p=s2::deconstruct<ns::Agg>(); CHECK(p->a==0&&p->b==0&&p->c[3]==0&&ev=="p","not value initialised"); }
  scen("deconstruct_ptr(both)",true,true,true,false,[]{ return s2::deconstruct_ptr(new Virt); }); scen("deconstruct_ptr(const)",true,true,true,false,[]{ return s2::deconstruct_ptr<const Virt>(new Virt); });
  scen("deconstruct_ptr(postconstructible)",true,false,true,false,[]{ return s2::deconstruct_ptr(new VPost); }); scen("deconstruct_ptr(predestructible)",false,true,true,false,[]{ return s2::deconstruct_ptr(new VPre); }); scen("deconstruct_ptr(neither)",false,false,true,false,[]{ return s2::deconstruct_ptr(new None); });
  scen("deconstruct_ptr(both, deleter)",true,false,true,true,[]{ return s2::deconstruct_ptr(new Virt,Del<Virt>()); }); scen("deconstruct_ptr(neither, deleter)",false,false,true,true,[]{ return s2::deconstruct_ptr(new None,Del<None>()); });
  where="null"; ev.clear(); { boost::shared_ptr<Virt> p=s2::deconstruct_ptr((Virt*)0); CHECK(!p&&ev=="","null pointer"); } CHECK(ev=="","null pointer"); { boost::shared_ptr<Virt> p=s2::deconstruct_ptr((Virt*)0,Del<Virt>()); CHECK(!p&&ev=="","null pointer"); } CHECK(ev=="n","the deleter of a null pointer runs once"); ev.clear();
  { where="predestructing_deleter"; ev.clear(); boost::shared_ptr<Virt> p(new Virt,s2::predestructing_deleter<Virt>()); CHECK(ev=="c","events"); p.reset(); CHECK(ev=="ced","events"); }
  printf("OK %ld checks\n",checks); return 0; }
