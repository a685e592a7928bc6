// auto_buffer against std::vector: random operations, throwing copies, an allocator that checks sizes.  usage: ab_h SEED HISTORIES LENGTH
#include <algorithm>
#include <iterator>
#include <boost/signals2/detail/auto_buffer.hpp>
#include <cstdio>
#include <cstdlib>
#include <list>
#include <map>
#include <set>
#include <vector>
#include <string>
#include <memory>
namespace d=boost::signals2::detail;
static unsigned rs=1; static unsigned rnd(){ rs^=rs<<13; rs^=rs>>17; rs^=rs<<5; return rs; } static int rn(int n){ return int((rnd()>>3)%unsigned(n)); }
static std::string ops; static const char*tn=""; static long checks=0; static unsigned hist;
#define CHK(c,w) do{ ++checks; if(!(c)){ printf("FAIL %s [type %s, history %u]\n%s",w,tn,hist,ops.c_str()); fflush(stdout); _Exit(1);} }while(0)
static void lg(const std::string&s){ ops+="  "+s+"\n"; if(ops.size()>4000) ops.erase(0,2000); }
static long thr=-1; struct Boom{}; static void pt(){ if(thr>=0&&thr--==0) throw Boom(); }
static std::map<void*,size_t> blocks;
template<class T> struct A : std::allocator<T> { template<class U> struct rebind{ typedef A<U> other; }; A(){} template<class U> A(const A<U>&){} T*allocate(size_t n){ pt(); T*p=(T*)malloc(n*sizeof(T)?n*sizeof(T):1); blocks[p]=n; return p; } void deallocate(T*p,size_t n){ auto i=blocks.find(p); CHK(i!=blocks.end(),"storage returned that was not obtained from the allocator or was returned before"); CHK(i->second==n,"storage returned with another size"); blocks.erase(i); free(p); } };
static std::map<const void*,int> live;
struct E { int v; long pad; E():v(-7){ pt(); reg(); } E(int v):v(v){ reg(); } E(const E&o):v(o.v){ CHK(live.count(&o),"copy of an object that is not alive"); pt(); reg(); } E&operator=(const E&o){ CHK(live.count(this),"assignment to an object that is not alive"); CHK(live.count(&o),"assignment from an object that is not alive"); pt(); v=o.v; return *this; } ~E(){ CHK(live.count(this),"destruction of an object that is not alive"); live.erase(this); v=-99; } void reg(){ CHK(!live.count(this),"construction over a living object"); live[this]=1; } };
static bool operator==(const E&a,const E&b){ return a.v==b.v; } static bool operator<(const E&a,const E&b){ return a.v<b.v; }
struct NC { int v; NC():v(-7){ reg(); } NC(int v):v(v){ reg(); } NC(const NC&o) noexcept :v(o.v){ reg(); } NC&operator=(const NC&o){ CHK(live.count(this)&&live.count(&o),"assignment between objects that are not alive"); v=o.v; return *this; } ~NC(){ CHK(live.count(this),"destruction of an object that is not alive"); live.erase(this); } void reg(){ CHK(!live.count(this),"construction over a living object"); live[this]=1; } };
static bool operator==(const NC&a,const NC&b){ return a.v==b.v; } static bool operator<(const NC&a,const NC&b){ return a.v<b.v; }
struct TA { int v; TA():v(-7){ pt(); reg(); } TA(int v):v(v){ reg(); } TA(const TA&o):v(o.v){ CHK(live.count(&o),"copy of an object that is not alive"); pt(); reg(); } TA&operator=(const TA&)=default; ~TA(){ CHK(live.count(this),"destruction of an object that is not alive"); live.erase(this); v=-99; } void reg(){ CHK(!live.count(this),"construction over a living object"); live[this]=1; } };

static bool operator==(const TA&a,const TA&b){ return a.v==b.v; } static bool operator<(const TA&a,const TA&b){ return a.v<b.v; }
struct P { char c[28]; int v; P(){ v=-7; } P(int x):v(x){ } }; static bool operator==(const P&a,const P&b){ return a.v==b.v; } static bool operator<(const P&a,const P&b){ return a.v<b.v; }
static int val(const E&e){ CHK(live.count(&e),"an element of the buffer is not alive"); return e.v; } static int val(const TA&e){ CHK(live.count(&e),"an element of the buffer is not alive"); return e.v; } static int val(const NC&e){ CHK(live.count(&e),"an element of the buffer is not alive"); return e.v; } static int val(const P&e){ return e.v; } static int val(int e){ return e; }
template<class B> void same(B&b,std::vector<int>&o,const char*w){ CHK(b.size()==o.size()&&b.empty()==o.empty(),w); CHK(b.capacity()>=b.size()&&b.full()==(b.capacity()==b.size()),"capacity"); size_t i=0; for(auto it=b.begin();it!=b.end();++it,++i) CHK(val(*it)==o[i],w); i=o.size(); for(auto it=b.rbegin();it!=b.rend();++it) CHK(val(*it)==o[--i],w); if(!o.empty()){ CHK(val(b.front())==o.front()&&val(b.back())==o.back(),w); size_t k=rn(o.size()); const B&c=b; CHK(val(b[k])==o[k]&&val(c[k])==o[k]&&val(c.data()[k])==o[k],w);} CHK(b.is_valid(),"is_valid"); }
template<class T,class B,bool TR> void run(const char*name,int len){ tn=name; typedef std::unique_ptr<B> UP; const int NB=3; UP b[NB]; std::vector<int> o[NB]; int nv=1; auto mk=[&]{ return nv++%1000; }; ops.clear();
  size_t live0=live.size(),blk0=blocks.size();
  for(int i=0;i<NB;++i) b[i].reset(new B);
  for(int s=0;s<len;++s){ int i=rn(NB),j=rn(NB),k=rn(30); B&x=*b[i]; std::vector<int>&v=o[i]; bool strong=false,arm=TR&&rn(4)==0; thr=-1; std::vector<int> before=v; size_t n=rn(6); size_t pos=v.empty()?0:rn(v.size()+1);
    lg(std::to_string(i)+": op "+std::to_string(k)+" size "+std::to_string(v.size())+" cap "+std::to_string(x.capacity())+" pos "+std::to_string(pos)+" n "+std::to_string(n)+(arm?" throwing":""));
    int a=mk(); T val0(a); std::vector<T> src; src.reserve(8); std::vector<int> sv; for(size_t q=0;q<n;++q){ int z=mk(); src.push_back(T(z)); sv.push_back(z); } std::list<T> ls(src.begin(),src.end()); std::vector<int> tmp; if(arm) thr=rn(8);
    try { switch(k){
      case 0: case 1: case 2: strong=true; x.push_back(val0); v.push_back(a); break;
      case 3: strong=true; x.push_back(src.begin(),src.end()); v.insert(v.end(),sv.begin(),sv.end()); break;
      case 4: strong=true; { x.push_back(ls.begin(),ls.end()); v.insert(v.end(),sv.begin(),sv.end()); } break;
      case 5: case 6: { tmp=v; tmp.insert(tmp.begin()+pos,a); typename B::iterator r=x.insert(x.begin()+pos,val0); v=tmp; CHK(r==x.begin()+pos,"insert returns another position"); } break;
      case 7: tmp=v; tmp.insert(tmp.begin()+pos,n,a); x.insert(x.begin()+pos,(typename B::size_type)n,val0); v=tmp; break;
      case 8: case 9: { tmp=v; tmp.insert(tmp.begin()+pos,sv.begin(),sv.end()); x.insert(x.begin()+pos,src.data(),src.data()+n); v=tmp; } break;
      case 10: if(!v.empty()){ size_t p=rn(v.size()); tmp=v; tmp.erase(tmp.begin()+p); typename B::iterator r=x.erase(x.begin()+p); v=tmp; CHK(r==x.begin()+p,"erase returns another position"); } break;
      case 11: if(!v.empty()){ size_t p=rn(v.size()+1),q=p+rn(v.size()-p+1); tmp=v; tmp.erase(tmp.begin()+p,tmp.begin()+q); typename B::iterator r=x.erase(x.begin()+p,x.begin()+q); v=tmp; CHK(r==x.begin()+p,"erase returns another position"); } break;
      case 12: if(!v.empty()){ x.pop_back(); v.pop_back(); } break;
      case 13: { size_t q=rn(v.size()+1); x.pop_back_n(q); v.resize(v.size()-q); } break;
      case 14: if(rn(3)==0){ x.clear(); v.clear(); } break;
      case 15: strong=true; x.reserve(n*3); CHK(x.capacity()>=n*3,"reserve"); break;
      case 16: strong=true; x.reserve_precisely(v.size()+n); CHK(x.capacity()>=v.size()+n,"reserve_precisely"); break;
      case 17: strong=true; x.shrink_to_fit(); break;
      case 18: case 19: { x=*b[j]; v=o[j]; } break;
      case 20: case 21: if(i!=j){ if(rn(2)) x.swap(*b[j]); else swap(x,*b[j]); std::swap(v,o[j]); same(*b[j],o[j],"swap"); } break;
      case 22: { UP t(new B(*b[j])); thr=-1; same(*t,o[j],"copy"); b[i].swap(t); v=o[j]; } break;
      case 23: { thr=-1; UP t(new B((typename B::size_type)n)); CHK(t->capacity()>=n&&t->empty(),"capacity constructor"); b[i].swap(t); v.clear(); } break;
      case 24: { UP t(new B((typename B::size_type)n,val0)); thr=-1; b[i].swap(t); v.assign(n,a); } break;
      case 25: { UP t(new B(src.begin(),src.end())); thr=-1; b[i].swap(t); v=sv; } break;
      case 26: { UP t(new B(ls.begin(),ls.end())); thr=-1; b[i].swap(t); v=sv; } break;
      case 27: strong=true; if(x.capacity()-x.size()>=n){ x.unchecked_push_back(src.begin(),src.end()); v.insert(v.end(),sv.begin(),sv.end()); } break;
      case 28: { thr=-1; CHK((x==*b[j])==(v==o[j])&&(x!=*b[j])==(v!=o[j])&&(x<*b[j])==(v<o[j])&&(x>*b[j])==(v>o[j]),"comparison"); } break;
      case 29: { typename B::pointer p=x.uninitialized_grow((typename B::size_type)n); thr=-1; for(size_t q=0;q<n;++q){ new(p+q) T(sv[q]); } v.insert(v.end(),sv.begin(),sv.end()); } break;
    } thr=-1; } catch(Boom&){ thr=-1; lg("threw"); B&y=*b[i]; if(strong) v=before; else if(k==20||k==21){ v.clear(); for(auto&e:y) v.push_back(val(e)); o[j].clear(); for(auto&e:*b[j]) o[j].push_back(val(e)); } else if(k>=22&&k<=26) {} else { v.clear(); for(auto&e:y) v.push_back(val(e)); } }
    same(*b[i],o[i],"the buffer does not hold exactly the elements put in"); src.clear(); ls.clear(); }
  for(int i=0;i<NB;++i) b[i].reset(); CHK(blocks.size()==blk0,"storage is not returned to the allocator"); CHK(live.size()==live0,"an element is not destroyed"); }
int main(int c,char**v){ unsigned seed=atoi(v[1]); int h=atoi(v[2]),len=atoi(v[3]); using namespace d;
  for(int i=0;i<h;++i){ hist=i; rs=(seed*1000003u+i*7919u)|1; for(int q=0;q<6;++q) rnd(); switch(i%10){
    case 0: run<E,auto_buffer<E,store_n_objects<3>,default_grow_policy,A<E> >,true>("throwing class, 3",len); break;
    case 1: run<E,auto_buffer<E,store_n_objects<10>,default_grow_policy,A<E> >,false>("class, 10",len); break;
    case 2: run<int,auto_buffer<int,store_n_objects<3>,default_grow_policy,A<int> >,true>("int, 3",len); break;
    case 3: run<P,auto_buffer<P,store_n_bytes<64>,default_grow_policy,A<P> >,true>("trivial struct, 64 bytes",len); break;
    case 4: run<NC,auto_buffer<NC,store_n_objects<1>,default_grow_policy,A<NC> >,true>("class with noexcept copy, 1",len); break;
    case 5: run<E,auto_buffer<E,store_n_objects<1>,default_grow_policy,A<E> >,true>("throwing class, 1",len); break;
    case 6: run<E,auto_buffer<E,store_n_objects<3>,default_grow_policy,A<E> >,false>("class, 3",len); break;
    case 7: run<P,auto_buffer<P,store_n_objects<10>,default_grow_policy,A<P> >,false>("trivial struct, 10",len); break;
    case 8: run<E,auto_buffer<E,store_n_objects<40>,default_grow_policy,A<E> >,true>("throwing class, 40",len); break;
    case 9: run<TA,auto_buffer<TA,store_n_objects<3>,default_grow_policy,A<TA> >,true>("throwing class with trivial assignment, 3",len); break; } }
  printf("OK %d histories of %d operations, %ld checks\n",h,len,checks); return 0; }
