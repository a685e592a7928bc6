"""Contracts of auto_buffer (C14): the sequence it holds, the lifetime of every element and of every piece of storage.
A region is the in-place storage of one buffer, one heap allocation, or a range given by the caller.  Which of its slots hold an
element, and what was copied there, are ghost functions of the index; they are updated by definition, so that nearly all obligations are
quantifier free.  The element class and the allocator are opaque and may throw wherever C++ lets them."""
from spec_base import *
TU='abuf'
I64=ir.T('int',64)
class FA:
    """ghost function of an index"""
    def __init__(self,f): self.f=f
    def __call__(self,k): return self.f(k)
def freshB(nm):
    f=Function('%s!%d'%(nm,nextid()),IntSort(),z3.BoolSort()); return FA(lambda k:f(k))
def freshI(nm):
    f=Function('%s!%d'%(nm,nextid()),IntSort(),IntSort()); return FA(lambda k:f(k))
def rng(k,a,b): return And(k>=a,k<b)
class AbSpec(BaseSpec):
    TAG_SAFE='C14'; T='C14'
    def __init__(self,cx,N,ty='E'):
        super().__init__(); self.cx=cx; self.N=N; self.nrg=0; self.ty=ty; self.triv=ty in('long','Ew'); self.nothrow_copy=ty in('En','long','Ew'); self.tassign=ty in('Et','long','Ew')
        self.cls=r'boost::signals2::detail::auto_buffer<(struct )?%s, .*store_n_objects<%du?>,.*Alloc<.*> >$'%(ty if ty=='long' else 'spec::'+ty,N)
        L=cx.L; self.es=8 if ty=='long' else dict(E=24,En=8,Et=8,Ew=24)[ty]; self.o_cap=L.off(self.cls,'capacity_'); self.o_buf=L.off(self.cls,'buffer_'); self.o_size=L.off(self.cls,'size_'); self.o_mem=L.off(self.cls,'members_')
        on=self.on
        for E in('E','En','Et'): on('spec::%s::%s'%(E,E),self.e_ctor); on('spec::%s::operator='%E,self.e_assign); on('spec::%s::~%s'%(E,E),self.e_dtor)
        A='spec::Alloc::'
        on(A+'Alloc',self.al_ctor); on(A+'operator=',self.al_assign); on(A+'~Alloc',lambda e,s,a,i,n:None)
        on(A+'allocate',self.allocate); on(A+'deallocate',self.deallocate)
        on('boost::aligned_storage::address',self.storage)
        on(['std::uninitialized_copy','std::uninitialized_move'],self.u_copy)
        on(['std::uninitialized_copy_n'],self.u_copy_n)
        on('std::uninitialized_fill',lambda e,s,a,i,n:self.fill(e,s,a[0],self.dist(e,s,a[0],a[1]),a[2],True,False)); on('std::uninitialized_fill_n',lambda e,s,a,i,n:self.fill(e,s,a[0],zi(mki(a[1])),a[2],True,True))
        on('std::fill',lambda e,s,a,i,n:self.fill(e,s,a[0],self.dist(e,s,a[0],a[1]),a[2],False,False)); on('std::fill_n',lambda e,s,a,i,n:self.fill(e,s,a[0],zi(mki(a[1])),a[2],False,True))
        on(['std::copy','std::move'],self.copy); on('std::copy_n',lambda e,s,a,i,n:self.copy(e,s,[a[0],self.plus(a[0],zi(mki(a[1]))),a[2]],i,n)); on(['std::copy_backward','std::move_backward'],self.copy_backward)
        on(['std::destroy'],lambda e,s,a,i,n:self.destroy(e,s,a[0],self.dist(e,s,a[0],a[1]))); on(['std::destroy_n'],self.destroy_n)
        on('std::swap_ranges',self.swap_ranges)
        on('std::equal',self.compare); on('std::lexicographical_compare',self.compare)
        self.assumed['C++ library']='std::uninitialized_copy/fill, copy, copy_backward, fill, equal, lexicographical_compare: as the C++ standard says, preconditions checked, any element operation may throw'
    # ---- regions
    def region(self,e,s,kind,cap,al,alive,vals):
        self.nrg+=1; r=self.nrg
        if self.triv: alive=FA(lambda k:rng(k,0,zi(cap)))      # elements without lifetime: every slot of the storage may be read and written
        s.att[('rg',r)]=(kind,cap,al); s.att[('fr',r)]=False; s.att[('al',r)]=alive; s.att[('vl',r)]=vals
        return r
    def base(self,r,ix=0): return Ptr(('arr','ab',r),0,self.es,ix)
    def stackreg(self,e,s,oid):
        r=s.att.get(('stack',oid))
        if r is None: r=s.att[('stack',oid)]=self.region(e,s,'stack',IntVal(self.N),None,FA(lambda k:BoolVal(False)),freshI('v'))
        return r
    def storage(self,e,s,a,i,n):
        p=e.norm(s,a[0])
        if not isinstance(p.b,Obj) or p.off!=self.o_mem: raise Unsupported('storage of %r'%(p,))
        return self.base(self.stackreg(e,s,p.b.id))
    def loc(self,e,s,p,w):
        if not isinstance(p,Ptr): raise Unsupported('element at %r'%(p,))
        p=e.norm(s,p)
        if isinstance(p.b,tuple) and p.b[:2]==('arr','ab'):
            if p.st not in (0,self.es) or p.off%self.es: raise Unsupported('element at %r'%(p,))
            return ('a',p.b[2],z3.simplify(zi(p.ix if p.st else 0)+p.off//self.es))
        if isinstance(p.b,Obj): return ('o',p.b.id,p.off)
        e.fail(s,'%s at a null pointer'%w,tag=self.T); raise PathEnd()
    def plus(self,p,n): return Ptr(p.b,p.off,self.es,z3.simplify(zi(p.ix)+n))
    def dist(self,e,s,a,b):
        x=self.loc(e,s,a,'range'); y=self.loc(e,s,b,'range')
        if x[0]!='a' or y[0]!='a': raise Unsupported('range')
        if x[1]!=y[1]: e.fail(s,'the ends of a range are in different storage',tag=self.T); raise PathEnd()
        return y[2]-x[2]
    def alive(self,s,l):
        if self.triv and l[0]=='o': return BoolVal(True)
        return s.att[('al',l[1])](l[2]) if l[0]=='a' else BoolVal(bool(s.att.get(('live',)+l[1:])))
    def value(self,s,l): return s.att[('vl',l[1])](l[2]) if l[0]=='a' else zi(s.mem[l[1]].get((l[2],8)))
    def inside(self,s,r,k): return And(k>=0,k<zi(s.att[('rg',r)][1]),BoolVal(not s.att[('fr',r)]))
    def up(self,s,r,al=None,vl=None):
        if al is not None and not self.triv: s.att[('al',r)]=FA(al)
        if vl is not None: s.att[('vl',r)]=FA(vl)
    def put(self,e,s,l,v,alive):
        if l[0]=='a':
            r,ix=l[1],l[2]; al=s.att[('al',r)]; vl=s.att[('vl',r)]
            if alive is not None: self.up(s,r,al=lambda k:If(k==ix,BoolVal(alive),al(k)))
            if v is not None: self.up(s,r,vl=lambda k:If(k==ix,v,vl(k)))
        else:
            if alive is not None: s.att[('live',)+l[1:]]=alive
            if v is not None: s.mem[l[1]][(l[2],8)]=v; e.wlog(('m',l[1],l[2],8))
    def raw(self,e,s,l,w):
        if l[0]=='a': e.oblige(s,'%s stays inside the storage'%w,self.inside(s,l[1],l[2]),tag=self.T)
        if not self.triv: e.oblige(s,'%s does not overwrite a living element'%w,Not(self.alive(s,l)),tag=self.T)
    def need(self,e,s,l,w): e.oblige(s,'%s a living element'%w,self.alive(s,l),tag=self.T)
    def thrower(self,s,w):
        t=s.fork(); t.trace+=(w+' throws',); t.att['thrown']='user'; return t
    # ---- elements
    def e_ctor(self,e,s,a,i,n):
        l=self.loc(e,s,a[0],'construction'); self.raw(e,s,l,'construction')
        if len(a)>1: m=self.loc(e,s,a[1],'copy'); self.need(e,s,m,'what is copied is'); v=self.value(s,m)
        else: v=fresh('dflt')
        t=self.thrower(s,'element constructor'); self.put(e,s,l,v,True); mv=len(a)>1 and 'EOS' in n
        if mv:
            self.put(e,s,m,fresh('moved'),None); self.put(e,t,m,fresh('moved'),None)
        if len(a)>1 and self.nothrow_copy: return None
        return Outs([(t,'throw',Exc('other')),(s,'ret',None)])
    def e_assign(self,e,s,a,i,n):
        l=self.loc(e,s,a[0],'assignment'); m=self.loc(e,s,a[1],'assignment')
        self.need(e,s,l,'assignment is to'); self.need(e,s,m,'assignment is from')
        t=self.thrower(s,'element assignment'); self.put(e,t,l,fresh('torn'),None); v=self.value(s,m)
        if 'EOS' in n:
            self.put(e,t,m,fresh('moved'),None)
            if l!=m: self.put(e,s,m,fresh('moved'),None)
        self.put(e,s,l,v,None)
        if 'EOS' in n and self.nothrow_copy: return a[0]
        return Outs([(t,'throw',Exc('other')),(s,'ret',a[0])])
    def e_dtor(self,e,s,a,i,n):
        l=self.loc(e,s,a[0],'destruction'); e.oblige(s,'only living elements are destroyed',self.alive(s,l),tag=self.T); self.put(e,s,l,None,False); return None
    # ---- allocator
    def al_ctor(self,e,s,a,i,n): e.store(s,a[0],fresh('alloc') if len(a)==1 else e.load(s,a[1],I64),I64); return None
    def al_assign(self,e,s,a,i,n): e.store(s,a[0],e.load(s,a[1],I64),I64); return a[0]
    def allocate(self,e,s,a,i,n):
        e.oblige(s,'storage is requested for a number of elements that is not negative',zi(mki(a[1]))>=0,tag=self.T)
        t=s.fork(); t.trace+=('allocation throws',); t.att['thrown']='bad_alloc'
        r=self.region(e,s,'heap',zi(mki(a[1])),zi(e.load(s,a[0],I64)),FA(lambda k:BoolVal(False)),freshI('v'))
        return Outs([(t,'throw',Exc('bad_alloc')),(s,'ret',self.base(r))])
    def deallocate(self,e,s,a,i,n):
        l=self.loc(e,s,a[1],'deallocation')
        if l[0]!='a' or s.att[('rg',l[1])][0]!='heap': e.fail(s,'what is given back to the allocator came from it',tag=self.T); raise PathEnd()
        r=l[1]; kind,cap,al=s.att[('rg',r)]
        if s.att[('fr',r)]: e.fail(s,'storage is given back once',tag=self.T); raise PathEnd()
        e.oblige(s,'storage is given back as a whole, with the size it was requested with',And(l[2]==0,zi(mki(a[2]))==cap),tag=self.T)
        e.oblige(s,'storage is given back to the allocator it came from',zi(e.load(s,a[0],I64))==al,tag=self.T)
        k=fresh('k')
        if not self.triv: e.oblige(s,'no living element is left in storage that is given back',Not(s.att[('al',r)](k)),tag=self.T)
        s.att[('fr',r)]=True; s.att[('al',r)]=FA(lambda k:BoolVal(False)); return None
    # ---- library algorithms
    def u_copy(self,e,s,a,i,n,cnt=None):
        f=self.loc(e,s,a[0],'copy'); d=self.loc(e,s,a[2],'copy')
        c=cnt if cnt is not None else self.dist(e,s,a[0],a[1])
        if f[0]!='a' or d[0]!='a': raise Unsupported('copy of single objects')
        e.oblige(s,'the range copied is valid',c>=0,tag=self.T); k=fresh('k')
        e.oblige(s,'everything copied is a living element',Implies(rng(k,0,c),s.att[('al',f[1])](f[2]+k)),tag=self.T)
        e.oblige(s,'the copies stay inside the storage',Implies(c>0,And(self.inside(s,d[1],d[2]),self.inside(s,d[1],d[2]+c-1))),tag=self.T)
        k=fresh('k')
        if not self.triv: e.oblige(s,'the copies do not overwrite living elements',Implies(rng(k,0,c),Not(s.att[('al',d[1])](d[2]+k))),tag=self.T)
        t=self.thrower(s,'element copy'); t.assume(c>0)
        al=s.att[('al',d[1])]; vl=s.att[('vl',d[1])]; sv=s.att[('vl',f[1])]; b=d[2]
        self.up(s,d[1],al=lambda k:Or(rng(k,b,b+c),al(k)),vl=lambda k:If(rng(k,b,b+c),sv(k-b+f[2]),vl(k)))
        if self.moving(e,n):
            for x in (s,t): self.moved(x,f,c)
        if self.nothrow_copy: return self.plus(self.base(d[1],b),c)
        return Outs([(t,'throw',Exc('other')),(s,'ret',self.plus(self.base(d[1],b),c))])
    def moving(self,e,n):
        """does the library algorithm move from its source?"""
        d=e.dem.get(n,n); return 'move_iterator<' in d or e.base.get(n,n) in('std::uninitialized_move','std::move','std::move_backward')
    def moved(self,s,f,c):
        vl=s.att[('vl',f[1])]; tv=freshI('moved'); self.up(s,f[1],vl=lambda k:If(rng(k,f[2],f[2]+c),tv(k),vl(k)))
    def u_copy_n(self,e,s,a,i,n): return self.u_copy(e,s,[a[0],None,a[2]],i,n,cnt=zi(mki(a[1])))
    def fill(self,e,s,d,c,x,un,ret):
        d=self.loc(e,s,d,'fill'); x=self.loc(e,s,x,'fill')
        if d[0]!='a': raise Unsupported('fill of single objects')
        e.oblige(s,'the range filled is valid',c>=0,tag=self.T); self.need(e,s,x,'the value filled in is')
        e.oblige(s,'filling stays inside the storage',Implies(c>0,And(self.inside(s,d[1],d[2]),self.inside(s,d[1],d[2]+c-1))),tag=self.T)
        k=fresh('k'); al=s.att[('al',d[1])]; vl=s.att[('vl',d[1])]; v=self.value(s,x); b=d[2]
        if un and not self.triv: e.oblige(s,'the copies do not overwrite living elements',Implies(rng(k,b,b+c),Not(al(k))),tag=self.T)
        elif not un: e.oblige(s,'what is assigned to are living elements',Implies(rng(k,b,b+c),al(k)),tag=self.T)
        if x[0]=='a': e.oblige(s,'the value filled in is not overwritten meanwhile',Not(And(BoolVal(x[1]==d[1]),rng(x[2],b,b+c))),tag=self.T)
        t=self.thrower(s,'element copy'); t.assume(c>0)
        if not un: tv=freshI('torn'); self.up(t,d[1],vl=lambda k:If(rng(k,b,b+c),tv(k),vl(k)))
        self.up(s,d[1],al=(lambda k:Or(rng(k,b,b+c),al(k))) if un else None,vl=lambda k:If(rng(k,b,b+c),v,vl(k)))
        if self.nothrow_copy if un else self.tassign: return self.plus(self.base(d[1],b),c) if ret else None
        return Outs([(t,'throw',Exc('other')),(s,'ret',self.plus(self.base(d[1],b),c) if ret else None)])
    def assign_range(self,e,s,f,c,d,bad,n=''):
        if f[0]!='a' or d[0]!='a': raise Unsupported('copy of single objects')
        e.oblige(s,'the range copied is valid',c>=0,tag=self.T); k=fresh('k')
        e.oblige(s,'everything copied is a living element',Implies(rng(k,0,c),s.att[('al',f[1])](f[2]+k)),tag=self.T)
        k=fresh('k'); e.oblige(s,'what is assigned to are living elements',Implies(rng(k,0,c),s.att[('al',d[1])](d[2]+k)),tag=self.T)
        if f[1]==d[1]: e.oblige(s,'elements are not overwritten before they are copied',Not(And(c>0,bad)),tag=self.T)
        vl=s.att[('vl',d[1])]; sv=s.att[('vl',f[1])]; b=d[2]
        t=self.thrower(s,'element assignment'); t.assume(c>0); tv=freshI('torn'); self.up(t,d[1],vl=lambda k:If(rng(k,b,b+c),tv(k),vl(k)))
        if self.moving(e,n):
            for x in (s,t): self.moved(x,f,c)
        vl2=s.att[('vl',d[1])]
        self.up(s,d[1],vl=lambda k:If(rng(k,b,b+c),sv(k-b+f[2]),vl2(k)))
        return t
    def done(self,t,s,v): return v if self.tassign else Outs([(t,'throw',Exc('other')),(s,'ret',v)])
    def copy(self,e,s,a,i,n):
        if len(a)!=3: return INLINE            # std::move of one object
        f=self.loc(e,s,a[0],'copy'); c=self.dist(e,s,a[0],a[1]); d=self.loc(e,s,a[2],'copy')
        t=self.assign_range(e,s,f,c,d,And(d[2]>f[2],d[2]<f[2]+c),n)
        return self.done(t,s,self.plus(self.base(d[1],d[2]),c))
    def copy_backward(self,e,s,a,i,n):
        f=self.loc(e,s,a[0],'copy'); c=self.dist(e,s,a[0],a[1]); x=self.loc(e,s,a[2],'copy')
        d=(x[0],x[1],x[2]-c) if x[0]=='a' else x
        t=self.assign_range(e,s,f,c,d,And(x[2]>f[2],x[2]<f[2]+c),n)
        return self.done(t,s,self.base(d[1],z3.simplify(d[2])))
    def destroy(self,e,s,p,c,ret=False):
        d=self.loc(e,s,p,'destruction'); al=s.att[('al',d[1])]; b=d[2]; k=fresh('k')
        e.oblige(s,'the range destroyed is valid',c>=0,tag=self.T)
        e.oblige(s,'only living elements are destroyed',Implies(rng(k,b,b+c),al(k)),tag=self.T)
        self.up(s,d[1],al=lambda k:And(al(k),Not(rng(k,b,b+c))))
        return self.plus(self.base(d[1],b),c) if ret else None
    def destroy_n(self,e,s,a,i,n): return self.destroy(e,s,a[0],zi(mki(a[1])),True)
    def swap_ranges(self,e,s,a,i,n):
        f=self.loc(e,s,a[0],'swap'); c=self.dist(e,s,a[0],a[1]); d=self.loc(e,s,a[2],'swap')
        if f[1]==d[1]: raise Unsupported('swap inside one storage')
        e.oblige(s,'the range swapped is valid',c>=0,tag=self.T); k=fresh('k')
        e.oblige(s,'what is swapped are living elements',Implies(rng(k,0,c),And(s.att[('al',f[1])](f[2]+k),s.att[('al',d[1])](d[2]+k))),tag=self.T)
        x=s.att[('vl',f[1])]; y=s.att[('vl',d[1])]
        t=self.thrower(s,'element swap'); t.assume(c>0); t1=freshI('torn'); t2=freshI('torn')
        self.up(t,f[1],vl=lambda k:If(rng(k,f[2],f[2]+c),t1(k),x(k))); self.up(t,d[1],vl=lambda k:If(rng(k,d[2],d[2]+c),t2(k),y(k)))
        self.up(s,f[1],vl=lambda k:If(rng(k,f[2],f[2]+c),y(k-f[2]+d[2]),x(k))); self.up(s,d[1],vl=lambda k:If(rng(k,d[2],d[2]+c),x(k-d[2]+f[2]),y(k)))
        return Outs([(t,'throw',Exc('other')),(s,'ret',self.plus(self.base(d[1],d[2]),c))])
    def compare(self,e,s,a,i,n):
        R=[]; bn=e.base.get(n,n)
        for x,y in [(a[0],a[1])]+([(a[2],a[3])] if len(a)>3 and isinstance(a[3],Ptr) else []):
            f=self.loc(e,s,x,'comparison'); c=self.dist(e,s,x,y); R.append((f[1],f[2],c))
        if len(R)==1: f=self.loc(e,s,a[2],'comparison'); R.append((f[1],f[2],R[0][2]))
        for r,f,c in R:
            k=fresh('k'); e.oblige(s,'what is compared are living elements',Implies(rng(k,f,f+c),s.att[('al',r)](k)),tag=self.T)
        t=self.thrower(s,'element comparison')
        res=fresh('cmp','b'); s.att['compared']=(bn,R[0],R[1],res)
        if self.triv: return res
        return Outs([(t,'throw',Exc('other')),(s,'ret',res)])
    # ---- elements without constructors
    def range_copy(self,e,s,d,f,n,name):
        if not (isinstance(d.b,tuple) and d.b[:2]==('arr','ab')) and not (isinstance(f.b,tuple) and f.b[:2]==('arr','ab')): return False
        if not self.tassign: e.fail(s,'elements are copied by their constructor or assignment',tag=self.T); raise PathEnd()
        x=self.loc(e,s,d,'copy'); y=self.loc(e,s,f,'copy'); c=(n//self.es if n%self.es==0 else None) if isinstance(n,int) else e.divexact(n,self.es)
        if c==1:
            self.need(e,s,y,'what is copied is'); self.need(e,s,x,'what is assigned to is'); self.put(e,s,x,self.value(s,y),None); return True
        if x[0]!='a' or y[0]!='a': raise Unsupported('copy of bytes')
        if c is None: e.oblige(s,'whole elements are copied',zi(n)%self.es==0,tag=self.T); c=zi(n)/self.es
        c=zi(c); self.assign_range(e,s,y,c,x,And(x[2]!=y[2],x[2]<y[2]+c,y[2]<x[2]+c) if 'memcpy' in name else BoolVal(False)); return True
    def tagload(self,e,s,p,t,name):
        if self.tassign and self.es==8 and p.b[:2]==('arr','ab') and t.k=='int' and t.n==64:
            l=self.loc(e,s,p,'read'); self.need(e,s,l,'what is read is'); e.oblige(s,'reads stay inside the storage',self.inside(s,l[1],l[2]),tag=self.T); return z3.simplify(self.value(s,l))
        return super().tagload(e,s,p,t,name)
    def tagstore(self,e,s,p,v,t):
        if self.tassign and self.es==8 and p.b[:2]==('arr','ab') and t.k=='int' and t.n==64:
            l=self.loc(e,s,p,'write'); self.need(e,s,l,'what is assigned to is'); e.oblige(s,'writes stay inside the storage',self.inside(s,l[1],l[2]),tag=self.T); return self.put(e,s,l,zi(v) if v is not UNDEF else fresh('undef'),None)
        return super().tagstore(e,s,p,v,t)
    # ---- engine hooks
    def ptrarith(self,e,s,o,x,y):
        f=x.p if isinstance(x,PtrInt) else x
        if o=='and' and y==1 and isinstance(f,Ptr) and isinstance(f.b,tuple) and f.b[0]=='f': return 0    # not a virtual member function
        return super().ptrarith(e,s,o,x,y)
    def samebase(self,e,s,a,b): return a.b==b.b
    def fresh_att(self,e,s,k,v):
        if isinstance(k,tuple) and k[0]=='al': return freshB('al')
        if isinstance(k,tuple) and k[0]=='vl': return freshI('vl')
        if isinstance(k,tuple) and k[0] in('fr','rg','stack','live'): raise Unsupported('the loop changes storage')
        return v
    def loop_candidates(self,eng,entry,hv,writes,top,fn,label):
        c=[]; wr=set(writes)
        def get(k): return lambda s: s.mem.get(k[1],{}).get((k[2],k[3]),UNDEF)
        ints=[]; ptrs=[]
        for k in sorted([k for k in writes if k[0]=='m'],key=str):
            v=get(k)(hv); e0=get(k)(entry)
            if isinstance(v,Ptr) and isinstance(v.b,tuple) and v.b[:2]==('arr','ab') and isinstance(e0,Ptr) and e0.b==v.b: ptrs.append(k)
            elif k[3] in(4,8) and not isinstance(v,Ptr) and (isz(v) or isinstance(v,int)) and (isz(e0) or isinstance(e0,int)) and not isinstance(e0,bool) and not (isz(v) and z3.is_bool(v)): ints.append(k)
        oi=[]; op=[]
        for oid,cells in entry.mem.items():
            for (off,sz),v in cells.items():
                if ('m',oid,off,sz) in wr: continue
                if isinstance(v,Ptr) and isinstance(v.b,tuple) and v.b[:2]==('arr','ab'):
                    if all(not(w.b==v.b and repr(w.ix)==repr(v.ix)) for w in op): op.append(v)
                elif sz in(4,8) and (isz(v) and not z3.is_bool(v) or isinstance(v,int) and not isinstance(v,bool)):
                    if all(repr(v)!=repr(w) for w in oi): oi.append(v)
        def ix(k): return lambda s: zi(get(k)(s).ix if get(k)(s).st else get(k)(s).off//self.es)
        def iv(k): return lambda s: zi(get(k)(s))
        V=[(k,ix(k),get(k)(hv).b[2]) for k in ptrs]+[(k,iv(k),None) for k in ints]
        def pix(p): return zi(p.ix if p.st else 0)+p.off//self.es
        for k,x,r in V:
            c+= [('goes up',lambda s,x=x: x(s)>=x(entry)),('goes down',lambda s,x=x: x(s)<=x(entry)),('not negative',lambda s,x=x:x(s)>=0)]
            for w in (op if r is not None else oi):
                if r is not None and w.b[2]!=r: continue
                wi=pix(w) if r is not None else zi(w)
                c+= [('up to',lambda s,x=x,wi=wi: x(s)<=wi),('down to',lambda s,x=x,wi=wi: x(s)>=wi)]
        for a in range(len(V)):
            for b in range(a):
                x,y=V[a][1],V[b][1]
                c+= [('in step',lambda s,x=x,y=y: x(s)-x(entry)==y(s)-y(entry)),('against each other',lambda s,x=x,y=y: x(s)-x(entry)==y(entry)-y(s))]
                if V[a][2]==V[b][2]: c+= [('below',lambda s,x=x,y=y:x(s)<=y(s)),('above',lambda s,x=x,y=y:x(s)>=y(s))]
        k=Int('k!loop')
        def q(f,fa,lhs):
            """for all k: checked for an unknown k, assumed with the ghost function as trigger"""
            g=lambda s: ForAll([k],f(s,k),patterns=[fa(s)(k)])
            g.chk=lambda s: f(s,k)
            return g
        for key in sorted([w for w in writes if w[0]=='a' and isinstance(w[1],tuple) and w[1][0] in('al','vl')],key=str):
            kind,r=key[1]; fa=lambda s,key=key: s.att[key[1]]
            if not (kind=='al'): 
                c.append(('values stay',q(lambda s,k,fa=fa: fa(s)(k)==fa(entry)(k),fa,None)))
            else: c.append(('lifetimes stay',q(lambda s,k,fa=fa: fa(s)(k)==fa(entry)(k),fa,None)))
            for kk,x,rr in V:
                if rr is not None and rr!=r: continue
                iv_=[('up',lambda s,k,x=x: rng(k,x(entry),x(s))),('down',lambda s,k,x=x: And(k>x(s),k<=x(entry))),('down excl',lambda s,k,x=x: rng(k,x(s),x(entry)))]
                for nm,inr in iv_:
                    if kind=='al':
                        c.append(('destroyed so far '+nm,q(lambda s,k,fa=fa,inr=inr: fa(s)(k)==And(fa(entry)(k),Not(inr(s,k))),fa,None)))
                        c.append(('constructed so far '+nm,q(lambda s,k,fa=fa,inr=inr: fa(s)(k)==Or(fa(entry)(k),inr(s,k)),fa,None)))
                    else:
                        c.append(('others stay '+nm,q(lambda s,k,fa=fa,inr=inr: Or(inr(s,k),fa(s)(k)==fa(entry)(k)),fa,None)))
                        srcs=[]
                        for k2,y,r2 in V:
                            if r2 is not None: srcs.append((r2,lambda s,k,x=x,y=y:k-x(entry)+y(entry)))
                            elif rr is None or True:
                                for w in [z for z in entry.att if isinstance(z,tuple) and z[0]=='vl']: srcs.append((w[1],lambda s,k,x=x,y=y:k-x(entry)+y(entry)))
                        for w in op: srcs.append((w.b[2],lambda s,k,x=x,w=w:k-x(entry)+pix(w)))
                        seen=set()
                        for r2,at in srcs:
                            tag=(r2,str(z3.simplify(at(entry,k))))
                            if tag in seen: continue
                            seen.add(tag); sv=entry.att[('vl',r2)]
                            c.append(('copied so far '+nm,q(lambda s,k,fa=fa,inr=inr,sv=sv,at=at: fa(s)(k)==If(inr(s,k),sv(at(s,k)),fa(entry)(k)),fa,None)))
                            # sources that are themselves overwritten behind the front
                        vv=[(p,z) for p,z in entry.mem.items()]
        return c
# ---------------------------------------------------------------- buffers
def mkbuf(e,st,sp,nm,heap):
    o=e.newobj(st,nm,sp.o_size+8); al=Int('alloc_'+nm); n=Int('size_'+nm); cap=IntVal(sp.N)
    vf=Function('V_'+nm,IntSort(),IntSort()); V=FA(lambda k:vf(k)); A=FA(lambda k:rng(k,0,n))
    sr=sp.stackreg(e,st,o.id)
    if heap: cap=Int('cap_'+nm); st.assume(cap>sp.N); r=sp.region(e,st,'heap',cap,al,A,V)
    else: r=sr; sp.up(st,r,al=A,vl=V)
    st.assume(n>=0,n<=cap)
    st.mem[o.id].update({(0,8):al,(sp.o_cap,8):cap if heap else sp.N,(sp.o_buf,8):sp.base(r),(sp.o_size,8):n})
    return dict(o=o,n=n,cap=cap,V=V,r=r,al=al,heap=heap,p=Ptr(o))
def mkx(e,st,sp,nm='x'):
    o=e.newobj(st,nm,sp.es); st.mem[o.id][(0,8)]=Int('v_'+nm); st.att[('live',o.id,0)]=True
    return (Int('v_'+nm) if sp.ty=='long' else Ptr(o)),Int('v_'+nm)
def mkrange(e,st,sp,nm='src'):
    """a range of living elements outside the buffer"""
    n=Int('n_'+nm); ln=Int('len_'+nm); f=Int('first_'+nm); st.assume(n>=0,f>=0,f+n<=ln); vf=Function('V_'+nm,IntSort(),IntSort())
    r=sp.region(e,st,'arg',ln,None,FA(lambda k:rng(k,0,ln)),FA(lambda k:vf(k)))
    return sp.base(r,f),sp.base(r,f+n),n,(lambda k:vf(f+k)),r
def state(e,st,sp,b):
    m=st.mem[b['o'].id]; return zi(m[(sp.o_size,8)]),zi(m[(sp.o_cap,8)]),m[(sp.o_buf,8)]
def valid(e,st,sp,b,raw=None):
    """representation invariant; returns (size, values)"""
    T=sp.T; n,cap,p=state(e,st,sp,b)
    if not (isinstance(p,Ptr) and isinstance(p.b,tuple) and p.b[:2]==('arr','ab')): e.fail(st,'the buffer has storage',tag=T); return None,None,None
    r=p.b[2]; kind,rc,al=st.att[('rg',r)]; k=fresh('k')
    own=kind=='stack' and st.att.get(('stack',b['o'].id))==r
    if kind!='heap' and not own: e.fail(st,'the buffer uses its own storage',tag=T); return None,None,None
    e.oblige(st,'the buffer begins where its storage begins',zi(p.ix)==0,tag=T)
    e.oblige(st,'the storage of the buffer was not given back',BoolVal(not st.att[('fr',r)]),tag=T)
    e.oblige(st,'the capacity is that of the storage',cap==rc,tag=T)
    e.oblige(st,'the size does not exceed the capacity',And(n>=0,n<=cap),tag=T)
    e.oblige(st,'storage from the allocator is used only where the own storage is too small',(cap>sp.N) if kind=='heap' else (cap==sp.N),tag=T)
    if kind=='heap': e.oblige(st,'the buffer keeps the allocator its storage came from',zi(st.mem[b['o'].id][(0,8)])==al,tag=T)
    if sp.triv: pass
    elif raw is None: e.oblige(st,'exactly the elements of the sequence are alive',st.att[('al',r)](k)==rng(k,0,n),tag=T)
    else: e.oblige(st,'exactly the elements constructed are alive',st.att[('al',r)](k)==raw(k),tag=T)
    return n,st.att[('vl',r)],r
def account(e,st,sp,bufs,out=None):
    """nothing is left behind: storage given back, elements destroyed"""
    T=sp.T; used={}
    for b in bufs:
        p=st.mem.get(b['o'].id,{}).get((sp.o_buf,8))
        if isinstance(p,Ptr) and isinstance(p.b,tuple): 
            if p.b[2] in used: e.fail(st,'two buffers use the same storage',tag=T)
            used[p.b[2]]=1
    for k,v in list(st.att.items()):
        if not (isinstance(k,tuple) and k[0]=='rg') or k[1] in used: continue
        r=k[1]; kk=fresh('k')
        if v[0]=='arg': continue
        if v[0]=='heap' and not st.att[('fr',r)]: e.fail(st,'storage that is no longer used is given back',tag=T)
        if not sp.triv: e.oblige(st,'no element is left alive outside a buffer',Not(st.att[('al',r)](kk)),tag=T)
    for k,v in st.att.items():
        if isinstance(k,tuple) and k[0]=='live' and v and k[1] in st.mem and k[1] not in st.att.get('args',()) and k[1]!=out: e.fail(st,'no temporary element is left alive',tag=T)
def sequence(e,st,sp,b,n,f,what='the sequence'):
    m,vl,r=valid(e,st,sp,b)
    if m is None: return
    e.oblige(st,what+' has the right length',m==n,tag=sp.T); k=fresh('k')
    if f is not None: e.oblige(st,what+' has the right elements in order',Implies(rng(k,0,n),vl(k)==f(k)),tag=sp.T)
def unchanged(e,st,sp,b,what='the sequence is unchanged'): sequence(e,st,sp,b,b['n'],b['V'],what)
# ---------------------------------------------------------------- units
def units(cx):
    NS=(('E',10),('E',0),('En',10),('Et',10),('Ew',10),('long',10))
    U=[]; fs=list(cx.M.funcs)+[]; byname={n:cx.dem[n] for n in fs}
    def funcs(N,rx):
        """functions of the buffer with N in-place elements whose demangled name, without template arguments of the buffer, matches"""
        ty,N=N; el=ty if ty=='long' else 'spec::'+ty
        full='boost::signals2::detail::auto_buffer<%s, boost::signals2::detail::store_n_objects<%du>, boost::signals2::detail::default_grow_policy, spec::Alloc<%s>>'%(el,N,el)
        if ty=='long': rx=rx.replace('spec::Alloc<spec::E>','spec::Alloc<long>').replace('spec::E const&','long').replace('spec::E','long')
        elif ty=='Et': rx=re.sub(r'spec::E\b','spec::Et',re.sub(r'spec::E const&','spec::E',rx))
        elif ty!='E': rx=rx.replace('spec::E','spec::'+ty)
        r=[n for n,d in byname.items() if full in d.replace('> >','>>') and re.match(rx,d.replace('> >','>>').replace(full,'BUF').replace('boost::signals2::detail::',''))]
        if not r: raise KeyError('function %s'%rx)
        r.sort(key=lambda n:('C1E' in n or 'D1E' in n or 'C1I' in n,n))
        return r[0]
    def unit(nm,rx,setup,post,cases,N):
        def run(opts):
            R=None; nv=0; sp=AbSpec(cx,N[1],N[0]); eng=Engine(cx.M,cx.dem,sp,opts); f=funcs(N,rx)
            for lab,kw in cases:
                c={}; sp.nrg=0
                def su(e,st,fu,kw=kw,c=c,lab=lab):
                    st.trace+=('case '+lab,); a=setup(e,st,sp,c,**kw); st.att['args']=tuple(k[1] for k in st.att if isinstance(k,tuple) and k[0]=='live'); return a
                r=eng.verify(f,su,lambda e,st,kind,v,c=c: post(e,st,kind,v,sp,c))
                if r['status']=='vacuous' and not eng.pre_ok and len(cases)>1: nv+=1; continue     # no such state, e.g. an element in place when nothing is stored in place
                if r['status'] in('unsupported','vacuous','error') and r['why']: r['why']=lab+': '+r['why']
                if R is None: R=r
                else:
                    for k in('obligations','proved','returns','throws'): R[k]+=r[k]
                    R['time']=round(R['time']+r['time'],2); rank=['verified','vacuous','error','unsupported','failed']
                    if rank.index(r['status'])>rank.index(R['status']): R['status']=r['status']; R['why']=r['why']
            if R is None: R=r
            R['cases']=len(cases)-nv; return eng,R
        U.append(Unit('auto_buffer<%s,%d>::%s'%(N+(nm,)),{'C14'},run))
    ONE=[('in place',dict(h=0)),('allocated',dict(h=1))]; TWO=[('%s, other %s'%(a,b),dict(h=x,g=y)) for a,x in(('in place',0),('allocated',1)) for b,y in (('in place',0),('allocated',1))]
    SELF=[('itself, in place',dict(h=0,g=None)),('itself, allocated',dict(h=1,g=None))]
    def this(e,st,sp,c,h): c['b']=mkbuf(e,st,sp,'this',h); return c['b']['p']
    def other(e,st,sp,c,g):
        c['r']=c['b'] if g is None else mkbuf(e,st,sp,'r',g); return c['r']['p']
    def bufs(c): return [c['b']]+([c['r']] if 'r' in c and c['r'] is not c['b'] else [])
    def thrown(e,st,sp,c,strong=False):
        for b in bufs(c):
            if strong: unchanged(e,st,sp,b,'after a failure the sequence')
            else: valid(e,st,sp,b)
        account(e,st,sp,bufs(c))
    def nothrow(e,st,sp): e.fail(st,'the operation does not throw',tag=sp.T)
    def op(nm,rx,setup,result,cases=ONE,Ns=NS,strong=False,nothrowing=False):
        """result(e,st,sp,c,v): obligations on normal return"""
        def post(e,st,kind,v,sp,c):
            if kind=='throw':
                if nothrowing and 'out' not in c: nothrow(e,st,sp)
                e.oblige(st,'only exceptions of the elements or the allocator leave the operation',BoolVal('thrown' in st.att),tag=sp.T)
                return thrown(e,st,sp,c,strong)
            result(e,st,sp,c,v); account(e,st,sp,bufs(c),c['out'].id if 'out' in c else None)
        for N in Ns:
            cs=[x for x in cases]
            unit(nm,rx,setup,post,cs,N)
    def seq(n,f): 
        def r(e,st,sp,c,v):
            sequence(e,st,sp,c['b'],n(c),None if f is None else (lambda k:f(c,k)))
            if 'r' in c and c['r'] is not c['b']: unchanged(e,st,sp,c['r'],'the other sequence is unchanged and')
        return r
    same_=seq(lambda c:c['b']['n'],lambda c,k:c['b']['V'](k))
    def only(e,st,sp,c,**kw): return [this(e,st,sp,c,kw['h'])]
    # queries
    BYVAL=('front const','back const','operator[] const')      # Et is handed out by value
    def q(nm,rx,want,pre=None):
        def s(e,st,sp,c,h):
            a=[this(e,st,sp,c,h)]
            if sp.ty=='Et' and nm in BYVAL: c['out']=e.newobj(st,'result',8); a.insert(0,Ptr(c['out']))
            if pre: pre(e,st,sp,c,a)
            return a
        def r(e,st,sp,c,v):
            same_(e,st,sp,c,v); e.oblige(st,'the result is right',want(e,st,sp,c,v),tag=sp.T)
        op(nm,rx,s,r,nothrowing=True)
    def B_(v): return zb(mkb(v)) if not isinstance(v,int) or isinstance(v,bool) else BoolVal(v!=0)
    q('empty',r'BUF::empty\(\)',lambda e,st,sp,c,v:B_(v)==(c['b']['n']==0))
    q('full',r'BUF::full\(\)',lambda e,st,sp,c,v:B_(v)==(c['b']['n']==c['b']['cap']))
    q('is_on_stack',r'BUF::is_on_stack\(\)',lambda e,st,sp,c,v:B_(v)==BoolVal(not c['b']['heap']))
    q('is_valid',r'BUF::is_valid\(\)',lambda e,st,sp,c,v:B_(v)==BoolVal(True))
    q('size',r'BUF::size\(\)',lambda e,st,sp,c,v:zi(v)==c['b']['n'])
    q('capacity',r'BUF::capacity\(\)',lambda e,st,sp,c,v:zi(v)==c['b']['cap'])
    def at(want,pos=True):
        def w(e,st,sp,c,v):
            if 'out' in c: return And(sp.alive(st,('o',c['out'].id,0)),sp.value(st,('o',c['out'].id,0))==c['b']['V'](want(c)))
            if not isinstance(v,Ptr): return zi(v)==c['b']['V'](want(c))     # the element itself
            l=sp.loc(e,st,v,'result'); return And(BoolVal(l[0]=='a' and l[1]==c['b']['r']),l[2]==want(c))
        return w
    for k in('begin','cbegin','data'): 
        for cn in((''),' const'):
            if k=='cbegin' and not cn: continue
            q(k+cn,r'BUF::%s\(\)%s$'%(k,cn),at(lambda c:0))
    # a reverse iterator is represented by its base()
    for k,w in(('rbegin',lambda c:c['b']['n']),('rend',lambda c:0)):
        for k2,cn in((k,''),(k,' const'),('c'+k,' const')): q(k2+cn,r'BUF::%s\(\)%s$'%(k2,cn),at(w))
    for k,cn in(('end',''),('end',' const'),('cend',' const')): q(k+cn,r'BUF::%s\(\)%s$'%(k,cn),at(lambda c:c['b']['n']))
    def nonempty(e,st,sp,c,a): st.assume(c['b']['n']>0)
    def index(e,st,sp,c,a): c['i']=Int('i'); st.assume(c['i']>=0,c['i']<c['b']['n']); a.append(c['i'])
    for cn in('',' const'):
        q('front'+cn,r'BUF::front\(\)%s$'%cn,at(lambda c:0),nonempty); q('back'+cn,r'BUF::back\(\)%s$'%cn,at(lambda c:c['b']['n']-1),nonempty)
        q('operator[]'+cn,r'BUF::operator\[\]\(unsigned long\)%s$'%cn,at(lambda c:c['i']),index)
    # constructors
    def raw(e,st,sp,c):
        o=e.newobj(st,'this',sp.o_size+8); c['b']=dict(o=o,p=Ptr(o)); return Ptr(o)
    def ctor(nm,rx,args,n,f,alloc=False):
        def s(e,st,sp,c,**kw):
            a=[raw(e,st,sp,c)]+args(e,st,sp,c)
            if alloc: o=e.newobj(st,'a',8); st.mem[o.id][(0,8)]=Int('alloc_a'); a.append(Ptr(o))
            return a
        def post(e,st,kind,v,sp,c):
            if kind=='throw':
                e.oblige(st,'only exceptions of the elements or the allocator leave the operation',BoolVal('thrown' in st.att),tag=sp.T)
                return account(e,st,sp,[])
            sequence(e,st,sp,c['b'],n(c),lambda k:f(c,k))
            if alloc: e.oblige(st,'the buffer has a copy of the allocator given',zi(st.mem[c['b']['o'].id][(0,8)])==Int('alloc_a'),tag=sp.T)
            if 'r' in c: unchanged(e,st,sp,c['r'],'the other sequence is unchanged and')
            if 'need' in c: e.oblige(st,'there is room for as many elements as asked for',state(e,st,sp,c['b'])[1]>=c['need'],tag=sp.T)
            account(e,st,sp,[c['b']]+([c['r']] if 'r' in c else []))
        for N in NS: unit(nm,rx,s,post,[('',{})] if nm!='auto_buffer(const&)' else [('other in place',dict(g=0)),('other allocated',dict(g=1))],N)
    def cap(e,st,sp,c): n=Int('capacity'); st.assume(n>=0); c['need']=n; return [n]
    def cnt(e,st,sp,c,nm='n'): n=Int(nm); st.assume(n>=0); c[nm]=n; return n
    def xarg(e,st,sp,c): p,v=mkx(e,st,sp); c['x']=v; return p
    def rangearg(e,st,sp,c): f,l,n,V,r=mkrange(e,st,sp); c.update(sn=n,sV=V); return [f,l]
    CT=r'BUF::auto_buffer'
    ctor('auto_buffer()',CT+r'\(\)$',lambda e,st,sp,c:[],lambda c:0,lambda c,k:0)
    ctor('auto_buffer(capacity)',CT+r'\(unsigned long\)$',cap,lambda c:0,lambda c,k:0)
    ctor('auto_buffer(capacity,allocator)',CT+r'\(unsigned long, spec::Alloc<spec::E> const&\)$',cap,lambda c:0,lambda c,k:0,True)
    ctor('auto_buffer(n,x)',CT+r'\(unsigned long, spec::E const&\)$',lambda e,st,sp,c:[cnt(e,st,sp,c),xarg(e,st,sp,c)],lambda c:c['n'],lambda c,k:c['x'])
    ctor('auto_buffer(n,x,allocator)',CT+r'\(unsigned long, spec::E const&, spec::Alloc<spec::E> const&\)$',lambda e,st,sp,c:[cnt(e,st,sp,c),xarg(e,st,sp,c)],lambda c:c['n'],lambda c,k:c['x'],True)
    ctor('auto_buffer(range)',CT+r'<spec::E const\*>\(spec::E const\*, spec::E const\*\)$',rangearg,lambda c:c['sn'],lambda c,k:c['sV'](k))
    ctor('auto_buffer(range,allocator)',CT+r'<spec::E const\*>\(spec::E const\*, spec::E const\*, spec::Alloc<spec::E> const&\)$',rangearg,lambda c:c['sn'],lambda c,k:c['sV'](k),True)
    def copyctor(e,st,sp,c,**kw): return [raw(e,st,sp,c),other(e,st,sp,c,kw['g'])]
    def pcopy(e,st,kind,v,sp,c):
        if kind=='throw':
            e.oblige(st,'only exceptions of the elements or the allocator leave the operation',BoolVal('thrown' in st.att),tag=sp.T)
            unchanged(e,st,sp,c['r'],'the other sequence is unchanged and'); return account(e,st,sp,[c['r']])
        sequence(e,st,sp,c['b'],c['r']['n'],c['r']['V'],'the copy'); unchanged(e,st,sp,c['r'],'the other sequence is unchanged and'); account(e,st,sp,[c['b'],c['r']])
    for N in NS: unit('auto_buffer(const&)',CT+r'\(BUF const&\)$',copyctor,pcopy,[('other in place',dict(g=0)),('other allocated',dict(g=1))],N)
    def pdtor(e,st,kind,v,sp,c):
        if kind=='throw': return nothrow(e,st,sp)
        account(e,st,sp,[])
    for N in NS: unit('~auto_buffer',r'BUF::~auto_buffer\(\)$',only,pdtor,ONE,N)
    # assignment, swap, comparison
    def two(e,st,sp,c,h,g): a=this(e,st,sp,c,h); return [a,other(e,st,sp,c,g)]
    def r_assign(e,st,sp,c,v):
        r=c['r']; sequence(e,st,sp,c['b'],r['n'],r['V'],'the copy')
        if r is not c['b']: unchanged(e,st,sp,r,'the other sequence is unchanged and')
        e.oblige(st,'the result is the buffer',BoolVal(e.ptreq(st,v,c['b']['p']) is True),tag=sp.T)
    op('operator=',r'BUF::operator=\(',two,r_assign,TWO+SELF)
    def r_swap(e,st,sp,c,v):
        sequence(e,st,sp,c['b'],c['r']['n'],c['r']['V'],'what was the other sequence'); 
        if c['r'] is not c['b']: sequence(e,st,sp,c['r'],c['b']['n'],c['b']['V'],'what was this sequence')
    op('swap',r'BUF::swap\(',two,r_swap,TWO+SELF); op('swap(l,r)',r'void swap<',two,r_swap,TWO)
    def r_cmp(opn):
        def r(e,st,sp,c,v):
            l,R=c['b'],c['r']; unchanged(e,st,sp,l); 
            if R is not l: unchanged(e,st,sp,R,'the other sequence is unchanged and')
            x=st.att.get('compared'); res=B_(v); fl=lambda t:BoolVal(False) if t is None else t
            if opn in('==','!='):
                if opn=='!=': res=Not(res)
                if x is None: return e.oblige(st,'buffers of equal size are compared element by element, others differ',And(l['n']!=R['n'],Not(res)),tag=sp.T)
                e.oblige(st,'buffers are equal exactly if all elements are',And(l['n']==R['n'],BoolVal(x[0]=='std::equal' and x[1][0]==l['r'] and x[2][0]==R['r']),x[1][1]==0,x[2][1]==0,x[1][2]==l['n'],res==x[3]),tag=sp.T)
            else:
                if x is None: return e.fail(st,'the elements are compared',tag=sp.T)
                if opn in('<=','>='): res=Not(res)
                f,s=(l,R) if opn in('<','>=') else (R,l)
                e.oblige(st,'the order is lexicographical',And(BoolVal(x[0]=='std::lexicographical_compare' and x[1][0]==f['r'] and x[2][0]==s['r']),x[1][1]==0,x[2][1]==0,x[1][2]==f['n'],x[2][2]==s['n'],res==x[3]),tag=sp.T)
        return r
    for o in('==','!=','<','>','<=','>='): op('operator'+o,r'bool operator%s ?<[^=]'%re.escape(o),two,r_cmp(o),TWO,strong=True)
    # capacity
    def with_n(e,st,sp,c,h): return [this(e,st,sp,c,h),cnt(e,st,sp,c)]
    def r_res(exact):
        def r(e,st,sp,c,v):
            same_(e,st,sp,c,v); cap=state(e,st,sp,c['b'])[1]
            e.oblige(st,'there is room for as many elements as asked for',cap>=c['n'],tag=sp.T)
            e.oblige(st,'the capacity does not shrink',cap>=c['b']['cap'],tag=sp.T)
            if exact: e.oblige(st,'no more is allocated than asked for',Or(cap==c['n'],cap==c['b']['cap']),tag=sp.T)
        return r
    op('reserve',r'BUF::reserve\(',with_n,r_res(False),strong=True); op('reserve_precisely',r'BUF::reserve_precisely\(',with_n,r_res(True),strong=True)
    def r_shrink(e,st,sp,c,v):
        same_(e,st,sp,c,v); cap=state(e,st,sp,c['b'])[1]
        e.oblige(st,'no room is left, unless in place',Or(cap==c['b']['n'],cap==sp.N),tag=sp.T)
    op('shrink_to_fit',r'BUF::shrink_to_fit\(',only,r_shrink,strong=True)
    # appending
    room=lambda e,st,sp,c,n: st.assume(c['b']['n']+n<=c['b']['cap'])
    def s_push(x,unch=False,n=False,rngarg=False):
        def s(e,st,sp,c,h):
            a=[this(e,st,sp,c,h)]
            if x: a.append(xarg(e,st,sp,c))
            if n: a.append(cnt(e,st,sp,c))
            if rngarg: a+=rangearg(e,st,sp,c)
            if unch: room(e,st,sp,c,c['n'] if n else c['sn'] if rngarg else 1)
            return a
        return s
    app1=seq(lambda c:c['b']['n']+1,lambda c,k:If(k<c['b']['n'],c['b']['V'](k),c['x']))
    appr=seq(lambda c:c['b']['n']+c['sn'],lambda c,k:If(k<c['b']['n'],c['b']['V'](k),c['sV'](k-c['b']['n'])))
    def prefix(n):
        def r(e,st,sp,c,v):
            m,vl,_=valid(e,st,sp,c['b'])
            if m is None: return
            e.oblige(st,'the sequence has the right length',m==c['b']['n']+n(c),tag=sp.T); k=fresh('k')
            e.oblige(st,'the elements there were stay',Implies(rng(k,0,c['b']['n']),vl(k)==c['b']['V'](k)),tag=sp.T)
        return r
    op('unchecked_push_back()',r'BUF::unchecked_push_back\(\)',s_push(False,True),prefix(lambda c:1),strong=True)
    op('unchecked_push_back(x)',r'BUF::unchecked_push_back\(spec::E const&\)',s_push(True,True),app1,strong=True)
    op('unchecked_push_back_n',r'BUF::unchecked_push_back_n\(unsigned long\)$',s_push(False,True,n=True),prefix(lambda c:c['n']))
    op('unchecked_push_back(range)',r'void BUF::unchecked_push_back<spec::E const\*>',s_push(False,True,rngarg=True),appr,strong=True)
    op('push_back()',r'BUF::push_back\(\)',s_push(False),prefix(lambda c:1),strong=True)
    op('push_back(x)',r'BUF::push_back\(spec::E const&\)',s_push(True),app1,strong=True)
    op('push_back(range)',r'void BUF::push_back<spec::E const\*>',s_push(False,rngarg=True),appr,strong=True)
    # removing
    def s_popn(e,st,sp,c,h):
        a=[this(e,st,sp,c,h),cnt(e,st,sp,c)]; st.assume(c['n']<=c['b']['n']); return a
    def s_pop(e,st,sp,c,h):
        a=[this(e,st,sp,c,h)]; st.assume(c['b']['n']>0); return a
    keep=lambda c,k:c['b']['V'](k)
    op('pop_back',r'BUF::pop_back\(\)',s_pop,seq(lambda c:c['b']['n']-1,keep),nothrowing=True)
    op('pop_back_n',r'BUF::pop_back_n\(',s_popn,seq(lambda c:c['b']['n']-c['n'],keep),nothrowing=True)
    op('clear',r'BUF::clear\(',only,seq(lambda c:0,keep),nothrowing=True)
    def s_erase(two_):
        def s(e,st,sp,c,h):
            p=this(e,st,sp,c,h); b=c['b']; i=Int('from'); j=Int('to') if two_ else i+1; st.assume(i>=0,j<=b['n'],i<=j); c.update(i=i,j=j)
            return [p,sp.base(b['r'],i)]+([sp.base(b['r'],j)] if two_ else [])
        return s
    def r_erase(e,st,sp,c,v):
        i,j,b=c['i'],c['j'],c['b']; sequence(e,st,sp,b,b['n']-(j-i),lambda k:If(k<i,b['V'](k),b['V'](k+j-i)))
        l=sp.loc(e,st,v,'result'); e.oblige(st,'the result is the position after what was erased',And(BoolVal(l[0]=='a' and l[1]==state(e,st,sp,b)[2].b[2]),l[2]==i),tag=sp.T)
    op('erase(position)',r'BUF::erase\(spec::E const\*\)$',s_erase(False),r_erase); op('erase(range)',r'BUF::erase\(spec::E const\*, spec::E const\*\)$',s_erase(True),r_erase)
    # inserting
    def s_ins(kind):
        def s(e,st,sp,c,h):
            p=this(e,st,sp,c,h); b=c['b']; i=Int('before'); st.assume(i>=0,i<=b['n']); c['i']=i; a=[p,sp.base(b['r'],i)]
            if kind=='1': a.append(xarg(e,st,sp,c)); c.update(m=IntVal(1),f=lambda k:c['x'])
            if kind=='n': a.append(cnt(e,st,sp,c)); a.append(xarg(e,st,sp,c)); c.update(m=c['n'],f=lambda k:c['x'])
            if kind=='r': a+=rangearg(e,st,sp,c); c.update(m=c['sn'],f=c['sV'])
            return a
        return s
    def r_ins(e,st,sp,c,v):
        i,m,b=c['i'],c['m'],c['b']; sequence(e,st,sp,b,b['n']+m,lambda k:If(k<i,b['V'](k),If(k<i+m,c['f'](k-i),b['V'](k-m))))
        if v is not None:
            l=sp.loc(e,st,v,'result'); e.oblige(st,'the result is the position of what was inserted',And(BoolVal(l[0]=='a' and l[1]==state(e,st,sp,b)[2].b[2]),l[2]==i),tag=sp.T)
    op('insert(x)',r'BUF::insert\(spec::E const\*, spec::E const&\)',s_ins('1'),r_ins); op('insert(n,x)',r'BUF::insert\(spec::E const\*, unsigned long, spec::E const&\)',s_ins('n'),r_ins)
    op('insert(range)',r'void BUF::insert<spec::E const\*>',s_ins('r'),r_ins)
    # raw elements
    def s_ugrow(e,st,sp,c,h): return [this(e,st,sp,c,h),cnt(e,st,sp,c)]
    def r_ugrow(e,st,sp,c,v):
        b=c['b']; m,vl,r=valid(e,st,sp,b,raw=lambda k:rng(k,0,b['n']))
        if m is None: return
        e.oblige(st,'the size grows by as much as asked for',m==b['n']+c['n'],tag=sp.T); k=fresh('k')
        e.oblige(st,'the elements there were stay',Implies(rng(k,0,b['n']),vl(k)==b['V'](k)),tag=sp.T)
        l=sp.loc(e,st,v,'result'); e.oblige(st,'the result is where the room begins',And(BoolVal(l[0]=='a' and l[1]==r),l[2]==b['n']),tag=sp.T)
    op('uninitialized_grow',r'BUF::uninitialized_grow\(',s_ugrow,r_ugrow,strong=True)
    def s_ushrink(e,st,sp,c,h):
        p=this(e,st,sp,c,h); b=c['b']; n=cnt(e,st,sp,c); st.assume(n<=b['n']); sp.up(st,b['r'],al=lambda k:rng(k,0,b['n']-n)); return [p,n]
    op('uninitialized_shrink',r'BUF::uninitialized_shrink\(',s_ushrink,seq(lambda c:c['b']['n']-c['n'],keep),nothrowing=True)
    def s_ures(e,st,sp,c,h):
        p=this(e,st,sp,c,h); b=c['b']; n=cnt(e,st,sp,c); sp.up(st,b['r'],al=lambda k:rng(k,0,If(n<b['n'],n,b['n']))); return [p,n]
    def r_ures(e,st,sp,c,v):
        b=c['b']; lim=If(c['n']<b['n'],c['n'],b['n']); m,vl,r=valid(e,st,sp,b,raw=lambda k:rng(k,0,lim))
        if m is None: return
        e.oblige(st,'the size is as asked for',m==c['n'],tag=sp.T); k=fresh('k')
        e.oblige(st,'the elements there were stay',Implies(rng(k,0,lim),vl(k)==b['V'](k)),tag=sp.T)
    op('uninitialized_resize',r'BUF::uninitialized_resize\(',s_ures,r_ures,strong=True)
    return U
