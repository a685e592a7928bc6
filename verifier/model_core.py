"""Model of everything below the signal classes: mutex, reference counts, tracked objects, user types.
The smart pointer code itself is inlined (BOOST_SP_DISABLE_THREADS); counts are symbolic; every access to a count can be preceded by
changes made by other threads (option interf)."""
from model_list import *
from spec_list import find
import z3
VAR=1000      # ghost cell of a shared_ptr variant / container / vector
KIND=Function('KIND',I,I); EL=Function('EL',I,I,I); NT=Function('NT',I,I)
SPC='boost::detail::sp_counted_base::'
AB='boost::signals2::detail::auto_buffer::'
U8=ir.T('int',8)
class CoreModel(ListModel):
    interf=False
    def __init__(self,L,cx=None):
        self.cx=cx; self.vtabs={}
        super().__init__(L)
        on=self.on
        x=Int('x'); y=Int('y')
        self.axioms+= [ForAll([x],And(KIND(x)>=0,KIND(x)<=2),patterns=[KIND(x)]),ForAll([x],NT(x)>=0,patterns=[NT(x)]),ForAll([x,y],EL(x,y)>0,patterns=[EL(x,y)])]
        on('spec::Mutex::lock',self.mtx_lock); on('spec::Mutex::unlock',self.mtx_unlock)
        on('spec::Mutex::Mutex',self.mtx_ctor); on('spec::Mutex::~Mutex',self.mtx_dtor)
        on(SPC+'add_ref_copy',self.c_add); on(SPC+'add_ref_lock',self.c_lock); on(SPC+'release',self.c_rel); on(SPC+'use_count',self.c_use)
        on(SPC+'weak_add_ref',self.c_wadd); on(SPC+'weak_release',self.c_wrel)
        on('boost::apply_visitor',self.visit)
        on('boost::variant::variant',self.var_ctor); on('boost::variant::~variant',self.var_dtor); on('boost::variant::operator=',self.var_assign)
        for m in ('auto_buffer','~auto_buffer','push_back','clear','reserve','size','capacity','empty','full','unchecked_push_back'): on(AB+m,getattr(self,'ab_'+m.replace('~','d')))
        self.onre(re.escape(AB),self.ab_other)
        v='std::vector::'
        def onv(names,f):      # the containers of tracked and of locked objects; other vectors are inlined
            on([v+x for x in names],lambda e,s,a,i,n: f(e,s,a,i,n) if self.trvec(n) or self.shvec(n) else INLINE)
        onv(['vector'],self.vec_ctor); onv(['~vector'],self.vec_dtor); onv(['reserve'],self.vec_reserve)
        onv(['begin','cbegin'],lambda e,s,a,i,n:self.vec_at(e,s,a[0],0)); onv(['end','cend'],lambda e,s,a,i,n:self.vec_at(e,s,a[0],None))
        onv(['size'],lambda e,s,a,i,n:NT(self.vid(e,s,a[0]))); onv(['empty'],lambda e,s,a,i,n:NT(self.vid(e,s,a[0]))==0)
        onv(['operator[]','at'],lambda e,s,a,i,n:self.vec_at(e,s,a[0],a[1]))
        onv(['push_back','emplace_back'],self.vec_push)
        f='spec::SlotFn::'
        on(f+'SlotFn',self.fn_ctor); on(f+'~SlotFn',self.fn_dtor); on(f+'operator=',self.fn_assign)
        on(['boost::signals2::null_deleter'],lambda e,s,a,i,n:None)
        on(['std::type_info::operator==','std::type_info::operator!='],self.ti_eq)
        self.join_kinds=('ln','mn')
    def ti_eq(self,e,s,a,i,n):
        if not all(isinstance(x,Ptr) and isinstance(x.b,tuple) for x in a): raise Unsupported('type_info')
        r=a[0].b[1]==a[1].b[1]
        return r if 'eq' in n else not r
    # ------------------------------------------------------------- trace of events (for postconditions)
    def event(self,s,*ev):
        s.att['ev']=s.att.get('ev',())+(ev,); s.trace+=('/'.join(str(x)[:24] for x in ev),)
    def sym(self,s,nm):
        """model state recorded under a name: Python side"""
        return s.att.get(nm)
    # ------------------------------------------------------------- mutex
    def mtx(self,e,s,p):
        if isinstance(p,Ptr):
            p=e.norm(s,p)
            if isinstance(p.b,Obj): return ('o',p.b.id,p.off)
            if isz(p.b) and not p.st: return z3.simplify(p.b) if not p.off else z3.simplify(SUB(p.b,IntVal(p.off)))
        raise Unsupported('mutex %r'%(p,))
    def same_mtx(self,e,s,a,b):
        if isinstance(a,tuple) or isinstance(b,tuple): return BoolVal(a==b)
        return zb(z3.simplify(a==b))
    def mtx_lock(self,e,s,a,i,n):
        if isinstance(a[0],Ptr) and isinstance(a[0].b,int) and a[0].b==0: e.fail(s,'null mutex is locked',tag='safe'); raise PathEnd()
        m=self.mtx(e,s,a[0])
        if isinstance(m,tuple) and m[1] not in s.mem: e.fail(s,'a destroyed mutex is locked',tag='safe'); raise PathEnd()
        e.oblige(s,'no mutex is locked while another (or the same) one is held',BoolVal(not s.locks),tag=('C10','safe'))
        s.locks=s.locks+(m,)
        s.trace+=('lock',)
        return self.on_lock(e,s,m)
    def on_lock(self,e,s,m): return None
    def mtx_unlock(self,e,s,a,i,n):
        m=self.mtx(e,s,a[0])
        if not s.locks: e.fail(s,'a mutex that is not held is unlocked',tag=('C10','safe')); raise PathEnd()
        e.oblige(s,'the mutex unlocked is the one held',self.same_mtx(e,s,m,s.locks[-1]),tag=('C10','safe'))
        s.locks=s.locks[:-1]; s.trace+=('unlock',)
        self.on_unlock(e,s,m)
        return None
    def on_unlock(self,e,s,m): pass
    def mtx_ctor(self,e,s,a,i,n):
        if self.may_throw_ctor:
            t=s.fork(); t.trace+=('mutex ctor throws',)
            return Outs([(t,'throw',Exc('other')),(s,'ret',None)])
        return None
    may_throw_ctor=False
    def mtx_dtor(self,e,s,a,i,n):
        m=self.mtx(e,s,a[0])
        for l in s.locks: e.oblige(s,'no held mutex is destroyed',Not(self.same_mtx(e,s,m,l)),tag=('C10','safe'))
        self.event(s,'~Mutex',m); return None
    def no_lock(self,e,s,what,tag=('C10',)):
        e.oblige(s,'no mutex is held when %s'%what,BoolVal(not s.locks),tag=tag)
    def same_locks(self,eng,st,lk):
        return len(st.locks)==len(lk) and all((a==b if isinstance(a,tuple) or isinstance(b,tuple) else eng.valid(st,a==b)) for a,b in zip(st.locks,lk))
    # ------------------------------------------------------------- reference counts
    def cb(self,e,s,p):
        if isinstance(p,Ptr):
            p=e.norm(s,p)
            if isinstance(p.b,Obj): return p.b
        return None
    def mine(self,s,o): return s.att.get(('mine',o.id))
    def c_add(self,e,s,a,i,n):
        o=self.cb(e,s,a[0])
        if o is None: return self.c_add_sym(e,s,a[0])
        m=self.mine(s,o)
        if m is not None: s.att[('mine',o.id)]=m+1
        return INLINE
    def c_lock(self,e,s,a,i,n):
        o=self.cb(e,s,a[0])
        if o is None: return self.c_lock_sym(e,s,a[0])
        m=self.mine(s,o)
        if m is None: return INLINE
        use=s.mem[o.id][(8,4)]
        outs=[]
        if not isz(use) and use==0: return 0
        if m==0 and (self.interf or isz(use)):
            t=s.fork()
            if not self.interf: t.assume(zi(use)==0)
            t.trace+=('expired',); t.mem[o.id][(8,4)]=0; self.gone(e,t,o); outs.append((t,'ret',0))
        if self.interf:
            u=fresh('use'); s.assume(u>m); s.mem[o.id][(8,4)]=u
        elif isz(use): s.assume(use>=1); s.mem[o.id][(8,4)]=use+1
        elif use==0: return 0
        else: s.mem[o.id][(8,4)]=use+1
        s.att[('mine',o.id)]=m+1; e.wlog(('m',o.id,8,4)); e.wlog(('a',('mine',o.id)))
        if not e.feasible(s,BoolVal(True)): return Outs(outs)
        return Outs(outs+[(s,'ret',1)])
    def gone(self,e,s,o):
        """other threads have destroyed the object managed by this control block"""
        s.att[('gone',o.id)]=True
        for x in s.att.get(('managed',o.id),()): s.mem.pop(x,None)
    def c_rel(self,e,s,a,i,n):
        o=self.cb(e,s,a[0])
        if o is None: return self.c_rel_sym(e,s,a[0])
        m=self.mine(s,o)
        if m is not None:
            if m<=0: e.fail(s,'a reference is released that was not acquired',tag=('safe','C12')); raise PathEnd()
            s.att[('mine',o.id)]=m-1
            if self.interf:
                u=fresh('use'); s.assume(u>=m); s.mem[o.id][(8,4)]=u
        return INLINE
    def c_use(self,e,s,a,i,n):
        o=self.cb(e,s,a[0])
        if o is None: return self.c_use_sym(e,s,a[0])
        m=self.mine(s,o)
        if m is not None and self.interf:
            u=fresh('use'); s.assume(u>=m); s.mem[o.id][(8,4)]=u; e.wlog(('m',o.id,8,4))
        return INLINE
    def c_wadd(self,e,s,a,i,n): return INLINE if self.cb(e,s,a[0]) is not None else self.c_wadd_sym(e,s,a[0])
    def c_wrel(self,e,s,a,i,n): return INLINE if self.cb(e,s,a[0]) is not None else self.c_wrel_sym(e,s,a[0])
    def c_add_sym(self,e,s,p): return None
    def c_rel_sym(self,e,s,p): return None
    def c_lock_sym(self,e,s,p): raise Unsupported('lock of symbolic weak_ptr')
    def c_use_sym(self,e,s,p): raise Unsupported('use_count of symbolic shared_ptr')
    def c_wadd_sym(self,e,s,p): return None
    def c_wrel_sym(self,e,s,p): return None
    # ------------------------------------------------------------- user code
    def fn_ctor(self,e,s,a,i,n):
        outs=[]
        if self.may_throw_copy:
            t=s.fork(); t.trace+=('slot function copy throws',); t.att['thrown']='user'; outs.append((t,'throw',Exc('other')))
        v=fresh('fn') if len(a)==1 else self.fn_copied(e,s,a[1])
        e.store(s,a[0],v,I64)
        return Outs(outs+[(s,'ret',None)])
    def fn_copied(self,e,s,p):
        v=e.load(s,p,I64); return v
    def fn_assign(self,e,s,a,i,n):
        e.store(s,a[0],e.load(s,a[1],I64),I64); return a[0]
    def fn_dtor(self,e,s,a,i,n):
        p=e.norm(s,a[0])
        w=s.att.get('slotfn',())
        if isinstance(p.b,Obj) and p.b.id in w:
            self.no_lock(e,s,"a disconnected slot's function is destroyed")
            self.event(s,'~fn',p.b.id)
        return None
    # ------------------------------------------------------------- tracked objects
    def conts(self,s): return [v for k,v in s.g.items() if isinstance(k,tuple) and k[0]=='cont']
    def held(self,s,w,but=None):
        c=[sel(v,w) for v in self.conts(s)]+[And(x==w,w!=0) for k,x in s.att.items() if isinstance(k,tuple) and k[0]=='var' and k!=but]
        return Or(*c) if c else BoolVal(False)
    def pass_time(self,e,s):
        """tracked objects without an owner here may go away at any time"""
        E0=s.g['EXPD']; E1=fresh('EXPD',AIB); w=Int('w!%d'%nextid())
        s.assume(ForAll([w],And(Implies(sel(E0,w),sel(E1,w)),Implies(And(self.held(s,w),Not(sel(E0,w))),Not(sel(E1,w)))),patterns=[sel(E1,w)]))
        s.assume(ForAll([w],And(Implies(sel(E0,w),sel(E1,w)),Implies(And(self.held(s,w),Not(sel(E0,w))),Not(sel(E1,w)))),patterns=[sel(E0,w)]))
        self.gset(e,s,'EXPD',E1)
    def elem(self,e,s,p):
        p=e.norm(s,p)
        if isinstance(p.b,tuple) and p.b[0]=='arr':
            q=p.b[2]; ix=zi(p.ix) if p.st else IntVal(0)
            if p.off:
                if p.off%self.ESZ: raise Unsupported('element pointer')
                ix=z3.simplify(ix+p.off//self.ESZ)
            e.oblige(s,'the tracked element accessed exists',And(ix>=0,ix<NT(q)),tag=('safe','C05'))
            return EL(q,ix)
        raise Unsupported('tracked element %r'%(p,))
    ESZ=24
    def visit(self,e,s,a,i,n):
        w=None
        if 'lock_weak_ptr_visitor' in n:
            w=self.elem(e,s,a[-1]); self.pass_time(e,s)
            r=fresh('locked'); s.assume(r==If(And(KIND(w)!=0,Not(sel(s.g['EXPD'],w))),w,IntVal(0)))
            self.gset(e,s,'SEEN',z3.simplify(If(r!=0,Store(s.g['SEEN'],w,BoolVal(True)),s.g['SEEN'])))
            self.setvar(e,s,a[0],r); return None
        if 'expired_weak_ptr_visitor' in n:
            w=self.elem(e,s,a[-1]); self.pass_time(e,s)
            self.gset(e,s,'SEEN',If(sel(s.g['EXPD'],w),s.g['SEEN'],Store(s.g['SEEN'],w,BoolVal(True))))
            return sel(s.g['EXPD'],w)
        return INLINE
    def vkey(self,e,s,p):
        p=e.norm(s,p)
        if not isinstance(p.b,Obj): raise Unsupported('variant not in private memory')
        return ('var',p.b.id,p.off)
    def setvar(self,e,s,p,r):
        k=self.vkey(e,s,p); s.att[k]=r; e.wlog(('a',k))
    def is_shared_variant(self,n): return '10shared_ptrIvE' in n[:200] or 'foreign_void_shared_ptr' in n
    def is_weak_variant(self,n): return 'trackable_pointee' in n
    def var_ctor(self,e,s,a,i,n):
        if self.is_weak_variant(n) and len(a)>=2: return self.wvar_ctor(e,s,a,i,n)
        if len(a)!=2: return INLINE
        # copy / move of another variant
        q=e.norm(s,a[1])
        if isinstance(q.b,Obj) and ('var',q.b.id,q.off) in s.att:
            self.setvar(e,s,a[0],s.att[('var',q.b.id,q.off)])
            if 'EOS' in n: self.setvar(e,s,a[1],IntVal(0)) if False else None
            return None
        return INLINE
    def wvar_ctor(self,e,s,a,i,n): return INLINE
    def var_assign(self,e,s,a,i,n):
        return INLINE
    def var_dtor(self,e,s,a,i,n):
        p=e.norm(s,a[0])
        k=('var',p.b.id,p.off) if isinstance(p.b,Obj) else None
        if k in s.att:
            r=s.att[k]; self.release_tracked(e,s,r,k); del s.att[k]; return None
        return INLINE
    def release_tracked(self,e,s,r,k):
        e.oblige(s,'no mutex is held when a tracked object is released',Or(BoolVal(not s.locks),zi(r)==0,self.held(s,zi(r),k)),tag='C10')
    def fresh_att(self,eng,st,k,v):
        if isinstance(k,tuple) and k[0]=='var': return fresh('locked')
        return v
    def ckey(self,e,s,p):
        p=e.norm(s,p)
        if not isinstance(p.b,Obj): raise Unsupported('container not in private memory')
        return ('cont',p.b.id,p.off)
    def isvar(self,n): return 'variant' in n[:120]
    EMPTY=z3.K(I,BoolVal(False))
    def ab_auto_buffer(self,e,s,a,i,n):
        if not self.isvar(n): return INLINE
        k=self.ckey(e,s,a[0]); self.gset(e,s,k,self.EMPTY); self.buf_new(e,s,k,n); return None
    # room of a buffer: number of elements and capacity (contract of auto_buffer: no allocation below the capacity)
    def buf_new(self,e,s,k,n):
        m=re.search(r'store_n_objectsILj(\d+)E',n)
        self.gset(e,s,('len',)+k[1:],IntVal(0)); self.gset(e,s,('cap',)+k[1:],IntVal(int(m.group(1)) if m else 0))
    def buf_del(self,s,k): s.g.pop(('len',)+k[1:],None); s.g.pop(('cap',)+k[1:],None)
    def buf_grow(self,e,s,k,need,what):
        """room for need elements; returns the state in which the allocation fails, or None"""
        C=('cap',)+k[1:]; c=s.g[C]; need=zi(need); ok=z3.simplify(need<=c)
        if z3.is_true(ok) or e.valid(s,ok): return None
        t=s.fork(); t.assume(Not(ok)); t.trace+=(what,); t.att['thrown']='oom'; t.att['oom_'+what]=True
        n=fresh('cap'); s.assume(n>=need,n>=c,Implies(ok,n==c)); self.gset(e,s,C,n)
        return t
    def ab_reserve(self,e,s,a,i,n):
        k=self.bufkey(e,s,a[0],n)
        if k is None: return INLINE
        t=self.buf_grow(e,s,k,zi(a[1]),'reserve: bad_alloc')
        return Outs(([(t,'throw',Exc('bad_alloc'))] if t is not None else [])+[(s,'ret',None)])
    def ab_size(self,e,s,a,i,n):
        k=self.bufkey(e,s,a[0],n)
        return INLINE if k is None else s.g[('len',)+k[1:]]
    def ab_other(self,e,s,a,i,n):
        if a and isinstance(a[0],Ptr) and self.bufkey(e,s,a[0],n) is not None: raise Unsupported('member of auto_buffer without contract')
        return INLINE
    def ab_capacity(self,e,s,a,i,n):
        k=self.bufkey(e,s,a[0],n)
        return INLINE if k is None else s.g[('cap',)+k[1:]]
    def ab_empty(self,e,s,a,i,n):
        k=self.bufkey(e,s,a[0],n)
        return INLINE if k is None else s.g[('len',)+k[1:]]==0
    def ab_full(self,e,s,a,i,n):
        k=self.bufkey(e,s,a[0],n)
        return INLINE if k is None else s.g[('len',)+k[1:]]==s.g[('cap',)+k[1:]]
    def ab_unchecked_push_back(self,e,s,a,i,n):
        k=self.bufkey(e,s,a[0],n)
        if k is None: return INLINE
        if len(a)!=2: raise Unsupported('unchecked_push_back overload')
        e.oblige(s,'unchecked_push_back: there is room',s.g[('len',)+k[1:]]<s.g[('cap',)+k[1:]],tag='safe')
        return self.ab_push_back(e,s,a,i,n)
    def bufkey(self,e,s,p,n): return self.ckey(e,s,p) if self.isvar(n) else None
    def ab_release(self,e,s,k):
        w=Int('w!%d'%nextid())
        e.oblige(s,'no mutex is held when tracked objects are released',Or(BoolVal(not s.locks),ForAll([w],Not(sel(s.g[k],w)))),tag='C10')
    def ab_dauto_buffer(self,e,s,a,i,n):
        if not self.isvar(n): return INLINE
        k=self.ckey(e,s,a[0]); self.ab_release(e,s,k); del s.g[k]; self.buf_del(s,k); return None
    def ab_clear(self,e,s,a,i,n):
        if not self.isvar(n): return INLINE
        k=self.ckey(e,s,a[0]); self.ab_release(e,s,k); self.gset(e,s,k,self.EMPTY); self.gset(e,s,('len',)+k[1:],IntVal(0)); return None
    def ab_push_back(self,e,s,a,i,n):
        if not self.isvar(n): return INLINE
        k=self.ckey(e,s,a[0]); r=s.att[self.vkey(e,s,a[1])]
        L=('len',)+k[1:]; t=self.buf_grow(e,s,k,s.g[L]+1,'container: bad_alloc')
        self.gset(e,s,L,z3.simplify(s.g[L]+1))
        self.gset(e,s,k,z3.simplify(Store(s.g[k],zi(r),BoolVal(True))))
        return Outs(([(t,'throw',Exc('bad_alloc'))] if t is not None else [])+[(s,'ret',None)])
    # ------------------------------------------------------------- vectors of weak / shared variants
    def vid(self,e,s,p):
        v=e.load(s,Ptr(p.b,p.off+VAR,p.st,p.ix),I64)
        if v is UNDEF: raise Unsupported('unconstructed vector')
        return zi(v)
    def vec_at(self,e,s,p,ix):
        q=self.vid(e,s,p)
        return Ptr(('arr','tr',q),0,self.ESZ,NT(q) if ix is None else mki(ix))
    def setvid(self,e,s,p,q): e.store(s,Ptr(p.b,p.off+VAR),q,I64)
    def trvec(self,n): return '7variantINS0_8weak_ptrINS' in n
    def vec_reserve(self,e,s,a,i,n):
        t=s.fork(); t.trace+=('vector reserve: bad_alloc',); t.att['thrown']='oom'
        return Outs([(t,'throw',Exc('bad_alloc')),(s,'ret',None)])
    def shvec(self,n): return '7variantINS0_10shared_ptrIvEE' in n
    def flag_candidates(self,eng,entry,hv,writes):
        c=[]
        for q in self.vecs(hv):
            def gone(s,q=q):
                i=Int('i!%d'%nextid()); return Exists([i],And(i>=0,i<NT(q),sel(s.g['EXPD'],EL(q,i))),patterns=[EL(q,i)])
            c.append(('a tracked object is gone',gone))
        return c
    def loop_candidates(self,eng,entry,hv,writes,top,fn,label):
        c=[]
        self.entry=entry
        for k in entry.g:
            if isinstance(k,tuple) and k[0]=='cap':
                L=('len',)+k[1:]; c0=entry.g[k]
                c.append(('a buffer does not lose room',lambda s,k=k,L=L,c0=c0: And(s.g[k]>=c0,s.g[L]>=0)))
                c.append(('a buffer keeps its elements and has room for them',lambda s,k=k,L=L,l0=entry.g.get(L): And(s.g[L]>=l0,s.g[L]<=s.g[k]) if l0 is not None else BoolVal(True)))
        own=set(hv.frames[-1].allocas)
        wr={k[1:] for k in writes if k[0]=='m'}
        for oid,cs in hv.mem.items():
            if oid not in own: continue
            for k,v in cs.items():
                if (oid,)+k not in wr: continue
                if isinstance(v,Ptr) and isinstance(v.b,tuple) and v.b[0]=='arr' and v.b[1]=='tr':
                    q=v.b[2]
                    def ix(s,oid=oid,k=k):
                        p=s.mem.get(oid,{}).get(k)
                        if not isinstance(p,Ptr): raise Unsupported('index')
                        return zi(p.ix) if p.st else IntVal(0)
                    self.tracked_cands(c,q,ix,hv)
                elif isz(v) and z3.is_int(v) and k[1] in(4,8):
                    for q in self.vecs(hv): self.tracked_cands(c,q,lambda s,oid=oid,k=k: self.icell(s,oid,k),hv)
        return c
    def icell(self,s,oid,k):
        v=s.mem.get(oid,{}).get(k)
        if v is None or v is UNDEF or isinstance(v,Ptr): raise Unsupported('index')
        return zi(v)
    def vecs(self,s):
        r=[]
        for cs in s.mem.values():
            for (o,z),v in cs.items():
                if o>=VAR and isz(v) and not any(v.eq(y) for y in r) and z3.is_int(v): r.append(v)
        return r[:3]
    def tracked_cands(self,c,q,ix,hv):
        c.append(('index in range',lambda s: And(ix(s)>=0,ix(s)<=NT(q))))
        def upto(f):
            def g(s):
                i=Int('i!%d'%nextid()); return ForAll([i],Implies(And(i>=0,i<ix(s)),f(s,EL(q,i))),patterns=[EL(q,i)])
            return g
        c.append(('tracked objects so far were seen alive',upto(lambda s,w: sel(s.g['SEEN'],w))))
        for k in hv.g:
            if isinstance(k,tuple) and k[0]=='len':
                l0=self.entry.g.get(k)
                if l0 is not None: c.append(('one element was added for each tracked object so far',lambda s,k=k,l0=l0: s.g[k]==l0+ix(s)))
            if isinstance(k,tuple) and k[0]=='cont':
                c.append(('tracked objects so far are held',upto(lambda s,w,k=k: Or(KIND(w)==0,sel(s.g[k],w)))))
                c.append(('tracked objects so far are alive',upto(lambda s,w,k=k: Or(KIND(w)==0,Not(sel(s.g['EXPD'],w))))))
    def vec_ctor(self,e,s,a,i,n):
        if self.shvec(n):
            k=self.ckey(e,s,a[0])
            if len(a)==1: self.gset(e,s,k,self.EMPTY); return None
            k2=self.ckey(e,s,a[1]); v=s.g[k2]; self.gset(e,s,k,v)
            if 'EOS' in n: self.gset(e,s,k2,self.EMPTY)
            return None
        if len(a)==1 or 'C2ERKS' not in n and 'C1ERKS' not in n and 'EOS' not in n:
            q=fresh('vec'); s.assume(NT(q)==0); self.setvid(e,s,a[0],q); return None
        q=self.vid(e,s,a[1])
        if 'EOS' in n:
            self.setvid(e,s,a[0],q); z=fresh('vec'); s.assume(NT(z)==0); self.setvid(e,s,a[1],z); return None
        t=s.fork(); t.trace+=('vector copy: bad_alloc',); t.att['thrown']='oom'
        self.setvid(e,s,a[0],q)
        return Outs([(t,'throw',Exc('bad_alloc')),(s,'ret',None)])
    def vec_dtor(self,e,s,a,i,n):
        if self.shvec(n):
            k=self.ckey(e,s,a[0]); self.ab_release(e,s,k); del s.g[k]
        return None
    def vec_push(self,e,s,a,i,n):
        if self.shvec(n):
            k=self.ckey(e,s,a[0]); r=s.att[self.vkey(e,s,a[1])]
            t=s.fork(); t.trace+=('vector push: bad_alloc',); t.att['thrown']='oom'
            self.gset(e,s,k,z3.simplify(Store(s.g[k],zi(r),BoolVal(True))))
            return Outs([(t,'throw',Exc('bad_alloc')),(s,'ret',NULL)])
        q=self.vid(e,s,a[0])
        t=s.fork(); t.trace+=('vector push: bad_alloc',); t.att['thrown']='oom'
        z=fresh('vec'); x=Int('i!%d'%nextid())
        w=self.pushed(e,s,a[1],n)
        s.assume(NT(z)==NT(q)+1,EL(z,NT(q))==w,ForAll([x],Implies(And(x>=0,x<NT(q)),EL(z,x)==EL(q,x)),patterns=[EL(z,x)]))
        self.setvid(e,s,a[0],z)
        return Outs([(t,'throw',Exc('bad_alloc')),(s,'ret',self.vec_at(e,s,a[0],NT(q)))])
    def pushed(self,e,s,p,n):
        return fresh('elem')
    def tageq(self,eng,st,a,b):
        if a.b[0]=='arr' and b.b[0]=='arr' and len(a.b)>2 and isz(a.b[2]):
            if a.b[2].eq(b.b[2]): return mkb(z3.simplify(zi(a.ix)==zi(b.ix))) if a.st and b.st and not a.off and not b.off else None
            return None
        return super().tageq(eng,st,a,b)
    def samebase(self,eng,st,a,b):
        if a.b[0]=='arr' and b.b[0]=='arr': return a.b[2].eq(b.b[2])
        return super().samebase(eng,st,a,b)
    # ------------------------------------------------------------- object builders
    def vtab(self,rx):
        if rx not in self.vtabs:
            c=self.cx; 
            if not hasattr(c,"vtn"):
                c.vtn=ir.demangle([n for n in c.M.globals if n.startswith('_ZTV')])
                if c.c03: c.vtn={n:c.tr(d) for n,d in c.vtn.items()}
            r=[n for n,d in c.vtn.items() if re.match('vtable for '+rx,d)]
            if len(r)!=1: raise KeyError('vtable '+rx)
            self.vtabs[rx]=Ptr(('g',r[0]),16)
        return self.vtabs[rx]
