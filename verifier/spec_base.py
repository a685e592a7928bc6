"""Common part of the specifications: defaults of every hook the engine calls, exceptions, allocation."""
import re, z3
from engine import *
import ir

# exception classes known to the specifications: kind -> typeinfo names that catch it
HIER={
 'expired':   ('_ZTIN5boost8signals212expired_slotE','_ZTIN5boost12bad_weak_ptrE','_ZTISt9exception'),
 'bad_weak':  ('_ZTIN5boost12bad_weak_ptrE','_ZTISt9exception'),
 'no_slots':  ('_ZTIN5boost8signals214no_slots_errorE','_ZTISt9exception'),
 'bad_alloc': ('_ZTISt9bad_alloc','_ZTISt9exception'),
 'std':       ('_ZTISt9exception',),
 'other':     (),
}
def dual(fs):
    """a loop invariant stated several times with different triggers: all are assumed, one is checked"""
    import z3
    f=lambda s: z3.And(*fs(s)); f.chk=lambda s: fs(s)[0]
    return f
class BaseSpec:
    NARROW=True
    TAG_SAFE='safe'; TAG_LOCK='C10'
    def __init__(self):
        self.axioms=[]
        self.h={}          # base name -> (kind, function)
        self.hre=[]        # (regex, kind, function)
        self.assumed={}    # trusted contracts used: name -> text
        self.reg_common()
    # ---------------------------------------------------------------- registration
    def on(self,names,fn,kind='icpt'):
        for n in names if isinstance(names,(list,tuple)) else [names]: self.h[n]=(kind,fn)
    def onre(self,rx,fn,kind='icpt'): self.hre.append((re.compile(rx),kind,fn))
    def lookup(self,eng,st,name,bn,args):
        r=self.h.get(bn) or self.h.get(name)
        if r: return r
        for rx,k,fn in self.hre:
            if rx.match(bn): return (k,fn)
        return None
    def reg_common(self):
        on=self.on
        on(['operator new','operator new[]'],self.op_new)
        on(['operator delete','operator delete[]'],self.op_delete)
        on('__cxa_allocate_exception',lambda e,s,a,i,n: Ptr(e.newobj(s,'exn',64)))
        on('__cxa_free_exception',lambda e,s,a,i,n: None)
        on('__cxa_throw',self.cxa_throw)
        on('__cxa_begin_catch',self.begin_catch)
        on('__cxa_end_catch',self.end_catch)
        on('__cxa_rethrow',self.rethrow)
        on(['std::terminate','__clang_call_terminate','abort','__cxa_pure_virtual'],self.terminate)
        on('__assert_fail',self.assert_fail)
        on(['std::exception::~exception','std::exception::exception'],lambda e,s,a,i,n:None)
        on('boost::throw_exception',self.boost_throw)
        on(['boost::addressof','std::addressof','std::__addressof'],lambda e,s,a,i,n:a[0])
    def op_new(self,eng,st,args,ins,name):
        n=args[0]
        sz=n if isinstance(n,int) else 0
        if eng.opts.get('alloc_throws') and not eng.opts.get('noalloc_in',lambda e,s:False)(eng,st):
            s2=st.fork(); s2.trace+=('bad_alloc',)
            return Outs([(s2,'throw',Exc('bad_alloc')),(st,'ret',Ptr(eng.newobj(st,'new',sz,True)))])
        return Ptr(eng.newobj(st,'new',sz,True))
    def op_delete(self,eng,st,args,ins,name):
        p=args[0]
        if isinstance(p,Ptr):
            p=eng.norm(st,p)
            if isinstance(p.b,int) and p.b==0: return None
            if isinstance(p.b,Obj):
                if p.b.id not in st.mem: eng.fail(st,'double deallocation',tag=self.TAG_SAFE); raise PathEnd()
                if not p.b.heap: eng.fail(st,'deallocation of an object that was not allocated',tag=self.TAG_SAFE)
                del st.mem[p.b.id]; eng.wlog(('m',p.b.id,0,0)); return None
            return self.delete_ref(eng,st,p)
        return None
    def delete_ref(self,eng,st,p): return None
    def kind_of_type(self,cls):
        cls=re.sub(r'^boost::wrapexcept<(.*)>$',r'\1',cls.strip())
        return {'boost::signals2::expired_slot':'expired','boost::bad_weak_ptr':'bad_weak','boost::signals2::no_slots_error':'no_slots','std::bad_alloc':'bad_alloc'}.get(cls,'std' if cls.startswith('std::') else 'other')
    def cxa_throw(self,eng,st,args,ins,name):
        t=args[1]; n=t.b[1] if isinstance(t,Ptr) and isinstance(t.b,tuple) else ''
        if n not in self.tinfo: self.tinfo[n]=ir.demangle([n])[n].replace('typeinfo for ','')
        return Outs([(st,'throw',Exc(self.kind_of_type(self.tinfo[n])))])
    tinfo={}
    def boost_throw(self,eng,st,args,ins,name):
        m=re.search(r'throw_exception<(.*?)>\(',eng.dem.get(name,''))
        return Outs([(st,'throw',Exc(self.kind_of_type(m.group(1) if m else '')))])
    def begin_catch(self,eng,st,args,ins,name):
        p=args[0]
        e=p.b[1] if isinstance(p,Ptr) and isinstance(p.b,tuple) and p.b[0]=='exc' else st.exc
        st.caught=st.caught+(e,); st.exc=None
        return p
    def end_catch(self,eng,st,args,ins,name):
        st.caught=st.caught[:-1]
        return None
    def rethrow(self,eng,st,args,ins,name):
        if not st.caught: raise PathEnd()
        return Outs([(st,'throw',st.caught[-1])])
    def terminate(self,eng,st,args,ins,name):
        eng.fail(st,'std::terminate reached',tag=self.TAG_SAFE); raise PathEnd()
    def assert_fail(self,eng,st,args,ins,name):
        eng.fail(st,'assertion in the code fails',tag=self.TAG_SAFE); raise PathEnd()
    # ---------------------------------------------------------------- hooks with defaults
    def unknown_call(self,eng,st,name,bn,args,ins): raise Unsupported('call of %s'%bn)
    def virtual(self,eng,st,cv,args): raise Unsupported('virtual call')
    def indirect(self,eng,st,cv,args,ins): raise Unsupported('indirect call of %r'%(cv,))
    def catches(self,eng,typeinfo,exc):
        if exc is None: return False
        return typeinfo in HIER.get(exc.n,())
    def alloc_ref(self,eng,st,o):
        r=fresh('obj'); st.assume(r>0); return r
    def on_publish(self,eng,st,o,r,cells): pass
    def on_load_ref(self,eng,st,p,v): pass
    def on_access(self,eng,st,p,t,iswrite): pass
    watched=()         # private objects whose accesses are checked
    def obj_access(self,eng,st,p,iswrite): pass
    def known_nonnull(self,eng,st,b): return False
    def uninit(self,eng,st,p,t,sz): return None
    def range_copy(self,eng,st,d,s,n,name): return False
    def copy_layout(self,eng,st,s,n): raise Unsupported('memcpy from public memory')
    def tagref(self,eng,st,p): raise Unsupported('reference to %r'%(p,))
    def tagload(self,eng,st,p,t,name):
        v=self.vtable_load(eng,p,t)
        if v is not None: return v
        raise Unsupported('load from %r'%(p,))
    def vtable_load(self,eng,p,t):
        """slot of a virtual table defined in the module"""
        if p.b[0]!='g' or not p.b[1].startswith('_ZTV') or t.k!='ptr': return None
        tb=eng.vts.get(p.b[1])
        if tb is None:
            tx=eng.M.globals.get(p.b[1],'')
            if '[ptr' not in tx: return None
            tb=[]
            for e in re.findall(r'ptr (null|@(?:"(?:[^"\\]|\\.)*"|[-\w.$]+)|inttoptr \([^)]*\))',tx): tb.append(None if e[0]!='@' else ir.unq(e))
            eng.vts[p.b[1]]=tb
        i=p.off//8
        if p.st or p.off%8 or not 0<=i<len(tb): raise Unsupported('slot of %r'%(p,))
        if tb[i] is None: return NULL
        return Ptr(('f',tb[i])) if tb[i] in eng.M.funcs or tb[i] in eng.M.decls else Ptr(('g',tb[i]))
    def tagstore(self,eng,st,p,v,t): raise Unsupported('store to %r'%(p,))
    def tageq(self,eng,st,a,b): return None
    def tageq1(self,eng,st,t,u): return None
    def samebase(self,eng,st,a,b): return False
    def ptrarith(self,eng,st,o,x,y): raise Unsupported('pointer arithmetic %s'%o)
    def addr(self,eng,st,p):
        """address of a pointer for ordering different objects: unknown, but distinct and positive"""
        p=eng.norm(st,p)
        if isinstance(p.b,int) and not p.off: return IntVal(p.b)
        if isinstance(p.b,Obj) and not p.st:
            k=('addr',p.b.id); a=Int('addr_%d'%p.b.id)
            if k not in st.att:
                st.assume(a>0)
                for j,v in list(st.att.items()):
                    if isinstance(j,tuple) and j[0]=='addr': st.assume(v!=a)
                st.att[k]=a
            return a+p.off
        if isz(p.b) and not p.st and not p.off: return p.b
        raise Unsupported('address of %r'%(p,))
    def bits(self,eng,st,o,x,y): raise Unsupported('bit operation %s'%o)
    def fresh_ghost(self,k,v):
        if v is None: raise Unsupported('ghost %s'%k)
        return z3.Const('g_%s!%d'%(k,nextid()),v.sort())
    def fresh_att(self,eng,st,k,v): return v
    def loop_assume(self,eng,st,entry,writes): pass
    def loop_candidates(self,eng,entry,hv,writes,top,fn,label): return []
    def flag_candidates(self,eng,entry,hv,writes): return []
    def at_back(self,eng,st,entry): pass
    def same_locks(self,eng,st,lk): return False
    def loop_progress(self,eng,st,entry,st0,writes): pass
    # ghosts
    def gset(self,eng,st,k,v):
        st.g[k]=v; eng.wlog(('g',k))
def nextid():
    import engine
    engine._ctr[0]+=1
    return engine._ctr[0]
class Unit:
    """one function verified against its contract; props: the properties its contract serves"""
    def __init__(s,name,props,run,cost=1): s.name=name; s.props=set(props); s.run=run; s.cost=cost
class Ctx:
    """a translation unit compiled from the current tree"""
    def __init__(s,tu,ll,lay):
        import layout
        s.tu=tu; s.ll=ll; s.M=ir.parse(ll); s.dem=ir.demangle(list(s.M.funcs)+list(s.M.decls)); s.L=layout.Layouts(lay)
        s.c03=tu=='core03'
        if s.c03: s.norm03()
    def norm03(s):
        """the implementation without variadic templates under the names of the other one"""
        S=r'(?:struct |class )?'; SG=S+r'boost::signals2::connection (?:const)? ?&, |const '+S+r'boost::signals2::connection ?&, '
        R=[(r'(?:class )?\bboost::signals2::detail::signal2_impl<int, '+S+r'spec::Arg ?&, int(?:, [^<>]*)?>::slot_invoker\b','boost::signals2::detail::variadic_slot_invoker<int, spec::Arg&, int>'),
           (r'\b(bound_extended_slot_function_invoker|bound_extended_slot_function|weak_signal|slot|signal)[0-9](?=_impl\b|\b)',r'\1'),
           (r'(variadic_slot_invoker<int, spec::Arg&, int>)::slot_invoker\b',r'\1::variadic_slot_invoker'),
           (r'<int, ((?:'+SG+r')?'+S+r'spec::Arg ?&, (?:int|long)), ',r'<int (\1), ')]
        def tr(x):
            for a,b in R: x=re.sub(a,b,x)
            return x
        s.tr=tr
        for n,d in s.dem.items(): s.dem[n]=tr(d)
        s.L.t={tr(k):v for k,v in s.L.t.items()}
