"""Deductive verifier over LLVM IR: symbolic execution with contracts, loop invariants (Houdini over templates),
exceptions, private/public memory, lock and rely/guarantee support.  Obligations are discharged with z3."""
import re, time, sys, os
import z3
import ir
sys.setrecursionlimit(20000)
from z3 import Int, Bool, Real, And, Or, Not, Implies, If, IntVal, BoolVal, Select, Store, ForAll, Exists, Function, IntSort, BoolSort, RealSort, ArraySort, is_expr

class Unsupported(Exception): pass
class PathEnd(Exception): pass

_ctr=[0]
def fresh(name,sort='i'):
    _ctr[0]+=1
    n='%s!%d'%(name,_ctr[0])
    if not isinstance(sort,str): return z3.Const(n,sort)
    if sort=='i' or sort=='p': return Int(n)
    if sort=='b': return Bool(n)
    if sort=='r': return Real(n)
    if sort=='ai': return z3.Array(n,IntSort(),IntSort())
    if sort=='ab': return z3.Array(n,IntSort(),BoolSort())
    if isinstance(sort,z3.SortRef): return z3.Const(n,sort)
    raise Exception(sort)
def freshfun(name,*sorts):
    _ctr[0]+=1
    return Function('%s!%d'%(name,_ctr[0]),*sorts)

SUB=Function('sub',IntSort(),IntSort(),IntSort())   # address of a sub-object at a constant offset

class Obj:
    """identity of a private object"""
    __slots__=('id','name','size','heap','how','bcb','duse0')
    def __init__(s,id,name,size,heap): s.id=id;s.name=name;s.size=size;s.heap=heap
    def __repr__(s): return '&%s#%d'%(s.name,s.id)

class Ptr:
    """b: Obj | z3 Int | int 0 | ('g',name) | ('f',name) | other tagged base; off: int; st/ix: stride and symbolic index"""
    __slots__=('b','off','st','ix')
    def __init__(s,b,off=0,st=0,ix=0): s.b=b;s.off=off;s.st=st;s.ix=ix
    def __repr__(s): return 'Ptr(%r+%s%s)'%(s.b,s.off,'+%s*%s'%(s.st,s.ix) if s.st else '')
NULL=Ptr(0)
class PtrInt:
    __slots__=('p',)
    def __init__(s,p): s.p=p
class VT:  # vtable pointer of an object
    __slots__=('p','k')
    def __init__(s,p,k=0): s.p=p; s.k=k
class Packed:
    """bytes of an aggregate passed around in an integer register: (offset,size) -> value"""
    __slots__=('c',)
    def __init__(s,c): s.c=c
class Undef:
    def __repr__(s): return 'undef'
UNDEF=Undef()
class Tid:
    __slots__=('n',)
    def __init__(s,n): s.n=n
class Exc:
    """an exception in flight; n: type name ('any' = of unknown type, not derived from the named ones)"""
    __slots__=('n','obj')
    def __init__(s,n,obj=None): s.n=n;s.obj=obj
    def __repr__(s): return 'Exc(%s)'%s.n

def isz(x): return z3.is_expr(x)
def simp(x): return z3.simplify(x) if isz(x) else x
def mkb(x):
    """to python bool or z3 Bool"""
    if isinstance(x,bool): return x
    if isinstance(x,int): return x!=0
    if z3.is_true(x): return True
    if z3.is_false(x): return False
    if z3.is_bool(x): return x
    if z3.is_int(x):
        s=z3.simplify(x!=0)
        return mkb(s) if not (z3.is_bool(s) and not z3.is_true(s) and not z3.is_false(s)) else s
    raise Unsupported('bool of %r'%(x,))
def mki(x):
    if isinstance(x,bool): return 1 if x else 0
    if isinstance(x,int): return x
    if isz(x):
        if z3.is_bool(x): return If(x,IntVal(1),IntVal(0))
        if z3.is_int_value(x): return x.as_long()
        return x
    if x is UNDEF: return fresh('undef')
    raise Unsupported('int of %r'%(x,))
def zi(x):
    x=mki(x)
    return IntVal(x) if isinstance(x,int) else x
def zb(x):
    x=mkb(x)
    return BoolVal(x) if isinstance(x,bool) else x

class Frame:
    __slots__=('fn','env','blk','prev','i','call','loops','allocas')
    def __init__(s,fn): s.fn=fn;s.env={};s.blk=fn.entry;s.prev=None;s.i=0;s.call=None;s.loops={};s.allocas=()
    def copy(s):
        f=Frame.__new__(Frame); f.fn=s.fn;f.env=dict(s.env);f.blk=s.blk;f.prev=s.prev;f.i=s.i;f.call=s.call;f.loops=dict(s.loops);f.allocas=s.allocas
        return f

class St:
    def __init__(s):
        s.pc=[];s.frames=[];s.mem={};s.pub={};s.heap={};s.g={};s.locks=();s.exc=None;s.caught=();s.log=();s.trace=();s.att={}
    def fork(s):
        n=St.__new__(St)
        n.pc=list(s.pc);n.frames=[f.copy() for f in s.frames];n.mem={k:dict(v) for k,v in s.mem.items()};n.pub=dict(s.pub)
        n.heap=dict(s.heap);n.g=dict(s.g);n.locks=s.locks;n.exc=s.exc;n.caught=s.caught;n.log=s.log;n.trace=s.trace
        n.att=dict(s.att)
        return n
    def assume(s,*fs):
        for f in fs:
            if f is True: continue
            if isinstance(f,bool): f=BoolVal(f)
            if isz(f) and z3.is_true(f): continue
            s.pc.append(f)

class Engine:
    def __init__(self,mod,dem,spec,opts=None):
        self.M=mod; self.dem=dem; self.spec=spec
        self.base={n:ir.base_name(d) for n,d in dem.items()}
        self.opts=opts or {}
        self.quiet=0
        self.oblist=[]     # results
        self.wrlogs=[]
        self.ctls=[]
        self.topname=None
        self.nid=[0]
        self.tsolve=0.0; self.nq=0
        self.feas_ms=self.opts.get('feas_ms',60)
        self.ob_ms=self.opts.get('ob_ms',10000)
        self.steps=0
        self.deadline=None
        self.vts={}
        self.used_contracts=set(); self.used_icpt=set(); self.inlined=set(); self.unknown=set()
        self.nret=0; self.nthrow=0
        self.max_states=self.opts.get('max_states',4000)
        self.failed=False
        self.lastwhere=''

    def fork_outs(self,st,*conds):
        """one state per (cond, kind, value-or-function) alternative"""
        out=[]
        for c,kind,v in conds:
            c=zb(c)
            if z3.is_false(c): continue
            s=st.fork(); s.assume(c)
            if callable(v): v=v(s)
            out.append((s,kind,v))
        return Outs(out)
    def verify(self,fname,setup,post):
        """setup(eng,st,func) -> args ; post(eng,st,kind,val)"""
        self.topname=self.base.get(fname,fname)
        n0=len(self.oblist); t0=time.time()
        f=ir.getf(self.M,fname)
        st=St()
        res=dict(fn=self.dem.get(fname,fname),status='verified',why='')
        self.nret=self.nthrow=0
        try:
            args=setup(self,st,f)
            self.pre_ok=self.check(st,[],3000)[0]!=z3.unsat
            fr=self.call_function(st,fname,args)
            fr.call=None
            for kind,s,v in self.explore(st,1):
                if kind=='ret': self.nret+=1
                else: self.nthrow+=1
                s.frames=[]
                self.endkind=kind
                try: post(self,s,kind,v)
                except PathEnd: pass
            if not self.pre_ok: res.update(status='vacuous',why='precondition unsatisfiable')
        except Unsupported as e:
            res.update(status='unsupported',why=str(e)+' @ '+(self.where(self.lastst[0])+' : '+self.lastst[1].txt.strip()[:150] if getattr(self,'lastst',None) else ''))
        except RecursionError:
            res.update(status='unsupported',why='recursion limit')
        except Exception as e:
            import traceback
            res.update(status='error',why='%s: %s'%(type(e).__name__,str(e)[:300])+' '+traceback.format_exc()[-600:])
        obs=self.oblist[n0:]
        if any(not o['ok'] for o in obs): res.update(status='failed')
        elif res['status']=='verified' and self.nret+self.nthrow==0: res.update(status='vacuous',why='no path returns')
        res.update(obligations=len(obs),proved=sum(1 for o in obs if o['ok']),time=round(time.time()-t0,2),returns=self.nret,throws=self.nthrow)
        return res

    # ------------------------------------------------------------ solver
    def solver(self,ms,mbqi=False):
        s=z3.SimpleSolver()
        s.set('rlimit',ms*4000); s.set('timeout',ms*10)   # deterministic limit; the wall clock one is only a safety net
        if not mbqi:
            s.set('smt.mbqi',False); s.set('auto_config',False)
        return s
    def check(self,st,extra,ms,mbqi=False,retry=False):
        t=time.time()
        s=self.solver(ms,mbqi)
        for a in self.spec.axioms: s.add(a)
        for f in st.pc: s.add(f)
        for f in extra: s.add(f)
        r=s.check()
        if r==z3.unknown and retry:
            # instantiation depends on the numbering of terms: once more in a context of its own
            c=z3.Context(); s2=z3.SimpleSolver(ctx=c)
            s2.set('rlimit',ms*4000); s2.set('timeout',ms*10); s2.set('smt.mbqi',False); s2.set('auto_config',False)
            s2.from_string(s.to_smt2())
            if s2.check()==z3.unsat: r=z3.unsat; self.nretry=getattr(self,'nretry',0)+1
        self.tsolve+=time.time()-t; self.nq+=1
        return r,s
    def feasible(self,st,f):
        if f is True: return True
        if f is False: return False
        r,_=self.check(st,[f],self.feas_ms)
        return r!=z3.unsat
    def valid(self,st,f,ms=None,retry=False):
        f=zb(f)
        if z3.is_true(f): return True
        f2=z3.simplify(f)
        if z3.is_true(f2): return True
        r,_=self.check(st,[Not(f)],ms or 1000,retry=retry)
        return r==z3.unsat
    def oblige(self,st,name,f,tag=None):
        """proof obligation; assumed afterwards"""
        f=zb(f)
        if self.quiet:
            st.assume(f); return True
        if self.deadline and time.time()>self.deadline: raise Unsupported('time budget of the function exhausted')
        tags=tag if isinstance(tag,(set,tuple,list)) else (tag,) if tag else ()
        if self.opts.get('tags') and tags and not (set(tags)&set(self.opts['tags'])):
            # decided by the check of another property: assumed here, unless that would end the path
            if not z3.is_false(z3.simplify(f)): st.assume(f)
            return True
        t=time.time()
        ok=False; why=''
        if z3.is_true(f) or z3.is_true(z3.simplify(f)): ok=True; why='simplify'
        else:
            r,s=self.check(st,[Not(f)],self.ob_ms,retry=True)
            ok=r==z3.unsat
            why='z3'
            if ok and self.opts.get('dump') is not None: self.opts['dump'](self,st,f,name)
            if not ok:
                why='%s (%s)'%(r,s.reason_unknown() if r==z3.unknown else 'countermodel')
                if self.opts.get('debug'):
                    self.dbg_fail(st,name,f,s,r)
        self.oblist.append(dict(fn=self.topname,name=name,ok=ok,why=why,t=round(time.time()-t,3),tag=tags,
            where=self.where(st),trace=None if ok else ' > '.join(st.trace[-40:]),form=None if ok else str(z3.simplify(f))[:1500]))
        if not ok: self.failed=True
        st.assume(f)
        return ok
    def dbg_fail(self,st,name,f,s,r):
        print('FAILED',self.topname,name,r,self.where(st))
        print('   formula',str(z3.simplify(f))[:600])
        print('   trace',' > '.join(st.trace[-30:]))
        if self.opts.get('debug')>1:
            for x in st.pc: print('     pc',str(x)[:400].replace('\n',' '))
            if r==z3.sat: print(s.model())
    def fail(self,st,name,why='',tag=None):
        if self.quiet: return
        tags=tag if isinstance(tag,(set,tuple,list)) else (tag,) if tag else ()
        if self.opts.get('tags') and tags and not (set(tags)&set(self.opts['tags'])): return
        if not self.feasible(st,BoolVal(True)): 
            self.oblist.append(dict(fn=self.topname,name=name,ok=True,why='unreachable',t=0,tag=tags,where=self.where(st),trace=None,form=None))
            return
        self.failed=True
        if self.opts.get('debug'): 
            print('FAILED(reach)',self.topname,name,why,self.where(st),' > '.join(st.trace[-30:]))
            if self.opts.get('debug')>1:
                for x in st.pc: print('     pc',str(x)[:400].replace('\n',' '))
        self.oblist.append(dict(fn=self.topname,name=name,ok=False,why=why or 'reachable',t=0,tag=tags,where=self.where(st),trace=' > '.join(st.trace[-40:]),form=None))
    def where(self,st):
        if not st.frames: return ''
        fr=st.frames[-1]
        return '%s:%s'%(self.base.get(fr.fn.name,fr.fn.name),fr.blk)

    # ------------------------------------------------------------ memory
    def newobj(self,st,name,size,heap=False):
        self.nid[0]+=1
        o=Obj(self.nid[0],name,size,heap)
        st.mem[o.id]={}
        return o
    def wlog(self,key):
        for w in self.wrlogs: w.add(key)
    def norm(self,st,p):
        """resolve published objects; returns Ptr whose base is Obj (private) or ref"""
        if isinstance(p.b,Obj) and p.b.id in st.pub:
            return Ptr(st.pub[p.b.id],p.off,p.st,p.ix)
        return p
    def ref(self,st,p,publish=True):
        """Int term for a pointer (publishes private objects)"""
        if p is UNDEF: return fresh('undefp')
        if isinstance(p,(VT,)): return fresh('vptr')
        if isinstance(p,(int,)) or isz(p): return zi(p)
        p=self.norm(st,p)
        if isinstance(p.b,Obj):
            if not publish: raise Unsupported('ref of private %r'%p)
            self.publish(st,p.b)
            p=self.norm(st,p)
        if isinstance(p.b,tuple):
            return self.spec.tagref(self,st,p)
        b=p.b
        if p.st and not (isinstance(p.ix,int) and p.ix==0): raise Unsupported('ref of indexed pointer')
        if p.off: return SUB(zi(b),IntVal(p.off))
        return zi(b)
    def unref(self,r):
        """pointer for an Int term"""
        if isinstance(r,int): return Ptr(r)
        if z3.is_int_value(r): return Ptr(r.as_long())
        if r.decl().eq(SUB): return Ptr(r.arg(0),r.arg(1).as_long())
        return Ptr(r)
    def publish(self,st,o,typ=None):
        if o.id in st.pub: return st.pub[o.id]
        r=self.spec.alloc_ref(self,st,o)
        st.pub[o.id]=r
        self.wlog(('pub',o.id))
        cells=st.mem.pop(o.id,{})
        self.spec.on_publish(self,st,o,r,cells)
        for (off,size),v in sorted(cells.items(),key=lambda kv:kv[0]):
            self.hstore(st,Ptr(r,off),v,size)
        return r
    def harr(self,st,off,kind):
        k=(off,kind)
        if k not in st.heap: st.heap[k]=z3.Array('H0_%d_%s'%k,IntSort(),IntSort())
        return st.heap[k]
    def hstore(self,st,p,v,size):
        if p.st and not (isinstance(p.ix,int) and p.ix==0): raise Unsupported('indexed public store')
        if isinstance(v,(Ptr,VT)) or (v is UNDEF and size==8):
            k=(p.off,'p'); r=self.ref(st,v)
        elif isinstance(v,PtrInt): k=(p.off,'p'); r=self.ref(st,v.p)
        else:
            k=(p.off,'i'); r=zi(v)
        st.heap[k]=Store(self.harr(st,*k),zi(p.b),r)
        self.wlog(('h',)+k)
    def hload(self,st,p,t):
        if p.st and not (isinstance(p.ix,int) and p.ix==0): raise Unsupported('indexed public load')
        if t.k=='ptr':
            v=z3.simplify(Select(self.harr(st,p.off,'p'),zi(p.b)))
            self.spec.on_load_ref(self,st,p,v)
            return self.unref(v)
        v=z3.simplify(Select(self.harr(st,p.off,'i'),zi(p.b)))
        if z3.is_int_value(v): return v.as_long()
        return v
    def load(self,st,p,t,name=''):
        if not isinstance(p,Ptr): 
            if isinstance(p,VT): # vtable slot
                return p
            raise Unsupported('load through %r'%(p,))
        p=self.norm(st,p)
        if isinstance(p.b,int) and p.b==0:
            self.fail(st,'null pointer dereference (load)',tag=self.spec.TAG_SAFE); raise PathEnd()
        if isinstance(p.b,tuple):
            return self.spec.tagload(self,st,p,t,name)
        if isinstance(p.b,Obj):
            if p.b.id not in st.mem: 
                self.fail(st,'access to destroyed object %r'%p.b,tag=self.spec.TAG_SAFE); raise PathEnd()
            cells=st.mem[p.b.id]
            if p.b.id in self.spec.watched: self.spec.obj_access(self,st,p,False)
            if p.st and not(isinstance(p.ix,int) and p.ix==0): raise Unsupported('indexed private load')
            sz=self.M.size(t)
            v=cells.get((p.off,sz))
            if v is None and self.M.res(t).k=='struct' and any(p.off<=o<p.off+sz for o,z in cells):
                tt=self.M.res(t); return [self.load(st,Ptr(p.b,p.off+o),x) for o,x in zip(self.M.layout(tt)[0],tt.e)]
            if v is None and t.k=='int':
                part={(o-p.off,z):x for (o,z),x in cells.items() if p.off<=o and o+z<=p.off+sz}
                if part: return Packed(part)
                if any(o<p.off+sz and p.off<o+z for (o,z) in cells): raise Unsupported('partial load of a wider cell')
            if v is None:
                v=self.spec.uninit(self,st,p,t,sz)
                if v is None:
                    v=UNDEF
                else: cells[(p.off,sz)]=v
            if t.k=='ptr' and isinstance(v,int): return self.unref(v)
            if t.k=='ptr' and isz(v): return self.unref(v)
            return v
        if self.opts.get('nullcheck',True) and isz(p.b) and not z3.is_int_value(p.b):
            if not self.spec.known_nonnull(self,st,p.b):
                self.oblige(st,'non-null pointer on load',p.b!=0,tag=self.spec.TAG_SAFE)
        self.spec.on_access(self,st,p,t,False)
        if name.startswith('vtable') and t.k=='ptr': return VT(p)
        return self.hload(st,p,t)
    def store(self,st,p,v,t):
        if not isinstance(p,Ptr): raise Unsupported('store through %r'%(p,))
        p=self.norm(st,p)
        if isinstance(p.b,int) and p.b==0:
            self.fail(st,'null pointer dereference (store)',tag=self.spec.TAG_SAFE); raise PathEnd()
        sz=self.M.size(t)
        if isinstance(p.b,tuple): return self.spec.tagstore(self,st,p,v,t)
        if isinstance(p.b,Obj):
            if p.b.id not in st.mem:
                self.fail(st,'access to destroyed object %r'%p.b,tag=self.spec.TAG_SAFE); raise PathEnd()
            if p.st and not(isinstance(p.ix,int) and p.ix==0): raise Unsupported('indexed private store')
            if p.b.id in self.spec.watched: self.spec.obj_access(self,st,p,True)
            cells=st.mem[p.b.id]
            if isinstance(v,list):
                offs=self.M.layout(t)[0]; tt=self.M.res(t)
                for i,(o,e) in enumerate(zip(offs,tt.e)): self.store(st,Ptr(p.b,p.off+o),v[i],e)
                return
            if isinstance(v,Packed):
                for (o,z),x in v.c.items():
                    cells[(p.off+o,z)]=x; self.wlog(('m',p.b.id,p.off+o,z))
                return
            cells[(p.off,sz)]=v
            self.wlog(('m',p.b.id,p.off,sz))
            return
        if self.opts.get('nullcheck',True) and isz(p.b) and not z3.is_int_value(p.b):
            if not self.spec.known_nonnull(self,st,p.b):
                self.oblige(st,'non-null pointer on store',p.b!=0,tag=self.spec.TAG_SAFE)
        self.spec.on_access(self,st,p,t,True)
        self.hstore(st,p,v,sz)
    def memcpy(self,st,d,s,n,name=''):
        d=self.norm(st,d); s=self.norm(st,s)
        if self.spec.range_copy(self,st,d,s,n,name): return
        if not isinstance(n,int): raise Unsupported('memcpy symbolic')
        if isinstance(s.b,Obj) :
            src={k:v for k,v in st.mem[s.b.id].items() if s.off<=k[0]<s.off+n}
            for (o,sz),v in src.items():
                t=ir.T('ptr') if isinstance(v,(Ptr,VT,PtrInt)) else ir.T('int',sz*8)
                self.store(st,Ptr(d.b,d.off+o-s.off),v,t)
            return
        # from public memory: copy pointer sized words by known record layout
        for (o,kind) in self.spec.copy_layout(self,st,s,n):
            t=ir.T('ptr') if kind=='p' else ir.T('int',64)
            v=self.load(st,Ptr(s.b,s.off+o),t)
            self.store(st,Ptr(d.b,d.off+o),v,t)

    # ------------------------------------------------------------ values
    def val(self,st,fr,v,t=None):
        k=v[0]
        if k=='r': return fr.env[v[1]]
        if k=='i': return v[1]
        if k=='null': return NULL
        if k=='undef':
            if t is not None and self.M.res(t).k=='struct': return [UNDEF]*len(self.M.res(t).e)
            return UNDEF
        if k=='g':
            n=v[1]
            if n in self.M.funcs or n in self.M.decls: return Ptr(('f',n))
            return Ptr(('g',n))
        if k=='zero':
            if t is not None:
                tt=self.M.res(t)
                if tt.k=='ptr': return NULL
                if tt.k=='int': return 0
                if tt.k in('struct',): return [self.val(st,fr,('zero',),e) for e in tt.e]
            return 0
        if k=='ce':
            if v[1]=='gep':
                return self.gep(st,v[2],[(tt,self.val(st,fr,x,tt)) for tt,x in v[3]])
            if v[1]=='cast': return self.val(st,fr,v[4],v[3])
        if k=='agg': return [self.val(st,fr,x,tt) for tt,x in v[1]]
        if k=='md': return None
        raise Unsupported('value %r'%(v,))
    def gep(self,st,t,ops):
        p=ops[0][1]
        if isinstance(p,VT):
            ix=ops[1][1]
            if isinstance(ix,int): return VT(p.p,p.k+ix*(self.M.size(t)//8 if self.M.size(t)>=8 else 1) if self.M.size(t)>=8 else ('b',ix))
            raise Unsupported('vtable gep')
        if p is UNDEF: return UNDEF
        if not isinstance(p,Ptr): raise Unsupported('gep on %r'%(p,))
        b,off,sd,ix=p.b,p.off,p.st,p.ix
        cur=t
        for n,(tt,i) in enumerate(ops[1:]):
            if n==0:
                sz=self.M.size(t); 
            else:
                c=self.M.res(cur)
                if c.k=='struct':
                    i=mki(i); off+=self.M.layout(c)[0][i]; cur=c.e[i]; continue
                elif c.k=='array': cur=c.e; sz=self.M.size(cur)
                else: raise Unsupported('gep into %r'%c)
            i=mki(i)
            if isinstance(i,int):
                if i==0: continue
                if sd and sz==sd: ix=simp(ix+i); ix=mki(ix)
                elif sd==0 and not isinstance(b,Obj) and isinstance(b,tuple) and b[0]=='arr': sd=sz; ix=i
                else: off+=i*sz
            else:
                if sd==0:
                    # fold constant part when divisible
                    if off%sz==0 and isinstance(b,tuple) and b[0]=='arr': ix=off//sz+i; off=0
                    else: ix=i
                    sd=sz
                elif sd==sz: ix=mki(z3.simplify(zi(ix)+i))
                else: raise Unsupported('gep strides %s %s'%(sd,sz))
        if sd and isinstance(ix,int) and not (isinstance(b,tuple) and b[0]=='arr'): off+=sd*ix; sd=0; ix=0
        return Ptr(b,off,sd,ix)
    def ptreq(self,st,a,b):
        if a is b: return True
        if a is UNDEF or b is UNDEF: return fresh('undefcmp','b')
        if not isinstance(a,Ptr) or not isinstance(b,Ptr):
            if isinstance(a,(int,)) : a=self.unref(a)
            if isinstance(b,(int,)) : b=self.unref(b)
            if isz(a): a=self.unref(a)
            if isz(b): b=self.unref(b)
        if not isinstance(a,Ptr) or not isinstance(b,Ptr): raise Unsupported('compare %r %r'%(a,b))
        a=self.norm(st,a); b=self.norm(st,b)
        oa=isinstance(a.b,Obj); ob=isinstance(b.b,Obj)
        if oa and ob and a.b is not b.b: return False
        if isinstance(a.b,tuple) or isinstance(b.b,tuple):
            if isinstance(a.b,tuple) and isinstance(b.b,tuple):
                if a.b[0]!=b.b[0]: return False
                r=self.spec.tageq(self,st,a,b)
                if r is not None: return r
                if a.b is not b.b and a.b!=b.b: return False
            else:
                t,u=(a,b) if isinstance(a.b,tuple) else (b,a)
                r=self.spec.tageq1(self,st,t,u)
                if r is not None: return r
                return False
        elif oa!=ob:
            return False
        def addr(p):
            x=p.off
            if p.st: x=x+p.st*zi(p.ix) if not isinstance(p.ix,int) else x+p.st*p.ix
            return x
        if (oa and ob) or isinstance(a.b,tuple):
            if a.st and b.st and a.st==b.st and a.off==b.off: r=zi(a.ix)==zi(b.ix)
            else: r=zi(addr(a))==zi(addr(b))
            return mkb(z3.simplify(r))
        if a.off==b.off and not a.st and not b.st: return mkb(z3.simplify(zi(a.b)==zi(b.b)))
        return mkb(z3.simplify(self.ref(st,a)==self.ref(st,b)))
    def ptrdiff(self,st,a,b):
        a=self.norm(st,a); b=self.norm(st,b)
        same = a.b is b.b or (isinstance(a.b,tuple) and isinstance(b.b,tuple) and a.b==b.b) or (isz(a.b) and isz(b.b) and a.b.eq(b.b)) or (isinstance(a.b,tuple) and isinstance(b.b,tuple) and self.spec.samebase(self,st,a,b))
        if not same:
            if isz(a.b) and isz(b.b) and self.valid(st,a.b==b.b): pass
            else: raise Unsupported('ptrdiff %r %r'%(a,b))
        d=a.off-b.off
        ia=(a.st*zi(a.ix)) if a.st else 0
        ib=(b.st*zi(b.ix)) if b.st else 0
        r=d+ia-ib
        return mki(z3.simplify(r)) if isz(r) else r

    # ------------------------------------------------------------ execution
    def call_function(self,st,fname,args):
        """push a frame for fname"""
        f=ir.getf(self.M,fname)
        fr=Frame(f)
        for (t,n,a),v in zip(f.params,args): fr.env[n]=v
        st.frames.append(fr)
        return fr
    def explore(self,st,depth):
        """run st until its frame stack is shorter than depth; yields ('ret',st,val)/('throw',st,exc)"""
        work=[st]; n=0
        while work:
            s=work.pop()
            if isinstance(s,tuple): yield s; continue
            n+=1
            if n>self.max_states: raise Unsupported('too many paths')
            if self.deadline and time.time()>self.deadline: raise Unsupported('time budget of the function exhausted')
            try:
                while True:
                    r=self.step(s,work)
                    if r is not None: yield r; break
                    if len(s.frames)<depth: break
            except PathEnd: pass
    def step(self,st,work):
        fr=st.frames[-1]
        ins=fr.fn.blocks[fr.blk][fr.i]
        self.steps+=1
        self.lastwhere=self.where(st)+': '+ins.txt[:120] if self.opts.get('verbose_where') else ''
        self.lastst=(st,ins)
        op=ins.op; a=ins.a
        V=lambda v,t=None: self.val(st,fr,v,t)
        if op=='load':
            fr.env[ins.r]=self.load(st,V(a[1]),a[0],ins.r)
            if self.M.res(a[0]).k=='int' and self.M.res(a[0]).n==1: fr.env[ins.r]=mkb(fr.env[ins.r])
        elif op=='store':
            self.store(st,V(a[2]),V(a[1],a[0]),a[0])
        elif op=='gep':
            fr.env[ins.r]=self.gep(st,a[0],[(t,V(x,t)) for t,x in a[1]])
        elif op=='alloca':
            sz=self.M.size(a[0])
            o=self.newobj(st,ins.r,sz)
            fr.allocas+=(o.id,)
            st.att[('ty',o.id)]=a[0]
            fr.env[ins.r]=Ptr(o)
        elif op in('call','invoke'):
            return self.docall(st,fr,ins,work)
        elif op=='jmp':
            self.jump(st,a[0]); return None
        elif op=='br':
            c=mkb(V(a[0])) if V(a[0]) is not UNDEF else fresh('undefbr','b')
            if isz(c): c=mkb(z3.simplify(c))
            if isinstance(c,bool): self.jump(st,a[1] if c else a[2]); return None
            self.probe_symbolic(st)
            f1=self.feasible(st,c); f2=self.feasible(st,Not(c))
            if f1 and f2:
                o=st.fork(); o.assume(Not(c)); o.trace+=('!'+a[2],)
                try:
                    self.jump(o,a[2]); work.append(o)
                except PathEnd: pass
                st.assume(c); st.trace+=(a[1],); self.jump(st,a[1])
            elif f1: st.assume(c); self.jump(st,a[1])
            elif f2: st.assume(Not(c)); self.jump(st,a[2])
            else: raise PathEnd()
            return None
        elif op=='switch':
            v=mki(V(a[1]))
            if isinstance(v,int):
                for c,l in a[3]:
                    if c==v: self.jump(st,l); return None
                self.jump(st,a[2]); return None
            self.probe_symbolic(st)
            outs=[(v==c,l) for c,l in a[3]]+[(And(*[v!=c for c,l in a[3]]),a[2])]
            live=[(c,l) for c,l in outs if self.feasible(st,c)]
            if not live: raise PathEnd()
            for c,l in live[1:]:
                o=st.fork(); o.assume(c); o.trace+=('sw:'+l,)
                try: self.jump(o,l); work.append(o)
                except PathEnd: pass
            st.assume(live[0][0]); self.jump(st,live[0][1])
            return None
        elif op=='ret':
            v=None if a[1] is None else V(a[1],a[0])
            return self.do_return(st,v)
        elif op=='icmp':
            fr.env[ins.r]=self.icmp(st,a[0],a[1],V(a[2],a[1]),V(a[3],a[1]))
        elif op=='bin':
            fr.env[ins.r]=self.binop(st,a[0],a[1],V(a[2]),V(a[3]))
        elif op=='cast':
            fr.env[ins.r]=self.cast(st,a[0],a[1],V(a[2],a[1]),a[3])
        elif op=='phi':
            # evaluate all phis of the block simultaneously
            vals=[]; k=fr.i
            while fr.fn.blocks[fr.blk][k].op=='phi':
                p=fr.fn.blocks[fr.blk][k]
                for v,l in p.a[1]:
                    if l==fr.prev: vals.append((p.r,self.val(st,fr,v,p.a[0]) if not(v[0]=='i' and p.a[0].k=='int' and p.a[0].n==1) else bool(v[1]))); break
                else: raise Unsupported('phi')
                k+=1
            for r,v in vals: fr.env[r]=v
            fr.i=k; return None
        elif op=='select':
            c=mkb(V(a[0])); x=V(a[1]); y=V(a[2])
            if isinstance(c,bool): fr.env[ins.r]=x if c else y
            elif isinstance(x,Ptr) or isinstance(y,Ptr):
                if self.valid(st,c): fr.env[ins.r]=x
                elif self.valid(st,Not(c)): fr.env[ins.r]=y
                else:
                    o=st.fork(); o.assume(Not(c)); o.frames[-1].env[ins.r]=y; o.frames[-1].i+=1; work.append(o)
                    st.assume(c); fr.env[ins.r]=x
            else:
                if isinstance(x,bool) or isinstance(y,bool) or (isz(x) and z3.is_bool(x)): fr.env[ins.r]=If(c,zb(x),zb(y))
                else: fr.env[ins.r]=If(c,zi(x),zi(y))
        elif op=='extractvalue':
            v=V(a[0])
            for i in a[1]: v=v[i] if isinstance(v,list) else UNDEF
            fr.env[ins.r]=v
        elif op=='insertvalue':
            v=V(a[1],a[0]); v=list(v) if isinstance(v,list) else [UNDEF]*len(self.M.res(a[0]).e)
            if len(a[3])!=1: raise Unsupported('insertvalue')
            v[a[3][0]]=V(a[2]); fr.env[ins.r]=v
        elif op=='landingpad':
            fr.env[ins.r]=self.landing(st,a[0])
        elif op=='resume':
            v=V(a[0]); v=v[0] if isinstance(v,list) else v
            if isinstance(v,Ptr) and isinstance(v.b,tuple) and v.b[0]=='exc': st.exc=v.b[1]      # another exception may have come and gone during the clean up
            else: raise Unsupported('resume of %r'%(v,))
            return self.unwind(st)
        elif op=='unreachable':
            raise PathEnd()
        else: raise Unsupported('instruction %s'%ins.txt)
        fr.i+=1
        return None
    def do_return(self,st,v):
        fr=st.frames.pop()
        for i in fr.allocas:
            st.mem.pop(i,None)
        if not st.frames or fr.call is None: return ('ret',st,v)
        self.after_call(st,fr.call,v)
        return None
    def after_call(self,st,ins,v):
        fr=st.frames[-1]
        if ins.r is not None: fr.env[ins.r]=v
        if ins.op=='invoke': self.jump(st,ins.a[3])
        else: fr.i+=1
    def unwind(self,st):
        """propagate st.exc out of the current frame"""
        while True:
            fr=st.frames.pop()
            for i in fr.allocas: st.mem.pop(i,None)
            if not st.frames or fr.call is None: return ('throw',st,st.exc)
            if fr.call.op=='invoke':
                self.jump(st,fr.call.a[4]); return None
    def raise_in(self,st,ins,exc):
        """a call instruction in the top frame throws"""
        st.exc=exc
        st.trace+=('throw',)
        if ins.op=='invoke': self.jump(st,ins.a[4]); return None
        return self.unwind(st)
    def landing(self,st,clauses):
        e=st.exc
        for k,v in clauses:
            if k=='cleanup': continue
            if k=='catch':
                if v is None or v[0] in('null',): return [Ptr(('exc',e)),Tid('*')]
                n=v[1] if v[0]=='g' else str(v)
                if self.spec.catches(self,n,e): return [Ptr(('exc',e)),Tid(n)]
        return [Ptr(('exc',e)),Tid(None)]
    def icmp(self,st,pr,t,x,y):
        if isinstance(x,Tid) or isinstance(y,Tid):
            r=isinstance(x,Tid) and isinstance(y,Tid) and x.n==y.n
            return r if pr=='eq' else not r
        if t.k=='ptr' or isinstance(x,(Ptr,VT)) or isinstance(y,(Ptr,VT)):
            if isinstance(x,VT) or isinstance(y,VT): raise Unsupported('vtable compare')
            if pr in('eq','ne'):
                r=self.ptreq(st,x,y)
                if pr=='ne': r=(not r) if isinstance(r,bool) else Not(r)
                return r
            try: d=self.ptrdiff(st,x,y)
            except Unsupported: d=self.spec.addr(self,st,x)-self.spec.addr(self,st,y)
            return self.icmp(st,pr.replace('u','s'),ir.T('int',64),d,0)
        if isinstance(x,PtrInt) and isinstance(y,PtrInt): return self.icmp(st,pr,ir.T('ptr'),x.p,y.p)
        if (t.k=='int' and t.n==1) or (isz(x) and z3.is_bool(x) and isz(y) and z3.is_bool(y)):
            bx,by=mkb(x),mkb(y)
            if isinstance(bx,bool) and isinstance(by,bool): r=bx==by
            else: r=zb(bx)==zb(by)
            if pr=='eq': return mkb(z3.simplify(r)) if isz(r) else r
            if pr=='ne': return mkb(z3.simplify(Not(r))) if isz(r) else not r
        x=mki(x); y=mki(y)
        if isinstance(x,int) and isinstance(y,int):
            if pr[0]=='u' and (x<0 or y<0): x%=1<<t.n; y%=1<<t.n
            return {'eq':x==y,'ne':x!=y,'lt':x<y,'gt':x>y,'le':x<=y,'ge':x>=y}[pr if pr in('eq','ne') else pr[1:]]
        f={'eq':lambda:x==y,'ne':lambda:x!=y,'lt':lambda:x<y,'gt':lambda:x>y,'le':lambda:x<=y,'ge':lambda:x>=y}[pr if pr in('eq','ne') else pr[1:]]()
        # unsigned comparison against negative numbers does not arise under the no-wrap assumption
        return mkb(z3.simplify(f))
    def binop(self,st,o,t,x,y):
        if isinstance(x,PtrInt) and isinstance(y,PtrInt) and o=='sub': return self.ptrdiff(st,x.p,y.p)
        if t.k=='int' and t.n==1:
            x,y=mkb(x),mkb(y)
            if o=='and': r=(x and y) if isinstance(x,bool) and isinstance(y,bool) else And(zb(x),zb(y))
            elif o=='or': r=(x or y) if isinstance(x,bool) and isinstance(y,bool) else Or(zb(x),zb(y))
            elif o=='xor': r=(x!=y) if isinstance(x,bool) and isinstance(y,bool) else z3.Xor(zb(x),zb(y))
            else: raise Unsupported('i1 '+o)
            return mkb(z3.simplify(r)) if isz(r) else r
        if isinstance(x,(PtrInt,Ptr,VT)) or isinstance(y,(PtrInt,Ptr,VT)):
            return self.spec.ptrarith(self,st,o,x,y)
        if x is UNDEF or y is UNDEF: return UNDEF
        if o in('and','or','xor') and isz(x) and z3.is_bool(x) and isz(y) and z3.is_bool(y):
            return {'and':And,'or':Or,'xor':z3.Xor}[o](x,y)
        if o=='and' and isinstance(y,int) and y==1 and ((isz(x) and z3.is_bool(x)) or isinstance(x,bool)): return x
        if o=='xor' and isinstance(y,int) and y==1 and isz(x) and z3.is_bool(x): return Not(x)
        x=mki(x); y=mki(y)
        c=isinstance(x,int) and isinstance(y,int)
        if o=='add': r=x+y
        elif o=='sub': r=x-y
        elif o=='mul': r=x*y
        elif o in('sdiv','udiv'):
            if c: r=abs(x)//abs(y)*(1 if (x<0)==(y<0) else -1)
            elif isinstance(y,int) and y>0:
                # exact division of a multiple (pointer difference)
                q=self.divexact(x,y)
                r=q if q is not None else z3.simplify(x/y)
            else: raise Unsupported('div')
        elif o in('srem','urem') and isinstance(y,int) and y>0: r=x%y
        elif o=='shl' and isinstance(y,int): r=x*(1<<y)
        elif o in('lshr','ashr') and isinstance(y,int): r=x>>y if c else self.spec.bits(self,st,o,x,y)
        elif c and o in('and','or','xor'): r={'and':x&y,'or':x|y,'xor':x^y}[o]
        elif o=='xor' and isinstance(y,int) and y==-1: r=-x-1
        else: r=self.spec.bits(self,st,o,x,y)
        return mki(z3.simplify(r)) if isz(r) else r
    def divexact(self,x,y):
        x=z3.simplify(x)
        def div(e):
            if z3.is_int_value(e):
                v=e.as_long(); return IntVal(v//y) if v%y==0 else None
            if z3.is_add(e):
                p=[div(c) for c in e.children()]
                return None if any(q is None for q in p) else z3.Sum(p)
            if z3.is_mul(e):
                ch=e.children()
                if z3.is_int_value(ch[0]) and ch[0].as_long()%y==0:
                    k=ch[0].as_long()//y; r=ch[1]
                    for c in ch[2:]: r=r*c
                    return k*r
            return None
        r=div(x)
        return z3.simplify(r) if r is not None else None
    def cast(self,st,o,t,v,t2):
        if o in('ptrtoint',): return PtrInt(v)
        if o=='inttoptr':
            if isinstance(v,PtrInt): return v.p
            if isinstance(v,Ptr): return v
            if isinstance(v,int): return Ptr(v)
            if isinstance(v,VT): return v
            raise Unsupported('inttoptr %r'%(v,))
        if isinstance(v,(Ptr,VT,PtrInt,Packed)): return v
        if o=='trunc':
            if t2.n==1: 
                if v is UNDEF: return fresh('undefb','b')
                return mkb(v) if not isinstance(v,int) or isinstance(v,bool) else bool(v&1)
            if isinstance(v,int) and not isinstance(v,bool): return v%(1<<t2.n) if not -(1<<(t2.n-1))<=v<(1<<t2.n) else v
            if self.spec.NARROW and isz(v) and not z3.is_bool(v):      # what is kept of a number that does not fit
                r=fresh('tr'); q=fresh('cut'); st.assume(r>=0,r<(1<<t2.n),v==q*(1<<t2.n)+r); return r
            return v
        if o in('zext','sext'):
            if t.n==1:
                return v if not isinstance(v,bool) else (1 if o=='zext' else -1) if v else 0
            if o=='sext' and isz(v) and z3.is_const(v) and str(v).startswith('tr!'): return If(v>=(1<<(t.n-1)),v-(1<<t.n),v)
            return v
        if o=='bitcast': return v
        raise Unsupported('cast '+o)

    # ------------------------------------------------------------ calls
    def docall(self,st,fr,ins,work):
        callee=ins.a[1]
        cv=self.val(st,fr,callee)
        args=[self.val(st,fr,v,t) for t,v in ins.a[2]]
        if isinstance(cv,VT):
            return self.dispatch(st,ins,self.spec.virtual(self,st,cv,args),args,work)
        if not isinstance(cv,Ptr) or not isinstance(cv.b,tuple) or cv.b[0]!='f':
            r=self.spec.indirect(self,st,cv,args,ins)
            if isinstance(r,str): return self.dispatch(st,ins,r,args,work)
            return self.finish_call(st,ins,r,work)
        return self.dispatch(st,ins,cv.b[1],args,work)
    def dispatch(self,st,ins,name,args,work):
        if not isinstance(name,str):   # outcome already
            return self.finish_call(st,ins,name,work)
        if name.startswith('llvm.'):
            return self.finish_call(st,ins,self.intrinsic(st,name,args),work)
        bn=self.base.get(name,name)
        h=self.spec.lookup(self,st,name,bn,args)
        if h is not None:
            kind,fn=h
            (self.used_contracts if kind=='contract' else self.used_icpt).add(bn)
            r=fn(self,st,args,ins,name)
            if r is not INLINE:
                return self.finish_call(st,ins,r,work)
        if name in self.M.funcs:
            self.inlined.add(bn)
            nfr=self.call_function(st,name,args)
            nfr.call=ins
            if len(st.frames)>120: raise Unsupported('recursion')
            return None
        r=self.spec.unknown_call(self,st,name,bn,args,ins)
        return self.finish_call(st,ins,r,work)
    def finish_call(self,st,ins,r,work):
        """r: value | Outs"""
        if isinstance(r,Outs):
            for (s,kind,v) in r.l:
                try:
                    rr=self.fin1(s,ins,kind,v)
                    work.append(s if rr is None else rr)
                except PathEnd: pass
            raise PathEnd()
        self.after_call(st,ins,r)
        return None
    def fin1(self,st,ins,kind,v):
        if kind=='ret':
            self.after_call(st,ins,v); return None
        return self.raise_in(st,ins,v)
    def intrinsic(self,st,name,args):
        if name.startswith('llvm.eh.typeid.for'):
            p=args[0]; return Tid(p.b[1] if isinstance(p.b,tuple) else str(p))
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            self.memcpy(st,args[0],args[1],mki(args[2]),name); return None
        if name.startswith('llvm.memset'):
            n=mki(args[2])
            if isinstance(n,int) and n%8==0 and isinstance(args[0],Ptr) :
                for k in range(n//8): self.store(st,Ptr(args[0].b,args[0].off+8*k),0,ir.T('int',64))
            return None
        if name.startswith('llvm.dbg') or 'noalias.scope' in name or name.startswith('llvm.lifetime') or name.startswith('llvm.assume') or name.startswith('llvm.stack') : return None
        if name.startswith('llvm.umax') or name.startswith('llvm.smax'):
            x,y=mki(args[0]),mki(args[1]); return If(zi(x)>=zi(y),zi(x),zi(y))
        if name.startswith('llvm.trap'): raise PathEnd()
        if name.startswith('llvm.is.constant'): return False
        if name.startswith('llvm.expect'): return args[0]
        if name.startswith('llvm.launder') or name.startswith('llvm.strip'): return args[0]
        raise Unsupported('intrinsic '+name)

    # ------------------------------------------------------------ control flow and loops
    def jump(self,st,label):
        fr=st.frames[-1]; fn=fr.fn
        if label=='$unwind': fr.prev=fr.blk; fr.blk=label; fr.i=0; return
        for h in list(fr.loops):
            if label not in fn.loops[h]:
                ctx=fr.loops.pop(h)
                if ctx.kind in('probe',): raise PathEnd()
                ctx.exit(self,st)
        prev=fr.blk
        if label in fn.loops:
            ctx=fr.loops.get(label)
            if ctx is not None:
                if ctx.kind=='unroll':
                    n=fr.loops[label]=LoopCtx('unroll',ctx.n+1)
                    if n.n>40: raise Unsupported('unroll limit')
                    fr.prev=prev; fr.blk=label; fr.i=0
                    if not self.concrete_head(st,label):
                        del fr.loops[label]; self.summarise(st,label)     # the iterations so far are peeled off
                    return
                fr.prev=prev; fr.blk=label; fr.i=0
                ctx.back(self,st)
                raise PathEnd()
            fr.prev=prev; fr.blk=label; fr.i=0
            if self.concrete_head(st,label):
                fr.loops[label]=LoopCtx('unroll',0); return
            self.summarise(st,label)
            return
        fr.prev=prev; fr.blk=label; fr.i=0
    def concrete_head(self,st,label):
        """does the first conditional branch of this loop iteration have a concrete condition?"""
        s=st.fork()
        depth=len(s.frames)
        fr=s.frames[-1]
        fr.loops[label]=LoopCtx('peek',0)
        fr.loops[label].peek=True
        self.quiet+=1; save=self.wrlogs; self.wrlogs=[]
        svf=self.failed
        try:
            work=[]
            for _ in range(4000):
                f=s.frames[-1]
                ins=f.fn.blocks[f.blk][f.i]
                if len(s.frames)==depth and ins.op in('br','switch'):
                    c=self.val(s,f,ins.a[0] if ins.op=='br' else ins.a[1])
                    if isz(c): c=z3.simplify(c)
                    if not (not isz(c) or z3.is_true(c) or z3.is_false(c) or z3.is_int_value(c)): return False
                    if ins.op!='br' or any(isinstance(x,str) and x not in f.fn.loops[label] for x in ins.a[1:] if x in f.fn.blocks): return True
                if work: return False
                if len(s.frames)<depth: return False
                r=self.step(s,work)
                if r is not None and len(s.frames)<depth: return False
            return False
        except (PathEnd,Unsupported): return False
        finally:
            self.quiet-=1; self.wrlogs=save; self.failed=svf
    def probe_symbolic(self,st): pass
    def havoc(self,st,entry,writes,shapes):
        for key in sorted(writes,key=str):
            if key[0]=='m':
                _,oid,off,sz=key
                if oid not in st.mem: continue
                cells=st.mem[oid]
                vals=shapes.get(key,[])
                e=entry.mem.get(oid,{}).get((off,sz))
                allv=([e] if e is not None else [UNDEF])+vals
                cells[(off,sz)]=self.join_shape(st,allv,'v%d_%d'%(oid,off),self.obname(entry,oid))
            elif key[0]=='h':
                st.heap[(key[1],key[2])]=fresh('H_%d_%s'%(key[1],key[2]),'ai')
            elif key[0]=='g':
                st.g[key[1]]=self.spec.fresh_ghost(key[1],st.g.get(key[1]))
            elif key[0]=='a':
                k=key[1]
                if k in st.att: st.att[k]=self.spec.fresh_att(self,st,k,st.att[k])
    def obname(self,st,oid): return 'o%d'%oid
    def join_shape(self,st,vals,nm,on):
        if any(v is UNDEF for v in vals):
            vals=[v for v in vals if v is not UNDEF]
            if not vals or not all(isinstance(v,(int,bool)) or isz(v) for v in vals): return UNDEF
        if all(isinstance(v,(Ptr,)) for v in vals):
            tk={v.b[0] for v in vals if isinstance(v.b,tuple)}
            if len(tk)==1 and list(tk)[0] in getattr(self.spec,'join_kinds',('ln','mn')) and all(isinstance(v.b,tuple) or not isinstance(v.b,Obj) for v in vals) and all(v.off==0 and not v.st for v in vals):
                if all(isinstance(v.b,tuple) and v.b[1].eq(vals[0].b[1]) for v in vals): return vals[0]
                return self.spec.join_tag(self,st,tk.pop())
            vs=[self.norm(st,v) for v in vals]
            b0=vs[0]
            if all((v.b is b0.b or (isinstance(v.b,tuple) and isinstance(b0.b,tuple) and (v.b==b0.b if not any(isz(z) for z in v.b) else v.b[0]==b0.b[0] and self.spec.samebase(self,st,v,b0)))) for v in vs) and (isinstance(b0.b,(Obj,tuple))):
                if all(v.off==b0.off and v.st==b0.st and repr(v.ix)==repr(b0.ix) for v in vs): return b0
                sts={v.st for v in vs if v.st}
                if len(sts)==1:
                    sd=sts.pop()
                    offs={v.off if v.st else v.off%sd for v in vs}
                    if len(offs)==1: return Ptr(b0.b,offs.pop(),sd,fresh('ix'))
                return UNDEF
            if all(not isinstance(v.b,(Obj,tuple)) for v in vs):
                return Ptr(fresh('p_'+nm))
            return UNDEF
        if all(isinstance(v,bool) or (isz(v) and z3.is_bool(v)) for v in vals): return fresh('b_'+nm,'b')
        if all(isinstance(v,(int,bool)) or isz(v) for v in vals): return fresh('i_'+nm)
        if all(isinstance(v,(Ptr,int)) or isz(v) for v in vals): return Ptr(fresh('p_'+nm))
        return UNDEF
    def summarise(self,st,label):
        """st is positioned at the loop header (entry). Leaves st at the header in an arbitrary iteration."""
        fr=st.frames[-1]; fn=fr.fn; D=len(st.frames)
        entry=st.fork()
        writes=set(); shapes={}
        if any(i.op=='phi' for i in fn.blocks[label]): raise Unsupported('phi at loop header')
        if self.base.get(fn.name,'').startswith('std::'): raise Unsupported('loop of a library function without contract: '+self.base[fn.name])
        # phase 1: what does the loop modify
        self.quiet+=1; save=self.wrlogs; svf=self.failed
        nback=0
        try:
            for it in range(12):
                s=entry.fork(); self.havoc(s,entry,writes,shapes)
                self.spec.loop_assume(self,s,entry,writes)
                backs=[]; s0=s.fork()
                s.frames[-1].loops[label]=LoopCtx('probe',0,on_back=lambda e,x:backs.append(x))
                for _ in self.explore_loop(s,D,label): pass
                log=set()
                for b in backs: self.diff(entry,s0,b,log)
                new=log-writes
                ch=False
                for b in backs:
                    for k in log|writes:
                        if k[0]=='m' and k[1] in b.mem:
                            v=b.mem[k[1]].get((k[2],k[3]))
                            if v is not None:
                                L=shapes.setdefault(k,[])
                                kd=self.shape_kind(b,v,entry)
                                if kd=='U': v=UNDEF
                                if all(self.shape_kind(b,w)!=kd for w in L): L.append(v); ch=True
                nback=len(backs)
                if self.opts.get('debug_loops',0)>1: print('   modset',it,sorted(new,key=str),ch,shapes)
                if not new and not ch: break
                writes|=new
            else: raise Unsupported('loop modset does not converge')
        finally:
            self.quiet-=1; self.wrlogs=save; self.failed=svf
        # phase 2: Houdini
        s=entry.fork(); self.havoc(s,entry,writes,shapes)
        hv=s   # havocked header state (template)
        cands=[('%s#%d'%(nm,i),f) for i,(nm,f) in enumerate(self.with_flags(self.spec.loop_candidates(self,entry,hv,writes,self.topname,fn,label)+self.spec.flag_candidates(self,entry,hv,writes),entry,hv,writes))]
        self.quiet+=1; self.wrlogs=[]
        kept=[]; ck=lambda f: getattr(f,'chk',f)     # what is checked may be a weaker looking, equivalent form of what is assumed (one trigger instead of all)
        try:
            t0=time.time()
            for nm,f in cands:
                try:
                    if self.valid(entry,ck(f)(entry),self.opts.get('hou_entry',60)): kept.append((nm,f))
                except Unsupported: pass
            while nback:
                s=hv.fork()
                self.spec.loop_assume(self,s,entry,writes)
                for nm,f in kept: s.assume(f(s))
                backs=[]
                s.frames[-1].loops[label]=LoopCtx('probe',0,on_back=lambda e,x:backs.append(x))
                for _ in self.explore_loop(s,D,label): pass
                drop=set()
                for b in backs:
                    live=[(nm,f) for nm,f in kept if nm not in drop]
                    self.spec.at_back(self,b,entry)
                    try:
                        if self.valid(b,And(*[zb(ck(f)(b)) for nm,f in live]) if live else True,self.opts.get('hou_back',250)): continue
                    except Unsupported: pass
                    for nm,f in live:
                        try: ok=self.valid(b,ck(f)(b),self.opts.get('hou_back',250),retry=True)
                        except Unsupported: ok=False
                        if not ok:
                            drop.add(nm)
                            if self.opts.get('debug_drop') and re.match(self.opts['debug_drop'],nm):
                                if self.opts.get('debug_smt'):
                                    _r,_s=self.check(b,[Not(zb(ck(f)(b)))],self.opts.get('hou_back',250)); open(self.opts['debug_smt']+'%d.smt2'%self.nq,'w').write(_s.to_smt2())
                                print('   DROP',nm,str(z3.simplify(zb(ck(f)(b))))[:300],' > '.join(b.trace[-12:]))
                                if self.opts.get('debug_drop_pc'):
                                    for x in b.pc[-self.opts['debug_drop_pc']:]: print('        ',str(x)[:300])
                if not drop: break
                if self.opts.get('debug_loops'): print('   loop drop',drop)
                kept=[(nm,f) for nm,f in kept if nm not in drop]
                if self.deadline and time.time()>self.deadline: raise Unsupported('time budget of the function exhausted')
        finally:
            self.quiet-=1; self.wrlogs=save
        if self.opts.get('debug_loops'): print('LOOP',self.base.get(fn.name),label,'writes',sorted(map(str,writes)),'kept',[n for n,_ in kept])
        # phase 3
        for w in self.wrlogs: w|=writes
        self.havoc(st,entry,writes,shapes)
        # use the same fresh symbols as hv is not needed
        self.spec.loop_assume(self,st,entry,writes)
        for nm,f in kept: st.assume(f(st))
        lk=entry.locks
        def chk(e,x):
            if x.locks!=lk and not e.spec.same_locks(e,x,lk): e.fail(x,'loop iteration changes the set of held locks',tag=e.spec.TAG_LOCK)
            e.spec.loop_progress(e,x,entry,st0,writes)
        st0=st.fork()
        st.frames[-1].loops[label]=LoopCtx('final',0,on_back=chk)
    def with_flags(self,cands,entry,hv,writes):
        """candidates also under the condition that a boolean variable, modified by the loop, has one or the other value"""
        out=list(cands)
        for k in sorted(writes,key=str):
            if k[0]!='m' or k[3]!=1: continue
            e=entry.mem.get(k[1],{}).get((k[2],k[3])); h=hv.mem.get(k[1],{}).get((k[2],k[3]))
            if not isinstance(e,(int,bool)) or not isz(h): continue
            def flag(s,k=k):
                v=s.mem.get(k[1],{}).get((k[2],k[3]))
                if not (isinstance(v,(int,bool)) or isz(v)): raise Unsupported('flag')
                return zb(v) if isinstance(v,bool) or (isz(v) and z3.is_bool(v)) else zi(v)!=0
            out.append(('flag is 0 or 1',lambda s,k=k: Or(zi(s.mem[k[1]][(k[2],k[3])])==0,zi(s.mem[k[1]][(k[2],k[3])])==1)))
            for nm,f in cands:
                for pol in (True,False):
                    def g(s,f=f,flag=flag,pol=pol): return Implies(flag(s)==BoolVal(pol),f(s))
                    if hasattr(f,'chk'):
                        def gc(s,f=f,flag=flag,pol=pol): return Implies(flag(s)==BoolVal(pol),f.chk(s))
                        g.chk=gc
                    out.append((nm+(' (flag)' if pol else ' (no flag)'),g))
        return out
    def diff(self,entry,a,b,log):
        """what differs between the state at the loop header and the one at a back edge"""
        def eq(x,y):
            if x is y: return True
            if isz(x) and isz(y): return x.eq(y)
            if isinstance(x,Ptr) and isinstance(y,Ptr):
                if x.off!=y.off or x.st!=y.st: return False
                if not (x.ix is y.ix or (isz(x.ix) and isz(y.ix) and x.ix.eq(y.ix)) or (not isz(x.ix) and not isz(y.ix) and x.ix==y.ix)): return False
                if isinstance(x.b,tuple) and isinstance(y.b,tuple): return len(x.b)==len(y.b) and all(eq(u,v) for u,v in zip(x.b,y.b))
                return eq(x.b,y.b)
            if isz(x) or isz(y) or isinstance(x,Ptr) or isinstance(y,Ptr): return False
            return type(x)==type(y) and x==y
        for oid,ca in a.mem.items():
            if oid not in entry.mem: continue
            cb=b.mem.get(oid)
            if cb is None:
                if oid in b.pub: continue
                raise Unsupported('object freed in a loop')
            for k in set(ca)|set(cb):
                if k not in cb or k not in ca or not eq(ca[k],cb[k]): log.add(('m',oid)+k)
        for k in set(a.heap)|set(b.heap):
            if k not in a.heap: a.heap[k]=z3.Array('H0_%d_%s'%k,IntSort(),IntSort())
            if k in b.heap and not eq(a.heap[k],b.heap[k]): log.add(('h',)+k)
        for k in b.g:
            if k in a.g and not eq(a.g[k],b.g[k]): log.add(('g',k))
        for k in b.att:
            if k in entry.att and k in a.att and not eq(a.att[k],b.att[k]):
                if isinstance(k,tuple) and k[0]=='mine': raise Unsupported('the loop gains or loses references')
                log.add(('a',k))
    def shape_kind(self,st,v,entry=None):
        if entry is not None and isinstance(v,Ptr) and isinstance(v.b,Obj) and v.b.id not in entry.mem and v.b.id not in entry.pub and v.b.id not in st.pub: return 'U'
        if isinstance(v,Ptr):
            p=self.norm(st,v)
            return ('P',id(p.b) if isinstance(p.b,Obj) else 'r' if not isinstance(p.b,tuple) else p.b[0],p.off,p.st, repr(p.ix) if isinstance(p.b,(Obj,)) else '')
        if v is UNDEF: return 'U'
        if isinstance(v,bool) or (isz(v) and z3.is_bool(v)): return 'B'
        if isinstance(v,int) or isz(v): return 'I'
        return type(v).__name__
    def relevant(self,entry,k):
        if k[0]=='m': return k[1] in entry.mem
        if k[0]=='pub': return False
        return True
    def explore_loop(self,s,D,label):
        # run the body; stop at back edges, loop exits and when leaving the frame
        yield from self.explore(s,D)

class LoopCtx:
    def __init__(self,kind,n,on_back=None): self.kind=kind; self.n=n; self.on_back=on_back
    def back(self,eng,st):
        if self.on_back: self.on_back(eng,st)
    def exit(self,eng,st):
        if self.kind=='peek': pass
class Outs:
    def __init__(self,l): self.l=l
INLINE=object()
