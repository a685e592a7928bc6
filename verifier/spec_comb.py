"""C09: last_value / optional_last_value against the sequence specification."""
from spec_base import *
VAL=Function('VAL',IntSort(),IntSort())      # value obtained at a position
REF=Function('REF',IntSort(),IntSort())      # address of the object a reference position yields
class CombSpec(BaseSpec):
    """ghosts: d = number of positions dereferenced, last = last position that yielded a value (-1: none)"""
    def __init__(self):
        super().__init__()
        x=Int('x')
        self.axioms.append(ForAll([x],REF(x)>0,patterns=[REF(x)]))
        on=self.on
        on('spec::It::It',self.it_copy); on('spec::It::operator=',self.it_assign); on('spec::It::~It',lambda e,s,a,i,n:None)
        on('spec::It::operator==',lambda e,s,a,i,n:self.it_eq(e,s,a))
        on('spec::It::operator!=',lambda e,s,a,i,n:self.neg(self.it_eq(e,s,a)))
        on('spec::It::operator++',self.it_inc); on('spec::It::operator*',self.it_deref)
        on('spec::V::V',self.v_ctor); on('spec::V::operator=',self.v_assign); on('spec::V::~V',self.v_dtor)
    I64=ir.T('int',64)
    def neg(self,x): return (not x) if isinstance(x,bool) else Not(x)
    def pos(self,e,s,p): return zi(e.load(s,p,self.I64))
    def it_copy(self,e,s,a,i,n): e.store(s,a[0],e.load(s,a[1],self.I64),self.I64); return None
    def it_assign(self,e,s,a,i,n): e.store(s,a[0],e.load(s,a[1],self.I64),self.I64); return a[0]
    def it_eq(self,e,s,a): return mkb(z3.simplify(self.pos(e,s,a[0])==self.pos(e,s,a[1])))
    def it_inc(self,e,s,a,i,n):
        if len(a)==1 or 'EppEv' in n:
            p=a[0]; self.need_range(e,s,p,'increment'); self.step(e,s,p); return p
        # post increment: a[0] is the result
        r,p=a[0],a[1]
        self.need_range(e,s,p,'increment')
        e.store(s,r,e.load(s,p,self.I64),self.I64); self.step(e,s,p); return None
    def step(self,e,s,p):
        x=self.pos(e,s,p)
        # a single pass iterator: moving on from a position that was not dereferenced would skip it
        e.oblige(s,'every position is dereferenced before the iterator moves on',s.g['d']>x,tag='C09')
        e.store(s,p,z3.simplify(x+1),self.I64)
    def need_range(self,e,s,p,w):
        e.oblige(s,'%s stays inside the range'%w,And(self.pos(e,s,p)>=0,self.pos(e,s,p)<s.g['n']),tag='C09')
    def it_deref(self,e,s,a,i,n):
        p=a[-1]; x=self.pos(e,s,p)
        self.need_range(e,s,p,'dereference')
        e.oblige(s,'each position is dereferenced once and in order',x==s.g['d'],tag='C09')
        self.gset(e,s,'d',z3.simplify(x+1))
        outs=[]
        for k in('expired','bad_weak','std','other'):
            t=s.fork(); t.trace+=('deref throws '+k,)
            if k!='expired': self.gset(e,t,'bad',IntVal(['','bad_weak','std','other'].index(k)))
            outs.append((t,'throw',Exc(k)))
        self.gset(e,s,'last',x)
        if self.mode=='ref': v=Ptr(REF(x)); s.assume(REF(x)>0)
        else:
            o=e.newobj(s,'res',8,False); v=Ptr(o)
            e.store(s,v,VAL(x),ir.T('int',self.bits_))
        outs.append((s,'ret',v))
        return Outs(outs)
    def v_ctor(self,e,s,a,i,n):
        t=s.fork(); t.trace+=('value copy throws',); self.gset(e,t,'bad',IntVal(3))
        x=e.load(s,a[1],self.I64)
        e.store(s,a[0],x,self.I64)
        if 'EOS' in n: e.store(s,a[1],fresh('moved'),self.I64)
        return Outs([(t,'throw',Exc('other')),(s,'ret',None)])
    def v_assign(self,e,s,a,i,n):
        t=s.fork(); t.trace+=('value assignment throws',); self.gset(e,t,'bad',IntVal(3))
        same=e.ptreq(s,a[0],a[1])
        if same is not True:
            x=e.load(s,a[1],self.I64); e.store(s,a[0],x,self.I64)
            if 'EOS' in n and same is False: e.store(s,a[1],fresh('moved'),self.I64)
        return Outs([(t,'throw',Exc('other')),(s,'ret',a[0])])
    def v_dtor(self,e,s,a,i,n):
        e.store(s,a[0],fresh('dead'),self.I64); return None
    # loop invariants: equalities between integer cells, ghosts and constants of the range; yielded value templates
    def loop_candidates(self,eng,entry,hv,writes,top,fn,label):
        c=[]
        cells=sorted([k for k in writes if k[0]=='m'],key=str)
        def get(k): return lambda s: s.mem.get(k[1],{}).get((k[2],k[3]),UNDEF)
        G=lambda g:(lambda s:s.g[g])
        ints=[]; bools=[]; ptrs=[]
        for k in cells:
            v=get(k)(hv)
            if isinstance(v,bool) or (isz(v) and z3.is_bool(v)): bools.append(k)
            elif isinstance(v,int) or isz(v): ints.append(k)
            elif isinstance(v,Ptr) and not isinstance(v.b,(tuple,Obj)): ptrs.append(k)
        gz=[g for g in('d','last','bad') if ('g',g) in writes]
        for k in ints:
            v=get(k)
            c.append(('cell = d',lambda s,v=v: zi(v(s))==s.g['d']))
            c.append(('cell >= 0',lambda s,v=v: zi(v(s))>=0))
            c.append(('cell < n',lambda s,v=v: zi(v(s))<s.g['n']))
            c.append(('cell <= n',lambda s,v=v: zi(v(s))<=s.g['n']))
            c.append(('value = VAL(last)',lambda s,v=v: Implies(s.g['last']>=0,zi(v(s))==VAL(s.g['last']))))
            c.append(('cell unchanged',lambda s,v=v: zi(v(s))==zi(v(entry))))
            c.append(('flag = yielded',lambda s,v=v: (zi(v(s))!=0)==(s.g['last']>=0)))
            c.append(('cell is 0 or 1',lambda s,v=v: Or(zi(v(s))==0,zi(v(s))==1)))
        for k in bools:
            v=get(k)
            c.append(('flag = yielded',lambda s,v=v: zb(v(s))==(s.g['last']>=0)))
            c.append(('flag = none yielded',lambda s,v=v: zb(v(s))==(s.g['last']<0)))
            c.append(('flag constant',lambda s,v=v: zb(v(s))==zb(v(entry))))
        for k in ptrs:
            v=get(k)
            c.append(('ref = REF(last)',lambda s,v=v: If(s.g['last']>=0,zi(v(s).b)==REF(s.g['last']),zi(v(s).b)==0)))
            c.append(('ref = REF(last) or anything',lambda s,v=v: Implies(s.g['last']>=0,zi(v(s).b)==REF(s.g['last']))))
        c.append(('-1 <= last < d',lambda s: And(s.g['last']>=-1,s.g['last']<s.g['d'],s.g['last']<s.g['n'])))
        c.append(('0 <= d <= n',lambda s: And(s.g['d']>=0,s.g['d']<=s.g['n'])))
        c.append(('d < n',lambda s: s.g['d']<s.g['n']))
        c.append(('no pending exception',lambda s: s.g['bad']==0))
        return c
    def uninit(self,eng,st,p,t,sz):
        if t.k=='int' : return None
        return None

TU='comb'
ENTRIES=[('spec_lv','val','value',64),('spec_lv_int','val','ret',32),('spec_lv_ref','ref','ret',64),('spec_lv_void','val','void',64),
  ('spec_olv','val','opt',64),('spec_olv_int','val','opt',32),('spec_olv_ref','ref','optref',64),('spec_olv_void','val','void',64)]
def units(cx):
    return [Unit('combiner '+e[0],{'C09'},lambda opts,e=e: verify_entry(cx,e,opts)) for e in ENTRIES]
def verify_entry(cx,ent,opts):
        fn,mode,res,bits=ent
        sp=CombSpec(); sp.mode=mode; sp.bits_=bits
        eng=Engine(cx.M,cx.dem,sp,opts)
        ctx={}
        def setup(e,st,f,ctx=ctx):
            args=[]
            its=0
            n=Int('n'); st.assume(n>=0)
            st.g.update(d=IntVal(0),last=IntVal(-1),n=n,bad=IntVal(0))
            for (t,nm,at) in f.params:
                o=Ptr(e.newobj(st,nm,64)); args.append(o)
                if nm=='a': e.store(st,o,0,CombSpec.I64)
                if nm=='b': e.store(st,o,n,CombSpec.I64)
                if 'sret' in at: ctx['ret']=o
            return args
        def post(e,st,kind,v,fn=fn,res=res,ctx=ctx,mode=mode,bits=bits):
            g=st.g; T=ir.T
            if kind=='throw':
                if v.n=='no_slots':
                    e.oblige(st,'no_slots_error only when the whole range was visited and no position yielded a value',
                        And(g['d']==g['n'],g['last']==-1,g['bad']==0) if fn.startswith('spec_lv') and res!='void' else BoolVal(False),tag='C09')
                else:
                    e.oblige(st,'an exception other than expired_slot (and only that) leaves the combiner unchanged',
                        g['bad']==IntVal(['','bad_weak','std','other'].index(v.n) if v.n in('bad_weak','std','other') else -1),tag='C09')
                return
            e.oblige(st,'no exception other than expired_slot is swallowed',g['bad']==0,tag='C09')
            e.oblige(st,'all positions were visited',g['d']==g['n'],tag='C09')
            if res=='void': return
            if fn.startswith('spec_lv'):
                e.oblige(st,'a value is returned only if some position yielded one',g['last']>=0,tag='C09')
                if res=='value': e.oblige(st,'the value of the last yielding position is returned',zi(e.load(st,ctx['ret'],T('int',64)))==VAL(g['last']),tag='C09')
                elif mode=='ref': e.oblige(st,'the reference of the last yielding position is returned',e.ref(st,v)==REF(g['last']),tag='C09')
                else: e.oblige(st,'the value of the last yielding position is returned',zi(v)==VAL(g['last']),tag='C09')
            elif res=='opt':
                if 'ret' in ctx:
                    ini=zb(mkb(e.load(st,ctx['ret'],T('int',8))))
                    off=8 if bits==64 else 4
                    vv=e.load(st,Ptr(ctx['ret'].b,off),T('int',bits))
                else:
                    # returned in a register: the optional's bytes packed in an integer
                    c=v.c if isinstance(v,Packed) else {}
                    ini=zb(mkb(c[(0,1)])); vv=c.get((4,4),UNDEF)
                e.oblige(st,'the optional has a value exactly if some position yielded one',ini==(g['last']>=0),tag='C09')
                e.oblige(st,'the value of the last yielding position is returned',Implies(g['last']>=0,(zi(vv) if vv is not UNDEF else fresh('undef'))==VAL(g['last'])),tag='C09')
            elif res=='optref':
                if v is None: v=e.load(st,ctx['ret'],T('ptr'))
                e.oblige(st,'the optional reference is that of the last yielding position, or empty',e.ref(st,v)==If(g['last']>=0,REF(g['last']),IntVal(0)),tag='C09')
        return eng,eng.verify(fn,setup,post)
