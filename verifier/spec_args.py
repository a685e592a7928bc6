"""Contracts of variadic_slot_invoker / call_with_tuple_args: the slot function of the connection given gets exactly the invocation's
arguments, in order, unmodified and unmoved by earlier calls; it is called once per call of the invoker; its result is the invoker's."""
from spec_base import *
TU='args'
CATS=['P','Pr','Pr','int','P','intr','ptr','long','P']
class ArgSpec(BaseSpec):
    I64=ir.T('int',64)
    def __init__(self,c):
        super().__init__(); self.c=c; on=self.on
        p='spec::P::'
        on(p+'P',self.p_ctor); on(p+'operator=',self.p_assign); on(p+'~P',lambda e,s,a,i,n:None)
        on('spec::V::V',self.v_ctor); on('spec::V::~V',lambda e,s,a,i,n:None)
        on('spec::Body::slot',lambda e,s,a,i,n:self.acc(e,s,a[0],'body','slot')); on('spec::Slot::slot_function',lambda e,s,a,i,n:self.acc(e,s,a[0],'slot','fn'))
        on('spec::Fn::operator()',self.call)
        on('boost::signals2::detail::connection_body::slot',lambda e,s,a,i,n:self.acc(e,s,a[0],'body','slot'))      # C++03: the real connection body and slot, whose accessors are under contract elsewhere
        for k in range(10): on('boost::signals2::slot%d::slot_function'%k,lambda e,s,a,i,n:self.acc(e,s,a[0],'slot','fn'))
        on(['got','got_obj'],self.got)
    def acc(self,e,s,p,x,y):
        p=e.norm(s,p)
        e.oblige(s,'the slot is that of the connection body given',BoolVal(p.b is self.c[x] and p.off==0),tag='C02')
        return Ptr(self.c[y])
    def p_ctor(self,e,s,a,i,n):
        t=s.fork(); t.trace+=('copy of an argument throws',); t.att['bad']=t.att.get('bad',0)+1
        v=e.load(s,a[1],self.I64); e.store(s,a[0],v,self.I64)
        if 'EOS' in n: e.store(s,a[1],fresh('moved'),self.I64)
        return Outs([(t,'throw',Exc('other')),(s,'ret',None)])
    def p_assign(self,e,s,a,i,n):
        self.p_ctor(e,s,a,i,n); return a[0]
    def v_ctor(self,e,s,a,i,n):
        v=e.load(s,a[1],self.I64); e.store(s,a[0],v,self.I64)
        if 'EOS' in n: e.store(s,a[1],fresh('moved'),self.I64)
        return None
    def call(self,e,s,a,i,n):
        c=self.c; a=list(a); ret=None
        if c['rn']=='obj': ret=a.pop(0)
        p=e.norm(s,a[0])
        e.oblige(s,'the function called is that of the slot',BoolVal(p.b is c['fn'] and p.off==0),tag='C02')
        e.oblige(s,'the slot function gets as many arguments as the invocation has',BoolVal(len(a)==c['n']+1),tag='C02')
        for k,(x,cat) in enumerate(zip(a[1:],CATS)):
            nm='argument %d of the slot function is argument %d of the invocation'%(k+1,k+1); o=c['args'][k]
            if cat in('Pr','intr'):
                q=e.norm(s,x); e.oblige(s,nm+' (the same object)',BoolVal(q.b is o and q.off==0 and not q.st),tag=('C02','C15'))
            if cat in('P','Pr'): e.oblige(s,nm,zi(e.load(s,x,self.I64))==Int('arg%d'%k),tag=('C02','C15'))
            elif cat=='int' or cat=='long': e.oblige(s,nm,zi(x)==Int('arg%d'%k),tag=('C02','C15'))
            elif cat=='ptr': e.oblige(s,nm,BoolVal(isinstance(x,Ptr) and e.norm(s,x).b is c['pointee']),tag=('C02','C15'))
        s.att['calls']=s.att.get('calls',0)+1; k=s.att['calls']; s.trace+=('call %d'%k,)
        outs=[]
        for kind in('expired','other'):
            t=s.fork(); t.trace+=('slot throws '+kind,); t.att['thrown']=kind; outs.append((t,'throw',Exc(kind)))
        r=None
        if c['rn']=='int': r=Int('result%d'%k)
        elif c['rn']=='obj': e.store(s,ret,Int('result%d'%k),self.I64)
        elif c['rn']=='ref': r=Ptr(c['res'][k-1]) if k<=2 else Ptr(c['fn'])
        return Outs(outs+[(s,'ret',r)])
    def got(self,e,s,a,i,n):
        c=self.c; k=s.att['got']=s.att.get('got',0)+1
        e.oblige(s,'one call of the slot per call of the invoker',BoolVal(s.att.get('calls',0)==k),tag='C02')
        nm='the result is that of the slot function'
        if c['rn']=='ref': q=e.norm(s,a[0]); e.oblige(s,nm,BoolVal(k<=2 and q.b is c['res'][k-1] and q.off==0),tag=('C02','C15'))
        else: e.oblige(s,nm,zi(a[0] if c['rn']=='int' else e.load(s,a[0],self.I64))==Int('result%d'%k),tag=('C02','C15'))
        return None
def units(cx):
    U=[]
    for fn in cx.M.funcs:
        if fn.startswith('inv_'): U.append(Unit('variadic_slot_invoker '+fn[4:],{'C02','C15'},lambda opts,fn=fn: verify_entry(cx,fn,opts)))
    return U
def verify_entry(cx,fn,opts,ptr=False):
    _,rn,n=fn.split('_'); n=int(n); c=dict(rn=rn,n=n)
    sp=ArgSpec(c); eng=Engine(cx.M,cx.dem,sp,opts); T=ir.T
    def setup(e,st,f):
        for k in('body','slot','fn','pointee'): c[k]=e.newobj(st,k,8)
        for k in('body','slot','fn','pointee'): st.mem[c[k].id][(0,8)]=Int('id_'+k)
        c['res']=[e.newobj(st,'res%d'%k,8) for k in(1,2)]
        for k,o in enumerate(c['res']): st.mem[o.id][(0,8)]=Int('result%d'%(k+1))
        c['args']=[]
        for k in range(n):
            cat=CATS[k]; o=e.newobj(st,'arg%d'%(k+1),8); c['args'].append(o)
            st.mem[o.id][(0,4 if cat in('int','intr') else 8)]=Ptr(c['pointee']) if cat=='ptr' else Int('arg%d'%k)
        b=c['body']
        if ptr: b=e.newobj(st,'connection_body_ptr',16); st.mem[b.id][(0,8)]=Ptr(c['body']); st.mem[b.id][(8,8)]=NULL
        return [Ptr(b)]+[Ptr(o) for o in c['args']]
    def post(e,st,kind,v):
        for k in range(n):
            if CATS[k]=='ptr': continue
            e.oblige(st,'argument %d of the invocation is left as it was'%(k+1),zi(e.load(st,Ptr(c['args'][k]),T('int',32 if CATS[k] in('int','intr') else 64)))==Int('arg%d'%k),tag='C02')
        if kind=='throw':
            e.oblige(st,'only an exception of the slot function or of copying an argument leaves the invoker',BoolVal((st.att.get('thrown')==v.n) or (st.att.get('bad',0)>0 and v.n=='other')),tag=('C02','C16')); return
        e.oblige(st,'the slot function is called exactly once per call of the invoker',BoolVal(st.att.get('calls',0)==2),tag='C02')
        e.oblige(st,'exceptions of the slot function are not swallowed',BoolVal('thrown' not in st.att and not st.att.get('bad')),tag=('C02','C16'))
    return eng,eng.verify(fn,setup,post)
