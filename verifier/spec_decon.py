"""C13: deconstruct / deconstruct_ptr.  The shared_ptr implementation is part of the verified code (its counters are concrete);
the classes, their hooks and the user's deleter are opaque: every call of them is an event with a contract."""
from spec_base import *
TU='decon'
class DeconSpec(BaseSpec):
    """ghost objects: st.att['obj'] = tuple of (state, pointer, hooks run) per object; states: 'c' constructed, 'p' postconstructed, 'e' predestructed, 'd' destroyed"""
    def __init__(self,ent):
        super().__init__(); self.ent=ent
        on=self.on
        for c in 'TN':
            on('spec::%s::%s'%(c,c),self.ctor); on('spec::%s::~%s'%(c,c),self.dtor)
        on('spec::ctor',self.ctor); on('spec::dtor',self.dtor); on('spec::post',self.post_v); on('spec::pre',self.pre)
        on('spec::adl_postconstruct',self.post); on('spec::wrong',lambda e,s,a,i,n: e.fail(s,'shared_from_this gives an owner of the object, the one handed out',tag='C13')); on('spec::adl_predestruct',self.pre)
        on('spec::D::operator()',self.deleter)
        self.onre(r'spec::handed',self.handed); on('spec::choice',lambda e,s,a,i,n:fresh('choice','b')); on('spec::moment',self.moment); on('spec::releasing',self.releasing)
        on(['std::type_info::operator==','std::type_info::operator!='],self.ti_eq)
    def ti_eq(self,e,s,a,i,n):
        if not all(isinstance(x,Ptr) and isinstance(x.b,tuple) for x in a): raise Unsupported('type_info')
        r=a[0].b[1]==a[1].b[1]
        return r if 'eq' in n else not r
    def find(self,e,s,p):
        for k,(p0,ev) in enumerate(s.att['obj']):
            q=e.ptreq(s,p0,p)
            if q is True and ev[-1]!='d': return k
        return None
    def cur(self,e,s,p,w):
        k=self.find(e,s,p)
        if k is None: e.fail(s,'%s of something that is not a living object'%w,tag='C13'); raise PathEnd()
        return k
    def put(self,s,k,ev):
        l=list(s.att['obj']); l[k]=(l[k][0],ev); s.att['obj']=tuple(l); s.trace+=(ev[-1],)
    def argsmatch(self,e,s,a,want,w):
        """a: the pointers passed for the declared parameters; want: names of the entry's parameters"""
        ok=len(a)==len(want) and all(e.ptreq(s,x,self.par[y]) is True for x,y in zip(a,want))
        e.oblige(s,w,BoolVal(ok),tag='C13')
    def ctor(self,e,s,a,i,n):
        if not isinstance(a[0].b,Obj): raise Unsupported('object not in private memory')
        e.oblige(s,'an object is constructed in storage that holds no living object',BoolVal(self.find(e,s,a[0]) is None),tag='C13')
        e.oblige(s,'one object is constructed',BoolVal(len(s.att['obj'])==0),tag='C13')
        self.room(e,s,a[0],self.ent.get('cls') or ('T' if '1T' in n else 'N'))
        self.argsmatch(e,s,a[1:],self.ent.get('ctor',''),'the constructor gets the arguments passed, in the value category they were passed in')
        sig=self.ent.get('ctorsig')
        if sig: e.oblige(s,'the constructor chosen is the one for the value categories passed',BoolVal(n.endswith(sig)),tag='C13')
        t=s.fork(); t.trace+=('constructor throws',); t.att['pend']='ctor'
        s.att['obj']=s.att['obj']+((a[0],'c'),); s.trace+=('c',)
        return Outs([(t,'throw',Exc('other')),(s,'ret',None)])
    def room(self,e,s,p,c):
        sz=dict(T=40,N=16,E=32,V=32,VP=24,VD=24)[c]; o=p.b   # sizes of the classes in spec/decon.cpp
        e.oblige(s,'the object fits in the storage it is constructed in',BoolVal(p.off>=0 and p.off+sz<=o.size),tag='C13')
        e.oblige(s,'the storage is aligned',BoolVal(p.off%8==0),tag='C13')
        used=[k for k,v in s.mem[o.id].items() if p.off<k[0]+k[1] and k[0]<p.off+sz and not (isinstance(v,Ptr) and isinstance(v.b,tuple)) ] if not self.ent.get('cls') else []
        e.oblige(s,'the storage is not used for anything else',BoolVal(not used),tag='C13')
    def dtor(self,e,s,a,i,n):
        k=self.cur(e,s,a[0],'destruction'); ev=s.att['obj'][k][1]
        e.oblige(s,'no destruction while somebody owns the object',BoolVal(not s.att['held']),tag='C13')
        if self.ent.get('pre',True): e.oblige(s,'predestruct ran before destruction',BoolVal(ev.endswith('e')),tag='C13')
        self.put(s,k,ev+'d')
        return None
    def post_v(self,e,s,a,i,n): return self.post1(e,s,a[0],[],n)
    def post(self,e,s,a,i,n):
        if '1E' in n: return INLINE          # the one of E looks at shared_from_this
        # a[0]: shared_ptr, a[1]: object
        p=e.load(s,a[0],ir.T('ptr'))
        e.oblige(s,'postconstruct gets an owner of the object',BoolVal(e.ptreq(s,p,a[1]) is True),tag='C13')
        return self.post1(e,s,a[1],a[2:],n)
    def post1(self,e,s,p,args,n):
        k=self.cur(e,s,p,'postconstruct'); ev=s.att['obj'][k][1]
        e.oblige(s,'postconstruct runs once, right after construction',BoolVal(ev in('c','cq') if self.ent.get('retry') else ev=='c'),tag='C13')
        e.oblige(s,'postconstruct runs before the object is handed out',BoolVal(not s.att['was']),tag='C13')
        self.argsmatch(e,s,args,self.ent.get('post',''),'postconstruct gets the arguments passed')
        if self.ent.get('hook',True) is False: e.fail(s,'postconstruct of a class without one',tag='C13')
        t=s.fork(); self.put(t,k,ev+'q'); t.att['pend']='post'; t.trace+=('postconstruct throws',)
        self.put(s,k,ev+'p'); s.att['pend']=None
        return Outs([(t,'throw',Exc('other')),(s,'ret',None)])
    def pre(self,e,s,a,i,n):
        k=self.cur(e,s,a[0],'predestruct'); ev=s.att['obj'][k][1]
        e.oblige(s,'predestruct runs once, on a living object',BoolVal('e' not in ev),tag='C13')
        e.oblige(s,'predestruct runs when the last owner is gone',BoolVal(not s.att['held']),tag='C13')
        self.put(s,k,ev+'e'); return None
    def deleter(self,e,s,a,i,n):
        if isinstance(a[1].b,int) and a[1].b==0:
            e.oblige(s,'the deleter is called once for a null pointer',BoolVal(not s.att['nulldel']),tag='C13'); s.att['nulldel']=True; return None
        self.dtor(e,s,[a[1]],i,n)
        o=a[1].b
        if o.id not in s.mem or not o.heap: e.fail(s,'deletion of memory that was not allocated',tag='safe'); raise PathEnd()
        del s.mem[o.id]; e.wlog(('m',o.id,0,0)); return None
    def handed(self,e,s,a,i,n):
        p=e.load(s,a[0],ir.T('ptr')); want='c'+('p' if self.ent.get('hook',True) else '')
        if self.ent.get('null'):
            e.oblige(s,'a null pointer is passed through',BoolVal(isinstance(p,Ptr) and isinstance(p.b,int) and p.b==0 and not s.att['obj']),tag='C13'); return None
        k=self.cur(e,s,p,'handing out'); ev=s.att['obj'][k][1]
        if self.ent.get('retry') : ev=ev.replace('q','')
        e.oblige(s,'the object is handed out after construction and postconstruct have run once',BoolVal(ev==want),tag='C13')
        e.oblige(s,'no exception was swallowed',BoolVal(not s.att['pend']),tag='C13')
        s.att['held']=True; s.att['was']=True
        # the owner is given up by what follows: from here on destruction is allowed once no shared_ptr refers to the object
        return None
    def moment(self,e,s,a,i,n):
        e.oblige(s,'the object lives while a shared_ptr owns it',BoolVal(len(s.att['obj'])==1 and s.att['obj'][0][1][-1] not in 'ed'),tag='C13'); return None
    def releasing(self,e,s,a,i,n):
        self.moment(e,s,a,i,n); s.att['held']=False; return None
    def unknown_call(self,eng,st,name,bn,args,ins): raise Unsupported('call of %s'%bn)
R='_ZN4spec1T'
ENTRIES=[dict(f='spec_dec0',ctorsig='C1Ev'),dict(f='spec_dec0c',ctorsig='C1Ev'),dict(f='spec_dec1',ctor='a',ctorsig='ERNS_1AE'),dict(f='spec_dec3',ctor='abc'),dict(f='spec_dec9',ctor=['b','a','a2','a3','a4','a5','a6','a7','c']),
 dict(f='spec_post0'),dict(f='spec_post3',post='acb'),dict(f='spec_postconstruct_again'),dict(f='spec_post_retry',retry=True),dict(f='spec_never_posted'),
 dict(f='spec_dec_n',pre=False),dict(f='spec_dec_e',cls='E'),dict(f='spec_dec_v',cls='V'),
 dict(f='spec_ptr_t',hook=False,pre=False),dict(f='spec_ptr_v',cls='V'),dict(f='spec_ptr_vc',cls='V'),dict(f='spec_ptr_vp',cls='VP',pre=False),dict(f='spec_ptr_vd',cls='VD',hook=False),dict(f='spec_ptr_td',hook=False,pre=False),dict(f='spec_ptr_vdel',cls='V',pre=False),
 dict(f='spec_ptr_null',null=True),dict(f='spec_ptr_nulld',null=True,nulldel=True),dict(f='spec_deleter',cls='V',hook=False)]
def units(cx): return [Unit('deconstruct '+e['f'],{'C13'},lambda opts,e=e: verify_entry(cx,e,opts)) for e in ENTRIES]
def verify_entry(cx,ent,opts):
    sp=DeconSpec(ent); eng=Engine(cx.M,cx.dem,sp,dict(opts,alloc_throws=True))
    def setup(e,st,f):
        st.att.update(obj=(),held=False,was=False,pend=None,nulldel=False); sp.par={}; args=[]
        for (t,nm,at) in f.params:
            o=Ptr(e.newobj(st,nm,8)); sp.par[nm]=o; args.append(o)
        return args
    def post(e,st,kind,v):
        ev=st.att['obj'][0][1] if st.att['obj'] else ''
        if kind=='throw':
            e.oblige(st,'only an exception of the constructor, of postconstruct or of the allocation leaves the function',BoolVal(v.n=='bad_alloc' or st.att['pend'] is not None),tag='C13')
            if v.n=='bad_alloc': e.oblige(st,'no allocation after construction succeeded and the object was handed out',BoolVal(not st.att['was']),tag='C13')
        else: e.oblige(st,'no exception was swallowed',BoolVal(not st.att['pend']),tag='C13')
        if ev: 
            e.oblige(st,'the object was destroyed exactly once',BoolVal(ev.endswith('d') and ev.count('d')==1),tag='C13')
            e.oblige(st,'predestruct ran exactly once',BoolVal(ev.count('e')==(1 if ent.get('pre',True) else 0)),tag='C13')
        elif kind=='ret' and not ent.get('null'): e.fail(st,'the object was not constructed',tag='C13')
        if ent.get('nulldel'): e.oblige(st,'the deleter was called for the null pointer',BoolVal(st.att['nulldel']),tag='C13')
        left=[o for o in st.mem if o not in st.att['mem0']]
        heap=[o for o in st.mem if o in heapids]
        e.oblige(st,'all memory was released',BoolVal(not heap),tag='C13')
    heapids=set(); no=eng.newobj
    def newobj(st,name,size,heap=False):
        o=no(st,name,size,heap)
        if heap: heapids.add(o.id)
        return o
    eng.newobj=newobj
    def setup2(e,st,f):
        a=setup(e,st,f); st.att['mem0']=frozenset(st.mem); return a
    return eng,eng.verify(ent['f'],setup2,post)
