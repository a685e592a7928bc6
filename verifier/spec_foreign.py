"""C05: pointers of other libraries and the visitors that lock tracked objects and ask whether they exist.  The foreign weak and shared pointers
are opaque classes whose copies may throw; ghost: the list of their living copies and what each refers to."""
from spec_base import *
TU='foreign'
class ForeignSpec(BaseSpec):
    """ghost st.att['live']: living copies, as tuples (kind, object, offset, what it refers to)"""
    TAG_SAFE='C05'
    def __init__(self):
        super().__init__(); on=self.on
        for k in('FShared','FWeak'): on('spec::%s::%s'%(k,k),self.ctor); on('spec::%s::~%s'%(k,k),self.dtor)
        on('spec::FWeak::lock',self.lock); on('spec::FWeak::expired',self.expired)
        on('spec::X::X',self.x_ctor); on('spec::X::~X',self.x_dtor)
        on('spec::choice',lambda e,s,a,i,n:fresh('choice','b')); on('spec::after',lambda e,s,a,i,n:None)
        on('spec::weak',lambda e,s,a,i,n:self.many(e,s,'W',a)); on('spec::shared',lambda e,s,a,i,n:self.many(e,s,'S',a))
        on('spec::count',self.count); on('spec::locked',self.locked); on('spec::is_expired',self.is_expired)
        on('spec::alive',lambda e,s,a,i,n:e.oblige(s,'an object lives exactly while it is owned: a locked reference keeps it, a tracked one does not',zb(mkb(a[0]))==BoolVal(s.att['x']=='live'),tag='C05'))
        on('spec::expired_obj',lambda e,s,a,i,n:e.oblige(s,'an object is expired exactly when it is gone',zb(mkb(a[0])),tag='C05'))
        on('spec::null',lambda e,s,a,i,n:e.oblige(s,'locking gives the object unless it is gone or kept by nobody',zb(mkb(a[0])),tag='C05'))
        on(['std::type_info::operator==','std::type_info::operator!='],self.ti_eq)
    def ti_eq(self,e,s,a,i,n):
        if not all(isinstance(x,Ptr) and isinstance(x.b,tuple) for x in a): raise Unsupported('type_info')
        r=a[0].b[1]==a[1].b[1]; return r if 'eq' in n else not r
    def key(self,e,s,p,w):
        p=e.norm(s,p)
        if not isinstance(p.b,Obj): e.fail(s,'%s of something that is not an object'%w,tag='C05'); raise PathEnd()
        return p.b.id,p.off
    def find(self,s,k): return [x for x in s.att['live'] if x[1:3]==k]
    def idof(self,e,s,p): return zi(e.load(s,p,I64_))
    def source(self,e,s,p):
        k=self.key(e,s,p,'copy')
        if k[0] not in s.att['args'] and not self.find(s,k): e.fail(s,'what is copied is a living pointer',tag='C05'); raise PathEnd()
        return self.idof(e,s,p)
    def ctor(self,e,s,a,i,n):
        k=self.key(e,s,a[0],'construction'); kind='W' if '5FWeak' in n[:16] else 'S'
        e.oblige(s,'a pointer is constructed where none lives',BoolVal(not self.find(s,k)),tag='C05')
        v=self.source(e,s,a[1]); t=s.fork(); t.trace+=('copy of a foreign pointer throws',); t.att['thrown']='user'
        e.store(s,a[0],v,I64_); s.att['live']+=((kind,)+k+(v,),)
        return Outs([(t,'throw',Exc('other')),(s,'ret',None)])
    def dtor(self,e,s,a,i,n):
        k=self.key(e,s,a[0],'destruction'); f=self.find(s,k)
        e.oblige(s,'a pointer is destroyed once',BoolVal(len(f)==1),tag='C05')
        s.att['live']=tuple(x for x in s.att['live'] if x[1:3]!=k); return None
    def state(self,e,s,v):
        """whether what v refers to is gone, now"""
        o=s.att['gone']; g=fresh('gone','b'); s.assume(Implies(o,g))
        for x in s.att['live']:
            if x[0]=='S': s.assume(Implies(And(x[3]==v,x[3]!=0),Not(g)))
        s.att['gone']=g; return g
    def lock(self,e,s,a,i,n):
        ret,this=a[0],a[1]; v=self.source(e,s,this); g=self.state(e,s,v); r=fresh('locked'); s.assume(r==If(g,IntVal(0),v))
        k=self.key(e,s,ret,'result'); e.store(s,ret,r,I64_); s.att['live']+=(('S',)+k+(r,),); s.att['lock']=r; s.att['nlock']+=1; return None
    def expired(self,e,s,a,i,n):
        v=self.source(e,s,a[0]); g=self.state(e,s,v); s.att['exp']=g; s.att['expof']=v; return g
    def many(self,e,s,kind,a):
        v=self.idof(e,s,a[0]); n=a[1]; L=[x for x in s.att['live'] if x[0]==kind]
        tot=IntVal(0)
        for x in L: tot=tot+If(x[3]==v,IntVal(1),IntVal(0))
        e.oblige(s,'copies refer to what their source refers to, and there are as many as were made',z3.Implies(s.att['distinct'],tot==n),tag='C05')
    def count(self,e,s,a,i,n):
        w=len([x for x in s.att['live'] if x[0]=='W']); e.oblige(s,'there are as many weak and shared pointers as were made',BoolVal(w==a[0] and len(s.att['live'])-w==a[1]),tag='C05')
    def locked(self,e,s,a,i,n):
        L=[x[3] for x in s.att['live'] if x[0]=='S']
        e.oblige(s,'what locking gave is kept',And(BoolVal(len(L)==a[0] and s.att['nlock']==1),*[x==s.att['lock'] for x in L]) if s.att['lock'] is not None else BoolVal(False),tag='C05')
    def is_expired(self,e,s,a,i,n):
        e.oblige(s,'the answer is that of the pointer given',zb(mkb(a[0]))==s.att['exp'] if s.att['exp'] is not None else BoolVal(False),tag='C05')
    def x_ctor(self,e,s,a,i,n):
        t=s.fork(); t.att['thrown']='user'; s.att['x']='live'; return Outs([(t,'throw',Exc('other')),(s,'ret',None)])
    def x_dtor(self,e,s,a,i,n):
        e.oblige(s,'an object is destroyed once',BoolVal(s.att['x']=='live'),tag='C05'); s.att['x']='gone'; return None
    def unknown_call(self,eng,st,name,bn,args,ins): raise Unsupported('call of %s'%bn)
I64_=ir.T('int',64)
ENTRIES='w_make w_copy w_assign w_assign_empty w_self w_swap w_lock w_expired s_make s_copy s_assign s_assign_empty s_self s_swap v_foreign v_foreign_copy v_foreign_locked v_weak v_pointee'.split()
def units(cx): return [Unit('foreign '+f,{'C05'},lambda opts,f=f: verify_entry(cx,f,opts)) for f in ENTRIES]
def verify_entry(cx,f,opts):
    sp=ForeignSpec(); eng=Engine(cx.M,cx.dem,sp,dict(opts,alloc_throws=True)); heap=set(); no=eng.newobj
    def newobj(st,name,size,h=False,heap_=None,**kw):
        o=no(st,name,size,h,**kw)
        if h: heap.add(o.id)
        return o
    eng.newobj=newobj
    def setup(e,st,fu):
        args=[]; ids=[]
        for (t,nm,at) in fu.params:
            o=no(st,nm,8); st.mem[o.id][(0,8)]=Int('id_'+nm); ids.append(Int('id_'+nm)); args.append(Ptr(o)); st.assume(Int('id_'+nm)!=0)
        st.att.update(live=(),args=frozenset(p.b.id for p in args),gone=fresh('gone','b'),lock=None,nlock=0,exp=None,expof=None,x=None,distinct=And(*[x!=y for x in ids for y in ids if x is not y]) if len(ids)>1 else BoolVal(True))
        return args
    def post(e,st,kind,v):
        if kind=='throw': e.oblige(st,'only an exception of a pointer or of the allocation leaves the function',BoolVal(v.n=='bad_alloc' or 'thrown' in st.att),tag='C05')
        e.oblige(st,'no pointer is left over',BoolVal(not st.att['live']),tag='C05')
        e.oblige(st,'no object is left over',BoolVal(st.att['x']!='live'),tag='C05')
        e.oblige(st,'all memory was released',BoolVal(not [o for o in st.mem if o in heap]),tag='C05')
    return eng,eng.verify(f,setup,post)
