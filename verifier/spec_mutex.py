"""C18: signals2::mutex and dummy_mutex against the state machine of one system mutex.
ghost 'st': 0 = no system mutex there, 1 = unlocked, 2 = held by this thread, 3 = held by another thread; 'calls': system calls made."""
from spec_base import *
TU='mutex'
class MutexSpec(BaseSpec):
    def __init__(self):
        super().__init__()
        self.on('pthread_mutex_init',self.p_init); self.on('pthread_mutex_destroy',self.p_destroy)
        self.on('pthread_mutex_lock',self.p_lock); self.on('pthread_mutex_trylock',self.p_try); self.on('pthread_mutex_unlock',self.p_unlock)
        self.on('spec_may_throw',self.may_throw)
        self.assumed.update({'pthread_mutex_init/destroy/lock/unlock':'called within their preconditions they succeed and return 0','pthread_mutex_trylock':'returns 0 and acquires, or returns some other value and does not acquire'})
    def own(self,e,s,a,w):
        e.oblige(s,'%s is applied to the system mutex of this object'%w,zb(e.ptreq(s,a[0],self.m)),tag='C18')
        self.gset(e,s,'calls',s.g['calls']+1)
    def p_init(self,e,s,a,i,n):
        self.own(e,s,a,'pthread_mutex_init'); e.oblige(s,'a system mutex is initialised once',s.g['st']==0,tag='C18')
        e.oblige(s,'the system mutex is a normal one (no attributes)',zb(e.ptreq(s,a[1],NULL)),tag='C18'); self.gset(e,s,'st',IntVal(1)); return 0
    def p_destroy(self,e,s,a,i,n):
        self.own(e,s,a,'pthread_mutex_destroy'); e.oblige(s,'an initialised, unlocked system mutex is destroyed',s.g['st']==1,tag='C18'); self.gset(e,s,'st',IntVal(0)); return 0
    def p_lock(self,e,s,a,i,n):
        self.own(e,s,a,'pthread_mutex_lock'); e.oblige(s,'the thread locks an initialised mutex it does not hold',Or(s.g['st']==1,s.g['st']==3),tag='C18'); self.gset(e,s,'st',IntVal(2)); return 0
    def p_try(self,e,s,a,i,n):
        self.own(e,s,a,'pthread_mutex_trylock'); e.oblige(s,'the mutex is initialised',s.g['st']!=0,tag='C18')
        t=s.fork(); t.trace+=('trylock fails',); r=fresh('err'); t.assume(r!=0)
        s.assume(s.g['st']==1); self.gset(e,s,'st',IntVal(2))
        return Outs([(t,'ret',r),(s,'ret',0)])
    def p_unlock(self,e,s,a,i,n):
        self.own(e,s,a,'pthread_mutex_unlock'); e.oblige(s,'only a mutex held by this thread is unlocked',s.g['st']==2,tag='C18'); self.gset(e,s,'st',IntVal(1)); return 0
    def may_throw(self,e,s,a,i,n):
        e.oblige(s,'the mutex is held while the unique_lock lives',s.g['st']==2,tag='C18')
        t=s.fork(); return Outs([(t,'throw',Exc('other')),(s,'ret',None)])
# function, precondition on st, postcondition (name, formula over (st before, st after, calls, result))
B=lambda v: zb(mkb(v))
ENTRIES=[
 ('spec_init',lambda s:s==0,lambda s,t,c,r:[('the mutex is created unlocked',t==1),('one system mutex is created',c==1)]),
 ('spec_destroy',lambda s:s==1,lambda s,t,c,r:[('the system mutex is destroyed, once',And(t==0,c==1))]),
 ('spec_lock',lambda s:Or(s==1,s==3),lambda s,t,c,r:[('lock() acquires the system mutex',t==2),('one system call',c==1)]),
 ('spec_try_lock',lambda s:s>=1,lambda s,t,c,r:[('try_lock() is true exactly if it acquired the system mutex',And(B(r)==And(s!=2,t==2),Or(B(r),t==s))),('one system call',c==1)]),
 ('spec_unlock',lambda s:s==2,lambda s,t,c,r:[('unlock() releases the system mutex',And(t==1,c==1))]),
 ('spec_try_result',lambda s:Or(s==1,s==3),lambda s,t,c,r:[('the mutex is not held afterwards',t!=2),('released if it was acquired',Implies(B(r),And(t==1,c==2))),('nothing else',Implies(Not(B(r)),And(t==s,c==1)))]),
 ('spec_guard_begin',lambda s:Or(s==1,s==3),lambda s,t,c,r:[('unique_lock acquires the mutex once',And(t==2,c==1))]),
 ('spec_guard_end',lambda s:s==2,lambda s,t,c,r:[('unique_lock releases the mutex once',And(t==1,c==1))]),
 ('spec_guard',lambda s:Or(s==1,s==3),lambda s,t,c,r:[('unique_lock acquires and releases once, also when the protected code throws',And(t==1,c==2))]),
 ('spec_dummy_lock',lambda s:True,lambda s,t,c,r:[('dummy_mutex::lock does nothing',And(t==s,c==0))]),
 ('spec_dummy_unlock',lambda s:True,lambda s,t,c,r:[('dummy_mutex::unlock does nothing',And(t==s,c==0))]),
 ('spec_dummy_try',lambda s:True,lambda s,t,c,r:[('dummy_mutex::try_lock does nothing and is true',And(t==s,c==0,B(r)))]),
 ('spec_dummy_life',lambda s:True,lambda s,t,c,r:[('dummy_mutex can be locked any number of times',And(t==s,c==0))]),
]
def units(cx):
    return [Unit('%s (%s)'%(e[0],cx.tu),{'C18'},lambda opts,e=e: verify_entry(cx,e,opts)) for e in ENTRIES]
def verify_entry(cx,ent,opts):
    fn,pre,post0=ent
    try: off=cx.L.off_type(r'(class |struct )?boost::signals2::mutex$','pthread_mutex_t')
    except KeyError: off=0
    sp=MutexSpec(); eng=Engine(cx.M,cx.dem,sp,opts); ctx={}
    guard=fn in('spec_guard_begin','spec_guard_end')
    def setup(e,st,f):
        args=[]; s0=Int('st0'); st.assume(s0>=0,s0<=3)
        p=pre(s0)
        if p is not True: st.assume(p)
        st.g.update(st=s0,calls=IntVal(0))
        mo=e.newobj(st,'mutex',256); m=Ptr(mo); sp.m=Ptr(mo,off)
        for (t,nm,at) in f.params:
            if guard and nm in('p','g'):
                g=Ptr(e.newobj(st,'guard',8)); ctx['g']=g
                if nm=='g': e.store(st,g,m,ir.T('ptr'))
                args.append(g)
            else: args.append(m)
        ctx['s0']=s0
        return args
    def post(e,st,kind,v):
        if kind=='throw' and fn!='spec_guard': e.fail(st,'a mutex operation throws',tag='C18'); return
        for nm,f in post0(ctx['s0'],st.g['st'],st.g['calls'],v): e.oblige(st,nm,f,tag='C18')
        if fn=='spec_guard_begin': e.oblige(st,'the guard remembers the mutex it locked',zb(e.ptreq(st,e.load(st,ctx['g'],ir.T('ptr')),Ptr(sp.m.b))),tag='C18')
    return eng,eng.verify(fn,setup,post)
