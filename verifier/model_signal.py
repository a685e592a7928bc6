"""Model of one signal: the signal_impl object, its current state (list, combiner) and the states other invocations hold.
grouped_list members are used by contract (proved in spec_list), everything else of the library is inlined.
The lock holder owns the reference the signal has to its state: while the mutex is not held, other threads may replace the state,
change the list of a state nobody else refers to, and drop their own references at any time."""
from model_sig import *
from model_sig import KIND,EL,NT,VAR,AB,U8
from spec_list import find
GLN='boost::signals2::detail::grouped_list::'; IMN='boost::signals2::detail::signal_impl::'
IMPL=r'boost::signals2::detail::signal_impl<[^:]*(?:::[^:]*)*spec::Mutex>$'
NODEOF=Function('NODEOF',I,I)
class SignalModel(SigModel):
    use_cleanup=True      # nolock_cleanup_connections_from by contract
    def __init__(self,L,cx=None):
        super().__init__(L,cx)
        self.watched=set(); self.c={}
        on=self.on; g=GLN
        on(g+'grouped_list',self.gl_ctor); on(g+'~grouped_list',self.gl_dtor)
        on(g+'begin',lambda e,s,a,i,n:self.list_begin(e,s,self.gll(a[0]))); on(g+'end',lambda e,s,a,i,n:Ptr(('ln',ENDL(self.lid(e,s,self.gll(a[0]))))))
        on(g+'lower_bound',self.gl_bound); on(g+'upper_bound',self.gl_bound)
        on(g+'push_back',self.gl_push); on(g+'push_front',self.gl_push); on(g+'erase',self.gl_erase); on(g+'clear',self.gl_clear)
        k='spec::ExtSlotFn::'
        on(k+'ExtSlotFn',self.fn_ctor); on(k+'~ExtSlotFn',self.fn_dtor); on('spec::SlotFn::operator=',self.fn_set)
        on('boost::signals2::slot::track',self.track_contract,'contract')
        k='spec::Combiner::'
        on(k+'Combiner',self.cb_ctor); on(k+'~Combiner',lambda e,s,a,i,n:None); on(k+'operator=',self.cb_assign); on(k+'operator()',self.cb_call)
        on(IMN+'nolock_cleanup_connections_from',self.cleanup_contract)
        x=Int('x')
        im=r'boost::signals2::detail::signal_impl<int'
        self.IM_ST=L.off(im,'_shared_state'); self.IM_GC=L.off(im,'_garbage_collector_it'); self.IM_MX=L.off(im,'_mutex')
        self.ST_L=0; self.ST_C=16
    # ------------------------------------------------------------- grouped_list by contract
    def gll(self,p): return Ptr(p.b,p.off+self.GL_LIST)
    def gl_cmp(self,e,s,p): return zi(e.load(s,Ptr(p.b,p.off+self.GL_CMP),I64))
    def gl_ctor(self,e,s,a,i,n):
        if 'group_key_less' in n[-80:] or len(a)!=2:
            self.list_ctor(e,s,[self.gll(a[0])],i,n); c=e.load(s,a[1],I64)
        else:
            old=self.lid(e,s,self.gll(a[1])); self.list_access(e,s,a[1]); c=self.gl_cmp(e,s,a[1])
            r=self.list_copy(e,s,self.gll(a[0]),self.gll(a[1]),'copy'); 
            lid=self.lid(e,s,self.gll(a[0])); s.assume(*self.list_inv(s,lid,c))
            s.att[('copied',str(lid))]=old
            e.store(s,Ptr(a[0].b,a[0].off+self.GL_CMP),c,I64); return r
        e.store(s,Ptr(a[0].b,a[0].off+self.GL_CMP),c,I64); return None
    def gl_dtor(self,e,s,a,i,n):
        lid=self.lid(e,s,self.gll(a[0])); self.remove_if(e,s,lid,lambda x:BoolVal(True)); return None
    def gl_bound(self,e,s,a,i,n):
        lid=self.lid(e,s,self.gll(a[0])); self.list_access(e,s,a[0]); k=self.keyrank(e,s,a[1],self.gl_cmp(e,s,a[0]))
        up='upper_bound' in n
        return Ptr(('ln',self.list_first(e,s,lid,(lambda x:GK(x)>k) if up else (lambda x:GK(x)>=k),'bound')))
    def gl_push(self,e,s,a,i,n):
        p=a[0]; lid=self.lid(e,s,self.gll(p)); self.need_excl(e,s,p,lid); k=self.keyrank(e,s,a[1],self.gl_cmp(e,s,p)); back='push_back' in n
        t=s.fork(); t.trace+=('push throws',); t.att['push_threw']=True
        v=self.new_value(e,s,a[2],lid); self.share(e,s,a[2]); M=s.g['M']; x=Int('x!%d'%nextid())
        nn=fresh('node'); s.assume(nn>0,Not(sel(M,nn)),OWN(nn)==lid,NB(nn)==v,nn!=ENDL(lid),GK(nn)==k,POS(nn)<POS(ENDL(lid)))
        s.assume(ForAll([x],Implies(And(sel(M,x),OWN(x)==lid),(POS(x)<POS(nn))==(GK(x)<=k if back else GK(x)<k)),patterns=[sel(M,x)]))
        s.assume(ForAll([x],Implies(And(sel(M,x),OWN(x)==lid),POS(x)!=POS(nn)),patterns=[sel(M,x)]))
        self.gset(e,s,'M',Store(M,nn,BoolVal(True)))
        s.att['added']=s.att.get('added',())+((nn,lid,v,k),)
        return Outs([(t,'throw',Exc('other')),(s,'ret',None)])
    def new_value(self,e,s,p,lid):
        """the body a shared_ptr refers to becomes an element"""
        v=e.norm(s,e.load(s,p,PT))
        if isinstance(v.b,tuple) and v.b[0]=='bd' and not v.off:
            b=zi(v.b[1]); x=Int('x!%d'%nextid()); M=s.g['M']
            e.oblige(s,'a connection is put into a list only once',ForAll([x],Implies(And(sel(M,x),OWN(x)==lid),NB(x)!=b)),tag=('C01','C02')); return b
        if not isinstance(v.b,Obj): raise Unsupported('element %r'%(v,))
        k=('bodyid',v.b.id,v.off)
        if k in s.att: raise Unsupported('a body is inserted twice')
        b=fresh('newbody'); x=Int('x!%d'%nextid()); M=s.g['M']
        s.assume(b>0,ForAll([x],Implies(sel(M,x),NB(x)!=b),patterns=[sel(M,x)]))
        s.att[k]=b; g=s.g
        s.assume(sel(g['CONN'],b)==1,sel(g['RC'],b)==1,sel(g['SPX'],b)==b,sel(g['SPN'],b)==b,sel(g['WBN'],b)==0)
        return b
    def share(self,e,s,p):
        """the list keeps a copy of the shared_ptr"""
        cb=e.load(s,Ptr(p.b,p.off+8),PT)
        if isinstance(cb,Ptr) and isinstance(cb.b,Obj):
            u=s.mem[cb.b.id][(8,4)]; s.mem[cb.b.id][(8,4)]=u+1 if isinstance(u,int) else zi(u)+1; e.wlog(('m',cb.b.id,8,4))
    def track_contract(self,e,s,a,i,n):
        """slot::track(const slot_base&), proved in spec_slot"""
        if not n.endswith('ERKNS0_9slot_baseE'): return INLINE
        q=self.vid(e,s,a[0]); q2=self.vid(e,s,a[1]); z=fresh('vec'); i=Int('i!%d'%nextid())
        t=s.fork(); t.trace+=('track: bad_alloc',); t.att['thrown']='oom'; y=fresh('vec'); self.setvid(e,t,a[0],y)
        s.assume(NT(z)==NT(q)+NT(q2),ForAll([i],Implies(And(i>=0,i<NT(q)),EL(z,i)==EL(q,i)),patterns=[EL(z,i)]),ForAll([i],Implies(And(i>=NT(q),i<NT(z)),EL(z,i)==EL(q2,i-NT(q))),patterns=[EL(z,i)]))
        self.setvid(e,s,a[0],z)
        return Outs([(t,'throw',Exc('bad_alloc')),(s,'ret',a[0])])
    def fn_set(self,e,s,a,i,n):
        """the slot function is set from a function object (only those of the library occur here): it keeps a copy of it"""
        if '27bound_extended_slot_function' not in n and 'bound_extended_slot_function' not in n: return self.fn_assign(e,s,a,i,n)
        p=e.norm(s,a[1]); t=s.fork(); t.trace+=('slot function assignment throws',); t.att['thrown']='user'
        v=fresh('fn'); cs=dict(s.mem[p.b.id]); o=p.off
        fun=cs.get((o,8)); px=cs.get((o+8,8)); pn=cs.get((o+16,8))
        s.att[('boundfn',v.get_id())]=(fun,px,v)
        if isinstance(pn,Ptr) and isinstance(pn.b,Obj): self.share(e,s,Ptr(p.b,o+8))
        e.store(s,a[0],v,I64)
        return Outs([(t,'throw',Exc('other')),(s,'ret',a[0])])
    def gl_erase(self,e,s,a,i,n):
        p=a[0]; lid=self.lid(e,s,self.gll(p)); self.need_excl(e,s,p,lid); k=self.keyrank(e,s,a[1],self.gl_cmp(e,s,p)); M=s.g['M']
        if len(a)==2:
            self.drop(e,s,lid,lambda x:GK(x)==k); self.remove_if(e,s,lid,lambda x:GK(x)==k); return None
        x=self.nt(e,s,a[2]) if isinstance(a[2],Ptr) and isinstance(a[2].b,tuple) else self.itload(e,s,a[2])
        e.oblige(s,'erased iterator refers to an element of this list',And(sel(M,x),OWN(x)==lid),tag=self.T_IT)
        e.oblige(s,'the key given is the key of the erased element',GK(x)==k,tag=self.T_IT)
        e.oblige(s,'only disconnected connections are removed from a list',sel(s.g['CONN'],NB(x))==0,tag=('C02','C07','C12'))
        u=self.succ(e,s,x); self.gset(e,s,'M',Store(M,x,BoolVal(False)))
        return Ptr(('ln',u))
    def drop(self,e,s,lid,cond):
        x=Int('x!%d'%nextid()); M=s.g['M']
        e.oblige(s,'only disconnected connections are removed from a list',ForAll([x],Implies(And(sel(M,x),OWN(x)==lid,cond(x)),sel(s.g['CONN'],NB(x))==0),patterns=[sel(M,x)]),tag=('C02','C07','C12'))
    def gl_clear(self,e,s,a,i,n):
        p=a[0]; lid=self.lid(e,s,self.gll(p)); self.need_excl(e,s,p,lid); self.drop(e,s,lid,lambda x:BoolVal(True)); self.remove_if(e,s,lid,lambda x:BoolVal(True)); return None
    # ------------------------------------------------------------- states: who may read or change what
    def impl_cells(self,s): return s.mem[self.c['impl'].id]
    def cur_cb(self,s):
        v=self.impl_cells(s).get((self.IM_ST+8,8)); return v.b if isinstance(v,Ptr) and isinstance(v.b,Obj) else None
    def cur_state(self,s):
        v=self.impl_cells(s).get((self.IM_ST,8)); return v if isinstance(v,Ptr) and isinstance(v.b,Obj) else None
    def parts(self,s,sp):
        """list and combiner object of a state"""
        r=[]
        for o in(self.ST_L,self.ST_C):
            v=s.mem.get(sp.b.id,{}).get((sp.off+o,8)); r.append(v if isinstance(v,Ptr) and isinstance(v.b,Obj) else None)
        return r
    def use(self,s,cb): return zi(s.mem[cb.id][(8,4)])
    def refs(self,s,cb): return s.att.get(('mine',cb.id))
    def register(self,s,st,cb):
        """remember which objects belong to a published state"""
        l,k=self.parts(s,st); s.att['states']=s.att.get('states',())+((st,cb,l,k,self.lidof(s,l)),)
        for o in(st,l,k):
            if o is not None: self.watched.add(o.b.id)
    def lidof(self,s,l): return None if l is None else s.mem[l.b.id].get((l.off+self.GL_LIST+LID,8))
    def list_access(self,e,s,p): pass      # the accesses to the object's memory are checked by obj_access
    def obj_access(self,e,s,p,w):
        if e.quiet and not s.att.get('running'): return
        if not s.att.get('running'): return
        o=p.b.id
        if o==self.c['impl'].id:
            if p.off>=self.IM_MX: 
                if w: e.fail(s,'the signal changes its mutex',tag='C11')
                return
            if self.alone: return
            e.oblige(s,"the signal's state pointer is accessed with the mutex locked",BoolVal(bool(s.locks)),tag=('C11','C06')); return
        for st,cb,l,k,lid in s.att.get('states',()):
            for q in(st,l,k):
                if q is not None and q.b.id==o and q.off<=p.off:
                    m=self.refs(s,cb)
                    if cb.id not in s.mem: return
                    if m is not None and m<=0: e.oblige(s,'a state is accessed only while a reference to it is held',self.use(s,cb)==0,tag=('C11','C06','safe'))   # 0: this thread gave up the last reference and destroys it
                    if w and q is not l: e.oblige(s,'a published state is modified only with the mutex locked and while nobody else refers to it',And(BoolVal(bool(s.locks)),self.use(s,cb)==1),tag=('C06','C11'))
                    return
    alone=False
    def c_use(self,e,s,a,i,n):
        o=self.cb(e,s,a[0]); m=self.mine(s,o) if o is not None else None
        if m is not None:      # others give up references at any time, and copy only references they have
            u0=self.use(s,o); u=fresh('use'); s.assume(u>=m,Implies(u0==m,u==m)); s.mem[o.id][(8,4)]=u; e.wlog(('m',o.id,8,4))
        return INLINE if o is not None else self.c_use_sym(e,s,a[0])
    def held_lids(self,s):
        r=[]
        for st,cb,l,k,lid in s.att.get('states',()):
            m=self.refs(s,cb)
            if (m is None or m>0) and lid is not None: r.append(lid)
        return r
    def need_held(self,e,s,x):
        e.oblige(s,'a list is read while this thread keeps it unchanged',Or(*[OWN(x)==l for l in self.held_lids(s)]) if self.held_lids(s) else BoolVal(False),tag=('C06','C11'))
    def need_excl(self,e,s,p,lid):
        T=('C06','C11')
        for st,cb,l,k,li in s.att.get('states',()):
            if l is not None and l.b.id==p.b.id and l.off==p.off:
                e.oblige(s,'a list is modified only with the mutex locked and while nobody else refers to it',And(BoolVal(bool(s.locks)),self.use(s,cb)==1),tag=T); return
        e.oblige(s,'a list is modified only with the mutex locked',BoolVal(bool(s.locks)),tag=T)     # a state of this thread's own, not published yet
    # ------------------------------------------------------------- locking
    def on_lock(self,e,s,m):
        super().on_lock(e,s,m)
        if s.att.get('unlocked_once'):
            cs=self.impl_cells(s)      # others may have replaced the state meanwhile
            for k in list(cs):
                if k[0]<self.IM_MX: cs[k]=UNDEF
            return None
        cb=self.cur_cb(s)
        if cb is not None:
            mine=s.att.get(('mine',cb.id),0)+1; s.att[('mine',cb.id)]=mine; u=fresh('use'); s.assume(u>=mine); s.mem[cb.id][(8,4)]=u
            e.wlog(('m',cb.id,8,4)); e.wlog(('a',('mine',cb.id)))
    def ext_ready(self,e,s):
        """a slot that is in the list when the mutex is released can be called by others: an extended one must have its connection by then"""
        for nn,lid,b,k in s.att.get('added',()):
            bo=[kk for kk,vv in s.att.items() if isinstance(kk,tuple) and kk[0]=='bodyid' and vv is b]
            if not bo: continue
            bo=bo[0]; bc=s.mem.get(bo[1],{}); sl=bc.get((bo[2]+self.B_SLOT,8))
            if not(isinstance(sl,Ptr) and isinstance(sl.b,Obj) and sl.b.id in s.mem): continue
            bf=s.att.get(('boundfn',zi(s.mem[sl.b.id][(sl.off+self.S_FN,8)]).get_id()))
            if bf is None: continue
            cn=bf[1]; v=s.mem[cn.b.id].get((cn.off,8)) if isinstance(cn,Ptr) and isinstance(cn.b,Obj) and cn.b.id in s.mem else None
            e.oblige(s,'an extended slot has its connection before others can call it',zb(e.ptreq(s,v,Ptr(self.objof(s,bo[1]),bo[2]))) if v is not None and v is not UNDEF else BoolVal(False),tag='C15')
    def on_unlock(self,e,s,m):
        if s.att.get('running'): self.ext_ready(e,s)
        super().on_unlock(e,s,m)
        s.att['unlocked_once']=True
        cb=self.cur_cb(s)
        if cb is None: return
        m=s.att.get(('mine',cb.id))
        if m is None:      # a new state has been published
            u=s.mem[cb.id][(8,4)]
            if not isinstance(u,int): raise Unsupported('use count of a new state')
            self.register(s,self.cur_state(s),cb); m=u
        s.att[('mine',cb.id)]=m-1; u=fresh('use'); s.assume(u>=m); s.mem[cb.id][(8,4)]=u
        if m<1: e.fail(s,'the state the signal refers to is not counted',tag='safe')
    def sig_unlocked(self,e,s,old,own0,own1):
        if e.quiet: return
        self.signal_inv(e,s)
    def signal_inv(self,e,s):
        st=self.cur_state(s); cs=self.impl_cells(s)
        if st is None and all(cs.get((o,8)) is UNDEF for o in(self.IM_ST,self.IM_ST+8,self.IM_GC)): return     # not touched since the lock was taken again
        if st is None: return e.fail(s,'the signal has no state',tag='safe')
        l,k=self.parts(s,st); T=('C01','C02','C07','C16','safe')
        if l is None or k is None: return e.fail(s,'the state has no list or no combiner',tag=T)
        lid=self.lidof(s,l); M=s.g['M']
        gc=self.impl_cells(s).get((self.IM_GC,8))
        if not(isinstance(gc,Ptr) and isinstance(gc.b,tuple) and gc.b[0]=='ln'): return e.fail(s,'the garbage collector iterator is not set',tag=T)
        x=gc.b[1]
        e.oblige(s,'the garbage collector iterator refers into the current list',And(OWN(x)==lid,Or(sel(M,x),x==ENDL(lid))),tag=T)
        e.oblige(s,'the current list keeps the comparator of the signal',zi(s.mem[l.b.id][(l.off+self.GL_CMP,8)])==self.c['cmp'],tag=('C01','C06'))
        for nn,li,b,kk in s.att.get('added',()):
            bo=[k for k,v in s.att.items() if isinstance(k,tuple) and k[0]=='bodyid' and v is b]
            if not bo: continue
            o=Ptr(e.objs[bo[0][1]] if hasattr(e,'objs') else self.objof(s,bo[0][1]),bo[0][2]); self.new_body_ok(e,s,o,kk,b)
    def objof(self,s,oid):
        for cs in s.mem.values():
            for v in cs.values():
                if isinstance(v,Ptr) and isinstance(v.b,Obj) and v.b.id==oid: return v.b
        raise Unsupported('object lost')
    def new_body_ok(self,e,s,o,k,b):
        cs=s.mem.get(o.b.id)
        if cs is None: return
        T=('C01','C02','C16')
        f=e.load(s,Ptr(o.b,o.off+self.B_KEY),I32); rank=self.keyrank(e,s,Ptr(o.b,o.off+self.B_KEY),self.c['cmp'])
        e.oblige(s,'a new connection knows the group it was connected with',rank==k,tag=T)
        e.oblige(s,'a new connection is connected and keeps its slot once',And(zi(cs[(o.off+self.B_CONN,1)])==1,zi(cs[(o.off+self.B_RC,4)])==1),tag=('C03','C12','C02'))
        mp=cs[(o.off+self.B_MTX,8)]
        e.oblige(s,"a connection uses the signal's mutex",zb(e.ptreq(s,mp,Ptr(self.mtxobj))),tag=('C10','C11'))
    # ------------------------------------------------------------- combiner
    copy_throws=True
    def cb_ctor(self,e,s,a,i,n):
        if len(a)==1:
            e.store(s,a[0],fresh('default_combiner'),I64); return None
        if len(a)!=2: raise Unsupported('combiner constructor')
        self.held_comb(e,s,a[1])
        e.store(s,a[0],e.load(s,a[1],I64),I64)
        if not self.copy_throws: return None
        t=s.fork(); t.trace+=('combiner copy throws',); t.att['thrown']='user'
        return Outs([(t,'throw',Exc('other')),(s,'ret',None)])
    def held_comb(self,e,s,p): pass
    def cb_assign(self,e,s,a,i,n):
        p=e.norm(s,a[0])
        if isinstance(p.b,Obj):
            for st,cb,l,k,lid in s.att.get('states',()):
                if k is not None and k.b.id==p.b.id:
                    cc=s.mem[st.b.id][(st.off+self.ST_C+8,8)].b
                    e.oblige(s,'a combiner is changed only while no invocation uses it',And(BoolVal(bool(s.locks)),self.use(s,cb)==1,self.use(s,cc)==1),tag=('C06','C11'))
        t=s.fork(); t.trace+=('combiner assignment throws',)
        e.store(s,a[0],e.load(s,a[1],I64),I64)
        return Outs([(t,'throw',Exc('other')),(s,'ret',a[0])])
    def cb_call(self,e,s,a,i,n): raise Unsupported('combiner call')
    # ------------------------------------------------------------- cleanup by contract (proved as its own unit)
    def cleanup_contract(self,e,s,a,i,n):
        if not self.use_cleanup: return INLINE
        this,lock,grab,bit=a[:4]
        if not(isinstance(grab,int)): raise Unsupported('cleanup mode')
        st=self.cur_state(s); l,_=self.parts(s,st); lid=self.lid(e,s,self.gll(l)); x=self.itload(e,s,bit); M=s.g['M']
        e.oblige(s,'a cleanup starts with the mutex locked and while nobody else refers to the list',And(BoolVal(bool(s.locks)),self.use(s,self.cur_cb(s))==1),tag=('C06','C11'))
        e.oblige(s,'a cleanup starts at a valid position of the current list',And(OWN(x)==lid,Or(sel(M,x),x==ENDL(lid))),tag=self.T_IT)
        gp=self.impl_cells(s).get((self.IM_GC,8))
        s.att['cleaned']=(bool(grab),x,gp.b[1] if isinstance(gp,Ptr) and isinstance(gp.b,tuple) and gp.b[0]=='ln' else None,a[4],lid,M)
        tr=[k for k in s.g if isinstance(k,tuple) and k[0]=='tr']
        old={k:s.g[k] for k in NBODY}; old['M']=M; old['T']=s.g['T']
        self.pass_time(e,s)
        M1=fresh('M',AIB); y=Int('y!%d'%nextid()); b=Int('b!%d'%nextid())
        f=And(Implies(sel(M1,y),sel(M,y)),Implies(OWN(y)!=lid,sel(M1,y)==sel(M,y)))
        s.assume(ForAll([y],f,patterns=[sel(M1,y)]),ForAll([y],f,patterns=[sel(M,y)])); self.gset(e,s,'M',M1)
        if grab:
            for k in('CONN','RC','SPX','SPN','T'): self.gset(e,s,k,fresh(k,AII))
            for k in tr:
                self.gset(e,s,k,fresh('tr',AII)); L,C=('len',)+k[1:],('cap',)+k[1:]; l0,c0=s.g[L],s.g[C]
                self.gset(e,s,L,fresh('len')); self.gset(e,s,C,fresh('cap')); s.assume(s.g[L]>=l0,s.g[C]>=c0)
            g=s.g; s.assume(*self.cleanup_bodies(s,old,tr))
        g=s.g
        f=Implies(And(sel(M,y),Not(sel(M1,y))),sel(g['CONN'],NB(y))==0)
        s.assume(ForAll([y],f,patterns=[sel(M,y)]))
        gc=fresh('gc'); s.assume(gc>0,OWN(gc)==lid,Or(sel(M1,gc),gc==ENDL(lid)))
        s.assume(*self.list_inv(s,lid,self.gl_cmp(e,s,l)))
        cs=self.impl_cells(s); cs[(self.IM_GC,8)]=Ptr(('ln',gc)); e.wlog(('m',self.c['impl'].id,self.IM_GC,8))
        outs=[(s,'ret',None)]
        if grab:
            t=s.fork(); t.trace+=('cleanup: bad_alloc',); outs.insert(0,(t,'throw',Exc('bad_alloc')))
        return Outs(outs)
    def cleanup_bodies(self,s,old,tr):
        """what a cleanup that may disconnect does to the connections"""
        return [f for l in self.cleanup_parts(s,old) for f in l]+list(self.body_inv(s,self.own(s)))+self.ledger(s)
    def cleanup_parts(self,s,old):
        g=s.g; b=Int('b!%d'%nextid())
        P=lambda f,*k: [ForAll([b],f,patterns=[sel(a,b)]) for a in k]
        return [P(And(sel(g['CONN'],b)<=sel(old['CONN'],b),Or(sel(g['CONN'],b)==sel(old['CONN'],b),And(sel(g['CONN'],b)==0,self.just0(s,b)))),g['CONN'],old['CONN']),
            P(sel(g['RC'],b)-sel(g['CONN'],b)==sel(old['RC'],b)-sel(old['CONN'],b),g['RC'],g['CONN']),
            P(Or(sel(g['SPX'],b)==sel(old['SPX'],b),sel(g['SPX'],b)==0),g['SPX'],old['SPX'])]
    def just0(self,s,b):
        i=Int('i!%d'%nextid()); return Exists([i],And(i>=0,i<NT(TRK(b)),sel(s.g['EXPD'],EL(TRK(b),i))),patterns=[EL(TRK(b),i)])
def mk_signal(e,st,sp,c):
    """a signal built by the real constructor, then in an arbitrary state"""
    from spec_iter import run_concrete
    sp.ghosts(e,st); sp.c=c
    impl=e.newobj(st,'impl',64); c['impl']=impl
    cm=e.newobj(st,'combiner arg',8); st.mem[cm.id][(0,8)]=Int('combiner0'); cp=e.newobj(st,'compare arg',8); st.mem[cp.id][(0,8)]=Int('cmp_l'); c['cmp']=Int('cmp_l')
    run_concrete(e,st,find(sp.cx,IMN+'signal_impl',args=3),[Ptr(impl),Ptr(cm),Ptr(cp)])
    cs=st.mem[impl.id]
    mp=cs[(sp.IM_MX,8)]; sp.mtxobj=mp.b; sp.mcb=cs[(sp.IM_MX+8,8)].b
    S=sp.cur_state(st); cb=sp.cur_cb(st); l,k=sp.parts(st,S); c.update(S=S,cb=cb,list=l,comb=k)
    lid=Int('lid_l'); st.att={kk:v for kk,v in st.att.items() if not(isinstance(kk,tuple) and kk[0] in('ident','copy','copied'))}
    st.att['own']=None
    sp.ghosts(e,st); sp.mtxobj=mp.b; sp.mcb=cs[(sp.IM_MX+8,8)].b      # forget what the constructor did to the ghost state
    sp.new_identity(e,st,lid); st.att[('ident','lid_l')]=lid; st.assume(lid>0,ENDL(lid)>0)
    st.mem[l.b.id][(l.off+sp.GL_LIST+LID,8)]=lid
    st.assume(*sp.list_inv(st,lid,c['cmp']))
    gc=Int('gc0'); st.assume(gc>0,OWN(gc)==lid,Or(sel(st.g['M'],gc),gc==ENDL(lid))); cs[(sp.IM_GC,8)]=Ptr(('ln',gc))
    st.mem[cb.id][(8,4)]=Int('state_use'); st.assume(Int('state_use')>=1); st.att[('mine',cb.id)]=0
    cc=st.mem[S.b.id][(S.off+sp.ST_C+8,8)].b; st.mem[cc.id][(8,4)]=Int('comb_use'); st.assume(Int('comb_use')>=1); c['ccb']=cc
    st.mem[sp.mcb.id][(8,4)]=Int('muse')
    x=Int('x!%d'%nextid()); M=st.g['M']
    st.assume(ForAll([x],Implies(And(sel(M,x),OWN(x)==lid),NODEOF(NB(x))==x),patterns=[sel(M,x)]))
    st.assume(*sp.body_inv(st)); st.assume(*sp.ledger(st))
    sp.register(st,S,cb); sp.watched.add(impl.id)
    c.update(lid=lid,g0=dict(st.g)); st.att['running']=True
    return impl
