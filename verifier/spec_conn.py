"""Contracts of connection, scoped_connection, shared_connection_block, connection_body and the locks, for all states of the objects involved.
Every alias pattern of the handles is a case of its own; the state of a connection body is symbolic."""
from model_core import *
TU='core'
B_='boost::signals2::'; D_=B_+'detail::'
BODY_VT=r'boost::signals2::detail::connection_body<'; 
class ConnSpec(CoreModel):
    def on_lock(self,e,s,m):
        self.pass_time(e,s)
        if self.interf:
            for b in s.att.get('bodies',()):
                if s.att['bodymtx'].get(b.name)==m: return self.split(e,s,b)
        return None
    def split(self,e,s,b):
        """other threads may have changed what the mutex protects, within the class invariant and the rely condition: a connection never comes back"""
        if b.obj.id not in s.mem: return None
        c=s.mem[b.obj.id]; o=b.off
        c1=fresh('conn'); r1=fresh('rc'); c0=c[(o+b.CONN,1)]; r0=c[(o+b.RC,4)]
        own=s.att.get(('uses',b.name),0)
        s.assume(c1>=0,c1<=1,c1<=zi(c0),r1>=c1+own,Implies(zi(r0)==0,r1==0))
        e.wlog(('m',b.obj.id,o+b.CONN,1)); e.wlog(('m',b.obj.id,o+b.RC,4))
        s.att[('atlock',b.name)]=(c1,r1)
        c[(o+b.CONN,1)]=c1; c[(o+b.RC,4)]=r1
        if b.wcb and b.wcb.id in s.mem:
            u=fresh('buse'); s.assume(u>=s.att[('mine',b.wcb.id)]); s.mem[b.wcb.id][(8,4)]=u
        if not isinstance(c[(o+b.SLOT,8)],Ptr) or c[(o+b.SLOT,8)].b is not b.slot: return None
        t=s.fork(); t.assume(r1==0); t.trace+=('slot released meanwhile',); ct=t.mem[b.obj.id]
        ct[(o+b.CONN,1)]=0; ct[(o+b.RC,4)]=0; ct[(o+b.SLOT,8)]=NULL; ct[(o+b.SLOT+8,8)]=NULL; t.mem.pop(b.slot.id,None); t.mem.pop(b.scb.id,None)
        s.assume(r1>0)
        return Outs([(x,'ret',None) for x in (t,s) if e.feasible(x,BoolVal(True))])
def blocker_vt(sp):
    """control block of a blocker: a pointer that is not deleted"""
    err=None
    for rx in(r'boost::signals2::detail::connection_body_base\*',r'boost::signals2::detail::connection_body_base const\*',r'boost::signals2::detail::connection_body<.*\*, void \(\*\)',r'void( const)?\*, void \(\*\)'):
        try: return sp.vtab(r'boost::detail::sp_counted_impl_pd<'+rx)
        except KeyError as e: err=err or e
    raise err
class Body:
    pass
def mk_body(e,st,sp,nm='b',slot=True,blk=True,live=True):
    """an arbitrary connection body (inside its make_shared control block) satisfying the class invariant"""
    L=sp.L; b=Body(); b.name=nm
    rb=r'boost::signals2::detail::connection_body<'; rc=r'boost::detail::sp_counted_impl_pd<class boost::signals2::detail::connection_body<'
    b.WB=L.off(rb,'_weak_blocker'); b.CONN=L.off(rb,'_connected'); b.RC=L.off(rb,'m_slot_refcount'); b.SLOT=L.off(rb,'m_slot'); b.MTX=L.off(rb,'_mutex'); b.KEY=L.off(rb,'_group_key')
    stor=L.off(rc,'storage_'); ini=L.off(rc,'initialized_'); ptr=L.off(rc,'ptr')
    cb=e.newobj(st,'cb_'+nm,stor+96,True); b.cb=cb; b.obj=cb; b.off=stor
    c=st.mem[cb.id]
    use=Int('use_'+nm); weak=Int('weak_'+nm)
    c[(0,8)]=sp.vtab(r'boost::detail::sp_counted_impl_pd<boost::signals2::detail::connection_body<')
    st.assume(weak>=1)
    c[(12,4)]=weak; b.use0=use; b.weak0=weak
    st.att[('mine',cb.id)]=0
    b.p=Ptr(cb,stor); b.inio=ini
    if not live:
        c[(8,4)]=0; b.live=False; b.use0=IntVal(0); c[(ini,1)]=0; c[(ptr,8)]=b.p
        return b
    st.assume(use>=1); c[(8,4)]=use; c[(ini,1)]=1; c[(ptr,8)]=b.p; b.live=True
    o=stor
    c[(o,8)]=sp.vtab(BODY_VT)
    b.conn0=Int('conn_'+nm); b.rc0=Int('rc_'+nm); st.assume(b.conn0>=0,b.conn0<=1,b.rc0>=b.conn0)
    c[(o+b.CONN,1)]=b.conn0; c[(o+b.RC,4)]=b.rc0
    st.assume((b.rc0>0) if slot else (b.rc0==0))
    b.slot=None
    if slot:
        so=e.newobj(st,'slot_'+nm,32,True); b.slot=so; st.mem[so.id][(VAR,8)]=Int('tracked_'+nm)
        fo=L.off(r'boost::signals2::slot<int \(struct spec::Arg','_slot_function'); b.FO=fo
        st.mem[so.id][(fo,8)]=Int('fn_'+nm); st.att['slotfn']=st.att.get('slotfn',())+(so.id,)
        scb=e.newobj(st,'scb_'+nm,24,True); b.scb=scb
        st.mem[scb.id].update({(0,8):sp.vtab(r'boost::detail::sp_counted_impl_p<boost::signals2::slot<int'),(8,4):1,(12,4):1,(16,8):Ptr(so)})
        c[(o+b.SLOT,8)]=Ptr(so); c[(o+b.SLOT+8,8)]=Ptr(scb)
        b.tracked=Int('tracked_'+nm)
    else:
        c[(o+b.SLOT,8)]=NULL; c[(o+b.SLOT+8,8)]=NULL
    m=e.newobj(st,'mutex_'+nm,8,True); b.mtx=m; st.mem[m.id][(0,8)]=0
    mcb=e.newobj(st,'mcb_'+nm,24,True); b.mcb=mcb; b.muse0=Int('muse_'+nm); st.assume(b.muse0>=1)
    st.mem[mcb.id].update({(0,8):sp.vtab(r'boost::detail::sp_counted_impl_p<spec::Mutex'),(8,4):b.muse0,(12,4):1,(16,8):Ptr(m)})
    c[(o+b.MTX,8)]=Ptr(m); c[(o+b.MTX+8,8)]=Ptr(mcb)
    if blk:
        w=e.newobj(st,'wcb_'+nm,40,True); b.wcb=w; b.buse0=Int('buse_'+nm); b.bweak0=Int('bweak_'+nm); st.assume(b.buse0>=0,b.bweak0>=1)
        st.assume(Implies(b.buse0>0,b.bweak0>=2))
        st.mem[w.id].update({(0,8):blocker_vt(sp),(8,4):b.buse0,(12,4):b.bweak0,(16,8):b.p,(24,8):Ptr(('f',find(sp.cx,B_+'null_deleter')))})
        st.att[('mine',w.id)]=0
        c[(o+b.WB,8)]=b.p; c[(o+b.WB+8,8)]=Ptr(w)
    else:
        b.wcb=None; b.buse0=IntVal(0); c[(o+b.WB,8)]=NULL; c[(o+b.WB+8,8)]=NULL
    key,r,f,g=key_cells(e,st,sp,c,o+b.KEY,nm)
    st.att['bodies']=st.att.get('bodies',())+(b,); bm=dict(st.att.get('bodymtx',{})); bm[nm]=('o',m.id,0); st.att['bodymtx']=bm
    st.att[('managed',cb.id)]=()
    return b
def key_cells(e,st,sp,c,o,nm):
    f=Int('kf_'+nm); g=Int('kg_'+nm); st.assume(f>=0,f<=2)
    c[(o,4)]=f; c[(o+sp.KINI,1)]=If(f==1,IntVal(1),IntVal(0)); c[(o+sp.KGRP,8)]=g
    return None,None,f,g
# ---------------------------------------------------------------- handles
EMPTY_H='empty'
def mk_handle(e,st,sp,b,nm,size=16,extra=0):
    """a connection object referring to body b (None: empty)"""
    o=e.newobj(st,nm,size)
    if b is None: st.mem[o.id].update({(0,8):NULL,(8,8):NULL})
    else:
        st.mem[o.id].update({(0,8):b.p,(8,8):Ptr(b.cb)})
        b.nh=getattr(b,'nh',0)+1
        st.assume(b.weak0>=b.nh+(1 if b.live else 0))
    return o
def href(e,st,o,off=0):
    """(px, pn) of a handle"""
    c=st.mem[o.id]; return c.get((off,8)),c.get((off+8,8))
def is_null(p): return isinstance(p,Ptr) and isinstance(p.b,int) and p.b==0
def same(e,st,p,q):
    if p is None or q is None or p is UNDEF or q is UNDEF: return BoolVal(False)
    return zb(e.ptreq(st,p,q))
def refers(e,st,o,b,what,tag,off=0):
    px,pn=href(e,st,o,off)
    if b is None: e.oblige(st,'%s is empty'%what,same(e,st,pn,NULL),tag=tag)
    else: e.oblige(st,'%s refers to the connection'%what,And(same(e,st,px,b.p),same(e,st,pn,Ptr(b.cb))),tag=tag)
def weakcount(e,st,b,delta,tag,what='handles'):
    """delta: number of handles gained"""
    if b is None: return
    if b.cb.id not in st.mem:
        e.oblige(st,'the control block is released only with its last handle',zi(b.weak0)+delta==0,tag=tag); return
    w=st.mem[b.cb.id][(12,4)]
    e.oblige(st,'the number of %s of the connection is accounted for'%what,zi(w)==zi(b.weak0)+delta,tag=tag)
def body_cells(st,b):
    c=st.mem.get(b.obj.id)
    return c
def unchanged(e,st,b,tag,but=()):
    """the connection itself is not touched"""
    if b is None or not b.live: return
    c=body_cells(st,b)
    if c is None: return e.fail(st,'a live connection was destroyed',tag=tag)
    o=b.off
    e.oblige(st,'no other connection is disconnected',And(zi(c[(o+b.CONN,1)])==b.conn0,zi(c[(o+b.RC,4)])==b.rc0),tag=tag)
    e.oblige(st,'no reference to the connection is kept or dropped',And(zi(c[(8,4)])==b.use0,BoolVal(st.att[('mine',b.cb.id)]==0)),tag=tag)
    if b.slot: e.oblige(st,'the slot is still there',BoolVal(b.slot.id in st.mem and isinstance(c[(o+b.SLOT,8)],Ptr) and c[(o+b.SLOT,8)].b is b.slot),tag=tag)
    e.oblige(st,'the blocking state is unchanged',same(e,st,c[(o+b.WB+8,8)],Ptr(b.wcb) if b.wcb else NULL) if 'blk' not in but else BoolVal(True),tag=tag)
    if b.wcb and 'blk' not in but: e.oblige(st,'the blocking state is unchanged',And(BoolVal(b.wcb.id in st.mem),zi(st.mem[b.wcb.id][(8,4)])==b.buse0 if b.wcb.id in st.mem else BoolVal(False)),tag=tag)
    e.oblige(st,'no slot function is destroyed',BoolVal(not [1 for x in st.att.get('ev',()) if x[0]=='~fn']),tag=tag)
def quiet_end(e,st,kind,tag):
    e.oblige(st,'no mutex is held at the end',BoolVal(not st.locks),tag=('C10','safe'))
def fn_destroyed(st,b): return sum(1 for x in st.att.get('ev',()) if x[0]=='~fn' and x[1]==b.slot.id) if b.slot else 0
def disconnected(e,st,b,tags,fr=None):
    """post of disconnect() on a body that lives on: b.conn0/rc0 are the values before"""
    c=body_cells(st,b); o=b.off
    if c is None: return e.fail(st,'a live connection was destroyed',tag='C03')
    e.oblige(st,'after disconnect() the connection is not connected',zi(c[(o+b.CONN,1)])==0,tag='C03')
    e.oblige(st,"exactly the connection's own use of its slot is given up, once",zi(c[(o+b.RC,4)])==b.rc0-b.conn0,tag=('C03','C12'))
    if b.slot:
        rc=zi(c[(o+b.RC,4)]); n=fn_destroyed(st,b)
        e.oblige(st,'the slot function is destroyed exactly if its last use is gone',BoolVal(n==1)==(rc==0),tag='C12')
        e.oblige(st,'the slot stays as long as it is in use',Or(rc==0,same(e,st,c[(o+b.SLOT,8)],Ptr(b.slot))),tag='C12')
        e.oblige(st,'a released slot is not reachable any more',Or(rc>0,And(same(e,st,c[(o+b.SLOT,8)],NULL),same(e,st,c[(o+b.SLOT+8,8)],NULL))),tag=('C12','safe'))
    e.oblige(st,'no reference to the connection is kept or dropped',And(zi(c[(8,4)])==b.use0,BoolVal(st.att[('mine',b.cb.id)]==0)),tag=('C12','C08'))
    if b.wcb: e.oblige(st,'disconnecting does not change blockers',zi(st.mem[b.wcb.id][(8,4)])==b.buse0,tag='C04')
def inv(e,st,b,tag=('safe','C12')):
    c=body_cells(st,b)
    if c is None: return
    o=b.off; rc=zi(c[(o+b.RC,4)]); cn=zi(c[(o+b.CONN,1)])
    e.oblige(st,'class invariant: a connected slot is in use; the slot is there exactly while it is in use',And(Or(cn==0,cn==1),rc>=cn,(rc>0)==Not(same(e,st,c[(o+b.SLOT,8)],NULL))),tag=tag)
def destroyed(st,b):
    """the last reference was dropped by the function itself"""
    return st.mem[b.obj.id].get((b.inio,1)) in (0,False)
# ---------------------------------------------------------------- units
def multi(name,props,cx,fnfind,cases,cost=1,cls=ConnSpec,**kw):
    """one function, several cases (alias patterns); case: (label, setup(e,st,f,sp,c), post(e,st,kind,v,sp,c))"""
    def run(opts):
        sp=cls(cx.L,cx)
        for k,v in kw.items(): setattr(sp,k,v)
        op=dict(opts)
        if kw.get('alloc_throws'): op['alloc_throws']=True
        eng=Engine(cx.M,cx.dem,sp,op); R=None; f=fnfind()
        for lab,setup,post in cases:
            c={}
            def su(e,st,fu,setup=setup,lab=lab,c=c):
                base_ghosts2(st); st.trace+=('case '+lab,)
                return setup(e,st,fu,sp,c)
            r=eng.verify(f,su,lambda e,st,k,v,post=post,c=c:post(e,st,k,v,sp,c))
            if r['status'] in('unsupported','vacuous','error') and r['why']: r['why']=lab+': '+r['why']
            if R is None: R=r
            else:
                for k in('obligations','proved','returns','throws'): R[k]+=r[k]
                R['time']=round(R['time']+r['time'],2)
                rank=['verified','vacuous','error','unsupported','failed']
                if rank.index(r['status'])>rank.index(R['status']): R['status']=r['status']; R['why']=r['why']
        R['cases']=len(cases)
        return eng,R
    return Unit(name,props,run,cost)
def base_ghosts2(st):
    st.g.update(M=z3.Const('M0',AIB),MM=z3.Const('MM0',AIB),SEC=z3.Const('SEC0',AII),EXPD=z3.Const('EXPD0',AIB),SEEN=z3.K(I,BoolVal(False)))
BK=[('empty',None),('expired',dict(live=False)),('no slot',dict(slot=False,blk=True)),('slot',dict(slot=True,blk=True)),('never blocked',dict(slot=True,blk=False))]
def body_of(e,st,sp,kw,nm): return None if kw is None else mk_body(e,st,sp,nm,**kw)
def units(cx):
    U=[]
    def F(base,**k): return lambda: find(cx,base,**k)
    pairs=[(la,ka,lb,kb,al) for la,ka in BK for lb,kb in BK for al in ((False,True) if la==lb and ka is not None else (False,))]
    def two(size1=16,size2=16,args=None):
        """cases with two handles in every combination, the second possibly referring to the same connection, and the same object"""
        def gen(post,selfpost=None):
            cs=[]
            for la,ka,lb,kb,al in pairs:
                def su(e,st,f,sp,c,ka=ka,kb=kb,al=al):
                    a=body_of(e,st,sp,ka,'a'); b=a if al else body_of(e,st,sp,kb,'b')
                    h1=mk_handle(e,st,sp,a,'h1',size1); h2=mk_handle(e,st,sp,b,'h2',size2); c.update(a=a,b=b,h1=h1,h2=h2,al=al)
                    return [Ptr(h1),Ptr(h2)]
                cs.append(('%s/%s%s'%(la,lb,' same connection' if al else ''),su,post))
            if selfpost:
                for la,ka in BK:
                    def su(e,st,f,sp,c,ka=ka):
                        a=body_of(e,st,sp,ka,'a'); h=mk_handle(e,st,sp,a,'h1',size1); c.update(a=a,b=a,h1=h,h2=h,al=True); return [Ptr(h),Ptr(h)]
                    cs.append((la+' self',su,selfpost))
            return cs
        return gen
    def one(size=16,fresh_this=None):
        """cases with one handle; fresh_this: size of an uninitialised first argument"""
        def gen(post):
            cs=[]
            for la,ka in BK:
                def su(e,st,f,sp,c,ka=ka):
                    a=body_of(e,st,sp,ka,'a'); args=[]
                    if fresh_this: c['t']=e.newobj(st,'this',fresh_this); args.append(Ptr(c['t']))
                    h=mk_handle(e,st,sp,a,'h1',size); c.update(a=a,h1=h); return args+[Ptr(h)]
                cs.append((la,su,post))
            return cs
        return gen
    def nothrow(e,st,kind,what='the operation'):
        if kind=='throw': e.fail(st,'%s throws'%what,tag=('C08','safe')); raise PathEnd()
    C8=('C08',)
    # connection: constructors
    def p_default(e,st,kind,v,sp,c): nothrow(e,st,kind); refers(e,st,c['t'],None,'a default constructed handle',C8)
    U.append(multi('connection::connection()',{'C08'},cx,F(B_+'connection::connection',args=1),[('',lambda e,st,f,sp,c:(c.update(t=e.newobj(st,'this',16)),[Ptr(c['t'])])[1],p_default)]))
    def p_copy(e,st,kind,v,sp,c):
        nothrow(e,st,kind); refers(e,st,c['t'],c['a'],'the copy',C8); refers(e,st,c['h1'],c['a'],'the source',C8); weakcount(e,st,c['a'],1,C8); unchanged(e,st,c['a'],C8); quiet_end(e,st,kind,C8)
    def p_move(e,st,kind,v,sp,c):
        nothrow(e,st,kind); refers(e,st,c['t'],c['a'],'the target',C8); refers(e,st,c['h1'],None,'the moved-from handle',C8); weakcount(e,st,c['a'],0,C8); unchanged(e,st,c['a'],C8); quiet_end(e,st,kind,C8)
    U.append(multi('connection(const connection&)',{'C08'},cx,F(B_+'connection::connection',mangled=r'10connectionC[12]ERKS1_'),one(16,16)(p_copy)))
    U.append(multi('connection(connection&&)',{'C08'},cx,F(B_+'connection::connection',mangled=r'10connectionC[12]EOS1_'),one(16,16)(p_move)))
    U.append(multi('connection(weak_ptr)',{'C08','C15'},cx,F(B_+'connection::connection',mangled=r'10connectionC[12]ERKNS_8weak_ptr'),one(16,16)(p_copy)))
    def p_dtor(e,st,kind,v,sp,c):
        nothrow(e,st,kind); weakcount(e,st,c['a'],-1,C8); unchanged(e,st,c['a'],C8); quiet_end(e,st,kind,C8)
    U.append(multi('~connection',{'C08','C03'},cx,F(B_+'connection::~connection'),one()(p_dtor)))
    # assignments and swap
    def p_assign(move):
        def p(e,st,kind,v,sp,c):
            nothrow(e,st,kind); a,b=c['a'],c['b']
            refers(e,st,c['h1'],b,'the target',C8)
            refers(e,st,c['h2'],None if move else b,'the source',C8)
            if c['al']: weakcount(e,st,a,-1 if move else 0,C8)
            else: weakcount(e,st,a,-1,C8); weakcount(e,st,b,0 if move else 1,C8); unchanged(e,st,b,C8)
            unchanged(e,st,a,C8); quiet_end(e,st,kind,C8)
        return p
    def p_self(e,st,kind,v,sp,c):
        nothrow(e,st,kind); refers(e,st,c['h1'],c['a'],'a handle assigned to itself',C8); weakcount(e,st,c['a'],0,C8); unchanged(e,st,c['a'],C8); quiet_end(e,st,kind,C8)
    U.append(multi('connection::operator=(const connection&)',{'C08'},cx,F(B_+'connection::operator=',mangled=r'10connectionaSERKS1_'),two()(p_assign(False),p_self)))
    U.append(multi('connection::operator=(connection&&)',{'C08'},cx,F(B_+'connection::operator=',mangled=r'10connectionaSEOS1_'),two()(p_assign(True),p_self)))
    def p_swap(e,st,kind,v,sp,c):
        nothrow(e,st,kind); refers(e,st,c['h1'],c['b'],'the first handle',C8); refers(e,st,c['h2'],c['a'],'the second handle',C8)
        for x in (c['a'],c['b']): weakcount(e,st,x,0,C8); unchanged(e,st,x,C8)
    U.append(multi('connection::swap',{'C08'},cx,F(B_+'connection::swap'),two()(p_swap,p_self)))
    for mg,nm in ((r'swapERNS0_10connectionES2_','swap(connection,connection)'),(r'swapERNS0_17scoped_connectionES2_','swap(scoped_connection,scoped_connection)')):
        U.append(multi(nm,{'C08'},cx,F(B_+'swap',mangled=mg),two()(p_swap,p_self)))
    # comparison
    def p_eq(neg):
        def p(e,st,kind,v,sp,c):
            nothrow(e,st,kind); a,b=c['a'],c['b']
            la=a is not None and a.live; lb=b is not None and b.live
            want=(not la and not lb) or (la and lb and a is b)
            e.oblige(st,'handles are equal exactly if they refer to the same connection, or none of them to a connection that exists',zb(v)==BoolVal(want!=neg),tag=C8)
            for x in (a,b): unchanged(e,st,x,C8)
            quiet_end(e,st,kind,C8)
        return p
    U.append(multi('connection::operator==',{'C08'},cx,F(B_+'connection::operator=='),two()(p_eq(False),p_eq(False))))
    U.append(multi('connection::operator!=',{'C08'},cx,F(B_+'connection::operator!='),two()(p_eq(True),p_eq(True))))
    def p_lt(e,st,kind,v,sp,c):
        nothrow(e,st,kind); a,b=c['a'],c['b']
        la=a is not None and a.live; lb=b is not None and b.live
        def order(of): return (zi(sp.addr(e,st,of(a))) if la else IntVal(0))<(zi(sp.addr(e,st,of(b))) if lb else IntVal(0))
        for of in(lambda x:x.p,lambda x:Ptr(x.cb)):
            for x,l in((a,la),(b,lb)):
                if l: st.assume(zi(sp.addr(e,st,of(x)))>0)
        e.oblige(st,'the order of handles is that of the addresses of what they refer to, so it is consistent with equality',Or(zb(v)==order(lambda x:Ptr(x.cb)),zb(v)==order(lambda x:x.p)),tag=C8)
        for x in (a,b): unchanged(e,st,x,C8)
        quiet_end(e,st,kind,C8)
    U.append(multi('connection::operator<',{'C08'},cx,F(B_+'connection::operator<'),two()(p_lt,p_lt)))
    # ---------------------------------------------------------------- disconnect, connected, blocked
    def p_disc(target=lambda c:c['a'],extra=None,handles=0):
        def p(e,st,kind,v,sp,c):
            nothrow(e,st,kind,'disconnecting'); a=target(c)
            if a is not None and a.live: disconnected(e,st,a,None); inv(e,st,a)
            weakcount(e,st,a,handles,('C08','C12'))
            quiet_end(e,st,kind,None)
            if extra: extra(e,st,kind,v,sp,c)
        return p
    C34={'C03','C08','C10','C12'}
    U.append(multi('connection::disconnect',C34,cx,F(B_+'connection::disconnect'),one()(p_disc(extra=lambda e,st,k,v,sp,c: refers(e,st,c['h1'],c['a'],'the handle',C8)))))
    def p_disc_i(e,st,kind,v,sp,c):
        nothrow(e,st,kind,'disconnecting'); a=c['a']
        if a is not None and a.live and not st.att.get(('gone',a.cb.id)) and a.obj.id in st.mem and (a.off+a.CONN,1) in st.mem[a.obj.id] and not destroyed(st,a):
            e.oblige(st,'after disconnect() the connection is not connected, whatever other threads do',zi(body_cells(st,a)[(a.off+a.CONN,1)])==0,tag='C03')
            c1,r1=st.att.get(('atlock','a'),(None,None))
            if c1 is not None: e.oblige(st,"exactly the connection's own use of its slot is given up, once",zi(body_cells(st,a)[(a.off+a.RC,4)])==r1-c1,tag=('C03','C12','C11'))
            inv(e,st,a)
        quiet_end(e,st,kind,None)
    U.append(multi('connection::disconnect (other threads running)',C34|{'C11'},cx,F(B_+'connection::disconnect'),one()(p_disc_i),interf=True))
    # connected()
    def p_connected(e,st,kind,v,sp,c,inverse=False):
        a=c['a']
        quiet_end(e,st,kind,None)
        if kind=='throw':
            e.oblige(st,'only memory exhaustion leaves connected()',BoolVal(v.n=='bad_alloc'),tag='C03')
            if a is not None and a.live: unchanged(e,st,a,('C03','C16'))
            return
        if a is None or not a.live:
            e.oblige(st,'a handle to no connection is not connected',Not(zb(v)),tag='C03'); return
        cl=body_cells(st,a); cn=zi(cl[(a.off+a.CONN,1)])
        e.oblige(st,'connected() tells the state it leaves',zb(v)==(cn==1),tag='C03')
        if a.slot is None: e.oblige(st,'a slotless connection is not connected',cn==0,tag='C03')
        else:
            q=a.tracked; i=Int('i!%d'%nextid())
            e.oblige(st,'connected() never connects',cn<=a.conn0,tag='C03')
            e.oblige(st,'a slot reported as connected was seen to have all its tracked objects',Or(cn==0,ForAll([i],Implies(And(i>=0,i<NT(q)),sel(st.g['SEEN'],EL(q,i))),patterns=[EL(q,i)])),tag=('C05','C07'))
            e.oblige(st,'connected() disconnects only a slot of which a tracked object is gone',Or(cn==a.conn0,Exists([i],And(i>=0,i<NT(q),sel(st.g['EXPD'],EL(q,i))),patterns=[EL(q,i)])),tag=('C03','C05','C07'))
            e.oblige(st,"exactly the connection's own use of its slot is given up, once",zi(cl[(a.off+a.RC,4)])==a.rc0-(a.conn0-cn),tag=('C03','C12'))
        inv(e,st,a)
        e.oblige(st,'no reference to the connection is kept or dropped',And(zi(cl[(8,4)])==a.use0,BoolVal(st.att[('mine',a.cb.id)]==0)),tag=('C12','C08'))
        weakcount(e,st,a,0,('C08','C12'))
    U.append(multi('connection::connected',{'C03','C05','C07','C10','C12'},cx,F(B_+'connection::connected'),one()(p_connected),cost=2))
    def p_blocked(e,st,kind,v,sp,c):
        a=c['a']; quiet_end(e,st,kind,None)
        if kind=='throw': return e.oblige(st,'only memory exhaustion leaves blocked()',BoolVal(v.n=='bad_alloc'),tag='C04')
        if a is None or not a.live:
            e.oblige(st,'a handle to no connection is blocked',zb(v),tag='C04'); return
        cn=zi(body_cells(st,a)[(a.off+a.CONN,1)])
        e.oblige(st,'blocked() is true exactly if the connection is disconnected or a blocker exists',zb(v)==Or(cn==0,a.buse0>0),tag='C04')
        if a.wcb: e.oblige(st,'asking does not change blockers',zi(st.mem[a.wcb.id][(8,4)])==a.buse0,tag='C04')
        weakcount(e,st,a,0,('C08','C12')); inv(e,st,a)
    U.append(multi('connection::blocked',{'C04','C10','C12'},cx,F(B_+'connection::blocked'),one()(p_blocked),cost=2))
    # ---------------------------------------------------------------- scoped_connection
    S_=B_+'scoped_connection::'
    U.append(multi('scoped_connection()',{'C08'},cx,F(S_+'scoped_connection',args=1),[('',lambda e,st,f,sp,c:(c.update(t=e.newobj(st,'this',16)),[Ptr(c['t'])])[1],p_default)]))
    U.append(multi('scoped_connection(const connection&)',{'C08'},cx,F(S_+'scoped_connection',mangled=r'C[12]ERKNS0_10connectionE'),one(16,16)(p_copy)))
    U.append(multi('scoped_connection(scoped_connection&&)',{'C08'},cx,F(S_+'scoped_connection',mangled=r'C[12]EOS1_'),one(16,16)(p_move)))
    U.append(multi('scoped_connection(connection&&)',{'C08'},cx,F(S_+'scoped_connection',mangled=r'C[12]EONS0_10connectionE'),one(16,16)(p_move)))
    U.append(multi('~scoped_connection',C34,cx,F(S_+'~scoped_connection'),one()(p_disc(handles=-1))))
    def p_scassign(move):
        def p(e,st,kind,v,sp,c):
            nothrow(e,st,kind); a,b=c['a'],c['b']
            if a is not None and a.live: disconnected(e,st,a,None); inv(e,st,a)
            refers(e,st,c['h1'],b,'the target',C8)
            refers(e,st,c['h2'],None if move else b,'the source',C8)
            if c['al']: weakcount(e,st,a,-1 if move else 0,C8)
            else: weakcount(e,st,a,-1,C8); weakcount(e,st,b,0 if move else 1,C8); unch2(e,st,b)
            quiet_end(e,st,kind,None)
        return p
    def unch2(e,st,b):
        # the event log is shared with the disconnected one: only the state of b itself
        if b is None or not b.live: return
        cl=body_cells(st,b); o=b.off
        e.oblige(st,'the assigned connection stays as it was',And(zi(cl[(o+b.CONN,1)])==b.conn0,zi(cl[(o+b.RC,4)])==b.rc0,zi(cl[(8,4)])==b.use0,BoolVal(fn_destroyed(st,b)==0)),tag=('C08','C03'))
    def p_scself(disc):
        def p(e,st,kind,v,sp,c):
            nothrow(e,st,kind); a=c['a']
            refers(e,st,c['h1'],a,'a handle assigned to itself',C8); weakcount(e,st,a,0,C8)
            if a is not None and a.live:
                if disc: disconnected(e,st,a,None)
                else: unchanged(e,st,a,C8)
            quiet_end(e,st,kind,None)
        return p
    U.append(multi('scoped_connection::operator=(const connection&)',C34,cx,F(S_+'operator=',mangled=r'aSERKNS0_10connectionE'),two()(p_scassign(False),p_scself(True)),cost=2))
    U.append(multi('scoped_connection::operator=(scoped_connection&&)',C34,cx,F(S_+'operator=',mangled=r'aSEOS1_'),two()(p_scassign(True),p_scself(False)),cost=2))
    U.append(multi('scoped_connection::operator=(connection&&)',C34,cx,F(S_+'operator=',mangled=r'aSEONS0_10connectionE'),two()(p_scassign(True),p_scself(False)),cost=2))
    def s_release(e,st,f,sp,c,ka):
        a=body_of(e,st,sp,ka,'a'); h=mk_handle(e,st,sp,a,'h1'); t=e.newobj(st,'result',16); c.update(a=a,h1=h,t=t); return [Ptr(t),Ptr(h)]
    U.append(multi('scoped_connection::release',{'C08'},cx,F(S_+'release'),[(la,lambda e,st,f,sp,c,ka=ka:s_release(e,st,f,sp,c,ka),p_move) for la,ka in BK]))
    
    units_block(cx,U,F)
    return U
# ---------------------------------------------------------------- shared_connection_block
NOBL,DUMMY,OWN_='not blocking','blocking nothing','blocking'
BLS=[('empty',None,NOBL),('empty',None,DUMMY),('expired',dict(live=False),NOBL),('expired',dict(live=False),DUMMY),('expired',dict(live=False),OWN_)]+[(l,k,x) for l,k in BK if k and k.get('live',True) for x in ((NOBL,OWN_) if k.get('blk',True) else (NOBL,))]
def mk_block(e,st,sp,b,how,nm):
    """a shared_connection_block on body b; a blocking one owns a share of the blocker of its connection, or of a stand-in made after the connection was gone"""
    o=mk_handle(e,st,sp,b,nm,32); c=st.mem[o.id]; o.how=how
    if how==NOBL: c.update({(16,8):NULL,(24,8):NULL}); o.bcb=None; return o
    if how==OWN_ and b.live: w=b.wcb; px=b.p; b.nb=getattr(b,'nb',0)+1; st.assume(b.buse0>=b.nb)
    elif how==OWN_:
        # the body is gone, its blocker is still shared by blocks
        if not getattr(b,'wcb',None):
            w=e.newobj(st,'wcb_'+b.name,40,True); b.wcb=w; b.buse0=Int('buse_'+b.name); b.bweak0=IntVal(1); b.nb=0
            st.mem[w.id].update({(0,8):blocker_vt(sp),(8,4):b.buse0,(12,4):1,(16,8):b.p,(24,8):Ptr(('f',find(sp.cx,B_+'null_deleter')))})
            st.att[('mine',w.id)]=0
        w=b.wcb; px=b.p; b.nb+=1; st.assume(b.buse0>=b.nb)
    else:
        w=e.newobj(st,'dcb_'+nm,24,True); u=Int('duse_'+nm); st.assume(u>=1)
        st.mem[w.id].update({(0,8):sp.vtab(r'boost::detail::sp_counted_impl_p<int>'),(8,4):u,(12,4):1,(16,8):NULL}); px=NULL; o.duse0=u
    # the share is owned by the block: it may be released here
    if how==OWN_: st.att[('mine',w.id)]+=1
    c.update({(16,8):px,(24,8):Ptr(w)}); o.bcb=w
    return o
def is_blocking(e,st,o): return Not(same(e,st,st.mem[o.id][(24,8)],NULL))
def bl_count(st,b):
    w=b.wcb
    return zi(st.mem[w.id][(8,4)]) if w and w.id in st.mem else None
def blockers(e,st,b,delta,tag='C04'):
    """number of blocks blocking connection b changed by delta"""
    if b is None or not b.live: return
    c=body_cells(st,b); pn=c[(b.off+b.WB+8,8)]
    cur=IntVal(0)
    if isinstance(pn,Ptr) and isinstance(pn.b,Obj) and pn.b.id in st.mem: cur=zi(st.mem[pn.b.id][(8,4)])
    e.oblige(st,'the number of blocks on the connection is accounted for',cur==b.buse0+delta,tag=tag)
    e.oblige(st,'blocking does not touch the connection itself',And(zi(c[(b.off+b.CONN,1)])==b.conn0,zi(c[(b.off+b.RC,4)])==b.rc0,zi(c[(8,4)])==b.use0),tag=(tag,'C03','C12'))
def owns_blocker(e,st,o,b,tag='C04'):
    """block o shares the blocker of its live connection"""
    pn=st.mem[o.id][(24,8)]
    if b is not None and b.live: e.oblige(st,'a blocking block shares the blocker its connection looks at',And(Not(same(e,st,pn,NULL)),same(e,st,pn,body_cells(st,b)[(b.off+b.WB+8,8)])),tag=tag)
    else: e.oblige(st,'blocking() is true after block() even if the connection is gone',Not(same(e,st,pn,NULL)),tag=tag)
def units_block(cx,U,F):
    K=B_+'shared_connection_block::'; C4={'C04','C08','C10'}
    def end(e,st): quiet_end(e,st,None,None)
    def s1(e,st,f,sp,c,k,how):
        b=body_of(e,st,sp,k,'a'); o=mk_block(e,st,sp,b,how,'k'); c.update(b=b,o=o); return [Ptr(o)]
    def one(post): return [(l+', '+how,lambda e,st,f,sp,c,k=k,how=how:s1(e,st,f,sp,c,k,how),post) for l,k,how in BLS]
    def oom(e,st,kind,v,c):
        if kind!='throw': return False
        e.oblige(st,'only memory exhaustion leaves block()',BoolVal(v.n=='bad_alloc'),tag='C04'); return True
    def p_block(e,st,kind,v,sp,c):
        b,o=c['b'],c['o']; refers(e,st,o,b,'the block','C04'); weakcount(e,st,b,0,('C04','C08')); end(e,st)
        if oom(e,st,kind,v,c):
            blockers(e,st,b,0); e.oblige(st,'a failed block() does not block',is_blocking(e,st,o)==BoolVal(o.how!=NOBL),tag='C04'); return
        blockers(e,st,b,1 if o.how==NOBL else 0); 
        if o.how!=DUMMY: owns_blocker(e,st,o,b)
        else: e.oblige(st,'still blocking',is_blocking(e,st,o),tag='C04')
    U.append(multi('shared_connection_block::block',C4|{'C12'},cx,F(K+'block'),one(p_block),alloc_throws=True))
    def p_unblock(e,st,kind,v,sp,c):
        b,o=c['b'],c['o']
        if kind=='throw': return e.fail(st,'unblock() throws',tag='C04')
        refers(e,st,o,b,'the block','C04'); weakcount(e,st,b,0,('C04','C08')); end(e,st)
        e.oblige(st,'an unblocked block does not block',Not(is_blocking(e,st,o)),tag='C04')
        blockers(e,st,b,-1 if o.how==OWN_ else 0)
    U.append(multi('shared_connection_block::unblock',C4,cx,F(K+'unblock'),one(p_unblock)))
    def p_blocking(e,st,kind,v,sp,c):
        b,o=c['b'],c['o']
        if kind=='throw': return e.fail(st,'blocking() throws',tag='C04')
        e.oblige(st,'blocking() is true exactly after block() without unblock()',zb(v)==BoolVal(o.how!=NOBL),tag='C04'); blockers(e,st,b,0); end(e,st)
    U.append(multi('shared_connection_block::blocking',{'C04'},cx,F(K+'blocking'),one(p_blocking)))
    def p_dtor(e,st,kind,v,sp,c):
        b,o=c['b'],c['o']
        if kind=='throw': return e.fail(st,'the destructor throws',tag='C04')
        blockers(e,st,b,-1 if o.how==OWN_ else 0); weakcount(e,st,b,-1,('C04','C08')); end(e,st)
    U.append(multi('~shared_connection_block',C4,cx,F(K+'~shared_connection_block'),one(p_dtor)))
    # connection()
    def s_conn(e,st,f,sp,c,k,how):
        t=e.newobj(st,'result',16); a=s1(e,st,f,sp,c,k,how); c['t']=t; return [Ptr(t)]+a
    def p_conn(e,st,kind,v,sp,c):
        b=c['b']
        if kind=='throw': return e.fail(st,'connection() throws',tag='C08')
        refers(e,st,c['t'],b,'the handle returned',('C04','C08')); weakcount(e,st,b,1,('C04','C08')); blockers(e,st,b,0); end(e,st)
    U.append(multi('shared_connection_block::connection',C4,cx,F(K+'connection'),[(l+', '+how,lambda e,st,f,sp,c,k=k,how=how:s_conn(e,st,f,sp,c,k,how),p_conn) for l,k,how in BLS]))
    # constructor from a connection
    def s_ctor(e,st,f,sp,c,k,ini):
        b=body_of(e,st,sp,k,'a'); h=mk_handle(e,st,sp,b,'h'); t=e.newobj(st,'this',32); c.update(b=b,h=h,t=t,ini=ini); return [Ptr(t),Ptr(h),ini]
    def p_ctor(e,st,kind,v,sp,c):
        b,t=c['b'],c['t']; end(e,st); refers(e,st,c['h'],b,'the handle','C08')
        if oom(e,st,kind,v,c): blockers(e,st,b,0); weakcount(e,st,b,0,('C04','C08')); return
        refers(e,st,t,b,'the block','C04'); weakcount(e,st,b,1,('C04','C08'))
        if c['ini']: blockers(e,st,b,1); owns_blocker(e,st,t,b)
        else: blockers(e,st,b,0); e.oblige(st,'a block made with initially_blocked=false does not block',Not(is_blocking(e,st,t)),tag='C04')
    U.append(multi('shared_connection_block(connection,bool)',C4,cx,F(K+'shared_connection_block',args=3),[(l+(' blocked' if i else ''),lambda e,st,f,sp,c,k=k,i=i:s_ctor(e,st,f,sp,c,k,i),p_ctor) for l,k in BK for i in(0,1)],alloc_throws=True))
    # copy and move
    def s_copy(e,st,f,sp,c,k,how):
        t=e.newobj(st,'this',32); a=s1(e,st,f,sp,c,k,how); c['t']=t; return [Ptr(t)]+a
    def p_copy(move):
        def p(e,st,kind,v,sp,c):
            b,o,t=c['b'],c['o'],c['t']
            if kind=='throw': return e.fail(st,'copying a block throws',tag='C04')
            refers(e,st,t,b,'the copy','C04'); end(e,st)
            e.oblige(st,'a copy blocks exactly if its source does',is_blocking(e,st,t)==BoolVal(o.how!=NOBL),tag='C04')
            if o.how==OWN_: owns_blocker(e,st,t,b)
            if move: blockers(e,st,b,0); weakcount(e,st,b,0,('C04','C08'))
            else: blockers(e,st,b,1 if o.how==OWN_ else 0); weakcount(e,st,b,1,('C04','C08')); refers(e,st,o,b,'the source','C04'); e.oblige(st,'the source is as before',is_blocking(e,st,o)==BoolVal(o.how!=NOBL),tag='C04')
        return p
    def optional(name,props,fn,cases,**k):
        try: fn()
        except KeyError: return
        U.append(multi(name,props,cx,fn,cases,**k))
    for mv,mg in ((False,r'block.*C[12]ERKS1_'),(True,r'block.*C[12]EOS1_')):
        optional('shared_connection_block(%s)'%('&&' if mv else 'const&'),C4,F(K+'shared_connection_block',mangled=mg),[(l+', '+how,lambda e,st,f,sp,c,k=k,how=how:s_copy(e,st,f,sp,c,k,how),p_copy(mv)) for l,k,how in BLS])
    def s_as(e,st,f,sp,c,ka,ha,kb,hb,al):
        a=body_of(e,st,sp,ka,'a'); b=a if al else body_of(e,st,sp,kb,'b')
        o=mk_block(e,st,sp,a,ha,'k1'); q=mk_block(e,st,sp,b,hb,'k2'); c.update(a=a,b=b,o=o,q=q,al=al); return [Ptr(o),Ptr(q)]
    def p_as(move):
        def p(e,st,kind,v,sp,c):
            a,b,o,q,al=c['a'],c['b'],c['o'],c['q'],c['al']
            if kind=='throw': return e.fail(st,'assigning a block throws',tag='C04')
            refers(e,st,o,b,'the target','C04'); end(e,st)
            e.oblige(st,'the target blocks exactly if the source did',is_blocking(e,st,o)==BoolVal(q.how!=NOBL),tag='C04')
            if q.how==OWN_: owns_blocker(e,st,o,b)
            da=-1 if o.how==OWN_ else 0; db=1 if q.how==OWN_ and not move else 0
            if al: blockers(e,st,a,da+db); weakcount(e,st,a,-1 if move else 0,('C04','C08'))
            else:
                blockers(e,st,a,da); blockers(e,st,b,db); weakcount(e,st,a,-1,('C04','C08')); weakcount(e,st,b,0 if move else 1,('C04','C08'))
            if not move: refers(e,st,q,b,'the source','C04'); e.oblige(st,'the source is as before',is_blocking(e,st,q)==BoolVal(q.how!=NOBL),tag='C04')
        return p
    for mv,mg in ((False,r'blockaSERKS1_'),(True,r'blockaSEOS1_')):
        cs=[]
        for la,ka,ha in BLS:
            for lb,kb,hb in BLS:
                for al in ((False,True) if la==lb and ka is not None else (False,)):
                    cs.append(('%s %s/%s %s%s'%(la,ha,lb,hb,' same connection' if al else ''),lambda e,st,f,sp,c,x=(ka,ha,kb,hb,al):s_as(e,st,f,sp,c,*x),p_as(mv)))
        optional('shared_connection_block::operator=(%s)'%('&&' if mv else 'const&'),C4,F(K+'operator=',mangled=mg),cs,cost=2)
