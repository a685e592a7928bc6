"""Contracts of slot_call_iterator_t and slot_call_iterator_cache: what an invocation calls, for every list and every interference."""
from model_sig import *
from spec_conn import Unit
from spec_list import find
TU='core'
IT='boost::signals2::detail::slot_call_iterator_t::'; CA='boost::signals2::detail::slot_call_iterator_cache'
ALLP={'C02','C03','C04','C05','C10','C11','C12','C16'}
def run_concrete(e,st,fname,args):
    """run a real function on the state during set up (single path)"""
    fr=e.call_function(st,fname,args); fr.call=None
    q=e.quiet; e.quiet+=1
    try: r=[x for x in e.explore(st,len(st.frames)) if x[0]=='ret']
    finally: e.quiet=q
    if len(r)!=1: raise Unsupported('set up of %s'%fname)
    s=r[0][1]
    st.__dict__.update(s.__dict__)
    return r[0][2]
OTHER=Int('some_object'); FOREIGN=z3.Function('FOREIGN',I,z3.BoolSort())   # an arbitrary object; the slots' lists in which it does not occur
def foreign_def():
    q,ix=Int('q!%d'%nextid()),Int('i!%d'%nextid())
    return ForAll([q,ix],Implies(And(FOREIGN(q),ix>=0,ix<NT(q)),EL(q,ix)!=OTHER),patterns=[EL(q,ix)])
class IterSpec(SigModel):
    def tracked_cands(self,c,q,ix,hv):
        super().tracked_cands(c,q,ix,hv)
        for k in hv.g:
            if isinstance(k,tuple) and k[0]=='cont' and k in self.entry.g:
                c.append(('nothing else was added',lambda s,k=k,e0=self.entry.g[k]: Implies(And(FOREIGN(q),Not(sel(e0,OTHER))),Not(sel(s.g[k],OTHER)))))
    def sig_unlocked(self,e,s,old,own0,own1):
        if e.quiet or own0.eq(own1): return
        b=own1; q=TRK(b); ix=Int('i!%d'%nextid()); g=s.g
        new=And(own1!=0,own1!=own0)
        e.oblige(s,'a slot is selected only while it is connected',Implies(new,sel(g['CONN'],b)==1),tag=('C02','C03'))
        e.oblige(s,'a slot is selected only if no blocker exists',Implies(new,Not(sel(g['LASTB'],b))),tag=('C02','C04'))
        e.oblige(s,'a slot is selected only if its tracked objects were all alive',Implies(new,ForAll([ix],Implies(And(ix>=0,ix<NT(q)),sel(g['SEEN'],EL(q,ix))),patterns=[EL(q,ix)])),tag=('C02','C05'))
    def check_args(self,e,s,a):
        c=self.c
        e.oblige(s,'the slot gets the arguments of the invocation',And(zb(e.ptreq(s,a[1],Ptr(c['arg']))),zi(a[2])==c['argv']),tag='C02')
def mk_cache(e,st,sp,c,active):
    """an invocation cache built by the real constructors, then in an arbitrary state; active: term of the slot in use (0: none)"""
    L=sp.L; cl=r'boost::signals2::detail::slot_call_iterator_cache<'
    arg=e.newobj(st,'arg',8); st.mem[arg.id][(0,8)]=Int('argv0'); iv=e.newobj(st,'int arg',4); st.mem[iv.id][(0,4)]=Int('argv'); c.update(arg=arg,argv=Int('argv'))
    inv=e.newobj(st,'invoker',16); ca=e.newobj(st,'cache',400); c.update(cache=ca); sp.c=c
    run_concrete(e,st,find(sp.cx,'boost::signals2::detail::variadic_slot_invoker::variadic_slot_invoker',args=3),[Ptr(inv),Ptr(arg),Ptr(iv)])
    run_concrete(e,st,find(sp.cx,CA+'::slot_call_iterator_cache',args=2),[Ptr(ca),Ptr(inv)])
    o=L.off
    c['o_act']=o(cl,'m_active_slot'); c['o_tr']=o(cl,'tracked_ptrs'); c['o_ini']=o(cl,'m_initialized'); c['o_sto']=o(cl,'m_storage')
    st.att['own']=(ca.id,c['o_act'])
    cs=st.mem[ca.id]
    cs[(c['o_act'],8)]=NULL if active is None else Ptr(('bd',active))
    st.g[('cont',ca.id,c['o_tr'])]=z3.Const('tracked0',AIB); st.g[('len',ca.id,c['o_tr'])]=Int('tracked_n'); st.g[('cap',ca.id,c['o_tr'])]=Int('tracked_cap'); st.assume(Int('tracked_n')>=0,Int('tracked_n')<=Int('tracked_cap'),Int('tracked_cap')>=10)
    ci,di=o(cl,'connected_slot_count'),o(cl,'disconnected_slot_count')
    cs[(ci,4)]=Int('ccount'); cs[(di,4)]=Int('dcount'); st.assume(Int('ccount')>=0,Int('dcount')>=0)
    cs[(c['o_ini'],1)]=If(Bool('cached'),IntVal(1),IntVal(0)); cs[(c['o_sto'],4)]=Int('result0')
    return ca
def mk_list(e,st,sp,c):
    sp.ghosts(e,st); lid=Int('lid_l'); cmp=Int('cmp_l'); sp.new_identity(e,st,lid); st.assume(lid>0,ENDL(lid)>0)
    st.att[('ident','lid_l')]=lid
    st.assume(*sp.list_inv(st,lid,cmp)); c.update(lid=lid,cmp=cmp,end=ENDL(lid),g0=dict(st.g))
    return lid
def node(e,st,sp,c,nm,end=False):
    x=Int(nm); st.assume(x>0,OWN(x)==c['lid'],Or(sel(st.g['M'],x),x==c['end']) if end else sel(st.g['M'],x))
    if end: st.assume(POS(x)<=POS(c['end']))
    return x
def holds_tracked(s,c,b,sp):
    q=TRK(b); ix=Int('i!%d'%nextid()); ct=s.g[('cont',c['cache'].id,c['o_tr'])]
    return ForAll([ix],Implies(And(ix>=0,ix<NT(q)),Or(KIND(EL(q,ix))==0,sel(ct,EL(q,ix)))),patterns=[EL(q,ix)])
def mk_iter(e,st,sp,c,nm,cur,callable_,ca):
    L=sp.L; cl=r'boost::signals2::detail::slot_call_iterator_t<'
    o=e.newobj(st,nm,32); cs=st.mem[o.id]
    c['o_iter']=L.off(cl,'iter'); c['o_end']=L.off(cl,'end'); c['o_cache']=L.off(cl,'cache'); c['o_cal']=L.off(cl,'callable_iter')
    cs[(c['o_iter'],8)]=Ptr(('ln',cur)); cs[(c['o_end'],8)]=Ptr(('ln',c['end'])); cs[(c['o_cache'],8)]=Ptr(ca); cs[(c['o_cal'],8)]=Ptr(('ln',callable_))
    return o
def at_element(e,st,sp,c,x,ca):
    """the invariant of an iterator that refers to a callable slot"""
    b=NB(x); st.assume(b>0,holds_tracked(st,c,b,sp)); st.mem[ca.id][(c['o_act'],8)]=Ptr(('bd',b))
def start(e,st,sp):
    st.assume(*sp.body_inv(st)); st.assume(*sp.ledger(st)); st.assume(foreign_def(),OTHER>0)
def itnode(st,o,off):
    v=st.mem[o.id].get((off,8))
    if isinstance(v,Ptr) and isinstance(v.b,tuple) and v.b[0]=='ln': return v.b[1]
    raise Unsupported('iterator value')
def ends(e,st,sp,c,kind):
    e.oblige(st,'no mutex is held at the end',BoolVal(not st.locks),tag=('C10','C16','safe'))
    e.oblige(st,'class invariant of the connections',And(*sp.body_inv(st)[:1]),tag=('C12','safe'))
    e.oblige(st,'a slot is released exactly when it is neither connected nor in use',sp.ledger(st)[0],tag='C12')
    e.oblige(st,'the list is not modified',st.g['M']==c['g0']['M'],tag=('C06','C02'))
def moved_to(e,st,sp,c,o,x0,kind,strict):
    """post of the constructor and of increment"""
    ends(e,st,sp,c,kind)
    g=st.g; ca=c['cache']
    own=sp.own(st)
    x=itnode(st,o,c['o_iter'])
    y=Int('y!%d'%nextid())
    if kind=='throw':
        e.oblige(st,'only an allocation failure leaves the iterator',BoolVal(st.exc is not None and st.exc.n=='bad_alloc'),tag=('C16','C02'))
        return
    e.oblige(st,'the iterator moves forward within the list',And(OWN(x)==c['lid'],Or(sel(g['M'],x),x==c['end']),POS(x)>POS(x0) if strict else POS(x)>=POS(x0)),tag=('C02','C01'))
    e.oblige(st,'only slots that are disconnected or blocked are skipped',ForAll([y],Implies(And(sel(g['M'],y),OWN(y)==c['lid'],POS(y)>POS(x0) if strict else POS(y)>=POS(x0),POS(y)<POS(x)),Or(sel(g['CONN'],NB(y))==0,sel(g['EVB'],NB(y)))),patterns=[sel(g['M'],y)]),tag=('C02','C04','C05','C07'))
    e.oblige(st,'the slot in use is the one the iterator refers to',own==If(x==c['end'],IntVal(0),NB(x)),tag=('C02','C12'))
    e.oblige(st,'the tracked objects of the slot are held',Or(x==c['end'],holds_tracked(st,c,NB(x),sp)),tag='C05')
    e.oblige(st,'nothing but the tracked objects of the slot is held',Implies(And(x!=c['end'],FOREIGN(TRK(NB(x)))),Not(sel(g[('cont',ca.id,c['o_tr'])],OTHER))),tag='C05')
    e.oblige(st,'the iterator does not search again for the slot it refers to',itnode(st,o,c['o_cal'])==x,tag=('C02',))
    e.oblige(st,'no slot is called by moving the iterator',g['CALLS']==0,tag='C02')
def same_cells(e,st,o,before): return before
def unit(cx,name,props,fnfind,setup,post,cost=3,cls=IterSpec,uopts=None,**kw):
    def run(opts):
        sp=cls(cx.L,cx)
        for k,v in kw.items(): setattr(sp,k,v)
        op=dict(uopts or {}); op.update(opts); op.setdefault('hou_entry',150); op.setdefault('hou_back',600)
        eng=Engine(cx.M,cx.dem,sp,op); c={}
        return eng,eng.verify(fnfind(),lambda e,st,f:setup(e,st,f,sp,c),lambda e,st,k,v:post(e,st,k,v,sp,c))
    return Unit(name,props,run,cost)
def units(cx):
    U=[]
    F=lambda base,**k: lambda: find(cx,base,**k)
    # ---- constructor
    def s_ctor(e,st,f,sp,c):
        mk_list(e,st,sp,c); ca=mk_cache(e,st,sp,c,None); x=node(e,st,sp,c,'first',end=True); start(e,st,sp); c.update(x0=x)
        o=e.newobj(st,'this',32); c['o']=o
        L=sp.L; cl=r'boost::signals2::detail::slot_call_iterator_t<'
        c['o_iter']=L.off(cl,'iter'); c['o_cal']=L.off(cl,'callable_iter')
        return [Ptr(o),Ptr(('ln',x)),Ptr(('ln',c['end'])),Ptr(ca)]
    def p_ctor(e,st,kind,v,sp,c): moved_to(e,st,sp,c,c['o'],c['x0'],kind,False)
    U.append(unit(cx,'slot_call_iterator_t(begin,end,cache)',ALLP,F(IT+'slot_call_iterator_t',args=4),s_ctor,p_ctor))
    # ---- increment
    def s_inc(e,st,f,sp,c):
        mk_list(e,st,sp,c); ca=mk_cache(e,st,sp,c,IntVal(0)); x=node(e,st,sp,c,'cur'); c.update(x0=x)
        at_element(e,st,sp,c,x,ca); start(e,st,sp); c['o']=mk_iter(e,st,sp,c,'this',x,x,ca)
        return [Ptr(c['o'])]
    def p_inc(e,st,kind,v,sp,c):
        moved_to(e,st,sp,c,c['o'],c['x0'],kind,True)
        if kind=='ret': e.oblige(st,'the result of the previous slot is forgotten',zi(st.mem[c['cache'].id][(c['o_ini'],1)])==0,tag='C02')
    U.append(unit(cx,'slot_call_iterator_t::increment',ALLP,F(IT+'increment'),s_inc,p_inc))
    # ---- dereference
    def p_der(e,st,kind,v,sp,c):
        ends(e,st,sp,c,kind); g=st.g; b=NB(c['x0']); cs=st.mem[c['cache'].id]
        ini=zi(cs[(c['o_ini'],1)])!=0
        e.oblige(st,'a cached result is used without calling the slot again; otherwise the slot is called exactly once',g['CALLS']==If(Bool('cached'),IntVal(0),IntVal(1)),tag='C02')
        e.oblige(st,'no other slot is called',Or(Bool('cached'),g['CALLED']==b),tag='C02')
        e.oblige(st,'the iterator stays where it is',And(itnode(st,c['o'],c['o_iter'])==c['x0'],itnode(st,c['o'],c['o_cal'])==c['x0'],sp.own(st)==b),tag=('C02','C12','C16'))
        if kind=='throw':
            k=st.exc.n if st.exc else ''
            if 'slot_threw' in st.att: e.oblige(st,"a slot's exception is passed on unchanged",BoolVal(k==st.att['slot_threw']),tag='C16')
            else: e.fail(st,'an exception no slot has thrown',tag='C16')
            e.oblige(st,'a slot that threw has no result',Not(ini),tag=('C02','C16'))
            if k=='expired': e.oblige(st,'a slot that throws expired_slot becomes disconnected',sel(g['CONN'],b)==0,tag=('C16','C05'))
            return
        r=If(Bool('cached'),Int('result0'),g['RESULT'])
        e.oblige(st,"the slot's result is delivered and cached",And(ini,zi(cs[(c['o_sto'],4)])==r,zi(e.load(st,v,I32))==r if isinstance(v,Ptr) else zi(v)==r),tag='C02')
        e.oblige(st,'the result refers to the cache',And(zb(e.ptreq(st,v,Ptr(c['cache'],c['o_sto'])))) if isinstance(v,Ptr) else BoolVal(True),tag='C02')
    class DerSpec(IterSpec):
        def may_disconnect(self,s,b): return And(BoolVal(s.att.get('slot_threw')=='expired'),b==NB(self.c['x0']))
    U.append(unit(cx,'slot_call_iterator_t::dereference',ALLP,F(IT+'dereference'),s_inc,p_der,cls=DerSpec))
    # ---- equality
    def s_eq(e,st,f,sp,c):
        mk_list(e,st,sp,c); ca=mk_cache(e,st,sp,c,None); x=node(e,st,sp,c,'cur',True); y=node(e,st,sp,c,'other',True); start(e,st,sp); c.update(x=x,y=y)
        c['o']=mk_iter(e,st,sp,c,'this',x,x,ca); c['q']=mk_iter(e,st,sp,c,'that',y,y,ca)
        return [Ptr(c['o']),Ptr(c['q'])]
    def p_eq(e,st,kind,v,sp,c):
        ends(e,st,sp,c,kind)
        if kind=='throw': return e.fail(st,'comparison throws',tag='C02')
        e.oblige(st,'iterators are equal exactly if they refer to the same position',zb(v)==(c['x']==c['y']),tag=('C02','C01'))
    U.append(unit(cx,'slot_call_iterator_t::equal',{'C02','C01'},F(IT+'equal'),s_eq,p_eq,1))
    # ---- cache
    def s_cd(e,st,f,sp,c):
        mk_list(e,st,sp,c); b=Int('active'); st.assume(b>=0); ca=mk_cache(e,st,sp,c,b); start(e,st,sp); c['b']=b
        st.att['own_dying']=True
        return [Ptr(ca)]
    def p_cd(e,st,kind,v,sp,c):
        if kind=='throw': return e.fail(st,'the destructor throws',tag=('C16','safe'))
        st.att['own_dead']=True
        ends(e,st,sp,c,kind)
        e.oblige(st,'the tracked objects are released',BoolVal(('cont',c['cache'].id,c['o_tr']) not in st.g),tag='C05')
        e.oblige(st,'a slot in use is given up',Or(c['b']==0,BoolVal(st.att.get('gave_up',False))),tag='C12')
    class CacheSpec(IterSpec):
        def on_unlock(self,e,s,m):
            if s.att.get('own_dying'): s.att['own_dead']=True; s.att['gave_up']=True
            return super().on_unlock(e,s,m)
    U.append(unit(cx,'~slot_call_iterator_cache',{'C12','C16','C10','C05'},F(CA+'::~slot_call_iterator_cache'),s_cd,p_cd,1,cls=CacheSpec))
    def s_cc(e,st,f,sp,c):
        mk_list(e,st,sp,c); ca=e.newobj(st,'cache',400); inv=e.newobj(st,'invoker',16); st.mem[inv.id].update({(0,8):Ptr(e.newobj(st,'a',8)),(8,8):Ptr(e.newobj(st,'b',8))}); c.update(cache=ca,inv=inv)
        c['pp']=(st.mem[inv.id][(0,8)],st.mem[inv.id][(8,8)])
        return [Ptr(ca),Ptr(inv)]
    def p_cc(e,st,kind,v,sp,c):
        if kind=='throw': return e.fail(st,'the constructor throws',tag=('C16','safe'))
        cl=r'boost::signals2::detail::slot_call_iterator_cache<'; o=sp.L.off; cs=st.mem[c['cache'].id]
        e.oblige(st,'a new invocation uses no slot and has no result',And(zb(e.ptreq(st,cs[(o(cl,'m_active_slot'),8)],NULL)),zi(cs[(o(cl,'m_initialized'),1)])==0),tag=('C02','C12'))
        f=o(cl,'f'); 
        e.oblige(st,'the arguments are passed on',And(zb(e.ptreq(st,cs[(f,8)],c['pp'][0])),zb(e.ptreq(st,cs[(f+8,8)],c['pp'][1]))),tag='C02')
    U.append(unit(cx,'slot_call_iterator_cache(f)',{'C02','C12'},F(CA+'::slot_call_iterator_cache',args=2),s_cc,p_cc,1))
    return U
