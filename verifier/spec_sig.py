"""Contracts of signal_impl: connecting, disconnecting, invoking, counting, combiners, cleanup."""
from model_signal import *
from spec_conn import Unit
from spec_base import dual
from spec_iter import unit, start, holds_tracked
TU='core'; B=z3.BoolSort()
IT='boost::signals2::detail::slot_call_iterator_t::'; CA='boost::signals2::detail::slot_call_iterator_cache::'
def key_arg(e,st,sp,nm='grp'):
    o=e.newobj(st,nm,8); st.mem[o.id][(0,8)]=Int(nm); return Ptr(o),Int(nm)
def common(e,st,kind,sp,c,held=0):
    """what holds at the end of every operation of a signal"""
    e.oblige(st,'no mutex is held at the end',BoolVal(not st.locks),tag=('C10','C16','safe'))
    e.oblige(st,'class invariant of the connections',And(*sp.body_inv(st)[:1]),tag=('C12','safe'))
    e.oblige(st,'a slot is released exactly when it is neither connected nor in use',sp.ledger(st)[0],tag='C12')
    for s_,cb,l,k,lid in st.att.get('states',()):
        m=sp.refs(st,cb)
        if cb.id in st.mem: e.oblige(st,'no reference to a state is left behind',BoolVal(m==(held if cb.id==c['cb'].id else 0)),tag=('C06','C12','C16'))
def kept(e,st,sp,c,tag,name='every slot connected before is still in the list of the signal, in the same order, or is disconnected'):
    """the elements of the current list are those of the old one minus disconnected ones (plus the added)"""
    S=sp.cur_state(st); l,_=sp.parts(st,S); lid=sp.lidof(st,l); M=st.g['M']; M0=c['g0']['M']; x,y=z3.Ints('x!%d y!%d'%(nextid(),nextid())); l0=c['lid']; C=st.g['CONN']
    new=[a[0] for a in st.att.get('added',())]
    if z3.simplify(lid==l0).eq(BoolVal(True)):
        e.oblige(st,name,ForAll([x],Implies(And(sel(M0,x),OWN(x)==l0,Not(sel(M,x))),sel(C,NB(x))==0),patterns=[sel(M0,x)]),tag=tag)
        e.oblige(st,'no slot is added that was not connected',ForAll([x],Implies(And(sel(M,x),OWN(x)==l0),Or(sel(M0,x),*[x==n for n in new])),patterns=[sel(M,x)]),tag=tag)
        return
    if ('copied',str(lid)) not in st.att: return e.fail(st,'the new list of the signal is not a copy of the old one',tag=tag)
    if not st.att[('copied',str(lid))].eq(l0): raise Unsupported('copy of a copy')
    _,_,Cp,D=st.att[('copy',str(lid))]
    e.oblige(st,name,ForAll([x],Implies(And(sel(M0,x),OWN(x)==l0,Not(And(sel(M,D(x)),OWN(D(x))==lid,POS(D(x))==POS(x),NB(D(x))==NB(x)))),sel(C,NB(x))==0),patterns=[sel(M0,x)]),tag=tag)
    e.oblige(st,'no slot is added that was not connected',ForAll([x],Implies(And(sel(M,x),OWN(x)==lid),Or(And(sel(M0,Cp(x)),OWN(Cp(x))==l0,NB(Cp(x))==NB(x),POS(Cp(x))==POS(x)),*[x==n for n in new])),patterns=[sel(M,x)]),tag=tag)
    if c['cb'].id in st.mem: e.oblige(st,'the list an invocation may be using is not modified',ForAll([x],Implies(OWN(x)==l0,sel(M,x)==sel(M0,x)),patterns=[sel(M,x)]),tag=('C06','C02'))
def same_combiner(e,st,sp,c):
    S=sp.cur_state(st); l,k=sp.parts(st,S)
    e.oblige(st,'the combiner stays as it was',zb(e.ptreq(st,k,c['comb'])),tag=('C06','C02'))
EXTF=Function('EXTF',I,B); WSF=Function('WSF',I,B); CONT=Function('CONT',I,I,B); ECONT=Function('ECONT',I,I,B); WCONT=Function('WCONT',I,I,B)
class LoopSpec(SignalModel):
    """operations that walk over the list of a readable state"""
    def in_list(self,s,b):
        n=NODEOF(b); return And(n>0,sel(self.c['g0']['M'],n),OWN(n)==self.c['lid'],NB(n)==b)
    sel_=staticmethod(lambda c,b: BoolVal(True))
    def may_disconnect(self,s,b): return And(self.in_list(s,b),self.sel_(self.c,b))
    def passed_candidates(self): return [('elements passed that are selected are disconnected',lambda s,y: Or(sel(s.g['CONN'],NB(y))==0,Not(self.sel_(self.c,NB(y)))))]
class FnSpec(LoopSpec):
    def __init__(self,L,cx=None):
        super().__init__(L,cx); on=self.on
        on('spec::SlotFn::contains',lambda e,s,a,i,n:self.cont(e,s,a,CONT)); on('spec::SlotFn::target',self.target)
        on('boost::signals2::detail::bound_extended_slot_function::contains',lambda e,s,a,i,n:self.cont(e,s,a,ECONT)); on('boost::signals2::detail::weak_signal::contains',lambda e,s,a,i,n:self.cont(e,s,a,WCONT))
    @staticmethod
    def sel_(c,b):
        f=FNV(b); a=c['fnarg']; return Or(CONT(f,a),And(EXTF(f),ECONT(f,a)),And(WSF(f),WCONT(f,a)))
    def cont(self,e,s,a,P):
        p=a[0]; k=self.tagof(p)
        want={CONT:'sl',ECONT:'bx',WCONT:'wx'}[P]
        if k!=want: raise Unsupported('contains of %r'%(p,))
        f=FNV(zi(p.b[1])) if k=='sl' else zi(p.b[1])
        e.oblige(s,'the function asked for is the one given',zb(e.ptreq(s,a[1],Ptr(self.c['fo']))),tag='C07')
        t=s.fork(); t.trace+=('comparison of functions throws',); t.att['thrown']='user'
        return Outs([(t,'throw',Exc('other')),(s,'ret',P(f,self.c['fnarg']))])
    def target(self,e,s,a,i,n):
        p=a[0]
        if self.tagof(p)!='sl': raise Unsupported('target of %r'%(p,))
        f=FNV(zi(p.b[1])); k,P=('bx',EXTF) if 'bound_extended' in n else ('wx',WSF) if 'weak_signal' in n else (None,None)
        if k is None: raise Unsupported('target type')
        t=s.fork(); t.assume(Not(P(f))); s.assume(P(f))
        return Outs([(t,'ret',NULL),(s,'ret',Ptr((k,f)))])
PS=Function('PS',I,I)
class CountSpec(SignalModel):
    """counting, with no other thread around and no tracked object going away meanwhile"""
    interf=False
    def pass_time(self,e,s): pass
    def live0(self,b):
        i=Int('i!%d'%nextid()); g=self.c['g0']
        return And(sel(g['CONN'],b)==1,ForAll([i],Implies(And(i>=0,i<NT(TRK(b))),Not(sel(g['EXPD'],EL(TRK(b),i)))),patterns=[EL(TRK(b),i)]))
    def on_succ(self,e,s,x,u):
        if 'lid' in self.c: s.assume(PS(u)==PS(x)+If(LIVE(NB(x)),IntVal(1),IntVal(0)))
    def list_begin(self,e,s,p):
        r=super().list_begin(e,s,p)
        if 'lid' in self.c: s.assume(PS(r.b[1])==0)
        return r
    def tracked_cands(self,c,q,ix,hv):
        super().tracked_cands(c,q,ix,hv)
        def g(s):
            i=Int('i!%d'%nextid()); return ForAll([i],Implies(And(i>=0,i<ix(s)),Not(sel(s.g['EXPD'],EL(q,i)))),patterns=[EL(q,i)])
        c.append(('tracked objects so far exist',g))
    def may_disconnect(self,s,b): return BoolVal(False)
    def more_candidates(self,eng,entry,hv,writes):
        c=super().more_candidates(eng,entry,hv,writes); gw={k[1] for k in writes if k[0]=='g'}; c0=self.c
        if 'CONN' in gw:
            C0=c0['g0']['CONN']
            def only(s):
                b=Int('b!%d'%nextid()); f=Or(sel(s.g['CONN'],b)==sel(C0,b),And(sel(s.g['CONN'],b)==0,Not(LIVE(b))))
                return [ForAll([b],f,patterns=[q]) for q in(sel(s.g['CONN'],b),LIVE(b),sel(C0,b))]
            c.append(('only dead connections are disconnected',dual(only)))
        wr={k[1:] for k in writes if k[0]=='m'}
        its=self.lncells(hv,writes)
        for oid,cs in hv.mem.items():
            for k,v in cs.items():
                if (oid,)+k in wr and k[1]==8 and isz(v) and z3.is_int(v):
                    for it in its:
                        def f(s,oid=oid,k=k,it=it):
                            p=s.mem[it[0]][it[1:]]
                            return zi(s.mem[oid][k])==PS(p.b[1])
                        c.append(('the count is the number of live elements passed',f))
        return c
    def flag_candidates(self,eng,entry,hv,writes):
        c=super().flag_candidates(eng,entry,hv,writes)
        for lid in self.lids(hv):
            def ex(s,lid=lid):
                x=Int('x!%d'%nextid()); M=s.g['M']; return Exists([x],And(sel(M,x),OWN(x)==lid,LIVE(NB(x))),patterns=[sel(M,x)])
            c.append(('some element is alive',ex))
        return c
    def passed_candidates(self): return [('elements passed are dead',lambda s,y: Not(LIVE(NB(y))))]
LIVE=Function('LIVE',I,B)
def same_combiner_obj(e,st,sp,c):
    S=sp.cur_state(st); l,k=sp.parts(st,S)
    if k is None: return e.fail(st,'the signal has no combiner',tag=('C06','C02'))
    e.oblige(st,'the combiner stays as it was',zi(e.load(st,k,I64))==Int('combiner0'),tag=('C06','C02','C16'))
def units(cx):
    U=[]
    F=lambda base,**k: lambda: find(cx,IMN+base,**k)
    def sunit(name,props,fn,setup,post,cost=3,cls=SignalModel,**kw):
        kw.setdefault('uopts',dict(alloc_throws=True))
        U.append(unit(cx,'signal_impl::'+name,props,fn,setup,post,cost,cls=cls,**kw))
    # ------------------------------------------------------------- cleanup
    # IDX(x): index of x in the list as it was at entry; nothing is inserted meanwhile, so an element further on has a larger index
    IDX=Function('IDX',I,I)
    class CleanSpec(SignalModel):
        use_cleanup=False
        def on_succ(self,e,s,x,u): s.assume(IDX(u)>=IDX(x)+1)
        def alive0(self,y):
            i=Int('i!%d'%nextid()); return ForAll([i],Implies(And(i>=0,i<NT(TRK(NB(y)))),Not(sel(self.c['g0']['EXPD'],EL(TRK(NB(y)),i)))),patterns=[EL(TRK(NB(y)),i)])
        def passed_candidates(self): return [('elements passed are connected',lambda s,y: sel(s.g['CONN'],NB(y))==1),('elements passed have no expired tracked object',lambda s,y: self.alive0(y))]
        def more_candidates(self,eng,entry,hv,writes):
            c=super().more_candidates(eng,entry,hv,writes); gw={k[1] for k in writes if k[0]=='g'}; c0=self.c
            wr={k[1:] for k in writes if k[0]=='m'}
            if 'EXPD' in gw:
                E0=entry.g['EXPD']; w=Int('w!%d'%nextid())
                c.insert(0,('what has expired stays expired',dual(lambda s: [ForAll([w],Implies(sel(E0,w),sel(s.g['EXPD'],w)),patterns=[q]) for q in(sel(s.g['EXPD'],w),sel(E0,w))])))
            for it in self.lncells(hv,writes):
                p0=entry.mem.get(it[0],{}).get(it[1:])
                if not(isinstance(p0,Ptr) and isinstance(p0.b,tuple) and p0.b[0]=='ln'): continue
                for oid,cs in hv.mem.items():
                    for k,v in cs.items():
                        v0=entry.mem.get(oid,{}).get(k)
                        if (oid,)+k in wr and k[1] in(4,8) and (isinstance(v0,int) or isz(v0) and z3.is_int(v0)):
                            c.append(('the elements passed are counted',lambda s,oid=oid,k=k,it=it,v0=v0,p0=p0: IDX(s.mem[it[0]][it[1:]].b[1])-IDX(p0.b[1])>=zi(s.mem[oid][k])-zi(v0)))
                            c.append(('the elements passed are counted down',lambda s,oid=oid,k=k,it=it,v0=v0,p0=p0: IDX(s.mem[it[0]][it[1:]].b[1])-IDX(p0.b[1])>=zi(v0)-zi(s.mem[oid][k])))
            if 'M' in gw or 'CONN' in gw:
                M0=entry.g['M']; lid=self.c['curlid']
                def sub(s):
                    y=Int('y!%d'%nextid()); M=s.g['M']
                    f=And(Implies(sel(M,y),sel(M0,y)),Implies(OWN(y)!=lid,sel(M,y)==sel(M0,y)),Implies(And(sel(M0,y),Not(sel(M,y))),sel(s.g['CONN'],NB(y))==0))
                    return And(ForAll([y],f,patterns=[sel(M,y)]),ForAll([y],f,patterns=[sel(M0,y)]))
                c.append(('only disconnected elements were removed',sub))
                c.append(('the list is sorted',lambda s: And(*self.list_inv(s,lid,self.c['cmp']))))
            if 'CONN' in gw:
                old={k:entry.g[k] for k in NBODY}
                for i in range(3): c.append(('only expired connections were disconnected',dual(lambda s,i=i: self.cleanup_parts(s,old)[i])))
            return c
    def s_clean(grab,count):
        def s(e,st,f,sp,c):
            impl=mk_signal(e,st,sp,c); c['curlid']=c['lid']
            # called with the mutex locked and a single reference to the state
            st.locks=(('o',sp.mtxobj.id,0),); st.att[('mine',c['cb'].id)]=1; st.assume(Int('state_use')==1)
            lk=e.newobj(st,'lock',240); k=('tr',lk.id,0); c['trk']=k
            st.g[k]=z3.Const('tr0',AII); st.g[('len',)+k[1:]]=Int('trn'); st.g[('cap',)+k[1:]]=Int('trc'); st.assume(Int('trn')>=0,Int('trn')<=Int('trc'),Int('trc')>=10)
            st.assume(*sp.ledger(st)); b=Int('b'); st.assume(ForAll([b],sel(st.g[k],b)>=0,patterns=[sel(st.g[k],b)]))
            it=e.newobj(st,'it',8); x=Int('from'); st.assume(x>0,OWN(x)==c['lid'],Or(sel(st.g['M'],x),x==ENDL(c['lid']))); st.mem[it.id][(0,8)]=Ptr(('ln',x)); c['x']=x
            c['g0']=dict(st.g); n=Int('count'); st.assume(n>=0)
            return [Ptr(impl),Ptr(lk),grab,Ptr(it),n]
        return s
    def p_clean(grab):
        def p(e,st,kind,v,sp,c):
            g=st.g; M=g['M']; M0=c['g0']['M']; lid=c['lid']; y=Int('y!%d'%nextid()); b=Int('b!%d'%nextid()); old=c['g0']; T=('C02','C07','C12','C16','C01')
            e.oblige(st,'the mutex stays locked',BoolVal(len(st.locks)==1),tag=('C10','safe'))
            if kind=='throw': e.oblige(st,'a cleanup that disconnects nothing does not throw',BoolVal(bool(grab) and st.exc.n=='bad_alloc'),tag='C16')
            e.oblige(st,'only disconnected connections are removed',ForAll([y],And(Implies(sel(M,y),sel(M0,y)),Implies(OWN(y)!=lid,sel(M,y)==sel(M0,y)),Implies(And(sel(M0,y),Not(sel(M,y))),sel(g['CONN'],NB(y))==0)),patterns=[sel(M,y)]),tag=T)
            e.oblige(st,'only connections with an expired tracked object are disconnected',ForAll([b],Or(sel(g['CONN'],b)==sel(old['CONN'],b),And(BoolVal(bool(grab)),sel(g['CONN'],b)==0,sp.just0(st,b)))),tag=('C02','C05','C07'))
            e.oblige(st,'exactly the uses of slots given up are counted',ForAll([b],sel(g['RC'],b)-sel(g['CONN'],b)==sel(old['RC'],b)-sel(old['CONN'],b)),tag=('C12','C16'))
            e.oblige(st,'class invariant of the connections',And(*sp.body_inv(st)[:1]),tag=('C12','safe'))
            e.oblige(st,'a slot is released exactly when it is neither connected nor in use',sp.ledger(st)[0],tag='C12')
            e.oblige(st,'slots are kept or released, never exchanged',ForAll([b],Or(sel(g['SPX'],b)==sel(old['SPX'],b),sel(g['SPX'],b)==0)),tag='C12')
            sp.signal_inv(e,st)
            e.oblige(st,'the state is not replaced',zb(e.ptreq(st,sp.cur_state(st),c['S'])),tag=('C06','safe'))
            L=('len',)+c['trk'][1:]; Cc=('cap',)+c['trk'][1:]
            if kind=='ret':
                gp=st.mem[c['impl'].id].get((sp.IM_GC,8)); gc=gp.b[1] if isinstance(gp,Ptr) and isinstance(gp.b,tuple) and gp.b[0]=='ln' else None
                if gc is None: return e.fail(st,'the cleanup leaves a valid position for the next one',tag=('C12','safe'))
                x=c['x']; n=Int('count'); E=ENDL(lid)
                e.oblige(st,'a cleanup looks at as many elements as asked for, or reaches the end of the list',Or(gc==E,And(n!=0,IDX(gc)-IDX(x)>=n)),tag=('C12','C07'))
                inr=And(sel(M,y),OWN(y)==lid,POS(y)>=POS(x),POS(y)<POS(gc))
                e.oblige(st,'of the elements looked at only connected ones stay in the list',ForAll([y],Implies(inr,sel(g['CONN'],NB(y))==1),patterns=[sel(M,y)]),tag=('C12','C07'))
                if grab: e.oblige(st,'slots with an expired tracked object are disconnected by the cleanup',ForAll([y],Implies(inr,sp.alive0(y)),patterns=[sel(M,y)]),tag=('C12','C05'))
            e.oblige(st,'what the lock has collected is kept',And(g[L]>=Int('trn'),g[Cc]>=g[L]),tag='C10')
        return p
    for grab in(0,1):
        sunit('nolock_cleanup_connections_from (%s)'%('expired slots too' if grab else 'disconnected slots only'),{'C01','C02','C05','C06','C07','C10','C11','C12','C16'},F('nolock_cleanup_connections_from'),s_clean(grab,None),p_clean(grab),6,cls=CleanSpec)
    # ------------------------------------------------------------- combiner
    def s_this(e,st,f,sp,c): return [Ptr(mk_signal(e,st,sp,c))]
    def s_comb(e,st,f,sp,c):
        impl=mk_signal(e,st,sp,c); r=e.newobj(st,'result',8); c['r']=r; return [Ptr(r),Ptr(impl)]
    def p_comb(e,st,kind,v,sp,c):
        common(e,st,kind,sp,c)
        if kind=='throw': return e.oblige(st,'only copying the combiner may throw',BoolVal(st.att.get('thrown')=='user'),tag='C16')
        e.oblige(st,"the combiner returned is the signal's",zi(e.load(st,Ptr(c['r']),I64))==Int('combiner0'),tag=('C06','C02'))
    sunit('combiner',{'C06','C10','C11','C16','C02'},F('combiner'),s_comb,p_comb,2)
    def s_setc(e,st,f,sp,c):
        impl=mk_signal(e,st,sp,c); o=e.newobj(st,'new combiner',8); st.mem[o.id][(0,8)]=Int('combiner1'); return [Ptr(impl),Ptr(o)]
    def p_setc(e,st,kind,v,sp,c):
        st.att['running']=False
        common(e,st,kind,sp,c); kept(e,st,sp,c,('C02','C06','C07','C16'))
        S=sp.cur_state(st); l,k=sp.parts(st,S)
        val=zi(e.load(st,k,I64))
        if kind=='throw': e.oblige(st,'a failed set_combiner keeps the combiner',val==Int('combiner0'),tag=('C16','C06'))
        else: e.oblige(st,'the combiner is installed',val==Int('combiner1'),tag='C06')
        if c['comb'].b.id in st.mem: e.oblige(st,'the combiner an invocation may be using is not modified',zi(st.mem[c['comb'].b.id][(c['comb'].off,8)])==Int('combiner0'),tag='C06')
        sp.signal_inv(e,st)
    sunit('set_combiner',{'C06','C10','C11','C16','C02','C07','C01'},F('set_combiner'),s_setc,p_setc,3)
    # ------------------------------------------------------------- construction and destruction of signal_impl
    class LifeSpec(SignalModel):
        may_throw_ctor=True
        def mtx_ctor(self,e,s,a,i,n):
            t=s.fork(); t.trace+=('mutex ctor throws',); s.att['mtx_made']=s.att.get('mtx_made',0)+1
            return Outs([(t,'throw',Exc('other')),(s,'ret',None)])
        def mtx_dtor(self,e,s,a,i,n): s.att['mtx_made']=s.att.get('mtx_made',0)-1; return None
        def cb_ctor(self,e,s,a,i,n):
            r=super().cb_ctor(e,s,a,i,n); s.att['comb_made']=s.att.get('comb_made',0)+1; return r
        def cb_dtor(self,e,s,a,i,n): s.att['comb_made']=s.att.get('comb_made',0)-1; return None
        def __init__(self,L,cx=None):
            super().__init__(L,cx); self.on('spec::Combiner::~Combiner',self.cb_dtor)
        def list_access(self,e,s,p): pass
    def s_life(e,st,f,sp,c):
        sp.ghosts(e,st); sp.c=c; impl=e.newobj(st,'impl',64); c['impl']=impl
        cm=e.newobj(st,'combiner arg',8); st.mem[cm.id][(0,8)]=Int('combiner0'); cp=e.newobj(st,'compare arg',8); st.mem[cp.id][(0,8)]=Int('cmp_l'); c.update(cm=cm,cp=cp,mem0=set(st.mem)); c['g0']=dict(st.g)
        return [Ptr(impl),Ptr(cm),Ptr(cp)]
    def p_life(e,st,kind,v,sp,c):
        if kind=='throw':
            e.oblige(st,'a failed construction of a signal leaves nothing behind',BoolVal(not st.att.get('mtx_made') and not st.att.get('comb_made')),tag=('C16','C12')); return
        cs=st.mem[c['impl'].id]; mp=cs.get((sp.IM_MX,8)); S=sp.cur_state(st); l,k=sp.parts(st,S)
        if not(isinstance(mp,Ptr) and isinstance(mp.b,Obj)) or l is None or k is None: return e.fail(st,'a new signal has a mutex, a list and a combiner',tag=('C10','C01','C02','C06','C11'))
        e.oblige(st,'a new signal has one mutex and one combiner of its own',BoolVal(st.att.get('mtx_made')==1 and st.att.get('comb_made')==1 and k.b.id!=c['cm'].id),tag=('C10','C11','C06'))
        e.oblige(st,'the combiner given is used',zi(e.load(st,k,I64))==Int('combiner0'),tag=('C02','C06'))
        e.oblige(st,'the comparison given orders the groups',sp.gl_cmp(e,st,l)==Int('cmp_l'),tag='C01')
        lid=sp.lidof(st,l); x=Int('x!%d'%nextid())
        e.oblige(st,'a new signal has no slots',ForAll([x],Implies(OWN(x)==lid,Not(sel(st.g['M'],x)))),tag=('C02','C07','C16'))
        g=cs.get((sp.IM_GC,8)); ok=isinstance(g,Ptr) and isinstance(g.b,tuple) and g.b[0]=='ln'
        e.oblige(st,'the garbage collector starts in the list of the signal',g.b[1]==ENDL(lid) if ok else BoolVal(False),tag=('C12','safe'))
        e.oblige(st,'a new state is used by the signal alone',zi(st.mem[sp.cur_cb(st).id][(8,4)])==1,tag=('C06','C12'))
    sunit('signal_impl',{'C01','C02','C06','C07','C10','C11','C12','C16'},F('signal_impl',mangled='C2ERKS7_RKS9_$'),s_life,p_life,1,cls=LifeSpec)
    def s_death(e,st,f,sp,c):
        # nobody else uses the signal any more (its last owner destroys it); invocations may still use the state
        impl=mk_signal(e,st,sp,c); st.att[('mine',c['cb'].id)]=1; st.att['mtx_made']=1; st.att['comb_made']=1; sp.watched.discard(impl.id); st.att['running']=False; c['nodeath']=True
        return [Ptr(impl)]
    def p_death(e,st,kind,v,sp,c):
        if kind=='throw': return e.fail(st,'a destructor throws',tag=('C16','safe'))
        u=Int('state_use'); M=st.g['M']; x=Int('x!%d'%nextid())
        if c['cb'].id in st.mem: e.oblige(st,'the signal gives up its reference to the state',And(u>=2,zi(st.mem[c['cb'].id][(8,4)])==u-1),tag='C12'); e.oblige(st,'a state still used by an invocation is left alone',ForAll([x],sel(M,x)==sel(c['g0']['M'],x)),tag=('C06','C12'))
        else:
            e.oblige(st,'a state is destroyed only if nobody uses it',u==1,tag=('C06','C12'))
            e.oblige(st,'all slots of a destroyed signal are released',ForAll([x],Implies(OWN(x)==c['lid'],Not(sel(M,x)))),tag='C12')
        mu=Int('muse'); e.oblige(st,'the mutex lives as long as connections use it',BoolVal(sp.mcb.id in st.mem and st.att['mtx_made']==1)==(mu>=2),tag=('C11','C12','C10'))
        cu=Int('comb_use')
        e.oblige(st,'no mutex is held',BoolVal(not st.locks),tag='C10')
    class DeathSpec(LifeSpec):
        interf=False
    sunit('~signal_impl',{'C06','C10','C11','C12','C16'},F('~signal_impl',mangled='D2Ev$'),s_death,p_death,1,cls=DeathSpec)
    # ------------------------------------------------------------- connect
    CP={'C01','C02','C03','C05','C06','C07','C10','C11','C12','C15','C16'}
    def s_conn(grouped,front,ext):
        def s(e,st,f,sp,c):
            impl=mk_signal(e,st,sp,c); r=e.newobj(st,'result',16); o=e.newobj(st,'slot',64); q=Int('tracked_slot'); st.mem[o.id][(VAR,8)]=q
            fo=sp.L.off(r'boost::signals2::slot<int \(struct spec::Arg' if not ext else r'boost::signals2::slot<int \(const','_slot_function'); st.mem[o.id][(fo,8)]=Int('fn_slot')
            c.update(r=r,o=o,q=q,fo=fo); a=[Ptr(r),Ptr(impl)]
            if grouped: g,c['grp']=key_arg(e,st,sp); a.append(g)
            return a+[Ptr(o),1 if front else 0]
        return s
    def p_conn(grouped,front,ext):
        def p(e,st,kind,v,sp,c):
            st.att['running']=False
            common(e,st,kind,sp,c); kept(e,st,sp,c,('C01','C02','C06','C07','C16')); same_combiner_obj(e,st,sp,c); sp.signal_inv(e,st)
            A=st.att.get('added',()); cs=st.mem[c['o'].id]; X=('C15',) if ext else ()
            e.oblige(st,'the slot given is not changed',And(zi(cs[(VAR,8)])==c['q'],zi(cs[(c['fo'],8)])==Int('fn_slot')),tag=('C05','C16'))
            if kind=='throw': return e.oblige(st,'a failed connect connects nothing',BoolVal(not A),tag='C16')
            if len(A)!=1: return e.fail(st,'connect connects %d slots'%len(A),tag=('C02','C01'))
            nn,lid,b,k=A[0]; S=sp.cur_state(st); l,_=sp.parts(st,S); M=st.g['M']; cur=sp.lidof(st,l); T=('C01','C02')+X
            e.oblige(st,'the slot is connected to the current list',And(cur==lid,sel(M,nn),OWN(nn)==lid,NB(nn)==b),tag=T)
            rk=RK(c['cmp'],IntVal(1),c['grp']) if grouped else z3.RealVal(0 if front else 1)
            e.oblige(st,'the slot is connected with the group given' if grouped else 'the slot is connected at the end of the list',And(k==rk,GK(nn)==rk),tag=('C01','C07')+X)
            x=Int('x!%d'%nextid())
            e.oblige(st,'the slot runs %s'%('before the slots of its group' if front else 'after the slots of its group'),ForAll([x],Implies(And(sel(M,x),OWN(x)==lid,x!=nn),(POS(x)<POS(nn))==(GK(x)<rk if front else GK(x)<=rk)),patterns=[sel(M,x)]),tag=('C01',)+X)
            cl=st.att.get('cleaned')
            if cl is not None:      # (a connect that does not use the cleanup is left to the companion)
                gr,x0,gc,n,cid,Mc=cl; copied=('copied',str(lid)) in st.att; n=zi(n)
                first=ForAll([x],Implies(And(sel(Mc,x),OWN(x)==lid),POS(x0)<=POS(x)),patterns=[sel(Mc,x)])
                e.oblige(st,'every connect looks for dead connections in the list it extends, the expired ones too',And(BoolVal(gr),cid==lid),tag='C12')
                if copied: e.oblige(st,'a new list is cleaned of dead connections as a whole',And(n==0,first),tag='C12')
                else:
                    e.oblige(st,'a connect looks at more connections than it adds',Or(n==0,n>=2),tag='C12')
                    e.oblige(st,'the search for dead connections goes on where the last one stopped',If(gc==ENDL(lid),first,x0==gc) if gc is not None else first,tag='C12')
            bo=[kk for kk,vv in st.att.items() if isinstance(kk,tuple) and kk[0]=='bodyid' and vv is b][0]
            bp=Ptr(sp.objof(st,bo[1]),bo[2]); bc=st.mem[bo[1]]
            rc=st.mem[c['r'].id]
            e.oblige(st,'the connection returned refers to the new slot',zb(e.ptreq(st,rc[(0,8)],bp)),tag=('C08','C03','C15'))
            sl=bc.get((bp.off+sp.B_SLOT,8))
            if not(isinstance(sl,Ptr) and isinstance(sl.b,Obj)): return e.fail(st,'the connection has no slot',tag=T)
            sc=st.mem[sl.b.id]; q=zi(sc[(sl.off+VAR,8)]); i=Int('i!%d'%nextid())
            e.oblige(st,'the connected slot tracks what the slot given tracks',And(NT(q)==NT(c['q']),ForAll([i],Implies(And(i>=0,i<NT(q)),EL(q,i)==EL(c['q'],i)),patterns=[EL(q,i)])),tag=('C05',)+X)
            fv=sc[(sl.off+sp.S_FN,8)]
            if not ext: return e.oblige(st,'the connected slot has the function given',zi(fv)==Int('fn_slot'),tag=('C02','C07'))
            bf=st.att.get(('boundfn',zi(fv).get_id()))
            if bf is None: return e.fail(st,'the connected slot has another function',tag=('C15','C02'))
            e.oblige(st,'the connected slot calls the extended function given',zi(bf[0])==Int('fn_slot'),tag=('C15','C07'))
            cn=bf[1]
            if not(isinstance(cn,Ptr) and isinstance(cn.b,Obj) and cn.b.id in st.mem): return e.fail(st,'the extended slot has no connection',tag='C15')
            e.oblige(st,'the extended slot gets its own connection',zb(e.ptreq(st,st.mem[cn.b.id][(cn.off,8)],bp)),tag='C15')
            e.oblige(st,'the connection of the extended slot does not keep its slot alive',BoolVal(c.get('strong',True)),tag='C12')
        return p
    for ext in(0,1):
        for grouped in(0,1):
            for front in(0,1):
                sunit('connect%s(%sslot,%s)'%('_extended' if ext else '','group,' if grouped else '','at_front' if front else 'at_back'),CP-({'C15'} if not ext else set()),
                    F('connect_extended' if ext else 'connect',args=5 if grouped else 4),s_conn(grouped,front,ext),p_conn(grouped,front,ext),3)
    # ------------------------------------------------------------- disconnecting
    DP={'C02','C03','C06','C07','C10','C11','C12','C16'}
    def p_disc(what):
        def p(e,st,kind,v,sp,c):
            st.att['running']=False
            common(e,st,kind,sp,c); M0=c['g0']['M']; lid=c['lid']; x=Int('x!%d'%nextid()); C=st.g['CONN']
            if kind=='throw': return e.oblige(st,'only an allocation failure, or code of the user, leaves disconnect',BoolVal(st.exc.n=='bad_alloc' or 'thrown' in st.att),tag='C16')
            e.oblige(st,what,ForAll([x],Implies(And(sel(M0,x),OWN(x)==lid,sp.sel_(c,NB(x))),sel(C,NB(x))==0),patterns=[sel(M0,x)]),tag='C07')
            if c['cb'].id in st.mem: e.oblige(st,'the list an invocation may be using is not modified',ForAll([x],Implies(OWN(x)==lid,sel(st.g['M'],x)==sel(M0,x)),patterns=[sel(st.g['M'],x)]),tag=('C06','C02'))
        return p
    sunit('disconnect_all_slots',DP,F('disconnect_all_slots'),s_this,p_disc('all slots are disconnected'),3,cls=LoopSpec)
    class GroupSpec(LoopSpec):
        @staticmethod
        def sel_(c,b): return GK(NODEOF(b))==RK(c['cmp'],IntVal(1),c['grp'])
    def s_dgrp(e,st,f,sp,c):
        impl=mk_signal(e,st,sp,c); g,c['grp']=key_arg(e,st,sp); return [Ptr(impl),g]
    sunit('disconnect(group)',DP,F('disconnect',mangled=r'10disconnectERKS8_$'),s_dgrp,p_disc('all slots connected with an equivalent group are disconnected'),3,cls=GroupSpec)
    class GroupConvSpec(GroupSpec):
        def __init__(self,L,cx=None):
            super().__init__(L,cx); self.on('spec::GroupLike::operator spec::Group',self.conv)
        def conv(self,e,s,a,i,n):
            e.oblige(s,'the group asked for is the one given',zb(e.ptreq(s,a[1],Ptr(self.c['go']))),tag='C07')
            t=s.fork(); t.trace+=('conversion to a group throws',); t.att['thrown']='user'
            e.store(s,a[0],self.c['grp'],I64); return Outs([(t,'throw',Exc('other')),(s,'ret',None)])
    def s_dgrpc(e,st,f,sp,c):
        impl=mk_signal(e,st,sp,c); g,c['grp']=key_arg(e,st,sp); c['go']=g.b; return [Ptr(impl),g]
    sunit('disconnect(convertible to a group)',DP,F('disconnect',mangled=r'10disconnectINS3_9GroupLikeEEEvRKT_$'),s_dgrpc,p_disc('all slots connected with an equivalent group are disconnected'),3,cls=GroupConvSpec)
    def s_dfn(e,st,f,sp,c):
        impl=mk_signal(e,st,sp,c); o=e.newobj(st,'fn',8); st.mem[o.id][(0,8)]=Int('fnarg'); c.update(fo=o,fnarg=Int('fnarg')); return [Ptr(impl),Ptr(o)]
    sunit('disconnect(function)',DP,F('disconnect',mangled=r'10disconnectINS3_2FnEEEvRKT_$'),s_dfn,p_disc('all slots with the given function are disconnected'),3,cls=FnSpec)
    def boxed(s0):
        def s(e,st,f,sp,c):
            a=s0(e,st,f,sp,c); b=e.newobj(st,'ref',8); st.mem[b.id][(0,8)]=a[1]; return [a[0],Ptr(b)]
        return s
    sunit('disconnect(reference to function)',DP,F('disconnect',mangled=r'10disconnectINS_17reference_wrapperINS3_2FnEEEEEvRKT_$'),boxed(s_dfn),p_disc('all slots with the given function are disconnected'),3,cls=FnSpec)
    sunit('disconnect(reference to group)',DP,F('disconnect',mangled=r'10disconnectINS_17reference_wrapperIK.*EEEEvRKT_$'),boxed(s_dgrp),p_disc('all slots connected with an equivalent group are disconnected'),3,cls=GroupSpec)
    # ------------------------------------------------------------- counting
    def s_count(e,st,f,sp,c):
        impl=mk_signal(e,st,sp,c); st.mem[c['cb'].id][(8,4)]=Int('state_use'); b=Int('b!%d'%nextid()); f0=sp.live0(b)
        st.assume(ForAll([b],LIVE(b)==f0,patterns=[LIVE(b)]))
        # PS(x): number of live elements before x; its two defining equations are used at begin() and ++
        return [Ptr(impl)]
    def p_num(e,st,kind,v,sp,c):
        st.att['running']=False; common(e,st,kind,sp,c)
        if kind=='throw': return e.oblige(st,'only an allocation failure leaves num_slots',BoolVal(st.exc.n=='bad_alloc'),tag='C16')
        e.oblige(st,'num_slots() is the number of slots that are connected and not expired',zi(v)==PS(ENDL(c['lid'])),tag='C07')
    def p_empty(e,st,kind,v,sp,c):
        st.att['running']=False; common(e,st,kind,sp,c)
        if kind=='throw': return e.oblige(st,'only an allocation failure leaves empty',BoolVal(st.exc.n=='bad_alloc'),tag='C16')
        x=Int('x!%d'%nextid()); M=c['g0']['M']; r=zb(v)
        e.oblige(st,'empty() is false only if a slot is connected and not expired',Implies(Not(r),Exists([x],And(sel(M,x),OWN(x)==c['lid'],LIVE(NB(x))),patterns=[sel(M,x)])),tag='C07')
        e.oblige(st,'empty() is true only if no slot is connected and not expired',Implies(r,ForAll([x],Implies(And(sel(M,x),OWN(x)==c['lid']),Not(LIVE(NB(x)))),patterns=[sel(M,x)])),tag='C07')
    sunit('num_slots',{'C07','C03','C10','C11','C12','C16'},F('num_slots'),s_count,p_num,12,cls=CountSpec)
    sunit('empty',{'C07','C03','C10','C11','C12','C16'},F('empty'),s_count,p_empty,12,cls=CountSpec)
    # ------------------------------------------------------------- cleanup after an invocation
    def s_force(same_):
        def s(e,st,f,sp,c):
            impl=mk_signal(e,st,sp,c); l=c['list']
            if same_: st.att[('mine',c['cb'].id)]=1; st.assume(Int('state_use')>=2); return [Ptr(impl),l]
            o=e.newobj(st,'list of another state',64); st.mem[o.id][(LID,8)]=Int('lid_o'); return [Ptr(impl),Ptr(o)]
        return s
    def p_force(same_):
        def p(e,st,kind,v,sp,c):
            st.att['running']=False
            common(e,st,kind,sp,c,1 if same_ else 0); kept(e,st,sp,c,('C01','C02','C06','C07','C16')); same_combiner(e,st,sp,c); sp.signal_inv(e,st); x=Int('x!%d'%nextid())
            if kind=='throw': e.oblige(st,'only an allocation failure leaves the cleanup',BoolVal(st.exc.n=='bad_alloc'),tag='C16')
            e.oblige(st,'a cleanup disconnects nothing',st.g['CONN']==c['g0']['CONN'] if not sp.interf else BoolVal(True),tag=('C02','C03'))
            e.oblige(st,'the list the invocation is using is not modified',ForAll([x],Implies(OWN(x)==c['lid'],sel(st.g['M'],x)==sel(c['g0']['M'],x)),patterns=[sel(st.g['M'],x)]),tag=('C06','C02'))
        return p
    FP={'C01','C02','C06','C07','C10','C11','C12','C16'}
    for same_ in(1,0): sunit('force_cleanup_connections (%s list)'%('current' if same_ else 'older'),FP,F('force_cleanup_connections'),s_force(same_),p_force(same_),2)
    # ------------------------------------------------------------- invocation
    class InvSpec(SignalModel):
        def __init__(self,L,cx=None):
            super().__init__(L,cx); self.on(IMN+'force_cleanup_connections',self.force_contract); self.on('spec::Result::Result',self.res_copy); self.on(IT+'slot_call_iterator_t',self.iter_ctor,'contract'); self.on('spec::Result::~Result',lambda e,s,a,i,n:None)
        def res_copy(self,e,s,a,i,n):
            e.store(s,a[0],e.load(s,a[1],I64),I64); return None
        def force_contract(self,e,s,a,i,n):
            e.oblige(s,'no mutex is held when the cleanup starts',BoolVal(not s.locks),tag=('C10','safe'))
            e.oblige(s,'the signal is cleaned up that was invoked',zb(e.ptreq(s,a[0],Ptr(self.c['impl']))),tag=('C12','safe'))
            self.pass_time(e,s); self.rely(e,s)
            t=s.fork(); t.trace+=('cleanup: bad_alloc',)
            return Outs([(t,'throw',Exc('bad_alloc')),(s,'ret',None)])
        def cache_ctor(self,e,s,a,i,n):
            p=e.norm(s,a[0]); s.att['own']=(p.b.id,p.off+self.L.off(r'boost::signals2::detail::slot_call_iterator_cache<','m_active_slot'))
            e.store(s,Ptr(p.b,s.att['own'][1]),NULL,PT); return INLINE
        def cache_dtor(self,e,s,a,i,n):
            s.att['own_dying']=True; s.att['own_end']=self.own(s); return INLINE
        def on_unlock(self,e,s,m):
            if s.att.get('own_dying'): s.att['own_dead']=True; s.att['gave_up']=True
            return super().on_unlock(e,s,m)
        def cb_call(self,e,s,a,i,n):
            c=self.c; L=self.L; cl=r'boost::signals2::detail::slot_call_iterator_t<'; T=('C02','C06')
            res,comb,b,en=a[:4]
            self.no_lock(e,s,'the combiner runs')
            e.oblige(s,'the combiner called is the one the signal had when the invocation started',zb(e.ptreq(s,comb,c['comb'])),tag=T)
            lid=c['lid']; M=s.g['M']; x=Int('x!%d'%nextid())
            g=lambda p,f: e.load(s,Ptr(p.b,p.off+L.off(cl,f)),PT)
            bi,be,ei,ee=[z.b[1] if isinstance(z,Ptr) and isinstance(z.b,tuple) and z.b[0]=='ln' else None for z in(g(b,'iter'),g(b,'end'),g(en,'iter'),g(en,'end'))]
            if None in(bi,be,ei,ee): raise Unsupported('iterators given to the combiner')
            e.oblige(s,'the end given to the combiner is the end of the list',And(ei==ENDL(lid),be==ENDL(lid),ee==ENDL(lid)),tag=('C02','C01'))
            e.oblige(s,'the range given to the combiner starts at the first slot that is not disconnected or blocked',And(OWN(bi)==lid,Or(sel(M,bi),bi==ENDL(lid)),ForAll([x],Implies(And(sel(M,x),OWN(x)==lid,POS(x)<POS(bi)),Or(sel(s.g['CONN'],NB(x))==0,sel(s.g['EVB'],NB(x)))),patterns=[sel(M,x)])),tag=('C02','C01','C04'))
            self.need_held(e,s,bi)
            ca=g(b,'cache'); e.oblige(s,'both iterators share one cache',zb(e.ptreq(s,ca,g(en,'cache'))),tag='C02')
            if not(isinstance(ca,Ptr) and isinstance(ca.b,Obj)): raise Unsupported('cache')
            own=s.att.get('own')
            if own is None: return e.fail(s,'no cache is active',tag='C02')
            e.oblige(s,'the slot in use is the first one',self.own(s)==If(bi==ENDL(lid),IntVal(0),NB(bi)),tag=('C12','C02'))
            cc=r'boost::signals2::detail::slot_call_iterator_cache<'; fo=L.off(cc,'f'); cs=s.mem[ca.b.id]
            fp=Ptr(ca.b,ca.off+fo); args=self.inv_args(e,s,fp)
            e.oblige(s,'the slots get the arguments of the invocation',And(zb(e.ptreq(s,args[0],Ptr(c['arg']))),args[1]==c['argv']),tag='C02')
            e.oblige(s,'no slot has been called before the combiner runs',s.g['CALLS']==0,tag='C02')
            # the combiner may do anything with its iterators, and slots anything with the signal
            self.user_code(e,s)
            y=fresh('now'); s.assume(Or(y==ENDL(lid),And(sel(M,y),OWN(y)==lid)))
            o1=fresh('inuse'); s.assume(o1==If(y==ENDL(lid),IntVal(0),NB(y)))
            self.move_use(e,s,ca,o1)
            ini=(ca.off+L.off(cc,'m_initialized'),1); v=fresh('ini'); s.assume(v>=0,v<=1); cs[ini]=v; cs[(ca.off+L.off(cc,'m_storage'),4)]=fresh('res')
            outs=[]
            for k in('expired','other'):
                t=s.fork(); t.trace+=('combiner throws '+k,); t.att['comb_threw']=k; outs.append((t,'throw',Exc(k)))
            r=fresh('result'); s.att['result']=r; e.store(s,res,r,I64); s.att['combined']=s.att.get('combined',0)+1
            return Outs(outs+[(s,'ret',None)])
        def move_use(self,e,s,ca,o1):
            """the iterators have given up one slot and are using another (o1, 0: none); expired slots were disconnected. Contracts in spec_iter."""
            L=self.L; cc=r'boost::signals2::detail::slot_call_iterator_cache<'; cs=s.mem[ca.b.id]; bb=Int('b!%d'%nextid())
            kk=('cont',ca.b.id,ca.off+L.off(cc,'tracked_ptrs'))
            self.gset(e,s,kk,fresh('tracked',AIB)); l_,c_=('len',)+kk[1:],('cap',)+kk[1:]; c0=s.g[c_]; self.gset(e,s,l_,fresh('len')); self.gset(e,s,c_,fresh('cap')); s.assume(s.g[l_]>=0,s.g[l_]<=s.g[c_],s.g[c_]>=c0)
            old={k:s.g[k] for k in('CONN','SPX','SPN','RC','T','EVB')}
            for k in('CONN','SPX','SPN','RC','T'): self.gset(e,s,k,fresh(k,AII))
            self.gset(e,s,'EVB',fresh('EVB',AIB))
            G=s.g; f=And(sel(G['CONN'],bb)<=sel(old['CONN'],bb),Or(sel(G['SPX'],bb)==sel(old['SPX'],bb),sel(G['SPX'],bb)==0),sel(G['RC'],bb)>=0,Implies(sel(old['EVB'],bb),sel(G['EVB'],bb)))
            s.assume(*[ForAll([bb],f,patterns=[sel(q,bb)]) for q in(G['CONN'],G['SPX'],G['RC'],G['EVB'],old['CONN'],old['SPX'],old['EVB'])])
            act=(ca.off+L.off(cc,'m_active_slot'),8); cs[act]=Ptr(('bd',o1)); e.wlog(('m',ca.b.id)+act)
            s.assume(*self.body_inv(s)); s.assume(*self.ledger(s))
            for fld in('connected_slot_count','disconnected_slot_count'):
                k=(ca.off+L.off(cc,fld),4); v=fresh('n'); s.assume(v>=0); cs[k]=v; e.wlog(('m',ca.b.id)+k)
        def iter_ctor(self,e,s,a,i,n):
            """slot_call_iterator_t(begin,end,cache), proved in spec_iter; at the end of the list it is inlined (it does nothing)"""
            if len(a)!=4: return INLINE
            x0,en=[z.b[1] if isinstance(z,Ptr) and isinstance(z.b,tuple) and z.b[0]=='ln' else self.itload(e,s,z) for z in a[1:3]]
            if x0.eq(en) or e.valid(s,x0==en): return INLINE
            ca=e.norm(s,a[3]); L=self.L; cl=r'boost::signals2::detail::slot_call_iterator_t<'; lid=self.c['lid']; M=s.g['M']
            if s.att.get('own')!=(ca.b.id,ca.off+L.off(r'boost::signals2::detail::slot_call_iterator_cache<','m_active_slot')): raise Unsupported('another cache')
            self.no_lock(e,s,'an iterator is made',tag=('C10','safe')); self.need_held(e,s,x0)
            e.oblige(s,'an iterator is made for a position of the list, with no slot in use',And(OWN(x0)==lid,Or(sel(M,x0),x0==ENDL(lid)),en==ENDL(lid),self.own(s)==0,zi(s.mem[ca.b.id][(ca.off+L.off(r'boost::signals2::detail::slot_call_iterator_cache<','m_initialized'),1)])==0),tag=('C02','C12','safe'))
            self.pass_time(e,s); self.rely(e,s)
            t=s.fork(); t.trace+=('iterator: bad_alloc',); o=fresh('inuse'); self.move_use(e,t,ca,o)
            x=fresh('first'); y=Int('y!%d'%nextid()); o1=fresh('inuse'); s.assume(x>0,OWN(x)==lid,Or(sel(M,x),x==ENDL(lid)),POS(x)>=POS(x0),o1==If(x==ENDL(lid),IntVal(0),NB(x)))
            self.move_use(e,s,ca,o1)
            s.assume(ForAll([y],Implies(And(sel(M,y),OWN(y)==lid,POS(y)>=POS(x0),POS(y)<POS(x)),Or(sel(s.g['CONN'],NB(y))==0,sel(s.g['EVB'],NB(y)))),patterns=[sel(M,y)]))
            p=a[0]
            for fld,v in(('iter',Ptr(('ln',x))),('end',Ptr(('ln',en))),('cache',a[3]),('callable_iter',Ptr(('ln',x)))): e.store(s,Ptr(p.b,p.off+L.off(cl,fld)),v,PT)
            return Outs([(t,'throw',Exc('bad_alloc')),(s,'ret',None)])
        def inv_args(self,e,s,fp):
            v=[e.load(s,Ptr(fp.b,fp.off+o),PT) for o in(0,8)]
            ints=[p for p in v if isinstance(p,Ptr) and isinstance(p.b,Obj) and (p.off,4) in s.mem[p.b.id]]
            if len(ints)!=1: raise Unsupported('arguments of the invoker')
            o=[p for p in v if p is not ints[0]][0]
            return o,zi(e.load(s,ints[0],I32))
    def s_inv(e,st,f,sp,c):
        impl=mk_signal(e,st,sp,c); arg=e.newobj(st,'arg',8); st.mem[arg.id][(0,8)]=Int('argv0'); r=e.newobj(st,'result',8); c.update(arg=arg,argv=Int('argv'),r=r)
        return [Ptr(r),Ptr(impl),Ptr(arg),Int('argv')]
    def p_inv(e,st,kind,v,sp,c):
        st.att['running']=False
        common(e,st,kind,sp,c); x=Int('x!%d'%nextid())
        e.oblige(st,'the slot in use is given up',Or(BoolVal(st.att.get('own') is None or bool(st.att.get('gave_up'))),st.att['own_end']==0 if 'own_end' in st.att else BoolVal(False)),tag=('C12','C16'))
        e.oblige(st,'no tracked object is held after the invocation',BoolVal(not sp.conts(st)),tag='C05')
        if kind=='throw':
            if 'comb_threw' in st.att: e.oblige(st,"the combiner's exception is passed on unchanged",BoolVal(st.exc.n==st.att['comb_threw']),tag=('C16','C02'))
            else: e.oblige(st,'only an allocation failure prevents an invocation',BoolVal(st.exc.n=='bad_alloc'),tag=('C16','C02'))
            return
        e.oblige(st,'the combiner is called exactly once',BoolVal(st.att.get('combined')==1),tag='C02')
        if 'result' in st.att: e.oblige(st,"the combiner's result is the result of the invocation",zi(e.load(st,Ptr(c['r']),I64))==st.att['result'],tag='C02')
    IP={'C01','C02','C04','C05','C06','C07','C10','C11','C12','C16'}
    for nm,mg in(('operator()',r'^_ZN5boost.*clES5_i$'),('operator() const',r'^_ZNK5boost.*clES5_i$')): sunit(nm,IP,F('operator()',mangled=mg),s_inv,p_inv,20,cls=InvSpec)
    return U
