"""Model of the connection bodies in a signal's list: one symbolic heap for all of them.
('bd',b)  pointer to connection body b;  ('sl',b)/('sc',b)  its slot object / the slot's control block (b=0: null);
('wb',b)  control block of its blocker.  Fields are ghost arrays CONN, RC, SPX, SPN, WBN, indexed by body.
Rely (interf): whenever a mutex is locked, other threads may have changed all of it within the class invariant: a connection never
comes back, a slot in use by this thread is not released, nobody but the owner of the only reference changes a list.
Guarantee: checked at every unlock."""
from model_core import *
from spec_base import dual
from model_core import KIND,EL,NT,VAR,AB,U8
TRK=Function('TRK',I,I); FNV=Function('FNV',I,I); BKF=Function('BKF',I,I); BKG=Function('BKG',I,I)
BODY_VT=r'boost::signals2::detail::connection_body<'
BODYCLS=r'boost::signals2::detail::connection_body<'
NBODY=('CONN','RC','SPX','SPN','WBN')
C_IT='boost::signals2::detail::slot_call_iterator_cache::'
class SigModel(CoreModel):
    list_held=True       # the caller holds the list that is iterated
    interf=True
    def __init__(self,L,cx=None):
        super().__init__(L,cx)
        o=L.off; c=BODYCLS
        self.B_WB=o(c,'_weak_blocker'); self.B_CONN=o(c,'_connected'); self.B_RC=o(c,'m_slot_refcount'); self.B_SLOT=o(c,'m_slot'); self.B_MTX=o(c,'_mutex'); self.B_KEY=o(c,'_group_key')
        self.S_FN=o(r'boost::signals2::slot<int \(struct spec::Arg','_slot_function')
        self.join_kinds=('ln','mn','bd')
        on=self.on
        on('spec::SlotFn::operator()',self.call_slot)
        on('boost::signals2::slot_base::expired',self.slot_expired,'contract')
        on(C_IT+'slot_call_iterator_cache',self.cache_ctor); on(C_IT+'~slot_call_iterator_cache',self.cache_dtor)
        b=Int('b'); 
        self.axioms+=[ForAll([b],NT(TRK(b))>=0,patterns=[TRK(b)]),ForAll([b],And(BKF(b)>=0,BKF(b)<=2),patterns=[BKF(b)])]
    # ------------------------------------------------------------- set up
    def ghosts(self,e,st):
        st.g.update(M=z3.Const('M0',AIB),MM=z3.Const('MM0',AIB),SEC=z3.Const('SEC0',AII),EXPD=z3.Const('EXPD0',AIB),SEEN=z3.K(I,BoolVal(False)))
        for n in NBODY: st.g[n]=z3.Const(n+'0',AII)
        st.g.update(T=z3.Const('T0',AII),DST=z3.K(I,IntVal(0)),EVB=z3.K(I,BoolVal(False)),LASTB=z3.K(I,BoolVal(False)),CALLS=IntVal(0),CALLED=IntVal(0),RESULT=IntVal(0))
        st.att['own']=None
        m=e.newobj(st,'signal mutex',8,True); st.mem[m.id][(0,8)]=0; self.mtxobj=m
        mcb=e.newobj(st,'mcb',24,True); st.mem[mcb.id].update({(0,8):self.vtab(r'boost::detail::sp_counted_impl_p<spec::Mutex'),(8,4):Int('muse'),(12,4):1,(16,8):Ptr(m)}); self.mcb=mcb
        st.assume(Int('muse')>=1)
    def own(self,st):
        """the body this thread's invocation is using (0: none)"""
        k=st.att.get('own')
        if k is None or st.att.get('own_dead'): return IntVal(0)
        v=st.mem.get(k[0],{}).get((k[1],8))
        if v is None: return IntVal(0)
        if isinstance(v,Ptr):
            if isinstance(v.b,tuple) and v.b[0]=='bd': return zi(v.b[1])
            if isinstance(v.b,int) and v.b==0: return IntVal(0)
            if isz(v.b): return v.b
        raise Unsupported('active slot %r'%(v,))
    def ba(self,g,*names): return [g[n] for n in names]
    def body_inv(self,s,own=None):
        """class invariant of every body"""
        C,R_,P,N,W=self.ba(s.g,*NBODY); own=self.own(s) if own is None else own
        b=Int('b!%d'%nextid())
        f=lambda b:And(sel(C,b)>=0,sel(C,b)<=1,sel(R_,b)>=sel(C,b)+If(And(b==own,own!=0),IntVal(1),IntVal(0)),(sel(R_,b)>0)==(sel(P,b)!=0),Or(sel(P,b)==0,sel(P,b)==b),sel(N,b)==sel(P,b),Or(sel(W,b)==0,sel(W,b)==b))
        return ForAll([b],f(b),patterns=[sel(C,b)]),ForAll([b],f(b),patterns=[sel(R_,b)]),ForAll([b],f(b),patterns=[sel(P,b)]),ForAll([b],f(b),patterns=[sel(N,b)]),ForAll([b],f(b),patterns=[sel(W,b)])
    def trs(self,s): return [v for k,v in s.g.items() if isinstance(k,tuple) and k[0]=='tr']
    def ledger(self,s):
        """the references to a slot are those of its body and of the trash of the locks"""
        T,N=s.g['T'],s.g['SPN']; b=Int('b!%d'%nextid())
        def f(b):
            t=If(sel(N,b)!=0,IntVal(1),IntVal(0))
            for tr in self.trs(s): t=t+sel(tr,b)
            return And(sel(T,b)==t,*[sel(tr,b)>=0 for tr in self.trs(s)])
        return [ForAll([b],f(b),patterns=[sel(T,b)]),ForAll([b],f(b),patterns=[sel(N,b)])]
    def list_inv(self,s,lid,cmp):
        M=s.g['M']; x=Int('x!%d'%nextid())
        r=[f for n,f in self.sorted_inv(s,lid)]
        r.append(ForAll([x],Implies(And(sel(M,x),OWN(x)==lid),And(NB(x)>0,GK(x)==RK(cmp,BKF(NB(x)),BKG(NB(x))))),patterns=[sel(M,x)]))
        return r
    # ------------------------------------------------------------- rely and guarantee
    def just(self,s,b):
        """reasons for which this thread may disconnect b"""
        i=Int('i!%d'%nextid())
        ex=Exists([i],And(i>=0,i<NT(TRK(b)),sel(s.g['EXPD'],EL(TRK(b),i))),patterns=[EL(TRK(b),i)])
        return Or(ex,self.may_disconnect(s,b))
    def may_disconnect(self,s,b): return BoolVal(False)
    def on_lock(self,e,s,m):
        if m!=('o',self.mtxobj.id,0): raise Unsupported('lock of another mutex')
        self.pass_time(e,s)
        if self.interf: self.rely(e,s)
        s.att['snap']=(dict((k,s.g[k]) for k in NBODY),self.own(s),s.g['EXPD'])
        self.sig_locked(e,s)
        return None
    def sig_locked(self,e,s): pass
    def rely(self,e,s):
        own=self.own(s); old={k:s.g[k] for k in NBODY}; T0=s.g['T']
        for k in NBODY: self.gset(e,s,k,fresh(k,AII))
        T1=fresh('T',AII); self.gset(e,s,'T',T1)
        g=s.g; b=Int('b!%d'%nextid())
        f=And(sel(g['CONN'],b)<=sel(old['CONN'],b),Or(sel(g['SPX'],b)==sel(old['SPX'],b),sel(g['SPX'],b)==0))
        for p in (sel(g['CONN'],b),sel(g['SPX'],b),sel(old['CONN'],b),sel(old['SPX'],b)): s.assume(ForAll([b],f,patterns=[p]))
        f=sel(T1,b)==sel(T0,b)-If(And(sel(old['SPN'],b)!=0,sel(g['SPN'],b)==0),IntVal(1),IntVal(0))
        s.assume(ForAll([b],f,patterns=[sel(T1,b)]))
        s.assume(*self.body_inv(s,own))
    def on_unlock(self,e,s,m):
        sn=s.att.get('snap')
        if sn is None: return
        old,own0,E0=sn; g=s.g; own1=self.own(s); b=Int('b!%d'%nextid())
        del s.att['snap']
        ob=lambda n,f,tag: e.oblige(s,n,f,tag=tag)
        if e.quiet: return
        changed=lambda *ks: any(not g[k].eq(old[k]) for k in ks)
        if changed('CONN'):
            ob('only connections with an expired tracked object, or selected for it, are disconnected; none comes back',ForAll([b],Or(sel(g['CONN'],b)==sel(old['CONN'],b),And(sel(g['CONN'],b)==0,self.just(s,b)))),('C02','C03','C05','C07'))
        if changed('CONN','RC') or not own0.eq(own1):
            u=lambda o: If(And(b==o,o!=0),IntVal(1),IntVal(0))
            ob("exactly the uses of slots gained and given up are counted",ForAll([b],sel(g['RC'],b)-sel(g['CONN'],b)-u(own1)==sel(old['RC'],b)-sel(old['CONN'],b)-u(own0)),('C12','C16'))
        if changed('CONN','RC','SPX','SPN'):
            ob('class invariant of the connections: the slot is there exactly while it is connected or in use',And(*self.body_inv(s,own1)[:1]),('C12','safe'))
        self.sig_unlocked(e,s,old,own0,own1)
    def sig_unlocked(self,e,s,old,own0,own1): pass
    def user_code(self,e,s):
        """foreign code runs: it may use the same signal"""
        self.pass_time(e,s)
        if self.interf: self.rely(e,s)
    # ------------------------------------------------------------- memory of bodies
    def guarded(self,e,s,what):
        e.oblige(s,'%s is accessed with the mutex locked'%what,BoolVal(bool(s.locks)),tag='C11')
    def nonnull(self,e,s,t,what):
        if isz(t) and t.decl().eq(NB): return
        if isinstance(t,int):
            if t: return
            e.fail(s,what+': null pointer',tag='safe'); raise PathEnd()
        e.oblige(s,what+': the pointer is not null',t!=0,tag=('safe','C02'))
    def tagload(self,e,s,p,t,name):
        k=p.b[0]
        if k=='nv' and p.off==0: 
            self.need_elem(e,s,p.b[1],'access'); return Ptr(('bd',NB(p.b[1])))
        if k=='bd':
            b=zi(p.b[1]); o=p.off; g=s.g
            self.nonnull(e,s,p.b[1],'access to a connection')
            if o==0 and t.k=='ptr': return self.vtab(BODY_VT)
            if o==self.B_CONN: self.guarded(e,s,'the connection state'); return z3.simplify(sel(g['CONN'],b))
            if o==self.B_RC: self.guarded(e,s,'the slot use count'); return z3.simplify(sel(g['RC'],b))
            if o==self.B_SLOT or o==self.B_SLOT+8:
                if not s.locks: e.oblige(s,'a slot is read with the mutex locked, or while in use by this invocation',And(self.own(s)==b,b!=0),tag=('C11','C12'))
                return Ptr(('sl',z3.simplify(sel(g['SPX'],b)))) if o==self.B_SLOT else Ptr(('sc',z3.simplify(sel(g['SPN'],b))))
            if o==self.B_MTX: return Ptr(self.mtxobj)
            if o==self.B_MTX+8: return Ptr(self.mcb)
            if o==self.B_WB: return Ptr(('bd',b))
            if o==self.B_WB+8:
                self.guarded(e,s,'the blocker'); w=z3.simplify(sel(g['WBN'],b))
                self.gset(e,s,'LASTB',Store(g['LASTB'],b,BoolVal(False)))
                return Ptr(('wb',w))
            if o>=self.B_KEY: return self.keyload(e,s,b,o-self.B_KEY,t)
        if k=='sl':
            b=zi(p.b[1]); self.nonnull(e,s,p.b[1],'access to a slot')
            if p.off==VAR: return TRK(b)
            if p.off==self.S_FN: return FNV(b)
        return super().tagload(e,s,p,t,name)
    def keyload(self,e,s,b,o,t):
        if o==0: return BKF(b)
        if o==self.KINI: return If(BKF(b)==1,IntVal(1),IntVal(0))
        if o==self.KGRP: return BKG(b)
        raise Unsupported('key field %d'%o)
    def tagstore(self,e,s,p,v,t):
        k=p.b[0]
        if k=='bd':
            b=zi(p.b[1]); o=p.off; g=s.g
            self.nonnull(e,s,p.b[1],'access to a connection')
            if o==self.B_CONN: self.guarded(e,s,'the connection state'); return self.gset(e,s,'CONN',Store(g['CONN'],b,zi(v)))
            if o==self.B_RC: self.guarded(e,s,'the slot use count'); return self.gset(e,s,'RC',Store(g['RC'],b,zi(v)))
            if o in(self.B_SLOT,self.B_SLOT+8):
                self.guarded(e,s,'the slot'); nm='SPX' if o==self.B_SLOT else 'SPN'
                return self.gset(e,s,nm,Store(g[nm],b,self.tagterm(e,s,v,('sl','sc')[o!=self.B_SLOT])))
        return super().tagstore(e,s,p,v,t)
    def tagterm(self,e,s,v,kind):
        if isinstance(v,Ptr):
            if isinstance(v.b,tuple) and v.b[0]==kind and not v.off: return zi(v.b[1])
            if isinstance(v.b,int) and v.b==0: return IntVal(0)
        raise Unsupported('store of %r'%(v,))
    def tagref(self,e,s,p):
        if p.b[0]=='bd' and not p.off: return zi(p.b[1])
        return super().tagref(e,s,p)
    SYMK=('bd','sl','sc','wb')
    def tageq(self,e,s,a,b):
        if a.b[0] in self.SYMK:
            if a.off!=b.off: return None
            return mkb(z3.simplify(zi(a.b[1])==zi(b.b[1])))
        return super().tageq(e,s,a,b)
    def tageq1(self,e,s,t,u):
        if t.b[0] in self.SYMK and isinstance(u.b,int) and u.b==0 and not u.off:
            if t.b[0]=='bd' and isz(t.b[1]) and t.b[1].decl().eq(NB): return False
            return mkb(z3.simplify(zi(t.b[1])==0)) if not t.off else False
        return super().tageq1(e,s,t,u)
    def join_tag(self,e,s,kind): return Ptr((kind,fresh(kind))) if kind in('ln','mn','bd') else UNDEF
    def need_elem(self,e,s,x,what):
        super().need_elem(e,s,x,what)
        if not s.locks: self.need_held(e,s,x)
    def need_held(self,e,s,x): e.oblige(s,'a list is read while the caller keeps it unchanged',BoolVal(self.list_held),tag=('C06','C11'))
    # ------------------------------------------------------------- counts of slots and blockers
    def tagof(self,p): return p.b[0] if isinstance(p,Ptr) and isinstance(p.b,tuple) else None
    def c_add_sym(self,e,s,p):
        if self.tagof(p)=='sc':
            b=zi(p.b[1]); self.gset(e,s,'T',Store(s.g['T'],b,sel(s.g['T'],b)+1))
        return None
    def c_rel_sym(self,e,s,p):
        if self.tagof(p)=='sc':
            b=zi(p.b[1]); T=s.g['T']; n=z3.simplify(sel(T,b)-1)
            self.gset(e,s,'T',Store(T,b,n))
            e.oblige(s,'a slot that is referenced is not released too often',n>=0,tag=('safe','C12'))
            e.oblige(s,"no mutex is held when a disconnected slot's function is destroyed",Or(BoolVal(not s.locks),n>0),tag='C10')
            self.gset(e,s,'DST',Store(s.g['DST'],b,sel(s.g['DST'],b)+If(n==0,IntVal(1),IntVal(0))))
        return None
    def c_lock_sym(self,e,s,p):
        if self.tagof(p)=='bcb' and not s.locks: return 1
        raise Unsupported('lock of %r'%(p,))
    def c_use_sym(self,e,s,p):
        k=self.tagof(p)
        if k=='wb':
            b=zi(p.b[1]); u=fresh('blockers'); s.assume(u>=0)
            self.gset(e,s,'LASTB',Store(s.g['LASTB'],b,u>0)); self.gset(e,s,'EVB',Store(s.g['EVB'],b,Or(sel(s.g['EVB'],b),u>0)))
            return u
        if k=='sc': return sel(s.g['T'],zi(p.b[1]))
        raise Unsupported('use_count of %r'%(p,))
    def istrash(self,n): return n.startswith('_ZN') and '11auto_bufferINS_10shared_ptrIvEE' in n
    def ab_auto_buffer(self,e,s,a,i,n):
        if self.istrash(n):
            p=e.norm(s,a[0]); k=('tr',p.b.id,p.off); self.gset(e,s,k,z3.K(I,IntVal(0))); self.buf_new(e,s,k,n); return None
        return super().ab_auto_buffer(e,s,a,i,n)
    def ab_push_back(self,e,s,a,i,n):
        if self.istrash(n):
            p=e.norm(s,a[0]); k=('tr',p.b.id,p.off); v=e.load(s,Ptr(a[1].b,a[1].off+8),PT)
            L=('len',)+k[1:]; t=self.buf_grow(e,s,k,s.g[L]+1,'trash: bad_alloc')
            self.gset(e,s,L,z3.simplify(s.g[L]+1))
            if self.tagof(v)=='sc':
                b=zi(v.b[1]); self.gset(e,s,'T',Store(s.g['T'],b,sel(s.g['T'],b)+1)); self.gset(e,s,k,Store(s.g[k],b,sel(s.g[k],b)+1))
            elif not(isinstance(v,Ptr) and v.b==0): raise Unsupported('trash %r'%(v,))
            return Outs(([(t,'throw',Exc('bad_alloc'))] if t is not None else [])+[(s,'ret',None)])
        return super().ab_push_back(e,s,a,i,n)
    def bufkey(self,e,s,p,n):
        if self.istrash(n): p=e.norm(s,p); return ('tr',p.b.id,p.off)
        return super().bufkey(e,s,p,n)
    def ab_dauto_buffer(self,e,s,a,i,n):
        if self.istrash(n):
            p=e.norm(s,a[0]); k=('tr',p.b.id,p.off); tr=s.g.pop(k); self.buf_del(s,k); T=s.g['T']; D=s.g['DST']
            b=Int('b!%d'%nextid())
            if not z3.is_K(tr):
                e.oblige(s,"no mutex is held when disconnected slots are destroyed",BoolVal(not s.locks),tag='C10')
                T1=fresh('T',AII); D1=fresh('DST',AII)
                s.assume(ForAll([b],sel(T1,b)==sel(T,b)-sel(tr,b),patterns=[sel(T1,b)]),ForAll([b],sel(D1,b)==sel(D,b)+If(And(sel(tr,b)>0,sel(T1,b)==0),IntVal(1),IntVal(0)),patterns=[sel(D1,b)]))
                self.gset(e,s,'T',T1); self.gset(e,s,'DST',D1)
                if self.interf: self.user_code(e,s)
            return None
        return super().ab_dauto_buffer(e,s,a,i,n)
    # ------------------------------------------------------------- slots
    def slot_expired(self,e,s,a,i,n):
        if self.tagof(a[0])!='sl': return INLINE
        b=zi(a[0].b[1]); self.nonnull(e,s,b,'access to a slot'); q=TRK(b); self.pass_time(e,s)
        r=fresh('expired','b'); ix=Int('i!%d'%nextid()); w=fresh('ix'); E=s.g['EXPD']
        s.assume(Implies(r,And(w>=0,w<NT(q),sel(E,EL(q,w)))),Implies(Not(r),ForAll([ix],Implies(And(ix>=0,ix<NT(q)),Not(sel(E,EL(q,ix)))),patterns=[EL(q,ix)])))
        return r
    def call_slot(self,e,s,a,i,n):
        p=a[0]
        if self.tagof(p)!='sl' or p.off!=self.S_FN: raise Unsupported('call of %r'%(p,))
        b=zi(p.b[1]); own=self.own(s); q=TRK(b); ix=Int('i!%d'%nextid())
        self.no_lock(e,s,'a slot function runs')
        e.oblige(s,'the slot called is in use by this invocation',And(b==own,b!=0),tag=('C12','C02','C11'))
        e.oblige(s,'every object tracked through a shared pointer is kept alive while the slot runs',ForAll([ix],Implies(And(ix>=0,ix<NT(q)),Or(KIND(EL(q,ix))==0,self.held(s,EL(q,ix)))),patterns=[EL(q,ix)]),tag='C05')
        self.check_args(e,s,a)
        self.gset(e,s,'CALLS',s.g['CALLS']+1); self.gset(e,s,'CALLED',b)
        self.user_code(e,s)
        outs=[]
        for k in('expired','other','bad_weak','bad_alloc'):
            t=s.fork(); t.trace+=('slot throws '+k,); t.att['slot_threw']=k; outs.append((t,'throw',Exc(k)))
        r=fresh('result'); self.gset(e,s,'RESULT',r); s.trace+=('slot returns',)
        return Outs(outs+[(s,'ret',r)])
    def check_args(self,e,s,a): pass
    # ------------------------------------------------------------- invocation cache
    def cache_ctor(self,e,s,a,i,n): return INLINE
    def cache_dtor(self,e,s,a,i,n):
        s.att['own_dying']=True
        return INLINE
    # ------------------------------------------------------------- loops
    def fresh_ghost(self,k,v):
        nm=k if isinstance(k,str) else '_'.join(map(str,k))
        return z3.Const('g_%s!%d'%(nm,nextid()),v.sort())
    def lncells(self,hv,writes):
        wr={k[1:] for k in writes if k[0]=='m'}
        r=[]
        for oid,cs in hv.mem.items():
            for k,v in cs.items():
                if isinstance(v,Ptr) and isinstance(v.b,tuple) and v.b[0]=='ln' and (oid,)+k in wr: r.append((oid,)+k)
        return sorted(r)
    def lnfixed(self,hv,writes):
        """iterators in local variables the loop does not change"""
        wr={k[1:] for k in writes if k[0]=='m'}; r=[]
        for oid in hv.frames[-1].allocas:
            for k,v in hv.mem.get(oid,{}).items():
                if isinstance(v,Ptr) and isinstance(v.b,tuple) and v.b[0]=='ln' and (oid,)+k not in wr and not any(v.b[1].eq(y) for y in r): r.append(v.b[1])
        return r
    def loop_candidates(self,eng,entry,hv,writes,top,fn,label):
        c=[]
        gw={k[1] for k in writes if k[0]=='g'}
        # first the invariants on which the others rest
        if gw&(set(NBODY)): c.append(('class invariant of the connections',dual(self.body_inv)))
        if gw&{'T','SPN'} or any(isinstance(k,tuple) and k[0]=='tr' for k in gw): c.append(('references to slots',dual(self.ledger)))
        if 'CONN' in gw:
            C0=entry.g['CONN']; b=Int('b!%d'%nextid())
            c.append(('no connection comes back',dual(lambda s: [ForAll([b],sel(s.g['CONN'],b)<=sel(C0,b),patterns=[q]) for q in(sel(s.g['CONN'],b),sel(C0,b))])))
        def cell(k):
            def f(s):
                v=s.mem.get(k[0],{}).get(k[1:],UNDEF)
                if isinstance(v,Ptr) and isinstance(v.b,tuple) and v.b[0]=='ln': return v.b[1]
                raise Unsupported('cell')
            return f
        for k in self.lncells(hv,writes):
            x=cell(k); e0=entry.mem.get(k[0],{}).get(k[1:])
            e0=e0.b[1] if isinstance(e0,Ptr) and isinstance(e0.b,tuple) and e0.b[0]=='ln' else None
            for lid in self.lids(hv):
                c.append(('iterator of the list',lambda s,x=x,lid=lid: And(OWN(x(s))==lid,x(s)>0,POS(x(s))<=POS(ENDL(lid)),Or(x(s)==ENDL(lid),And(sel(s.g['M'],x(s)),POS(x(s))<POS(ENDL(lid)))))))
            if e0 is not None: c.append(('not before the start',lambda s,x=x,e0=e0: POS(x(s))>=POS(e0)))
            for y in self.lnfixed(hv,writes): c.append(('not after another iterator',lambda s,x=x,y=y: Or(OWN(y)!=OWN(x(s)),POS(x(s))<=POS(y))))
            if e0 is not None:
                for nm,f in self.passed_candidates():
                    def g(s,x=x,e0=e0,f=f):
                        y=Int('y!%d'%nextid()); M=s.g['M']
                        return ForAll([y],Implies(And(sel(M,y),OWN(y)==OWN(e0),POS(y)>=POS(e0),POS(y)<POS(x(s))),f(s,y)),patterns=[sel(M,y)])
                    c.append((nm,g))
        c+=self.more_candidates(eng,entry,hv,writes)
        c+=super().loop_candidates(eng,entry,hv,writes,top,fn,label)
        return c
    def more_candidates(self,eng,entry,hv,writes): return []
    def passed_candidates(self):
        return [('elements passed are disconnected or were seen blocked',lambda s,y: Or(sel(s.g['CONN'],NB(y))==0,sel(s.g['EVB'],NB(y)))),
                ('elements passed are disconnected',lambda s,y: sel(s.g['CONN'],NB(y))==0)]
    def lids(self,s): return [v for k,v in s.att.items() if k[0]=='ident' and k[1].startswith('lid')]
