"""Contracts of slot, slot_base, the visitors over tracked objects, and of the slot call cache."""
from model_core import *
from spec_conn import *
TU='core'
class SlotSpec(ConnSpec):
    """the user's slot function is called only with every tracked object held"""
    def __init__(self,L,cx):
        super().__init__(L,cx)
        self.on('spec::SlotFn::operator()',self.fn_call)
        on=self.on
        on('spec::SlotFn::operator=',self.fn_set)
        on(['std::weak_ptr::weak_ptr','std::shared_ptr::shared_ptr'],self.std_copy)
        on(['std::weak_ptr::~weak_ptr','std::shared_ptr::~shared_ptr'],lambda e,s,a,i,n:None)
    def std_copy(self,e,s,a,i,n):
        e.store(s,a[0],e.load(s,a[1],I64) if len(a)>1 else 0,I64); return None
    # ---- where tracked elements come from
    def wvar_ctor(self,e,s,a,i,n):
        q=e.norm(s,a[1]); k=self.vkey(e,s,a[0])
        if isinstance(q.b,tuple) and q.b[0]=='arr': s.att[('wv',)+k[1:]]=('elem',self.elem(e,s,q)); return None
        if not isinstance(q.b,Obj): return INLINE
        if ('wv',q.b.id,q.off) in s.att: s.att[('wv',)+k[1:]]=s.att[('wv',q.b.id,q.off)]; return None
        c=s.mem[q.b.id]; x=c.get((q.off,8)); y=c.get((q.off+8,8))
        if isinstance(x,Ptr) and y is not None: info=('weak',x,y)
        elif isinstance(x,Ptr):
            impl=e.norm(s,x); d=s.mem[impl.b.id]; info=('foreign',d.get((impl.off+8,8)))
        else: return INLINE
        s.att[('wv',)+k[1:]]=info; return None
    def var_dtor(self,e,s,a,i,n):
        p=e.norm(s,a[0])
        if isinstance(p.b,Obj) and ('wv',p.b.id,p.off) in s.att: del s.att[('wv',p.b.id,p.off)]; return None
        return super().var_dtor(e,s,a,i,n)
    def pushed(self,e,s,p,n):
        p=e.norm(s,p)
        if isinstance(p.b,tuple) and p.b[0]=='arr': return self.elem(e,s,p)
        w=fresh('elem'); info=s.att.get(('wv',p.b.id,p.off))
        if info is None: raise Unsupported('tracked element of unknown origin')
        if info[0]=='elem': return info[1]
        s.assume(w>0); s.att['pushed']=s.att.get('pushed',())+((w,info),)
        return w
    def loop_candidates(self,eng,entry,hv,writes,top,fn,label):
        c=super().loop_candidates(eng,entry,hv,writes,top,fn,label)
        its=[]
        for oid,cs in hv.mem.items():
            for k,v in cs.items():
                if isinstance(v,Ptr) and isinstance(v.b,tuple) and v.b[0]=='arr' and v.b[1]=='tr' and v.st and ('m',oid)+k in writes: its.append((oid,k,v.b[2]))
        for w in writes:
            if w[0]=='m' and w[2]>=VAR:
                q0=entry.mem[w[1]].get(w[2:]); key=w[2:]; oid=w[1]
                if q0 is None: continue
                ixs=[(lambda s,io=io,ik=ik: zi(s.mem[io][ik].ix),src) for io,ik,src in its]
                own=set(hv.frames[-1].allocas)
                ixs+=[(lambda s,k=k: zi(s.mem[k[0]][k[1:]]),src) for k in [x[1:] for x in writes if x[0]=='m' and x[1] in own and x[3] in(4,8)] if isz(hv.mem.get(k[0],{}).get(k[1:])) for src in self.vecs(entry)]
                for ix,src in ixs:
                    cur=lambda s,oid=oid,key=key: zi(s.mem[oid][key])
                    c.append(('one more element per iteration',lambda s,ix=ix,cur=cur: And(ix(s)>=0,NT(cur(s))==NT(q0)+ix(s))))
                    def old(s,cur=cur):
                        i=Int('i!%d'%nextid()); return ForAll([i],Implies(And(i>=0,i<NT(q0)),EL(cur(s),i)==EL(q0,i)),patterns=[EL(cur(s),i)])
                    def new(s,cur=cur,ix=ix,src=src):
                        i=Int('i!%d'%nextid()); return ForAll([i],Implies(And(i>=NT(q0),i<NT(q0)+ix(s)),EL(cur(s),i)==EL(src,i-NT(q0))),patterns=[EL(cur(s),i)])
                    c.append(('old elements stay',old)); c.append(('elements copied so far',new))
        return c
    def fn_set(self,e,s,a,i,n):
        p=e.norm(s,a[1])
        outs=[]
        t=s.fork(); t.trace+=('slot function assignment throws',); t.att['thrown']='user'; outs.append((t,'throw',Exc('other')))
        src=dict(s.mem[p.b.id]) if isinstance(p.b,Obj) else {}
        self.event(s,'setfn',p.b.id if isinstance(p.b,Obj) else p.b,p.off,n,src)
        e.store(s,a[0],fresh('fn'),I64)
        return Outs(outs+[(s,'ret',a[0])])
    def fn_call(self,e,s,a,i,n):
        p=e.norm(s,a[0]); self.no_lock(e,s,'a slot runs')
        self.event(s,'call',p.b.id if isinstance(p.b,Obj) else p.b,p.off,a[1],a[2])
        s.att['heldatcall']=tuple(self.conts(s)); s.g['SEENC']=s.g['SEEN']
        t=s.fork(); t.trace+=('slot throws',); t.att['thrown']='user'
        r=fresh('result'); s.att['result']=r
        s2=s.fork() if False else None
        return Outs([(t,'throw',Exc('other')),(s,'ret',r)])
def qall(q,f):
    i=Int('i!%d'%nextid()); return ForAll([i],Implies(And(i>=0,i<NT(q)),f(EL(q,i))),patterns=[EL(q,i)])
def qex(q,f):
    i=Int('i!%d'%nextid()); return Exists([i],And(i>=0,i<NT(q),f(EL(q,i))),patterns=[EL(q,i)])
def mk_slot(e,st,sp,nm='slot'):
    o=e.newobj(st,nm,64); q=Int('tracked_'+nm); st.mem[o.id][(VAR,8)]=q
    fo=sp.L.off(r'boost::signals2::slot<int \(struct spec::Arg','_slot_function'); st.mem[o.id][(fo,8)]=Int('fn_'+nm)
    return o,q,fo
def units(cx):
    U=[]
    def F(base,**k): return lambda: find(cx,base,**k)
    SB=B_+'slot_base::'; S=B_+'slot::'
    def unit(name,props,fn,setup,post,**k):
        try: fn()
        except KeyError: 
            if k.pop('opt',False): return
        U.append(multi(name,props,cx,fn,[('',setup,post)],cls=SlotSpec,**k))
    # ---- expired / lock
    def s_this(e,st,f,sp,c):
        o,q,fo=mk_slot(e,st,sp); c.update(o=o,q=q,fo=fo); return [Ptr(o)]
    def same_slot(e,st,c): e.oblige(st,'the slot is not changed',And(zi(st.mem[c['o'].id][(VAR,8)])==c['q'],zi(st.mem[c['o'].id][(c['fo'],8)])==Int('fn_slot')),tag='C05')
    def p_expired(e,st,kind,v,sp,c):
        if kind=='throw': return e.fail(st,'expired() throws',tag='C05')
        same_slot(e,st,c); q=c['q']
        e.oblige(st,'expired() is true only if a tracked object is gone',Implies(zb(v),qex(q,lambda w:sel(st.g['EXPD'],w))),tag=('C05','C07'))
        e.oblige(st,'expired() is false only if every tracked object was seen to exist',Implies(Not(zb(v)),qall(q,lambda w:sel(st.g['SEEN'],w))),tag=('C05','C07'))
    unit('slot_base::expired',{'C05','C07'},F(SB+'expired'),s_this,p_expired)
    def s_lock(e,st,f,sp,c):
        t=e.newobj(st,'result',24); a=s_this(e,st,f,sp,c); c['t']=t; return [Ptr(t)]+a
    def p_lock(e,st,kind,v,sp,c):
        q=c['q']; same_slot(e,st,c)
        if kind=='throw':
            if v.n=='expired': e.oblige(st,'expired_slot is thrown only if a tracked object is gone',qex(q,lambda w:sel(st.g['EXPD'],w)),tag='C05')
            else: e.oblige(st,'otherwise only memory exhaustion leaves lock()',BoolVal(v.n=='bad_alloc'),tag='C05')
            e.oblige(st,'a failed lock() holds on to nothing',BoolVal(not sp.conts(st)),tag='C05'); return
        cont=st.g.get(('cont',c['t'].id,0))
        if cont is None: return e.fail(st,'lock() returns no container',tag='C05')
        e.oblige(st,'lock() returns references to all tracked objects',qall(q,lambda w:Or(KIND(w)==0,sel(cont,w))),tag='C05')
        e.oblige(st,'every tracked object was seen to exist',qall(q,lambda w:sel(st.g['SEEN'],w)),tag='C05')
    unit('slot_base::lock',{'C05'},F(SB+'lock'),s_lock,p_lock)
    # ---- operator()
    def s_call(e,st,f,sp,c):
        a=s_this(e,st,f,sp,c); arg=e.newobj(st,'arg',8); st.mem[arg.id][(0,8)]=Int('argval'); n=Int('n'); c.update(arg=arg,n=n); return a+[Ptr(arg),n]
    def p_call(e,st,kind,v,sp,c):
        q=c['q']; same_slot(e,st,c); calls=[x for x in st.att.get('ev',()) if x[0]=='call']
        e.oblige(st,'no references are kept after the call',BoolVal(not sp.conts(st)),tag='C05')
        if kind=='throw' and not calls:
            if v.n=='expired': e.oblige(st,'expired_slot is thrown only if a tracked object is gone',qex(q,lambda w:sel(st.g['EXPD'],w)),tag='C05')
            else: e.oblige(st,'otherwise only memory exhaustion prevents the call',BoolVal(v.n=='bad_alloc'),tag='C05')
            return
        if len(calls)!=1: return e.fail(st,'the slot function is not called exactly once',tag=('C02','C05'))
        _,o,off,a,n=calls[0]
        e.oblige(st,"the slot's own function is called",BoolVal(o==c['o'].id and off==c['fo']),tag='C02')
        e.oblige(st,'the function receives exactly the arguments given',And(same(e,st,a,Ptr(c['arg'])),zi(n)==c['n']),tag=('C02','C15'))
        held=lambda w:Or(KIND(w)==0,*[sel(x,w) for x in st.att['heldatcall']])
        e.oblige(st,'all tracked objects are held during the call',qall(q,held),tag='C05')
        e.oblige(st,'every tracked object was seen to exist before the call',qall(q,lambda w:sel(st.g['SEENC'],w)),tag='C05')
        if kind=='ret': e.oblige(st,"the function's result is returned",zi(v)==st.att['result'],tag='C02')
        else: e.oblige(st,'what the function throws is passed on',BoolVal(v.n=='other'),tag='C16')
    for cq,mg in (('',r'^_ZN5boost8signals24slotI.*cl'),(' const',r'^_ZNK5boost8signals24slotI.*cl')):
        unit('slot::operator()'+cq,{'C02','C05','C15'},F(S+'operator()',mangled=mg),s_call,p_call)
    # ---- tracking
    def tracked(e,st,c,n,tag='C05'):
        q=zi(st.mem[c['o'].id][(VAR,8)]); i=Int('i!%d'%nextid())
        e.oblige(st,'the slot tracks %d more object(s)'%n,NT(q)==NT(c['q'])+n,tag=tag)
        e.oblige(st,'the slot still tracks what it tracked',ForAll([i],Implies(And(i>=0,i<NT(c['q'])),EL(q,i)==EL(c['q'],i)),patterns=[EL(q,i)]),tag=tag)
        return q
    def last(e,st,c,q,info,what):
        P=st.att.get('pushed',())
        if len(P)!=1: return e.fail(st,'%s is not tracked'%what,tag='C05')
        w,got=P[0]
        e.oblige(st,'%s is what is tracked'%what,And(EL(q,NT(c['q']))==w,BoolVal(len(got)==len(info) and got[0]==info[0]),*[same(e,st,x,y) if isinstance(x,Ptr) or isinstance(y,Ptr) else zi(x)==zi(y) for x,y in zip(got[1:],info[1:])]),tag='C05')
    def untouched(e,st,c):
        q=zi(st.mem[c['o'].id][(VAR,8)]); e.oblige(st,'a failed track() leaves the tracked objects as they were',q==c['q'],tag=('C05','C16'))
    def p_track(info,what,ret=True):
        def p(e,st,kind,v,sp,c):
            if kind=='throw': untouched(e,st,c); return e.oblige(st,'only memory exhaustion leaves track()',BoolVal(v.n=='bad_alloc'),tag='C05')
            q=tracked(e,st,c,1); last(e,st,c,q,info(c),what)
            if ret: e.oblige(st,'the slot itself is returned',same(e,st,v,Ptr(c['o'])),tag='C05')
        return p
    def s_trackw(e,st,f,sp,c):
        a=s_this(e,st,f,sp,c); b=mk_body(e,st,sp,'a'); h=mk_handle(e,st,sp,b,'w'); c['info']=('weak',b.p,Ptr(b.cb)); return a+[Ptr(h)]
    unit('slot::track(weak_ptr)',{'C05'},F(S+'track',mangled=r'ERKNS_8weak_ptrIvEE$'),s_trackw,p_track(lambda c:c['info'],'the given object'))
    def s_trackf(e,st,f,sp,c):
        a=s_this(e,st,f,sp,c); w=e.newobj(st,'foreign',16); x=Int('foreignid'); st.mem[w.id][(0,8)]=x; c['info']=('foreign',x); return a+[Ptr(w),NULL]
    for nm,mg in (('weak',r'weak_ptr_traits'),('shared',r'17shared_ptr_traits')):
        unit('slot::track_foreign(%s_ptr)'%nm,{'C05'},F(S+'track_foreign',mangled=mg),s_trackf,p_track(lambda c:c['info'],'the given foreign object'))
    def s_tracks(e,st,f,sp,c):
        a=s_this(e,st,f,sp,c); o2,q2,_=mk_slot(e,st,sp,'other'); c.update(q2=q2,o2=o2); return a+[Ptr(o2)]
    def p_tracks(e,st,kind,v,sp,c):
        if kind=='throw': return e.oblige(st,'only memory exhaustion leaves track()',BoolVal(v.n=='bad_alloc'),tag='C05')
        q=zi(st.mem[c['o'].id][(VAR,8)]); i=Int('i!%d'%nextid()); q0=c['q']; q2=c['q2']
        e.oblige(st,'everything the other slot tracks is tracked',And(NT(q)==NT(q0)+NT(q2),ForAll([i],Implies(And(i>=0,i<NT(q2)),EL(q,NT(q0)+i)==EL(q2,i)),patterns=[EL(q2,i)])),tag='C05')
        e.oblige(st,'the slot still tracks what it tracked',ForAll([i],Implies(And(i>=0,i<NT(q0)),EL(q,i)==EL(q0,i)),patterns=[EL(q,i)]),tag='C05')
        e.oblige(st,'the other slot is not changed',zi(st.mem[c['o2'].id][(VAR,8)])==q2,tag='C05')
    unit('slot::track(slot_base)',{'C05'},F(S+'track',mangled=r'ERKNS0_9slot_baseE$'),s_tracks,p_tracks)
    # ---- copy
    def s_copy(e,st,f,sp,c):
        t=e.newobj(st,'this',64); a=s_this(e,st,f,sp,c); c['t']=t; return [Ptr(t)]+a
    def p_copy(e,st,kind,v,sp,c):
        same_slot(e,st,c)
        if kind=='throw': return
        q=zi(st.mem[c['t'].id][(VAR,8)]); i=Int('i!%d'%nextid())
        e.oblige(st,'a copied slot tracks the same objects',And(NT(q)==NT(c['q']),ForAll([i],Implies(And(i>=0,i<NT(q)),EL(q,i)==EL(c['q'],i)),patterns=[EL(q,i)])),tag='C05')
        e.oblige(st,'a copied slot has a copy of the function',zi(st.mem[c['t'].id][(c['fo'],8)])==Int('fn_slot'),tag=('C02','C07'))
    unit('slot(const slot&)',{'C02','C05','C07'},F(S+'slot',mangled=r'C[12]ERKS7_$'),s_copy,p_copy,may_throw_copy=True)
    unit('slot(const slot<other signature>&)',{'C02','C05','C07'},F(S+'slot',mangled=r'C[12]I.*EERKNS1_I'),s_copy,p_copy,may_throw_copy=True)
    # ---- construction from a function
    def s_from(mk):
        def su(e,st,f,sp,c):
            t=e.newobj(st,'this',64); c['o']=t; c['arg']=mk(e,st,sp,c); return [Ptr(t),c['arg']]
        return su
    def mk_shared(e,st,nm):
        o=e.newobj(st,nm,64,True); cb=e.newobj(st,'cb_'+nm,24,True); u=Int('use_'+nm); w=Int('weak_'+nm); st.assume(u>=1,w>=1)
        st.mem[cb.id].update({(0,8):Ptr(('x','vt_'+nm)),(8,4):u,(12,4):w,(16,8):Ptr(o)}); st.att[('mine',cb.id)]=0
        return o,cb,u,w
    def tfn(e,st,sp,c):
        o,cb,u,w=mk_shared(e,st,'pointee'); x=e.newobj(st,'function',32); st.mem[x.id].update({(0,8):Ptr(o),(8,8):Ptr(cb),(16,8):Int('tv')}); c['info']=('weak',Ptr(o),Ptr(cb)); c['fnobj']=x; c['cb']=cb; c['u']=u; return Ptr(x)
    def box(mk):
        def g(e,st,sp,c):
            p=mk(e,st,sp,c); r=e.newobj(st,'ref',8); st.mem[r.id][(0,8)]=p; c['refobj']=r; return Ptr(r)
        return g
    def plain(e,st,sp,c):
        x=e.newobj(st,'function',8); st.mem[x.id][(0,8)]=Int('fv'); c['fnobj']=x; c['info']=None; return Ptr(x)
    def sigobj(e,st,sp,c):
        o,cb,u,w=mk_shared(e,st,'impl'); x=e.newobj(st,'signal',24)
        st.mem[x.id].update({(0,8):sp.vtab(r'boost::signals2::signal<int'),(8,8):Ptr(o),(16,8):Ptr(cb)}); c['info']=('weak',Ptr(o),Ptr(cb)); c['fnobj']=x; c['cb']=cb; c['u']=u; c['sig']=(o,cb); return Ptr(x)
    def p_from(how):
        def p(e,st,kind,v,sp,c):
            if kind=='throw':
                if c.get('cb') is not None: e.oblige(st,'a failed construction keeps no reference',zi(st.mem[c['cb'].id][(8,4)])==c['u'],tag=('C05','C12'))
                return
            q=zi(st.mem[c['o'].id][(VAR,8)]); ev=[x for x in st.att.get('ev',()) if x[0]=='setfn']
            if len(ev)!=1: return e.fail(st,'the slot function is not set exactly once',tag=('C02','C15'))
            if how=='sig':
                cells=sorted((k,x) for k,x in ev[0][4].items())
                e.oblige(st,'the function calls the signal without keeping it alive',And(BoolVal(len(cells)>=2),same(e,st,ev[0][4].get((0,8)),Ptr(c['sig'][0])),same(e,st,ev[0][4].get((8,8)),Ptr(c['sig'][1])),BoolVal('weak_signal' in ev[0][3])),tag=('C02','C05'))
            else:
                want=c['refobj'] if how in('ptr','ref') else c['fnobj']
                e.oblige(st,'the function given is what the slot calls',BoolVal(ev[0][1]==want.id and ev[0][2]==0),tag=('C02','C05'))
            if c['info'] is None: e.oblige(st,'a slot of a plain function tracks nothing',NT(q)==0,tag='C05')
            else:
                e.oblige(st,'the object bound is tracked',NT(q)==1,tag='C05'); P=st.att.get('pushed',())
                if len(P)!=1: return e.fail(st,'the object bound is not tracked',tag='C05')
                w,got=P[0]; e.oblige(st,'the object bound is what is tracked',And(EL(q,0)==w,*[same(e,st,x,y) for x,y in zip(got[1:],c['info'][1:])]),tag='C05')
                e.oblige(st,'tracking does not keep the object alive',zi(st.mem[c['cb'].id][(8,4)])==c['u'],tag=('C05','C12'))
        return p
    for nm,mg,mk,how in (('function',r'C[12]INS2_2FnEEERKT_$',plain,'f'),('trackable function',r'C[12]I3TFnEERKT_$',tfn,'f'),('reference to trackable',r'C[12]INS_17reference_wrapperI3TFnEEEERKT_',box(tfn),'ref'),
            ('pointer to trackable',r'C[12]IP3TFnEERKT_',box(tfn),'ptr'),('signal',r'C[12]INS0_6signal.*EERKT_$',sigobj,'sig'),('reference to signal',r'C[12]INS_17reference_wrapperI.*6signal.*EERKT_$',box(sigobj),'ref')):
        unit('slot(%s)'%nm,{'C02','C05'},F(S+'slot',mangled=mg),s_from(mk),p_from(how))
    def s_tracksig(e,st,f,sp,c): a=s_this(e,st,f,sp,c); return a+[sigobj(e,st,sp,c)]
    def p_tracksig(e,st,kind,v,sp,c):
        e.oblige(st,'tracking does not keep the signal alive',zi(st.mem[c['cb'].id][(8,4)])==c['u'],tag=('C05','C12'))
        p_track(lambda c:c['info'],'the given signal')(e,st,kind,v,sp,c)
    unit('slot::track(signal_base)',{'C05','C12'},F(S+'track',mangled=r'ERKNS0_11signal_baseE$'),s_tracksig,p_tracksig)
    return U
