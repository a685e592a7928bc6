"""Contracts of the signal object itself (forwarding, null, move, swap, destruction), weak_signal, bound_extended_slot_function and the slot invoker.
signal_impl members are used by contract: each is an event with its arguments (proved in spec_sig)."""
from model_core import *
from spec_conn import *
from spec_iter import unit, run_concrete
TU='core'
SG='boost::signals2::signal::'; IM='boost::signals2::detail::signal_impl::'; WS='boost::signals2::detail::weak_signal::'; BE='boost::signals2::detail::bound_extended_slot_function::'
SRET={'connect','connect_extended','combiner','operator()'}; VOID={'disconnect','disconnect_all_slots','set_combiner'}
class SigObj(ConnSpec):
    interf=False
    def __init__(self,L,cx=None):
        super().__init__(L,cx)
        on=self.on
        for m in SRET|VOID|{'num_slots','empty'}: on(IM+m,lambda e,s,a,i,n,m=m:self.fwd(e,s,a,i,n,m))
        on(IM+'signal_impl',self.im_ctor); on(IM+'~signal_impl',self.im_dtor)
        k='spec::Combiner::'; on(k+'Combiner',lambda e,s,a,i,n:e.store(s,a[0],0,I64)); on(k+'~Combiner',lambda e,s,a,i,n:None)
        on('spec::GroupCompare::GroupCompare',lambda e,s,a,i,n:e.store(s,a[0],0,I64)); on('spec::GroupCompare::~GroupCompare',lambda e,s,a,i,n:None)
        k='spec::ExtSlotFn::'
        on(k+'ExtSlotFn',self.ext_copy); on(k+'~ExtSlotFn',lambda e,s,a,i,n:None); on(k+'operator()',self.ext_call); on(k+'contains',self.ext_contains)
        on('spec::SlotFn::operator()',self.slot_call)
    def ext_copy(self,e,s,a,i,n):
        t=s.fork(); t.att['thrown']='user'; t.trace+=('copy of the function throws',)
        e.store(s,a[0],e.load(s,a[1],I64),I64); return Outs([(t,'throw',Exc('other')),(s,'ret',None)])
    def ext_call(self,e,s,a,i,n): return self.slot_call(e,s,a,i,n)
    def slot_call(self,e,s,a,i,n):
        self.event(s,'call',*[e.norm(s,x) if isinstance(x,Ptr) else x for x in a])
        t=s.fork(); t.att['thrown']='user'; t.trace+=('slot throws',); r=fresh('result'); s.att['result']=r
        return Outs([(t,'throw',Exc('other')),(s,'ret',r)])
    def ext_contains(self,e,s,a,i,n):
        self.event(s,'contains',*[e.norm(s,x) for x in a]); r=fresh('contains','b'); s.att['result']=r; return r
    def im_ctor(self,e,s,a,i,n):
        t=s.fork(); t.att['thrown']='user'; t.trace+=('signal_impl constructor throws',)
        p=e.norm(s,a[0]); self.event(s,'impl constructed',p.b.id,*a[1:]); s.mem[p.b.id][('alive',1)]=1
        return Outs([(t,'throw',Exc('other')),(s,'ret',None)]) if s.att.get('ctor_throws') else None
    def im_dtor(self,e,s,a,i,n):
        p=e.norm(s,a[0])
        if not isinstance(p.b,Obj) or p.off or ('alive',1) not in s.mem.get(p.b.id,{}): e.fail(s,'an implementation is destroyed that does not exist',tag=('C17','safe')); raise PathEnd()
        del s.mem[p.b.id][('alive',1)]
        self.event(s,'impl destroyed',p.b.id,self.holders(s,p.b.id)); return None
    def holders(self,s,oid):
        return tuple(x for x in self.c.get('sigs',()) if x in s.mem and any(isinstance(v,Ptr) and isinstance(v.b,Obj) and v.b.id==oid for v in s.mem[x].values()))
    def fwd(self,e,s,a,i,n,m):
        a=[e.norm(s,x) if isinstance(x,Ptr) else x for x in a]
        ret=a.pop(0) if m in SRET else None
        p=a[0]
        if not isinstance(p.b,Obj) or p.off or ('alive',1) not in s.mem.get(p.b.id,{}): e.fail(s,'an operation of a signal without implementation',tag=('C17','safe')); raise PathEnd()
        ccb=self.c.get('cbof',{}).get(p.b.id)
        held=s.mem.get(ccb,{}).get((8,4)) if ccb else None
        self.event(s,'impl',m,n,a,ret,held)
        t=s.fork(); t.att['thrown']='user'; t.trace+=(m+' throws',); out=[(t,'throw',Exc('other'))]
        if m in VOID: r=None
        elif m=='empty': r=fresh('empty','b'); s.att['result']=r
        elif m=='num_slots': r=fresh('num_slots'); s.att['result']=r
        else:
            v=('x','result%d'%nextid()); s.att['result']=v; e.store(s,ret,Ptr(v),PT); s.att['resmem']=(ret.b.id,ret.off); r=None
        return Outs(out+[(s,'ret',r)])
def same(e,st,a,b): return zb(e.ptreq(st,a,b)) if isinstance(a,Ptr) and isinstance(b,Ptr) else zi(a)==zi(b)
def same2(e,st,x,y):
    if isinstance(x,Ptr) and isz(y):
        return zi(st.mem[x.b.id][(x.off,4)])==y if isinstance(x.b,Obj) and (x.off,4) in st.mem.get(x.b.id,{}) else BoolVal(False)
    if isinstance(x,Ptr)!=isinstance(y,Ptr): return BoolVal(False)
    return same(e,st,x,y)
def units(cx):
    U=[]
    pm=cx.L.off(r'boost::signals2::signal<int','_pimpl')
    def F(base,**k): return lambda: find(cx,base,**k)
    def mk_sig(e,st,sp,c,nm,null=False):
        """a signal made by the real constructor; its implementation is shared with others in an arbitrary way"""
        sp.c=c
        o=e.newobj(st,nm,24,True); c.setdefault('sigs',[]).append(o.id); c[nm]=o
        if null:
            st.mem[o.id].update({(0,8):sp.vtab(r'boost::signals2::signal<int'),(pm,8):NULL,(pm+8,8):NULL}); return o
        cm=e.newobj(st,'cm',8,True); cp=e.newobj(st,'cp',8,True); st.mem[cm.id][(0,8)]=0; st.mem[cp.id][(0,8)]=0
        run_concrete(e,st,find(cx,SG+'signal',mangled='C1ERKS6_RKS8_$'),[Ptr(o),Ptr(cm),Ptr(cp)])
        cs=st.mem[o.id]; impl=cs[(pm,8)].b; cb=cs[(pm+8,8)].b
        u=Int('use_'+nm); w=Int('weak_'+nm); st.assume(u>=1,w>=1); st.mem[cb.id][(8,4)]=u; st.mem[cb.id][(12,4)]=w
        c.setdefault('cbof',{})[impl.id]=cb.id; c.setdefault('impls',{})[nm]=(impl,cb,u,w)
        st.att['ev']=()
        return o
    def evs(st,k): return [x for x in st.att.get('ev',()) if x[0]==k]
    def cnt(st,c,nm): return zi(st.mem[c['impls'][nm][1].id][(8,4)])
    def holds(e,st,sp,c,nm,who,tag='C17',what=None):
        """signal nm holds the implementation of who (None: null)"""
        cs=st.mem[c[nm].id]; x,y=cs.get((pm,8)),cs.get((pm+8,8))
        what=what or ('%s is null'%nm if who is None else '%s has the implementation %s had'%(nm,who))
        if who is None: return e.oblige(st,what,And(same(e,st,x,NULL),same(e,st,y,NULL)),tag=tag)
        i,cb=c['impls'][who][:2]; e.oblige(st,what,And(same(e,st,x,Ptr(i)),same(e,st,y,Ptr(cb))),tag=tag)
    def alive(e,st,c,nm,delta,tag=('C17','C12')):
        """use count of nm's implementation changed by delta; the implementation is destroyed exactly when nobody holds it"""
        i,cb,u,w=c['impls'][nm]; d=[x for x in evs(st,'impl destroyed') if x[1]==i.id]; want=u+delta
        if ('alive',1) in st.mem.get(i.id,{}):
            e.oblige(st,'an implementation in use is counted, one nobody uses is destroyed (%s)'%nm,And(want>=1,zi(st.mem[cb.id][(8,4)])==want),tag=tag)
            if d: e.fail(st,'implementation destroyed',tag=tag)
        else:
            e.oblige(st,'an implementation is destroyed only when nobody uses it (%s)'%nm,want==0,tag=tag)
            e.oblige(st,'an implementation is destroyed once (%s)'%nm,BoolVal(len(d)==1),tag=tag)
            e.oblige(st,'the memory of a destroyed implementation is freed',BoolVal(i.id not in st.mem),tag=tag)
    def others(e,st,c):
        if evs(st,'impl'): e.fail(st,'an operation of the implementation is called',tag='C17')
    # ------------------------------------------------------------- construction, destruction
    def s_ctor(e,st,f,sp,c):
        sp.c=c; o=e.newobj(st,'sig',24,True); c['sig']=o; c['sigs']=[o.id]; cm=e.newobj(st,'cm',8); cp=e.newobj(st,'cp',8); c.update(cm=cm,cp=cp); st.att['ctor_throws']=True; c['mem0']=set(st.mem)
        return [Ptr(o),Ptr(cm),Ptr(cp)]
    def p_ctor(e,st,kind,v,sp,c):
        E=evs(st,'impl constructed')
        if kind=='throw':
            leak=[k for k in st.mem if k not in c['mem0'] and any(isinstance(t,Obj) for t in ()) ]
            alive_=[x for x in E if ('alive',1) in st.mem.get(x[1],{})]
            return e.oblige(st,'a failed construction of a signal leaves no implementation behind',BoolVal(not alive_),tag=('C16','C12','C17'))
        if len(E)!=1: return e.fail(st,'a signal makes %d implementations'%len(E),tag='C17')
        cs=st.mem[c['sig'].id]; p=cs.get((pm,8)); cb=cs.get((pm+8,8))
        e.oblige(st,'a new signal has an implementation of its own',BoolVal(isinstance(p,Ptr) and isinstance(p.b,Obj) and p.b.id==E[0][1]),tag='C17')
        e.oblige(st,'the combiner and the comparison given are used',And(same(e,st,E[0][2],Ptr(c['cm'])),same(e,st,E[0][3],Ptr(c['cp']))),tag=('C01','C02','C06'))
        e.oblige(st,'the new implementation is used by the signal alone',zi(st.mem[cb.b.id][(8,4)])==1,tag=('C12','C17'))
    U.append(unit(cx,'signal::signal',{'C17','C16','C01','C02','C06','C12'},F(SG+'signal',mangled='C2ERKS6_RKS8_$'),s_ctor,p_ctor,1,cls=SigObj,uopts=dict(alloc_throws=True)))
    def s_one(null):
        def s(e,st,f,sp,c): return [Ptr(mk_sig(e,st,sp,c,'a',null))]
        return s
    def p_dtor(null):
        def p(e,st,kind,v,sp,c):
            others(e,st,c)
            if kind=='throw': return e.fail(st,'a destructor throws',tag='C17')
            if not null: alive(e,st,c,'a',-1)
        return p
    for null in(0,1): U.append(unit(cx,'~signal'+(' (null)' if null else ''),{'C17','C12'},F(SG+'~signal',mangled='D2Ev$'),s_one(null),p_dtor(null),1,cls=SigObj))
    # ------------------------------------------------------------- move, swap
    combos=[(x,y) for x in(0,1) for y in(0,1)]
    def s_mctor(null):
        def s(e,st,f,sp,c):
            o=mk_sig(e,st,sp,c,'a',null); t=e.newobj(st,'t',24); c['t']=t; c['sigs'].append(t.id); return [Ptr(t),Ptr(o)]
        return s
    def p_mctor(null):
        def p(e,st,kind,v,sp,c):
            others(e,st,c)
            if kind=='throw': return e.fail(st,'a move throws',tag='C17')
            holds(e,st,sp,c,'t',None if null else 'a'); holds(e,st,sp,c,'a',None)
            if not null: alive(e,st,c,'a',0)
        return p
    for null in(0,1): U.append(unit(cx,'signal(signal&&)'+(' (null)' if null else ''),{'C17'},F(SG+'signal',mangled='C2EOSC_$'),s_mctor(null),p_mctor(null),1,cls=SigObj))
    def s_two(na,nb,alias=False):
        def s(e,st,f,sp,c):
            a=mk_sig(e,st,sp,c,'a',na)
            if alias: return [Ptr(a),Ptr(a)]
            return [Ptr(a),Ptr(mk_sig(e,st,sp,c,'b',nb))]
        return s
    def p_massign(na,nb,alias):
        def p(e,st,kind,v,sp,c):
            others(e,st,c)
            if kind=='throw': return e.fail(st,'a move throws',tag='C17')
            e.oblige(st,'an assignment returns its target',same(e,st,v,Ptr(c['a'])),tag='C17')
            if alias:
                holds(e,st,sp,c,'a',None if na else 'a',what='self-move changes nothing')
                if not na: alive(e,st,c,'a',0)
                return
            holds(e,st,sp,c,'a',None if nb else 'b'); holds(e,st,sp,c,'b',None)
            if not na: alive(e,st,c,'a',-1)
            if not nb: alive(e,st,c,'b',0)
        return p
    for na,nb in combos: U.append(unit(cx,'signal=signal&& (%s=%s)'%('null' if na else 'sig','null' if nb else 'sig'),{'C17','C12'},F(SG+'operator=',mangled='aSEOSC_$'),s_two(na,nb),p_massign(na,nb,0),1,cls=SigObj))
    for na in(0,1): U.append(unit(cx,'signal=signal&& (self%s)'%(',null' if na else ''),{'C17'},F(SG+'operator=',mangled='aSEOSC_$'),s_two(na,na,True),p_massign(na,na,1),1,cls=SigObj))
    def p_swap(na,nb,alias=False):
        def p(e,st,kind,v,sp,c):
            others(e,st,c)
            if kind=='throw': return e.fail(st,'a swap throws',tag='C17')
            if alias: holds(e,st,sp,c,'a',None if na else 'a',what='swapping with itself changes nothing')
            else: holds(e,st,sp,c,'a',None if nb else 'b'); holds(e,st,sp,c,'b',None if na else 'a')
            if not na: alive(e,st,c,'a',0)
            if not nb and not alias: alive(e,st,c,'b',0)
        return p
    for nm,fn in(('signal::swap',F(SG+'swap')),('swap(signal,signal)',F('boost::signals2::swap',mangled=r'_6signalIT_T0_'))):
        for na,nb in combos: U.append(unit(cx,'%s (%s,%s)'%(nm,'null' if na else 'sig','null' if nb else 'sig'),{'C17'},fn,s_two(na,nb),p_swap(na,nb),1,cls=SigObj))
        U.append(unit(cx,'%s (self)'%nm,{'C17'},fn,s_two(0,0,True),p_swap(0,0,True),1,cls=SigObj))
    # ------------------------------------------------------------- observers
    def p_eq(na,nb,alias):
        def p(e,st,kind,v,sp,c):
            if kind=='throw': return e.fail(st,'a comparison throws',tag='C17')
            e.oblige(st,'signals are equal if and only if they are the same',zb(v)==BoolVal(bool(alias or (na and nb))),tag='C17')
        return p
    for na,nb in combos: U.append(unit(cx,'signal==signal (%s,%s)'%('null' if na else 'sig','null' if nb else 'sig'),{'C17','C07'},F(SG+'operator=='),s_two(na,nb),p_eq(na,nb,0),1,cls=SigObj))
    U.append(unit(cx,'signal==signal (self)',{'C17','C07'},F(SG+'operator=='),s_two(0,0,True),p_eq(0,0,1),1,cls=SigObj))
    def p_null(null):
        def p(e,st,kind,v,sp,c):
            others(e,st,c); holds(e,st,sp,c,'a',None if null else 'a')
            if kind=='throw': return e.fail(st,'null() throws',tag='C17')
            e.oblige(st,'null() tells whether the signal was moved from',zb(v)==BoolVal(bool(null)),tag='C17')
            if not null: alive(e,st,c,'a',0)
        return p
    for null in(0,1): U.append(unit(cx,'signal::null (%s)'%('null' if null else 'signal'),{'C17'},F(SG+'null'),s_one(null),p_null(null),1,cls=SigObj))
    def s_lockp(null):
        def s(e,st,f,sp,c):
            a=mk_sig(e,st,sp,c,'a',null); r=e.newobj(st,'r',16); c['r']=r; return [Ptr(r),Ptr(a)]
        return s
    def p_lockp(null):
        def p(e,st,kind,v,sp,c):
            others(e,st,c); holds(e,st,sp,c,'a',None if null else 'a',tag=('C05','C17'))
            if kind=='throw': return e.fail(st,'lock_pimpl throws',tag='C05')
            cs=st.mem[c['r'].id]; w=(NULL,NULL) if null else (Ptr(c['impls']['a'][0]),Ptr(c['impls']['a'][1]))
            e.oblige(st,'what is tracked of a signal is its implementation',And(same(e,st,cs.get((0,8)),w[0]),same(e,st,cs.get((8,8)),w[1])),tag=('C05','C17'))
            if not null: alive(e,st,c,'a',1,tag=('C05','C12'))
        return p
    for null in(0,1): U.append(unit(cx,'signal::lock_pimpl (%s)'%('null' if null else 'signal'),{'C05','C17','C12'},F(SG+'lock_pimpl'),s_lockp(null),p_lockp(null),1,cls=SigObj))
    # ------------------------------------------------------------- forwarding
    FW={'connect':{'C01','C02','C17','C03'},'connect_extended':{'C15','C01','C17'},'disconnect':{'C07','C17'},'disconnect_all_slots':{'C07','C17'},'num_slots':{'C07','C17'},'empty':{'C07','C17'},'combiner':{'C06','C17'},'set_combiner':{'C06','C17'},'operator()':{'C02','C06','C16','C17'}}
    def s_fwd(m,args,null,weak=False):
        def s(e,st,f,sp,c):
            a=mk_sig(e,st,sp,c,'a',null); st.att['ev']=()
            if weak:
                # an observer of the signal, made by the real constructor
                w=e.newobj(st,'weak',16,True); run_concrete(e,st,find(cx,WS+'weak_signal',args=2),[Ptr(w),Ptr(a)]); st.att['ev']=(); a=w; c['weak']=w; c['impls']['a']=c['impls']['a'][:3]+(c['impls']['a'][3]+1,)
            r=[]
            if m in SRET: c['r']=e.newobj(st,'result',16); r.append(Ptr(c['r']))
            r.append(Ptr(a)); c['args']=[]
            for k in args:
                if k=='i': x=Int('arg%d'%len(r))
                else: o=e.newobj(st,'arg_'+k,64); st.mem[o.id][(0,8)]=Int('v_'+k); x=Ptr(o)
                r.append(x); c['args'].append(x)
            return r
        return s
    def p_fwd(m,mg,null,weak=False):
        tag=tuple(FW[m])
        def p(e,st,kind,v,sp,c):
            E=evs(st,'impl')
            if not weak: holds(e,st,sp,c,'a',None if null else 'a',tag=tag)
            if not null: alive(e,st,c,'a',0,tag=tag+('C12',))
            if null:
                if kind=='throw' or E: return e.fail(st,'a null signal does something',tag=tag)
                if m=='num_slots': e.oblige(st,'a null signal has no slots',zi(v)==0,tag=tag)
                if m=='empty': e.oblige(st,'a null signal is empty',zb(v),tag=tag)
                return
            if len(E)!=1: return e.fail(st,'%s is called %d times'%(m,len(E)),tag=tag)
            _,m2,n,a,ret,held=E[0]; impl=c['impls']['a'][0]
            e.oblige(st,'the operation of the same name is used',BoolVal(m2==m and (mg is None or mg in n)),tag=tag)
            e.oblige(st,"the operation is done on the signal's own implementation, with the arguments given, in order",And(same(e,st,a[0],Ptr(impl)),BoolVal(len(a)==len(c['args'])+1),
                *[same2(e,st,x,y) for x,y in zip(a[1:],c['args'])]),tag=tag)
            for x in c['args']:
                if isinstance(x,Ptr): e.oblige(st,'arguments are not changed',zi(st.mem[x.b.id][(0,8)])==Int('v_'+x.b.name[4:]) if hasattr(x.b,'name') else BoolVal(True),tag=tag)
            if weak: e.oblige(st,'a signal that is a slot is kept alive while it is invoked',zi(held)>=c['impls']['a'][2]+1,tag=('C05','C12','C17'))
            if kind=='throw': return e.oblige(st,'only an exception of the operation is passed on',BoolVal('thrown' in st.att),tag=tag)
            e.oblige(st,'an exception is passed on',BoolVal('thrown' not in st.att),tag=tag)
            if m in('num_slots',): e.oblige(st,'the result is returned',zi(v)==st.att['result'],tag=tag)
            elif m=='empty': e.oblige(st,'the result is returned',zb(v)==st.att['result'],tag=tag)
            elif m in SRET: e.oblige(st,'the result is returned',same(e,st,st.mem[c['r'].id].get((0,8)),Ptr(st.att['result'])),tag=tag)
        return p
    L_=[('connect',('s','i'),None,dict(args=4),None),('connect',('g','s','i'),None,dict(args=5),None),('connect_extended',('s','i'),None,dict(args=4),None),('connect_extended',('g','s','i'),None,dict(args=5),None),
        ('disconnect_all_slots',(),None,{},None),('disconnect',('g',),'group',dict(mangled=r'10disconnectERKS7_$'),'10disconnectERKS'),('disconnect',('f',),'function',dict(mangled=r'10disconnectINS2_2FnE'),'10disconnectIN'),('disconnect',('f',),'convertible to group',dict(mangled=r'10disconnectINS2_9GroupLikeE'),'10disconnectIN'),
        ('num_slots',(),None,{},None),('empty',(),None,{},None),('combiner',(),None,{},None),('set_combiner',('c',),None,{},None),
        ('operator()',('a','i'),None,dict(mangled=r'^_ZN5'),None),('operator()',('a','i'),'const',dict(mangled=r'^_ZNK5'),None)]
    for m,args,suf,k,mg in L_:
        nm='signal::%s%s'%(m,'(%s)'%suf if suf else '(%s)'%','.join(args) if args else '')
        U.append(unit(cx,nm,FW[m],F(SG+m,**k),s_fwd(m,args,0),p_fwd(m,mg,0),1,cls=SigObj))
        if m in('disconnect','disconnect_all_slots','num_slots','empty'): U.append(unit(cx,nm+' (null)',FW[m],F(SG+m,**k),s_fwd(m,args,1),p_fwd(m,mg,1),1,cls=SigObj))
    # ------------------------------------------------------------- weak_signal
    for suf,mg in(('',r'^_ZN5'),(' const','^_ZNK5')):
        U.append(unit(cx,'weak_signal::operator()'+suf,{'C02','C05','C12','C16','C17'},F(WS+'operator()',mangled=mg),s_fwd('operator()',('a','i'),0,True),p_fwd('operator()',None,0,True),1,cls=SigObj))
    def s_wctor(e,st,f,sp,c):
        a=mk_sig(e,st,sp,c,'a',0); w=e.newobj(st,'weak',16); c['weak']=w; return [Ptr(w),Ptr(a)]
    def p_wctor(e,st,kind,v,sp,c):
        if kind=='throw': return e.fail(st,'making a weak_signal throws',tag='C05')
        i,cb,u,w=c['impls']['a']; cs=st.mem[c['weak'].id]
        e.oblige(st,'a weak_signal refers to the signal given',And(same(e,st,cs.get((0,8)),Ptr(i)),same(e,st,cs.get((8,8)),Ptr(cb))),tag=('C05','C02','C07'))
        e.oblige(st,'a weak_signal does not keep the signal alive',And(cnt(st,c,'a')==u,zi(st.mem[cb.id][(12,4)])==w+1),tag=('C05','C12'))
    U.append(unit(cx,'weak_signal::weak_signal',{'C05','C02','C07','C12'},F(WS+'weak_signal',mangled=r'C2ERKNS0_6signal'),s_wctor,p_wctor,1,cls=SigObj))
    def s_cont(other):
        def s(e,st,f,sp,c):
            a=mk_sig(e,st,sp,c,'a',0); w=e.newobj(st,'weak',16,True); c['weak']=w
            run_concrete(e,st,find(cx,WS+'weak_signal',args=2),[Ptr(w),Ptr(a)])
            if other=='gone':
                # the signal has been destroyed; only the weak reference is left
                impl,cb,u,w_=c['impls']['a']; st.mem.pop(impl.id); st.mem[cb.id][(8,4)]=0; b=mk_sig(e,st,sp,c,'b',0); return [Ptr(w),Ptr(b)]
            if other=='same': return [Ptr(w),Ptr(a)]
            return [Ptr(w),Ptr(mk_sig(e,st,sp,c,'b',other=='null'))]
        return s
    def p_cont(other):
        def p(e,st,kind,v,sp,c):
            if kind=='throw': return e.fail(st,'contains throws',tag='C07')
            e.oblige(st,'a slot made of a signal is equal to exactly that signal',zb(v)==BoolVal(other=='same'),tag='C07')
            for nm in c['impls']:
                i,cb,u,w=c['impls'][nm]
                if i.id in st.mem: e.oblige(st,'a comparison takes no reference that might become the last one',BoolVal(not [x for x in st.att.get('ev',()) if x[0] in('impl','impl destroyed')]),tag=('C10','C07')); e.oblige(st,'a comparison changes nothing',cnt(st,c,nm)==u,tag=('C07','C12'))
        return p
    for o in('same','other','null','gone'): U.append(unit(cx,'weak_signal::contains (%s)'%o,{'C07','C10','C12'},F(WS+'contains',mangled=r'containsERKNS0_6signal'),s_cont(o),p_cont(o),1,cls=SigObj))
    def s_contT(e,st,f,sp,c):
        a=mk_sig(e,st,sp,c,'a',0); w=e.newobj(st,'weak',16,True); c['weak']=w; run_concrete(e,st,find(cx,WS+'weak_signal',args=2),[Ptr(w),Ptr(a)]); fo=e.newobj(st,'fn',8); return [Ptr(w),Ptr(fo)]
    def p_contT(e,st,kind,v,sp,c):
        e.oblige(st,'a slot made of a signal is not equal to a function',And(BoolVal(kind=='ret'),Not(zb(v)) if kind=='ret' else True),tag='C07')
    U.append(unit(cx,'weak_signal::contains(function)',{'C07'},F(WS+'contains',mangled=r'containsIN'),s_contT,p_contT,1,cls=SigObj))
    # ------------------------------------------------------------- bound_extended_slot_function
    bfun=cx.L.off(r'boost::signals2::detail::bound_extended_slot_function<','_fun'); bcon=cx.L.off(r'boost::signals2::detail::bound_extended_slot_function<','_connection')
    def mk_bound(e,st,sp,c,nm='bound'):
        sp.c=c; fo=e.newobj(st,'extfn',8,True); st.mem[fo.id][(0,8)]=Int('fun0'); o=e.newobj(st,nm,32,True); c['bound']=o; c['fo']=fo
        run_concrete_ret(e,st,find(cx,BE+'bound_extended_slot_function',mangled='ERKS4_$'),[Ptr(o),Ptr(fo)])
        return o
    def run_concrete_ret(e,st,fn,args):
        """as run_concrete, choosing the path without exceptions"""
        fr=e.call_function(st,fn,args); fr.call=None; q=e.quiet; e.quiet+=1
        try: r=[x for x in e.explore(st,len(st.frames)) if x[0]=='ret']
        finally: e.quiet=q
        if not r: raise Unsupported('set up')
        st.__dict__.update(r[0][1].__dict__)
    def s_bctor(e,st,f,sp,c):
        sp.c=c; fo=e.newobj(st,'extfn',8); st.mem[fo.id][(0,8)]=Int('fun0'); o=e.newobj(st,'bound',32); c.update(bound=o,fo=fo); return [Ptr(o),Ptr(fo)]
    def p_bctor(e,st,kind,v,sp,c):
        if kind=='throw': return e.oblige(st,'only the copy of the function or an allocation may throw',BoolVal('thrown' in st.att or st.exc.n=='bad_alloc'),tag=('C15','C16'))
        cs=st.mem[c['bound'].id]
        e.oblige(st,'the function given is bound',zi(cs[(bfun,8)])==Int('fun0'),tag='C15')
        p=cs.get((bcon,8)); cb=cs.get((bcon+8,8)); ok=isinstance(p,Ptr) and isinstance(p.b,Obj) and isinstance(cb,Ptr) and isinstance(cb.b,Obj)
        if not ok: return e.fail(st,'there is no place for the connection',tag='C15')
        d=st.mem[p.b.id]
        e.oblige(st,'the place of the connection is empty and not shared',And(zi(st.mem[cb.b.id][(8,4)])==1,same(e,st,d.get((0,8),0),NULL) if isinstance(d.get((0,8)),Ptr) else BoolVal(True)),tag='C15')
    U.append(unit(cx,'bound_extended_slot_function(f)',{'C15','C16'},F(BE+'bound_extended_slot_function',mangled='ERKS4_$'),s_bctor,p_bctor,1,cls=SigObj,uopts=dict(alloc_throws=True)))
    def mk_conn(e,st,c,nm='conn'):
        o=e.newobj(st,nm,16,True); b=e.newobj(st,'body_'+nm,64,True); cb=e.newobj(st,'bcb_'+nm,24,True); u=Int('use_'+nm); w=Int('weak_'+nm); st.assume(u>=1,w>=1)
        st.mem[cb.id].update({(0,8):Ptr(('x','vt_'+nm)),(8,4):u,(12,4):w,(16,8):Ptr(b)}); st.mem[o.id].update({(0,8):Ptr(b),(8,8):Ptr(cb)}); c[nm]=(o,b,cb,u,w); return o
    def s_setcon(e,st,f,sp,c): o=mk_bound(e,st,sp,c); c['place']=st.mem[o.id][(bcon,8)]; return [Ptr(o),Ptr(mk_conn(e,st,c))]
    def p_setcon(e,st,kind,v,sp,c):
        if kind=='throw': return e.fail(st,'set_connection throws',tag='C15')
        cs=st.mem[c['bound'].id]; p=cs[(bcon,8)]; d=st.mem.get(c['place'].b.id,{}); o,b,cb,u,w=c['conn']
        e.oblige(st,'every copy of the bound function sees the connection',And(same(e,st,p,c['place']),same(e,st,d.get((0,8)),Ptr(b)) if isinstance(d.get((0,8)),Ptr) else BoolVal(False)),tag='C15')
        e.oblige(st,'the function is bound to the connection given',And(same(e,st,d.get((p.off,8)),Ptr(b)),same(e,st,d.get((p.off+8,8)),Ptr(cb)),zi(cs[(bfun,8)])==Int('fun0')),tag='C15')
        e.oblige(st,'a bound connection does not keep its slot alive',zi(st.mem[cb.id][(8,4)])==u,tag=('C12','C15'))
    U.append(unit(cx,'bound_extended_slot_function::set_connection',{'C15','C12'},F(BE+'set_connection'),s_setcon,p_setcon,1,cls=SigObj))
    def s_bcall(e,st,f,sp,c):
        o=mk_bound(e,st,sp,c); cn=mk_conn(e,st,c); run_concrete(e,st,find(cx,BE+'set_connection'),[Ptr(o),Ptr(cn)]); st.att['ev']=()
        a=e.newobj(st,'arg',8); st.mem[a.id][(0,8)]=Int('argv'); i=e.newobj(st,'int',4); st.mem[i.id][(0,4)]=Int('iv'); c.update(a=a,i=i); return [Ptr(o),Ptr(a),Ptr(i)]
    def p_bcall(e,st,kind,v,sp,c):
        E=evs(st,'call')
        if len(E)!=1: return e.fail(st,'the extended function is called %d times'%len(E),tag='C15')
        _,fo,cn,a,i=E[0]; o,b,cb,u,w=c['conn']
        e.oblige(st,'the bound function is called',BoolVal(isinstance(fo,Ptr) and fo.b.id==c['bound'].id and fo.off==bfun),tag='C15')
        d=st.mem.get(cn.b.id,{})
        e.oblige(st,'the connection passed is the one of the slot',And(same(e,st,d.get((cn.off,8),0),Ptr(b)),same(e,st,d.get((cn.off+8,8),0),Ptr(cb))) if isinstance(d.get((cn.off,8)),Ptr) else BoolVal(False),tag='C15')
        e.oblige(st,'the arguments are passed on',And(same(e,st,a,Ptr(c['a'])),zi(e.load(st,i,I32))==Int('iv') if isinstance(i,Ptr) else zi(i)==Int('iv')),tag='C15')
        if kind=='throw': return e.oblige(st,'only the function may throw',BoolVal('thrown' in st.att),tag=('C15','C16'))
        e.oblige(st,"the function's result is the slot's result",And(BoolVal('result' in st.att),zi(v)==st.att.get('result',0)),tag='C15')
    for suf,mg in(('',r'^_ZN5'),(' const','^_ZNK5')): U.append(unit(cx,'bound_extended_slot_function::operator()'+suf,{'C15','C16'},F(BE+'operator()',mangled=mg),s_bcall,p_bcall,1,cls=SigObj))
    def s_bcont(e,st,f,sp,c):
        o=mk_bound(e,st,sp,c); st.att['ev']=(); fo=e.newobj(st,'fn',8); c['fn']=fo; return [Ptr(o),Ptr(fo)]
    def p_bcont(e,st,kind,v,sp,c):
        E=evs(st,'contains')
        if kind=='throw' or len(E)!=1: return e.fail(st,'contains asks %d functions'%len(E),tag='C07')
        e.oblige(st,'an extended slot is equal to what its function is equal to',And(same(e,st,E[0][1],Ptr(c['bound'],bfun)),same(e,st,E[0][2],Ptr(c['fn'])),zb(v)==st.att['result']),tag=('C07','C15'))
    U.append(unit(cx,'bound_extended_slot_function::contains',{'C07','C15'},F(BE+'contains'),s_bcont,p_bcont,1,cls=SigObj))
    return U
