"""C01/C07/C16 at list level: every member of detail::grouped_list and group_key_less against its contract."""
from model_list import *
TU='sig'
GLN='boost::signals2::detail::grouped_list::'
def find(cx,base,want=None,args=None,mangled=None):
    """the instantiation whose base name is given; want: regex on the demangled name"""
    import re
    if mangled and cx.c03:
        mangled=re.sub(r'S[0-9A-Z]*_(?!\w*\*)','S[0-9A-Z]*_',mangled) if '[0-9A-Z]' not in mangled else mangled
        for a,b in(('6signal','7signal2'),('24slotI','25slot2I')): mangled=mangled.replace(a,b)
    r=[n for n,d in cx.dem.items() if ir.base_name(d)==base and n in cx.M.funcs and (want is None or re.search(want,d)) and (mangled is None or re.search(mangled,n)) and (args is None or len(ir.getf(cx.M,n).params)==args)]
    if not r: raise KeyError('no function %s %s'%(base,want or ''))
    if cx.c03 and len(r)>1 and mangled: raise KeyError('%d functions %s %s'%(len(r),base,mangled))
    return r[0]
class ListSpec(ListModel):
    """grouped_list members are verified against their contracts; calls of small members without contract are inlined"""
    C1=('C01',); 
    def loop_candidates(self,eng,entry,hv,writes,top,fn,label):
        """lock-step traversal of a list and its copy: templates over the iterator variables of the function"""
        c=[]
        cells=[]
        own=set(hv.frames[-1].allocas)
        wr={k[1:] for k in writes if k[0]=='m'}; wsec=('g','SEC') in writes
        for oid,cs in hv.mem.items():
            if oid not in own: continue
            for k,v in cs.items():
                if isinstance(v,Ptr) and isinstance(v.b,tuple) and v.b[0] in('ln','mn'): cells.append((oid,)+k+(v.b[0],))
        def get(k):
            def f(s):
                v=s.mem.get(k[0],{}).get(k[1:3],UNDEF)
                if isinstance(v,Ptr) and isinstance(v.b,tuple) and v.b[0]==k[3]: return v.b[1]
                raise Unsupported('cell')
            return f
        cells.sort(key=str)
        ln=[k for k in cells if k[3]=='ln']; mn=[k for k in cells if k[3]=='mn']
        w=lambda *ks: any(k[:3] in wr for k in ks)
        lids=[v for k,v in hv.att.items() if k[0]=='ident' and k[1].startswith('lid')]; mids=[v for k,v in hv.att.items() if k[0]=='ident' and k[1].startswith('mid')]
        for k in ln:
            x=get(k)
            for l in lids if w(k) else ():
                c.append(('owned by %s'%l,lambda s,x=x,l=l: And(OWN(x(s))==l,Or(x(s)==ENDL(l),And(sel(s.g['M'],x(s)),POS(x(s))<POS(ENDL(l)))))))
            for k2 in ln:
                if k2 is k or not w(k,k2): continue
                y=get(k2)
                if k<k2: c.append(('same position',lambda s,x=x,y=y: POS(x(s))==POS(y(s))))
                c.append(('not after',lambda s,x=x,y=y: POS(x(s))<=POS(y(s))))
            for m in mn:
                y=get(m)
                # list iterator at the first element of the map iterator's group, or at the end
                for md in mids if w(k,m) or wsec else ():
                    c.append(('at group start',lambda s,x=x,y=y,md=md: POS(x(s))==If(y(s)==MEND(md),POS(ENDL(OWN(x(s)))),POS(sel(s.g['SEC'],y(s))))))
        for m in mn:
            x=get(m)
            for l in mids if w(m) else ():
                c.append(('map iterator of %s'%l,lambda s,x=x,l=l: And(MOWN(x(s))==l,Or(x(s)==MEND(l),And(sel(s.g['MM'],x(s)),MR(x(s))<=1)))))
            for m2 in mn:
                if m<m2 and w(m,m2):
                    y=get(m2); c.append(('same rank',lambda s,x=x,y=y: MR(x(s))==MR(y(s))))
        if ('g','M') in writes:      # elements are removed one by one, or added
            M0=entry.g['M']; two=lambda s: (lambda z: sel(s.g['M'],z),lambda z: sel(M0,z))
            for pt in(0,1): c.append(('no element added',lambda s,pt=pt: self.fa(lambda z: Implies(sel(s.g['M'],z),sel(M0,z)),two(s)[pt])))
            for l in lids:
                for pt in(0,1): c.append(('elements of other lists than %s unchanged'%l,lambda s,l=l,pt=pt: self.fa(lambda z: Implies(OWN(z)!=l,sel(s.g['M'],z)==sel(M0,z)),two(s)[pt])))
            for k in ln:
                e0=entry.mem.get(k[0],{}).get(k[1:3])
                if not w(k) or not(isinstance(e0,Ptr) and isinstance(e0.b,tuple) and e0.b[0]=='ln'): continue
                x=get(k); e0=e0.b[1]
                c.append(('not before the start',lambda s,x=x,e0=e0: And(OWN(x(s))==OWN(e0),POS(e0)<=POS(x(s)))))
                for pt in(0,1): c.append(('the elements passed are removed, no others',lambda s,x=x,e0=e0,pt=pt: self.fa(lambda z: Implies(OWN(z)==OWN(e0),sel(s.g['M'],z)==And(sel(M0,z),Not(And(POS(e0)<=POS(z),POS(z)<POS(x(s)))))),two(s)[pt])))
        if ('g','SEC') in writes:
            S0=entry.g['SEC']
            for md in mids:
                c.append(('map entries of %s unchanged'%md,lambda s,md=md: self.fa(lambda z: Implies(MOWN(z)==md,sel(s.g['SEC'],z)==sel(S0,z)),lambda z: sel(s.g['SEC'],z))))
                for m in mn:
                    x=get(m)
                    for l in lids:
                        # entries before the map iterator already refer into list l; corresponding entries refer to the same position
                        c.append(('entries before the iterator refer into %s'%l,lambda s,x=x,md=md,l=l: self.fa(lambda z: Implies(And(sel(s.g['MM'],z),MOWN(z)==md,MR(z)<MR(x(s))),
                            And(sel(s.g['M'],sel(s.g['SEC'],z)),OWN(sel(s.g['SEC'],z))==l,POS(sel(s.g['SEC'],z))==POS(sel(S0,z)))),lambda z: sel(s.g['MM'],z))))
                        c.append(('entries from the iterator on unchanged',lambda s,x=x,md=md: self.fa(lambda z: Implies(And(sel(s.g['MM'],z),MOWN(z)==md,MR(z)>=MR(x(s))),sel(s.g['SEC'],z)==sel(S0,z)),lambda z: sel(s.g['MM'],z))))
        return c
    def loop_assume(self,eng,st,entry,writes): pass

def gl_object(e,st,sp,name='gl',inv=True):
    """an arbitrary grouped_list satisfying the class invariant"""
    o=e.newobj(st,name,96); cmp=Int('cmp_'+name)
    lid=Int('lid_'+name); mid=Int('mid_'+name)
    sp.new_identity(e,st,lid); sp.new_identity(e,st,mid); st.assume(lid>0,mid>0,ENDL(lid)>0,MEND(mid)>0)
    st.att[('ident','lid_'+name)]=lid; st.att[('ident','mid_'+name)]=mid
    cells=st.mem[o.id]
    cells[(sp.GL_LIST+LID,8)]=lid; cells[(sp.GL_MAP+MID,8)]=mid; cells[(sp.GL_MAP,8)]=cmp; cells[(sp.GL_CMP,8)]=cmp
    st.assume(CMPOF(mid)==cmp)
    if inv:
        for n,f in sp.sorted_inv(st,lid)+sp.map_inv(st,lid,mid,True): st.assume(f)
    return o,lid,mid,cmp
def base_ghosts(st):
    st.g.update(M=z3.Const('M0',AIB),MM=z3.Const('MM0',AIB),SEC=z3.Const('SEC0',AII))
def key_object(e,st,sp,cmp,name='key'):
    o=e.newobj(st,name,32); f=Int(name+'_first'); g=Int(name+'_group')
    st.assume(f>=0,f<=2)
    ini=(f==1)
    c=st.mem[o.id]; c[(0,4)]=f; c[(sp.KINI,1)]=If(ini,IntVal(1),IntVal(0)); c[(sp.KGRP,8)]=g
    return Ptr(o),RK(cmp,f,g),f,g
def check_inv(e,st,sp,lid,mid,tag,names=None):
    for n,f in sp.sorted_inv(st,lid)+sp.map_inv(st,lid,mid,False): e.oblige(st,'class invariant: '+n,f,tag=tag)
def frame_nodes(e,st,sp,lid,M0,tag):
    x=Int('x!%d'%nextid()); e.oblige(st,'elements of other lists unchanged',ForAll([x],Implies(OWN(x)!=lid,sel(st.g['M'],x)==sel(M0,x))),tag=tag)
ALL=('C01','C02','C07','C16','safe')
def mk(cx,name,props,fnfind,setup,post,**kw):
    def run(opts):
        sp=ListSpec(cx.L)
        for k,v in kw.items():
            if k!='cost': setattr(sp,k,v)
        eng=Engine(cx.M,cx.dem,sp,dict(opts)); sp.cx={}
        return eng,eng.verify(fnfind(),lambda e,st,f:setup(e,st,f,sp,sp.cx),lambda e,st,k,v:post(e,st,k,v,sp,sp.cx))
    return Unit(name,props,run,kw.get('cost',1))
def units(cx):
    U=[]
    KP={'C01','C07','C16'}
    # ---- group_key_less
    def s_less(e,st,f,sp,c):
        base_ghosts(st)
        o=e.newobj(st,'less',8); cmp=Int('cmp'); st.mem[o.id][(0,8)]=cmp
        k1,r1,f1,g1=key_object(e,st,sp,cmp,'a'); k2,r2,f2,g2=key_object(e,st,sp,cmp,'b'); c.update(r1=r1,r2=r2)
        return [Ptr(o),k1,k2]
    def p_less(e,st,kind,v,sp,c):
        if kind=='throw': return e.fail(st,'group comparison throws',tag='C01')
        e.oblige(st,'front < groups in the order of GroupCompare < back',zb(v)==(c['r1']<c['r2']),tag='C01')
    U.append(mk(cx,'group_key_less::operator()',{'C01','C07'},lambda:find(cx,'boost::signals2::detail::group_key_less::operator()'),s_less,p_less))
    # ---- constructors
    def s_ctor(e,st,f,sp,c):
        base_ghosts(st)
        o=e.newobj(st,'this',96); k=e.newobj(st,'cmp',8); cmp=Int('cmp'); st.mem[k.id][(0,8)]=cmp; c.update(o=o,cmp=cmp)
        return [Ptr(o),Ptr(k)]
    def p_ctor(e,st,kind,v,sp,c):
        if kind=='throw': return
        o=c['o']; lid=sp.lid(e,st,Ptr(o,sp.GL_LIST)); mid=sp.mid(e,st,Ptr(o,sp.GL_MAP))
        x=Int('x!%d'%nextid())
        e.oblige(st,'a new list is empty',ForAll([x],Not(And(sel(st.g['M'],x),OWN(x)==lid))),tag='C01')
        e.oblige(st,'the map orders by the comparator given',And(zi(e.load(st,Ptr(o,sp.GL_MAP),I64))==c['cmp'],CMPOF(mid)==c['cmp']),tag='C01')
        e.oblige(st,'keys are compared with the comparator given',zi(e.load(st,Ptr(o,sp.GL_CMP),I64))==c['cmp'],tag='C01')
        check_inv(e,st,sp,lid,mid,ALL)
    U.append(mk(cx,'grouped_list(compare)',{'C01'},lambda:find(cx,GLN+'grouped_list',mangled=r'C[12]ERKNS[0-9A-Z]*_14group_key_less'),s_ctor,p_ctor))
    # ---- copy
    def s_copy(e,st,f,sp,c):
        base_ghosts(st)
        o=e.newobj(st,'this',96); q,lid,mid,cmp=gl_object(e,st,sp,'other'); c.update(o=o,q=q,lid=lid,mid=mid,cmp=cmp,M0=st.g['M'],MM0=st.g['MM'],SEC0=st.g['SEC'])
        return [Ptr(o),Ptr(q)]
    def p_copy(e,st,kind,v,sp,c):
        x=Int('x!%d'%nextid()); M=st.g['M']; lid0=c['lid']
        e.oblige(st,'the source list is unchanged',ForAll([x],Implies(OWN(x)==lid0,sel(M,x)==sel(c['M0'],x))),tag=ALL)
        e.oblige(st,'the source map is unchanged',ForAll([x],Implies(MOWN(x)==c['mid'],And(sel(st.g['MM'],x)==sel(c['MM0'],x),sel(st.g['SEC'],x)==sel(c['SEC0'],x)))),tag=ALL)
        if kind=='throw': return
        o=c['o']; lid=sp.lid(e,st,Ptr(o,sp.GL_LIST)); mid=sp.mid(e,st,Ptr(o,sp.GL_MAP))
        e.oblige(st,'the copy is a list of its own',lid!=lid0,tag=ALL)
        e.oblige(st,'the copy orders by the same comparator',And(CMPOF(mid)==c['cmp'],zi(e.load(st,Ptr(o,sp.GL_CMP),I64))==c['cmp'],zi(e.load(st,Ptr(o,sp.GL_MAP),I64))==c['cmp']),tag='C01')
        _,_,C,D=st.att[('copy',str(lid))]
        e.oblige(st,'every element of the copy corresponds to one of the source',ForAll([x],Implies(And(sel(M,x),OWN(x)==lid),And(sel(M,C(x)),OWN(C(x))==lid0,POS(x)==POS(C(x)),NB(x)==NB(C(x)),GK(x)==GK(C(x)),D(C(x))==x)),patterns=[sel(M,x)]),tag=ALL)
        e.oblige(st,'every element of the source is copied',ForAll([x],Implies(And(sel(M,x),OWN(x)==lid0),And(sel(M,D(x)),OWN(D(x))==lid,C(D(x))==x)),patterns=[sel(M,x)]),tag=ALL)
        check_inv(e,st,sp,lid,mid,ALL)
    U.append(mk(cx,'grouped_list(const grouped_list&)',KP|{'C06','C02'},lambda:find(cx,GLN+'grouped_list',mangled=r'C[12]ERKS[0-9A-Z]*_$'),s_copy,p_copy,cost=5))
    # ---- observers
    def s_this(e,st,f,sp,c):
        base_ghosts(st); o,lid,mid,cmp=gl_object(e,st,sp,'this'); c.update(o=o,lid=lid,mid=mid,cmp=cmp,M0=st.g['M'],MM0=st.g['MM'],SEC0=st.g['SEC'])
        return [Ptr(o)]
    def s_key(e,st,f,sp,c):
        a=s_this(e,st,f,sp,c)
        k,r,f,g=key_object(e,st,sp,c['cmp']); c.update(k=k,r=r)
        st.g['newgk']=r
        return a+[k]
    def itv(e,st,v):
        """node term of a returned list iterator"""
        if isinstance(v,list): v=v[0]
        if isinstance(v,Packed): v=list(v.c.values())[0]
        if not isinstance(v,Ptr): return zi(v)
        return v.b[1] if isinstance(v.b,tuple) else zi(v.b)
    def unchanged(e,st,c,tag): e.oblige(st,'the list is not modified',And(st.g['M']==c['M0'],st.g['MM']==c['MM0'],st.g['SEC']==c['SEC0']),tag=tag)
    def bound(strict):
        def p(e,st,kind,v,sp,c):
            if kind=='throw': return e.fail(st,'throws',tag=ALL)
            u=itv(e,st,v); M=st.g['M']; lid=c['lid']; x=Int('x!%d'%nextid())
            unchanged(e,st,c,ALL)
            e.oblige(st,'the result is an iterator of this list',And(OWN(u)==lid,Or(sel(M,u),u==ENDL(lid))),tag=ALL)
            e.oblige(st,'exactly the elements ordered before the %s bound of the key precede the result'%('upper' if strict else 'lower'),
                ForAll([x],Implies(And(sel(M,x),OWN(x)==lid),(POS(x)<POS(u))==(GK(x)<=c['r'] if strict else GK(x)<c['r'])),patterns=[sel(M,x)]),tag=ALL)
        return p
    U.append(mk(cx,'grouped_list::lower_bound',KP,lambda:find(cx,GLN+'lower_bound'),s_key,bound(False)))
    U.append(mk(cx,'grouped_list::upper_bound',KP,lambda:find(cx,GLN+'upper_bound'),s_key,bound(True)))
    def p_begin(e,st,kind,v,sp,c):
        u=itv(e,st,v); M=st.g['M']; lid=c['lid']; x=Int('x!%d'%nextid()); unchanged(e,st,c,ALL)
        e.oblige(st,'begin is the first element, or the end of an empty list',And(OWN(u)==lid,Or(sel(M,u),u==ENDL(lid)),ForAll([x],Implies(And(sel(M,x),OWN(x)==lid),POS(u)<=POS(x)),patterns=[sel(M,x)])),tag=ALL)
    U.append(mk(cx,'grouped_list::begin',KP,lambda:find(cx,GLN+'begin'),s_this,p_begin))
    def p_end(e,st,kind,v,sp,c): unchanged(e,st,c,ALL); e.oblige(st,'end is the end of the list',itv(e,st,v)==ENDL(c['lid']),tag=ALL)
    U.append(mk(cx,'grouped_list::end',KP,lambda:find(cx,GLN+'end'),s_this,p_end))
    # ---- insertion
    def s_push(e,st,f,sp,c):
        a=s_key(e,st,f,sp,c)
        v=e.newobj(st,'value',16); b=Int('newbody'); st.assume(b>0); st.mem[v.id][(0,8)]=Ptr(b); st.mem[v.id][(8,8)]=Ptr(Int('newcount')); c['b']=b
        x=Int('x!%d'%nextid()); st.assume(ForAll([x],Implies(And(sel(c['M0'],x),OWN(x)==c['lid']),NB(x)!=b),patterns=[sel(c['M0'],x)]))
        return a+[Ptr(v)]
    def push(back):
        def p(e,st,kind,v,sp,c):
            M=st.g['M']; M0=c['M0']; lid=c['lid']; x,y=z3.Ints('x!%d y!%d'%(nextid(),nextid())); k=c['r']
            if kind=='throw':
                e.oblige(st,'a failed insertion leaves the elements as they were',ForAll([x],Implies(OWN(x)==lid,sel(M,x)==sel(M0,x)),patterns=[sel(M,x)]),tag=ALL)
                check_inv(e,st,sp,lid,c['mid'],ALL)
                return
            n=st.att.get('inserted')
            if n is None: return e.fail(st,'returns without having inserted an element',tag=ALL)
            e.oblige(st,'exactly one element with the given value is added',And(Not(sel(M0,n)),sel(M,n),OWN(n)==lid,NB(n)==c['b'],ForAll([x],Implies(x!=n,sel(M,x)==sel(M0,x)),patterns=[sel(M,x)])),tag=ALL)
            if back: f=ForAll([x],Implies(And(sel(M0,x),OWN(x)==lid),(POS(x)<POS(n))==(GK(x)<=k)),patterns=[sel(M0,x)])
            else: f=ForAll([x],Implies(And(sel(M0,x),OWN(x)==lid),(POS(x)<POS(n))==(GK(x)<k)),patterns=[sel(M0,x)])
            e.oblige(st,'the new element comes %s all elements of its group, after the lower and before the higher groups'%('after' if back else 'before'),f,tag='C01')
            check_inv(e,st,sp,lid,c['mid'],ALL)
        return p
    def ins_hook(self,e,s,node,value): s.att['inserted']=node
    for nm,b in(('push_back',True),('push_front',False)):
        def mkp(nm=nm,b=b):
            def run(opts):
                sp=ListSpec(cx.L); sp.may_throw_copy=True; sp.may_throw_cmp=False
                sp.on_node_added=lambda e,s,n,v: s.att.__setitem__('inserted',n)
                eng=Engine(cx.M,cx.dem,sp,dict(opts)); c={}
                return eng,eng.verify(find(cx,GLN+nm),lambda e,st,f:s_push(e,st,f,sp,c),lambda e,st,k,v:push(b)(e,st,k,v,sp,c))
            return Unit('grouped_list::'+nm,KP|{'C02'},run,3)
        U.append(mkp())
    # ---- removal
    def s_erase_it(e,st,f,sp,c):
        a=s_key(e,st,f,sp,c)
        x=Int('victim'); st.assume(x>0,sel(st.g['M'],x),OWN(x)==c['lid'],GK(x)==c['r']); c['x']=x
        o=e.newobj(st,'it',8); st.mem[o.id][(0,8)]=Ptr(('ln',x))
        return a+[Ptr(o)]
    def p_erase_it(e,st,kind,v,sp,c):
        if kind=='throw': return   # only the user's comparator or an allocation could throw; not enabled here
        M=st.g['M']; M0=c['M0']; x=Int('x!%d'%nextid()); vx=c['x']; u=itv(e,st,v); lid=c['lid']
        e.oblige(st,'exactly the given element is removed',ForAll([x],sel(M,x)==And(sel(M0,x),x!=vx)),tag=ALL)
        e.oblige(st,'the result is the element after the removed one',And(OWN(u)==lid,Or(sel(M,u),u==ENDL(lid)),POS(u)>POS(vx),ForAll([x],Implies(And(sel(M,x),OWN(x)==lid),(POS(x)<POS(u))==(POS(x)<POS(vx))),patterns=[sel(M,x)])),tag=ALL)
        check_inv(e,st,sp,lid,c['mid'],ALL)
    U.append(mk(cx,'grouped_list::erase(key,iterator)',KP|{'C02'},lambda:find(cx,GLN+'erase',args=3),s_erase_it,p_erase_it,cost=4))
    def p_erase_key(e,st,kind,v,sp,c):
        if kind=='throw': return
        M=st.g['M']; M0=c['M0']; x=Int('x!%d'%nextid()); lid=c['lid']
        e.oblige(st,'exactly the elements of the group are removed',ForAll([x],Implies(OWN(x)==lid,sel(M,x)==And(sel(M0,x),GK(x)!=c['r']))),tag=ALL)
        frame_nodes(e,st,sp,lid,M0,ALL)
        check_inv(e,st,sp,lid,c['mid'],ALL)
    U.append(mk(cx,'grouped_list::erase(key)',KP,lambda:find(cx,GLN+'erase',args=2),s_key,p_erase_key,cost=4))
    def p_clear(e,st,kind,v,sp,c):
        x=Int('x!%d'%nextid()); lid=c['lid']
        e.oblige(st,'the list is empty',ForAll([x],Not(And(sel(st.g['M'],x),OWN(x)==lid))),tag=ALL)
        frame_nodes(e,st,sp,lid,c['M0'],ALL)
        check_inv(e,st,sp,lid,c['mid'],ALL)
    U.append(mk(cx,'grouped_list::clear',KP,lambda:find(cx,GLN+'clear'),s_this,p_clear))
    return U
