"""Contracts of std::list, std::map and their iterators (trusted: the C++ standard's specification of these classes), over ghost state:
 M  : Array(node -> Bool)  list nodes that are elements of their list          MM : same for map nodes
 SEC: Array(map node -> list node)  the mapped value (an iterator)
and rigid functions: OWN(node) list identity, POS(node) position (real; END above all elements), NB(node) element (connection body),
GK(node) rank of the element's group key; MOWN, MR(rank of the key), KF, KG for map nodes; RG(cmp,g) rank of group g under comparator cmp."""
from spec_base import *
R=RealSort(); I=IntSort()
OWN=Function('OWN',I,I); POS=Function('POS',I,R); GK=Function('GK',I,R); NB=Function('NB',I,I); ENDL=Function('ENDL',I,I)
MOWN=Function('MOWN',I,I); MR=Function('MR',I,R); MEND=Function('MEND',I,I); KF=Function('KF',I,I); KG=Function('KG',I,I); CMPOF=Function('CMPOF',I,I)
RG=Function('RG',I,I,R)
AIB=ArraySort(I,BoolSort()); AII=ArraySort(I,I)
LID=2000; MID=3000
I64=ir.T('int',64); I8=ir.T('int',8); I32=ir.T('int',32); PT=ir.T('ptr')
def RK(cmp,first,gid): return If(first==0,z3.RealVal(0),If(first==1,RG(cmp,gid),z3.RealVal(1)))
def sel(a,x): return Select(a,x)

class ListModel(BaseSpec):
    def __init__(self,L):
        self.L=L
        super().__init__()
        x,y=z3.Ints('x y')
        A=self.axioms
        A.append(ForAll([x,y],And(RG(x,y)>0,RG(x,y)<1),patterns=[RG(x,y)]))
        A.append(ForAll([x],OWN(ENDL(x))==x,patterns=[ENDL(x)]))
        A.append(ForAll([x],And(MOWN(MEND(x))==x,MR(MEND(x))==2),patterns=[MEND(x)]))
        self.KEYSZ=24; self.KOPT=8; self.KGRP=16; self.SECOFF=24
        self.init_layout()
        l='std::__cxx11::list::'; on=self.on
        on(l+'list',self.list_ctor); on(l+'~list',self.list_dtor)
        on([l+'begin',l+'cbegin'],lambda e,s,a,i,n:self.list_begin(e,s,a[0]))
        on([l+'end',l+'cend'],lambda e,s,a,i,n:Ptr(('ln',ENDL(self.lid(e,s,a[0])))))
        on([l+'insert',l+'emplace'],self.list_insert); on(l+'erase',self.list_erase); on(l+'clear',self.list_clear)
        on([l+'push_back',l+'emplace_back'],lambda e,s,a,i,n:self.list_insert(e,s,[a[0],Ptr(('ln',ENDL(self.lid(e,s,a[0])))),a[1]],i,n) and None)
        on(l+'push_front',lambda e,s,a,i,n:self.list_insert(e,s,[a[0],self.list_begin(e,s,a[0]),a[1]],i,n) and None)
        on(l+'pop_front',lambda e,s,a,i,n:self.list_pop(e,s,a,n,False)); on(l+'pop_back',lambda e,s,a,i,n:self.list_pop(e,s,a,n,True))
        on(['std::__distance','std::distance'],self.li_distance)
        on(l+'empty',lambda e,s,a,i,n:self.list_empty(e,s,a[0]))
        for c in('std::_List_iterator::','std::_List_const_iterator::'):
            on(c+'operator*',lambda e,s,a,i,n:self.li_deref(e,s,a[0])); on(c+'operator->',lambda e,s,a,i,n:self.li_deref(e,s,a[0]))
            on(c+'operator++',self.li_inc); on(c+'operator--',self.li_dec)
        m='std::map::'
        on(m+'map',self.map_ctor); on(m+'~map',self.map_dtor)
        on([m+'begin',m+'cbegin'],lambda e,s,a,i,n:self.map_first(e,s,a[0],lambda m:BoolVal(True)))
        on([m+'end',m+'cend'],lambda e,s,a,i,n:Ptr(('mn',MEND(self.mid(e,s,a[0])))))
        on(m+'lower_bound',lambda e,s,a,i,n:self.map_first(e,s,a[0],lambda m,k=self.keyrank(e,s,a[1],self.mapcmp(e,s,a[0])):MR(m)>=k))
        on(m+'upper_bound',lambda e,s,a,i,n:self.map_first(e,s,a[0],lambda m,k=self.keyrank(e,s,a[1],self.mapcmp(e,s,a[0])):MR(m)>k))
        on(m+'find',self.map_find); on([m+'insert',m+'emplace'],self.map_insert); on(m+'erase',self.map_erase)
        on(m+'operator[]',self.map_index); on(m+'clear',self.map_clear); on(m+'empty',self.map_empty)
        for c in('std::_Rb_tree_iterator::','std::_Rb_tree_const_iterator::'):
            on(c+'operator*',lambda e,s,a,i,n:self.mi_deref(e,s,a[0])); on(c+'operator->',lambda e,s,a,i,n:self.mi_deref(e,s,a[0]))
            on(c+'operator++',self.mi_inc)
        # user types of the group key
        on('spec::Group::Group',self.grp_copy); on('spec::Group::operator=',self.grp_assign); on('spec::Group::~Group',lambda e,s,a,i,n:None)
        on('spec::GroupCompare::GroupCompare',self.cmp_ctor); on('spec::GroupCompare::~GroupCompare',lambda e,s,a,i,n:None)
        on('spec::GroupCompare::operator()',self.cmp_call)
    def init_layout(self):
        L=self.L
        self.gl=r'boost::signals2::detail::grouped_list<'
        self.GL_LIST=L.off_type(self.gl,'std::list<'); self.GL_MAP=L.off_type(self.gl,'std::map<'); self.GL_CMP=L.off(self.gl,'_group_key_compare')
        p=r'std::pair<const struct std::pair<enum boost::signals2::detail::slot_meta_group'
        self.SECOFF=L.off_type(p,'std::_List_iterator'); 
        k=r'std::pair<enum boost::signals2::detail::slot_meta_group'
        self.KOPT=L.off(k,'second'); self.KINI=L.off(k,'m_initialized'); self.KGRP=L.off(k,'m_storage')
    # ------------------------------------------------------------- user types
    may_throw_copy=False; may_throw_cmp=False
    def grp_copy(self,e,s,a,i,n):
        outs=[]
        if self.may_throw_copy:
            t=s.fork(); t.trace+=('group copy throws',); outs.append((t,'throw',Exc('other')))
        e.store(s,a[0],e.load(s,a[1],I64),I64)
        return Outs(outs+[(s,'ret',None)])
    def grp_assign(self,e,s,a,i,n):
        outs=[]
        if self.may_throw_copy:
            t=s.fork(); t.trace+=('group assignment throws',); outs.append((t,'throw',Exc('other')))
        e.store(s,a[0],e.load(s,a[1],I64),I64)
        return Outs(outs+[(s,'ret',a[0])])
    def cmp_ctor(self,e,s,a,i,n):
        if len(a)==1: e.store(s,a[0],fresh('cmp0'),I64)      # default constructed comparator: unrelated to the given one
        else: e.store(s,a[0],e.load(s,a[1],I64),I64)
        return None
    def cmp_call(self,e,s,a,i,n):
        c=zi(e.load(s,a[0],I64)); x=zi(e.load(s,a[1],I64)); y=zi(e.load(s,a[2],I64))
        r=RG(c,x)<RG(c,y)
        if self.may_throw_cmp:
            t=s.fork(); t.trace+=('comparator throws',)
            return Outs([(t,'throw',Exc('other')),(s,'ret',r)])
        return r
    # ------------------------------------------------------------- terms
    def nt(self,e,s,p):
        """node term of a pointer to / value of a list or map node"""
        if isinstance(p,Ptr):
            if isinstance(p.b,tuple) and p.b[0] in('ln','mn'): return p.b[1]
            if not isinstance(p.b,(tuple,Obj)): return zi(p.b)
        raise Unsupported('iterator value %r'%(p,))
    def itload(self,e,s,p): return self.nt(e,s,e.load(s,p,PT))
    def lid(self,e,s,p):
        v=e.load(s,Ptr(p.b,p.off+LID),I64)
        if v is UNDEF: raise Unsupported('use of an unconstructed list')
        return zi(v)
    def mid(self,e,s,p):
        v=e.load(s,Ptr(p.b,p.off+MID),I64)
        if v is UNDEF: raise Unsupported('use of an unconstructed map')
        return zi(v)
    def mapcmp(self,e,s,p): return zi(e.load(s,Ptr(p.b,p.off),I64))
    def keyrank(self,e,s,kp,cmp):
        f=e.load(s,Ptr(kp.b,kp.off),I32)
        g=e.load(s,Ptr(kp.b,kp.off+self.KGRP),I64)
        if isinstance(f,int) and f!=1: return z3.RealVal(0) if f==0 else z3.RealVal(1)
        return RK(cmp,zi(f),zi(g) if g is not UNDEF else fresh('nogrp'))
    def mem_(self,s,x,lid): return And(sel(s.g['M'],x),OWN(x)==lid)
    def mmem(self,s,x,mid): return And(sel(s.g['MM'],x),MOWN(x)==mid)
    def fa(self,body,*pats):
        x=Int('x!%d'%nextid())
        b=body(x)
        return ForAll([x],b,patterns=[p(x) for p in pats] if pats else [])
    # ------------------------------------------------------------- list
    def list_ctor(self,e,s,a,i,n):
        p=a[0]
        if len(a)>=2:  # copy (or move)
            return self.list_copy(e,s,p,a[1],n)
        lid=fresh('lid'); self.new_identity(e,s,lid)
        e.store(s,Ptr(p.b,p.off+LID),lid,I64)
        M=s.g['M']
        s.assume(self.fa(lambda x:Implies(OWN(x)==lid,Not(sel(M,x))),lambda x:sel(M,x)))
        s.assume(lid>0)
        return None
    def new_identity(self,e,s,lid):
        for k in [k for k in s.att if k[0]=='ident']: s.assume(lid!=s.att[k])
        s.att[('ident',str(lid))]=lid
    def list_copy(self,e,s,p,q,n):
        outs=[]
        t=s.fork(); t.trace+=('list copy: bad_alloc',); outs.append((t,'throw',Exc('bad_alloc')))
        lid=fresh('lid'); old=self.lid(e,s,q)
        self.new_identity(e,s,lid)
        C=freshfun('copyof',I,I); D=freshfun('copied',I,I)
        e.store(s,Ptr(p.b,p.off+LID),lid,I64)
        M=s.g['M']; M2=fresh('M',AIB)
        s.assume(lid>0,ENDL(lid)>0,POS(ENDL(lid))==POS(ENDL(old)))
        x=Int('x!%d'%nextid())
        s.assume(ForAll([x],Implies(OWN(x)!=lid,sel(M2,x)==sel(M,x)),patterns=[sel(M2,x)]))
        s.assume(ForAll([x],Implies(OWN(x)!=lid,sel(M2,x)==sel(M,x)),patterns=[sel(M,x)]))
        s.assume(ForAll([x],Implies(OWN(x)==lid,Not(sel(M,x))),patterns=[sel(M,x)]))
        s.assume(ForAll([x],Implies(And(sel(M2,x),OWN(x)==lid),And(x>0,sel(M,C(x)),OWN(C(x))==old,POS(x)==POS(C(x)),NB(x)==NB(C(x)),GK(x)==GK(C(x)),D(C(x))==x)),patterns=[sel(M2,x)]))
        s.assume(ForAll([x],Implies(And(sel(M,x),OWN(x)==old),And(sel(M2,D(x)),OWN(D(x))==lid,C(D(x))==x,POS(D(x))==POS(x),GK(D(x))==GK(x),NB(D(x))==NB(x))),patterns=[sel(M,x)]))
        self.gset(e,s,'M',M2)
        s.att[('copy',str(lid))]=(lid,old,C,D)
        self.on_list_copied(e,s,old,lid)
        if 'EOS' in n: raise Unsupported('list move')
        return Outs(outs+[(s,'ret',None)])
    def on_list_copied(self,e,s,old,lid): pass
    def on_node_added(self,e,s,node,value): pass
    def on_node_removed(self,e,s,node): pass
    def on_nodes_removed(self,e,s,lid,cond): pass
    def list_dtor(self,e,s,a,i,n):
        lid=self.lid(e,s,a[0]); self.remove_if(e,s,lid,lambda x:BoolVal(True)); return None
    def list_clear(self,e,s,a,i,n):
        lid=self.lid(e,s,a[0]); self.need_excl(e,s,a[0],lid); self.remove_if(e,s,lid,lambda x:BoolVal(True)); return None
    def remove_if(self,e,s,lid,cond):
        M=s.g['M']; M2=fresh('M',AIB)
        x=Int('x!%d'%nextid())
        f=sel(M2,x)==And(sel(M,x),Not(And(OWN(x)==lid,cond(x))))
        s.assume(ForAll([x],f,patterns=[sel(M2,x)]),ForAll([x],f,patterns=[sel(M,x)]))
        self.gset(e,s,'M',M2)
        self.on_nodes_removed(e,s,lid,cond)
    def need_excl(self,e,s,p,lid): pass
    def list_empty(self,e,s,p):
        b=self.list_begin(e,s,p)
        return b.b[1]==ENDL(self.lid(e,s,p))
    def list_first(self,e,s,lid,cond,hint='n'):
        """first element satisfying the (upward closed) condition, or END"""
        u=fresh(hint); M=s.g['M']
        x=Int('x!%d'%nextid())
        s.assume(u>0,Or(And(sel(M,u),OWN(u)==lid,cond(u)),u==ENDL(lid)),OWN(u)==lid)
        s.assume(Implies(sel(M,u),POS(u)<POS(ENDL(lid))))
        s.assume(ForAll([x],Implies(And(sel(M,x),OWN(x)==lid,cond(x)),And(POS(u)<=POS(x),Implies(POS(x)==POS(u),x==u))),patterns=[sel(M,x)]))
        return u
    def list_begin(self,e,s,p):
        lid=self.lid(e,s,p)
        return Ptr(('ln',self.list_first(e,s,lid,lambda x:BoolVal(True),'begin')))
    def need_elem(self,e,s,x,what):
        e.oblige(s,'%s: the list iterator refers to an element of its list'%what,sel(s.g['M'],x),tag=self.T_IT)
    T_IT=('C01','C07','safe')
    def li_deref(self,e,s,p):
        x=self.itload(e,s,p); self.need_elem(e,s,x,'dereference')
        return Ptr(('nv',x))
    def succ(self,e,s,x):
        lid=z3.simplify(OWN(x))
        u=self.list_first(e,s,OWN(x),lambda y:POS(y)>POS(x),'next')
        s.assume(POS(x)<POS(u))
        self.on_succ(e,s,x,u)
        return u
    def on_succ(self,e,s,x,u): pass
    def li_inc(self,e,s,a,i,n):
        post='EppEi' in n
        if post and len(a)>=2 and isinstance(a[0],Ptr): pass
        p=a[0]
        x=self.itload(e,s,p); self.need_elem(e,s,x,'increment')
        u=self.succ(e,s,x)
        e.store(s,p,Ptr(('ln',u)),PT)
        return Ptr(('ln',x)) if post else p
    def li_dec(self,e,s,a,i,n):
        post='EmmEi' in n
        p=a[0]; x=self.itload(e,s,p)
        u=fresh('prev'); M=s.g['M']; lid=OWN(x)
        y=Int('x!%d'%nextid())
        e.oblige(s,'decrement: the iterator is not the first of its list',Exists([y],And(sel(M,y),OWN(y)==lid,POS(y)<POS(x))),tag=self.T_IT)
        s.assume(u>0,sel(M,u),OWN(u)==lid,POS(u)<POS(x),ForAll([y],Implies(And(sel(M,y),OWN(y)==lid,POS(y)<POS(x)),And(POS(y)<=POS(u),Implies(POS(y)==POS(u),y==u))),patterns=[sel(M,y)]))
        e.store(s,p,Ptr(('ln',u)),PT)
        return Ptr(('ln',x)) if post else p
    def insert_before(self,e,s,lid,pos,val,gk):
        M=s.g['M']
        e.oblige(s,'insertion position is a valid iterator of this list',And(OWN(pos)==lid,Or(sel(M,pos),pos==ENDL(lid))),tag=self.T_IT)
        nn=fresh('node'); y=Int('x!%d'%nextid())
        s.assume(nn>0,Not(sel(M,nn)),OWN(nn)==lid,NB(nn)==val,nn!=ENDL(lid),POS(nn)<POS(pos),POS(pos)<=POS(ENDL(lid)))
        s.assume(ForAll([y],Implies(And(sel(M,y),OWN(y)==lid,POS(y)<POS(pos)),POS(y)<POS(nn)),patterns=[sel(M,y)]))
        if gk is not None: s.assume(GK(nn)==gk)
        self.gset(e,s,'M',Store(M,nn,BoolVal(True)))
        return nn
    def valterm(self,e,s,p):
        """the body a shared_ptr object at p points to"""
        v=e.load(s,Ptr(p.b,p.off),PT)
        return e.ref(s,v)
    def list_insert(self,e,s,a,i,n):
        if len(a)!=3: raise Unsupported('list::insert overload')
        lid=self.lid(e,s,a[0]); pos=self.nt(e,s,a[1])
        t=s.fork(); t.trace+=('list::insert: bad_alloc',)
        self.need_excl(e,s,a[0],lid)
        val=self.valterm(e,s,a[2])
        nn=self.insert_before(e,s,lid,pos,val,s.g.get('newgk'))
        self.on_node_added(e,s,nn,val)
        return Outs([(t,'throw',Exc('bad_alloc')),(s,'ret',Ptr(('ln',nn)))])
    def list_pop(self,e,s,a,n,back):
        if not back: it=self.list_begin(e,s,a[0])
        else:
            lid=self.lid(e,s,a[0]); M=s.g['M']; y=Int('x!%d'%nextid()); u=fresh('last')
            e.oblige(s,'pop_back: the list is not empty',Not(self.list_empty(e,s,a[0])),tag=self.T_IT)
            s.assume(u>0,sel(M,u),OWN(u)==lid,ForAll([y],Implies(And(sel(M,y),OWN(y)==lid),And(POS(y)<=POS(u),Implies(POS(y)==POS(u),y==u))),patterns=[sel(M,y)]))
            it=Ptr(('ln',u))
        self.list_erase(e,s,[a[0],it],None,n)
        return None
    def li_distance(self,e,s,a,i,n):
        """number of elements between two list iterators: some non-negative number, zero exactly for an empty range"""
        try: x,y=self.nt(e,s,a[0]),self.nt(e,s,a[1])
        except Exception: return INLINE
        e.oblige(s,'distance: the iterators form a range of one list',And(OWN(x)==OWN(y),POS(x)<=POS(y)),tag=self.T_IT)
        d=fresh('dist'); s.assume(d>=0,d<2**31,(d==0)==(x==y))
        return d
    def list_erase(self,e,s,a,i,n):
        lid=self.lid(e,s,a[0]); self.need_excl(e,s,a[0],lid)
        M=s.g['M']
        if len(a)==2:
            x=self.nt(e,s,a[1])
            e.oblige(s,'erased iterator refers to an element of this list',And(sel(M,x),OWN(x)==lid),tag=self.T_IT)
            u=self.succ(e,s,x)
            self.gset(e,s,'M',Store(M,x,BoolVal(False)))
            self.on_node_removed(e,s,x)
            return Ptr(('ln',u))
        f=self.nt(e,s,a[1]); l=self.nt(e,s,a[2])
        e.oblige(s,'erased range is a valid range of this list',And(OWN(f)==lid,OWN(l)==lid,Or(sel(M,f),f==ENDL(lid)),Or(sel(M,l),l==ENDL(lid)),POS(f)<=POS(l)),tag=self.T_IT)
        self.remove_if(e,s,lid,lambda x:And(POS(x)>=POS(f),POS(x)<POS(l)))
        return Ptr(('ln',l))
    # ------------------------------------------------------------- map
    def map_ctor(self,e,s,a,i,n):
        p=a[0]
        outs=[]
        mid=fresh('mid'); self.new_identity(e,s,mid)
        MM=s.g['MM']
        empty=self.fa(lambda x:Implies(MOWN(x)==mid,Not(sel(MM,x))),lambda x:sel(MM,x))
        if len(a)==2 and self.is_map(e,s,a[1],n):
            t=s.fork(); t.trace+=('map copy throws',); outs.append((t,'throw',Exc('bad_alloc')))
            q=a[1]; old=self.mid(e,s,q)
            e.store(s,Ptr(p.b,p.off+MID),mid,I64)
            e.store(s,Ptr(p.b,p.off),e.load(s,Ptr(q.b,q.off),I64),I64)
            s.assume(mid>0,CMPOF(mid)==CMPOF(old))
            C=freshfun('mcopyof',I,I); D=freshfun('mcopied',I,I)
            MM2=fresh('MM',AIB); SEC=s.g['SEC']; S2=fresh('SEC',AII)
            x=Int('x!%d'%nextid())
            s.assume(empty)
            s.assume(ForAll([x],Implies(MOWN(x)!=mid,sel(MM2,x)==sel(MM,x)),patterns=[sel(MM2,x)]))
            s.assume(ForAll([x],Implies(MOWN(x)!=mid,sel(MM2,x)==sel(MM,x)),patterns=[sel(MM,x)]))
            s.assume(ForAll([x],Implies(MOWN(x)!=mid,sel(S2,x)==sel(SEC,x)),patterns=[sel(S2,x)]))
            s.assume(ForAll([x],Implies(And(sel(MM2,x),MOWN(x)==mid),And(x>0,sel(MM,C(x)),MOWN(C(x))==old,MR(x)==MR(C(x)),KF(x)==KF(C(x)),KG(x)==KG(C(x)),sel(S2,x)==sel(SEC,C(x)),D(C(x))==x)),patterns=[sel(MM2,x)]))
            s.assume(ForAll([x],Implies(And(sel(MM,x),MOWN(x)==old),And(sel(MM2,D(x)),MOWN(D(x))==mid,C(D(x))==x,MR(D(x))==MR(x))),patterns=[sel(MM,x)]))
            self.gset(e,s,'MM',MM2); self.gset(e,s,'SEC',S2)
            return Outs(outs+[(s,'ret',None)])
        e.store(s,Ptr(p.b,p.off+MID),mid,I64)
        s.assume(mid>0,empty)
        if len(a)==1: c=fresh('cmp0')
        else: c=zi(e.load(s,a[1],I64))
        e.store(s,Ptr(p.b,p.off),c,I64); s.assume(CMPOF(mid)==c)
        return None
    def is_map(self,e,s,q,n):
        return 'C2ERKS' in n or 'C1ERKS' in n if '_Compare' not in n else False
    def map_dtor(self,e,s,a,i,n):
        mid=self.mid(e,s,a[0]); self.mremove(e,s,mid,lambda x:BoolVal(True)); return None
    def map_clear(self,e,s,a,i,n): return self.map_dtor(e,s,a,i,n)
    def mremove(self,e,s,mid,cond):
        MM=s.g['MM']; M2=fresh('MM',AIB); x=Int('x!%d'%nextid())
        f=sel(M2,x)==And(sel(MM,x),Not(And(MOWN(x)==mid,cond(x))))
        s.assume(ForAll([x],f,patterns=[sel(M2,x)]),ForAll([x],f,patterns=[sel(MM,x)]))
        self.gset(e,s,'MM',M2)
    def map_empty(self,e,s,a,i,n):
        u=self.map_first(e,s,a[0],lambda m:BoolVal(True)); return u.b[1]==MEND(self.mid(e,s,a[0]))
    def map_first(self,e,s,p,cond):
        mid=self.mid(e,s,p); return Ptr(('mn',self.mfirst(e,s,mid,cond)))
    def mfirst(self,e,s,mid,cond):
        u=fresh('mnode'); MM=s.g['MM']; x=Int('x!%d'%nextid())
        s.assume(u>0,MOWN(u)==mid,Or(And(sel(MM,u),cond(u),MR(u)<=1,MR(u)>=0),u==MEND(mid)))
        s.assume(ForAll([x],Implies(And(sel(MM,x),MOWN(x)==mid,cond(x)),And(MR(u)<=MR(x),Implies(MR(x)==MR(u),x==u))),patterns=[sel(MM,x)]))
        return u
    def map_find(self,e,s,a,i,n):
        k=self.keyrank(e,s,a[1],self.mapcmp(e,s,a[0])); mid=self.mid(e,s,a[0])
        u=fresh('mnode'); MM=s.g['MM']
        s.assume(u>0,MOWN(u)==mid,Or(And(sel(MM,u),MR(u)==k),And(u==MEND(mid),self.fa(lambda x:Implies(self.mmem(s,x,mid),MR(x)!=k),lambda x:sel(MM,x)))))
        return Ptr(('mn',u))
    def need_melem(self,e,s,x,what):
        e.oblige(s,'%s: the map iterator refers to an element of the map'%what,sel(s.g['MM'],x),tag=self.T_IT)
    def mi_deref(self,e,s,p):
        x=self.itload(e,s,p); self.need_melem(e,s,x,'dereference'); self.mnode_facts(e,s,x)
        return Ptr(('mv',x))
    def mnode_facts(self,e,s,x):
        s.assume(MR(x)==RK(CMPOF(MOWN(x)),KF(x),KG(x)),KF(x)>=0,KF(x)<=2)
    def mi_inc(self,e,s,a,i,n):
        post='EppEi' in n
        p=a[0]; x=self.itload(e,s,p); self.need_melem(e,s,x,'increment')
        u=self.mfirst(e,s,MOWN(x),lambda y:MR(y)>MR(x)); s.assume(MR(x)<MR(u))
        e.store(s,p,Ptr(('mn',u)),PT)
        return Ptr(('mn',x)) if post else p
    def exists_key(self,s,mid,k):
        """(witness, formula that no element has this rank)"""
        MM=s.g['MM']
        return fresh('mnode'), self.fa(lambda x:Implies(self.mmem(s,x,mid),MR(x)!=k),lambda x:sel(MM,x))
    def fork_key(self,e,s,mid,k):
        w,none=self.exists_key(s,mid,k)
        y=s.fork(); y.assume(w>0,sel(y.g['MM'],w),MOWN(w)==mid,MR(w)==k); y.trace+=('key present',)
        n=s; n.assume(none); n.trace+=('key absent',)
        return y,w,n
    def new_mnode(self,e,s,mid,kp,k,cmp,secterm):
        m=fresh('mnode'); MM=s.g['MM']
        f=e.load(s,Ptr(kp.b,kp.off),I32); g=e.load(s,Ptr(kp.b,kp.off+self.KGRP),I64)
        s.assume(m>0,Not(sel(MM,m)),MOWN(m)==mid,MR(m)==k,m!=MEND(mid),KF(m)==zi(f))
        if g is not UNDEF: s.assume(KG(m)==zi(g))
        self.gset(e,s,'MM',Store(MM,m,BoolVal(True)))
        self.gset(e,s,'SEC',Store(s.g['SEC'],m,secterm))
        return m
    def map_insert(self,e,s,a,i,n):
        ret='pair'
        if len(a)==3: a=[a[0],a[2]]; ret='it'      # hint
        if len(a)!=2: raise Unsupported('map::insert overload')
        mp,vp=a; mid=self.mid(e,s,mp); cmp=self.mapcmp(e,s,mp); k=self.keyrank(e,s,vp,cmp)
        t=s.fork(); t.trace+=('map::insert throws',)
        sec=self.nt(e,s,e.load(s,Ptr(vp.b,vp.off+self.SECOFF),PT))
        y,w,nn=self.fork_key(e,s,mid,k)
        m=self.new_mnode(e,nn,mid,vp,k,cmp,sec)
        rv=lambda x,b:[Ptr(('mn',x)),b] if ret=='pair' else Ptr(('mn',x))
        return Outs([(t,'throw',Exc('other')),(y,'ret',rv(w,0)),(nn,'ret',rv(m,1))])
    def map_index(self,e,s,a,i,n):
        mp,kp=a; mid=self.mid(e,s,mp); cmp=self.mapcmp(e,s,mp); k=self.keyrank(e,s,kp,cmp)
        y,w,nn=self.fork_key(e,s,mid,k)
        t=nn.fork(); t.trace+=('map operator[] throws',)
        m=self.new_mnode(e,nn,mid,kp,k,cmp,fresh('null_it'))
        return Outs([(t,'throw',Exc('other')),(y,'ret',Ptr(('mv',w),self.SECOFF)),(nn,'ret',Ptr(('mv',m),self.SECOFF))])
    def map_erase(self,e,s,a,i,n):
        mid=self.mid(e,s,a[0]); MM=s.g['MM']
        v=a[1]
        if isinstance(v,Ptr) and isinstance(v.b,tuple) and v.b[0]=='mn' and len(a)==2:
            x=v.b[1]
            e.oblige(s,'erased map iterator refers to an element of this map',And(sel(MM,x),MOWN(x)==mid),tag=self.T_IT)
            u=self.mfirst(e,s,mid,lambda y:MR(y)>MR(x))
            self.gset(e,s,'MM',Store(MM,x,BoolVal(False)))
            return Ptr(('mn',u))
        if len(a)==2:
            k=self.keyrank(e,s,v,self.mapcmp(e,s,a[0])); r=fresh('nerased')
            self.mremove(e,s,mid,lambda y:MR(y)==k); return r
        raise Unsupported('map::erase overload')
    # ------------------------------------------------------------- tagged memory
    def tagref(self,eng,st,p):
        if p.b[0] in('ln','mn') and p.off==0: return p.b[1]
        if p.b[0]=='nv': return SUB(p.b[1],IntVal(16+p.off))
        raise Unsupported('reference to %r'%(p,))
    def tagload(self,eng,st,p,t,name):
        k,x=p.b[0],p.b[1]
        if k=='g':
            v=self.vtable_load(eng,p,t)
            if v is not None: return v
        if k=='nv':
            if p.off==0: return Ptr(NB(x))
            return self.nv_count(eng,st,x)
        if k=='mv':
            if p.off==self.SECOFF and t.k=='ptr': 
                eng.oblige(st,'access to a live map element',sel(st.g['MM'],x),tag=self.T_IT)
                return Ptr(('ln',z3.simplify(sel(st.g['SEC'],x))))
            if p.off==0 and t.k=='int' and t.n==32: return KF(x)
            if p.off==self.KINI and t.k=='int': return KF(x)==1
            if p.off==self.KGRP and t.k=='int' and t.n==64: return KG(x)
        raise Unsupported('load from %r %r'%(p,t))
    def nv_count(self,eng,st,x): return Ptr(('pn',x))
    def copy_layout(self,eng,st,s,n):
        if n==8 and isinstance(s.b,tuple) and s.b[0] in('mv','nv'): return [(0,'p')]
        return super().copy_layout(eng,st,s,n)
    def tagstore(self,eng,st,p,v,t):
        k,x=p.b[0],p.b[1]
        if k=='mv' and p.off==self.SECOFF:
            eng.oblige(st,'access to a live map element',sel(st.g['MM'],x),tag=self.T_IT)
            self.gset(eng,st,'SEC',Store(st.g['SEC'],x,self.nt(eng,st,v))); return
        raise Unsupported('store to %r'%(p,))
    def tageq(self,eng,st,a,b):
        if a.off==b.off and a.b[0] in('ln','mn','nv','mv'): return mkb(z3.simplify(a.b[1]==b.b[1]))
        return None
    def tageq1(self,eng,st,t,u):
        if t.b[0] in('ln','mn') and not isinstance(u.b,Obj) and u.off==0 and t.off==0: return mkb(z3.simplify(t.b[1]==zi(u.b)))
        return None
    def samebase(self,eng,st,a,b): return a.b[0]==b.b[0] and len(a.b)>1 and isz(a.b[1]) and isz(b.b[1]) and a.b[1].eq(b.b[1])
    def join_tag(self,eng,st,kind): return Ptr((kind,fresh(kind))) if kind in('ln','mn') else UNDEF
    # ------------------------------------------------------------- invariants of a grouped list
    def sorted_inv(self,s,lid):
        M=s.g['M']; x,y=z3.Ints('x!%d y!%d'%(nextid(),nextid()))
        mx=And(sel(M,x),OWN(x)==lid); my=And(sel(M,y),OWN(y)==lid)
        pt=[z3.MultiPattern(sel(M,x),sel(M,y))]
        return [('elements are ordered by group rank',ForAll([x,y],Implies(And(mx,my,GK(x)<GK(y)),POS(x)<POS(y)),patterns=pt)),
                ('positions are distinct',ForAll([x,y],Implies(And(mx,my,POS(x)==POS(y)),x==y),patterns=pt)),
                ('elements are distinct',ForAll([x,y],Implies(And(mx,my,NB(x)==NB(y)),x==y),patterns=pt)),
                ('elements precede the end',ForAll([x],Implies(mx,And(x>0,x!=ENDL(lid),POS(x)<POS(ENDL(lid)),GK(x)>=0,GK(x)<=1)),patterns=[sel(M,x)]))]
    def map_inv(self,s,lid,mid,assume):
        M=s.g['M']; MM=s.g['MM']; SEC=s.g['SEC']; x,m,m2=z3.Ints('x!%d m!%d n!%d'%(nextid(),nextid(),nextid()))
        mx=And(sel(M,x),OWN(x)==lid); mm=And(sel(MM,m),MOWN(m)==mid)
        r=[]
        if assume:
            w=freshfun('mapnode',R,I)     # the map node of a rank; a function because there is one entry per group
            r.append(('every group has a map entry',ForAll([x],Implies(mx,And(sel(MM,w(GK(x))),MOWN(w(GK(x)))==mid,MR(w(GK(x)))==GK(x))),patterns=[sel(M,x)])))
            r.append(('map node of a rank',ForAll([m],Implies(mm,w(MR(m))==m),patterns=[sel(MM,m)])))
        else:
            r.append(('every group has a map entry',ForAll([x],Implies(mx,Exists([m],And(mm,MR(m)==GK(x)),patterns=[sel(MM,m),MOWN(m)])))))
        r.append(('map entries refer to an element of their group',ForAll([m],Implies(mm,And(m>0,m!=MEND(mid),MR(m)>=0,MR(m)<=1,sel(M,sel(SEC,m)),OWN(sel(SEC,m))==lid,GK(sel(SEC,m))==MR(m))),patterns=[sel(MM,m)])))
        r.append(('map entries refer to the first element of their group',ForAll([m,x],Implies(And(mm,mx,GK(x)==MR(m)),POS(sel(SEC,m))<=POS(x)),patterns=[z3.MultiPattern(sel(MM,m),sel(M,x))])))
        r.append(('one map entry per group',ForAll([m,m2],Implies(And(mm,sel(MM,m2),MOWN(m2)==mid,MR(m)==MR(m2)),m==m2),patterns=[z3.MultiPattern(sel(MM,m),sel(MM,m2))])))
        return r
