"""C13 for compilers without variadic templates: deconstruct and postconstruct have one overload per number of arguments."""
from spec_base import *
import spec_decon
TU='decon03'
def units(cx):
    U=[]
    for k in range(10):
        w=['a%d'%j for j in range(1,k+1)]
        for f,e in((('spec_both',dict(ctor=w,post=w)),('spec_cast',dict(ctor=w)),('spec_again',dict(ctor=w,post=w)))):
            ent=dict(e,f='%s%d'%(f,k)); U.append(Unit('deconstruct, C++03 '+ent['f'],{'C13'},lambda opts,ent=ent: spec_decon.verify_entry(cx,ent,opts)))
    return U
