"""Undoes renamings of private functions and data members, so that contracts, which are attached to functions by name, follow them.
idents.json lists the names in the tree the contracts were written for.  A function name that is gone is identified with a new name when the
mangled names of the functions with the new name become, with the name replaced, exactly those of the functions with the old name
(same classes, same parameter types); a data member with a new one of the same type at the same place of the same class."""
import re, json, os, hashlib, sys
BASE=os.path.join(os.path.dirname(os.path.abspath(__file__)),'idents.json')
def h(s): return hashlib.md5(s.encode()).hexdigest()[:10]
def fnames(ll):
    return set(m for m in re.findall(r'^define [^@\n]*@"?([\w.$]+)"?\(',ll,re.M) if '8signals2' in m)
def toks(n):
    """source identifiers of a mangled name"""
    out=set(); i=0
    while i<len(n):
        if n[i].isdigit() and not n[i]=='0':
            j=i
            while j<len(n) and n[j].isdigit(): j+=1
            k=int(n[i:j]); w=n[j:j+k]
            if len(w)==k and re.match(r'[A-Za-z_]\w*$',w): out.add(w); i=j+k; continue
            i=j
        else: i+=1
    return out
def bywords(names):
    d={}
    for n in names:
        for w in toks(n): d.setdefault(w,set()).add(n)
    return d
def rep(n,b,a): return re.sub(r'(?<!\d)%d%s'%(len(b),b),'%d%s'%(len(a),a),n)
def members(lay):
    """class -> ((offset, type, name), ...) of the direct members"""
    return {c:[(o,t,m) for o,d,t,m in v if d==1 and m] for c,v in lay.items() if c.startswith('boost::signals2::')}
def mkbase(ll,lay):
    w={k:sorted(h(n) for n in v) for k,v in bywords(fnames(ll)).items()}
    return dict(fn={k:(v if len(v)<=60 else len(v)) for k,v in w.items()},mem={h(c):[m for o,t,m in v] for c,v in members(lay).items() if v},typ={h(c):h(str([(o,t) for o,t,m in v])) for c,v in members(lay).items() if v})
def fn_aliases(ll,base):
    cur=bywords(fnames(ll)); old=base['fn']; R={}
    gone=[a for a in old if a not in cur and isinstance(old[a],list)]
    if not gone: return R
    new=[b for b in cur if b not in old]
    # names may contain several renamed identifiers: iterate
    for a in gone:
        c=[b for b in new if b not in R and sorted(h(rep(n,b,a)) for n in cur[b])==old[a]]
        if len(c)==1: R[c[0]]=a
    return R
def mem_aliases(lay,base):
    R={}; known=set(x for v in base['mem'].values() for x in v)
    for c,v in members(lay).items():
        k=h(c)
        if k not in base['mem'] or base['typ'][k]!=h(str([(o,t) for o,t,m in v])): continue
        for (o,t,m),m0 in zip(v,base['mem'][k]):
            if m!=m0 and m not in known and m0 not in [x for _,_,x in v]:
                if R.get(m,m0)!=m0: R[m]=None
                else: R[m]=m0
    return {b:a for b,a in R.items() if a}
_b=None
def base(tu):
    global _b
    if _b is None:
        try: _b=json.load(open(BASE))
        except OSError: _b={}
    return _b.get(tu)
def fix_ll(text,path):
    b=base(os.path.basename(path)[:-3])
    if not b: return text
    R=fn_aliases(text,b)
    for x,a in R.items(): text=rep(text,x,a)
    return text
def fix_lay(lay,path):
    b=base(os.path.basename(path)[:-4])
    if not b: return lay
    R=mem_aliases(lay,b)
    if R: lay={c:[(o,d,t,R.get(m,m)) for o,d,t,m in v] for c,v in lay.items()}
    return lay
if __name__=='__main__':
    import layout
    d=sys.argv[1]; out={}
    for f in sorted(os.listdir(d)):
        if f.endswith('.ll') and os.path.exists(d+'/'+f[:-3]+'.lay') and f[:-3] in sys.argv[2:]: out[f[:-3]]=mkbase(open(d+'/'+f).read(),layout.parse(d+'/'+f[:-3]+'.lay'))
    json.dump(out,open(BASE,'w'),sort_keys=True,separators=(',',':'))
