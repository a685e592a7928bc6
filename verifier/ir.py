"""Parser for the textual LLVM 18 IR that clang emits at -O0."""
import re, subprocess

class T:
    """LLVM type: k in int,ptr,void,struct,array,float,fn,label,meta,named"""
    __slots__=('k','n','e','name','packed')
    def __init__(s,k,n=0,e=None,name=None,packed=False): s.k=k;s.n=n;s.e=e;s.name=name;s.packed=packed
    def __repr__(s):
        return {'int':'i%d'%s.n,'ptr':'ptr','void':'void'}.get(s.k) or (s.name or '%s%s%s'%(s.k,s.n,s.e))

TOK=re.compile(r'''\s*(?:(c"(?:[^"\\]|\\.)*")|([%@$!](?:"(?:[^"\\]|\\.)*"|[-\w.$]+))|("(?:[^"\\]|\\.)*")|(-?\d+(?:\.\d+(?:e[+-]?\d+)?)?|0x[0-9A-Fa-f]+)|([A-Za-z_][\w.]*)|(\.\.\.)|(<\{|\}>|[\[\]{}()<>,=*|:#])|(.))''')
_tokcache={}
def tokenize(s):
    out=[]
    i=0;n=len(s)
    m=TOK.match
    while i<n:
        x=m(s,i)
        if not x: break
        i=x.end()
        t=x.group(x.lastindex) if x.lastindex else ''
        if t.strip()=='' : continue
        out.append(t)
    return out

class P:
    def __init__(s,toks): s.t=toks; s.i=0
    def peek(s,k=0):
        j=s.i+k
        return s.t[j] if j<len(s.t) else None
    def nx(s):
        v=s.t[s.i]; s.i+=1; return v
    def eat(s,x):
        if s.peek()==x: s.i+=1; return True
        return False
    def need(s,x):
        v=s.nx()
        if v!=x: raise SyntaxError('expected %r got %r in %s'%(x,v,' '.join(s.t)))

PARAM_ATTRS={'noundef','nonnull','signext','zeroext','noalias','nocapture','readonly','readnone','writeonly','returned','immarg','inreg','nofree','inbounds','allocptr','allocalign','dead_on_unwind','writable','noext','inalloca','swiftself','nest'}
def unq(s):
    s=s[1:]
    if s.startswith('"'): s=s[1:-1]
    return s

class Module:
    def __init__(s):
        s.types={}; s.funcs={}; s.decls={}; s.globals={}; s.aliases={}
    # ---- types
    def ptype(s,p):
        t=p.nx()
        if re.fullmatch(r'i\d+',t): r=T('int',int(t[1:]))
        elif t=='ptr':
            r=T('ptr')
            if p.peek()=='addrspace':
                p.nx();p.need('(');p.nx();p.need(')')
        elif t=='void': r=T('void')
        elif t in('float','double','x86_fp80','half','fp128'): r=T('float',{'float':4,'double':8,'x86_fp80':16,'half':2,'fp128':16}[t],name=t)
        elif t=='label': r=T('label')
        elif t=='metadata': r=T('meta')
        elif t=='opaque': r=T('struct',0,[])
        elif t[0]=='%': r=T('named',name=unq(t))
        elif t=='[':
            n=int(p.nx()); p.need('x'); e=s.ptype(p); p.need(']'); r=T('array',n,e)
        elif t=='<':
            n=int(p.nx()); p.need('x'); e=s.ptype(p); p.need('>'); r=T('array',n,e,name='vec')
        elif t in('{','<{'):
            es=[]
            close='}' if t=='{' else '}>'
            if not p.eat(close):
                while True:
                    es.append(s.ptype(p))
                    if p.eat(close): break
                    p.need(',')
            r=T('struct',0,es,packed=(t=='<{'))
        else: raise SyntaxError('type '+t+' in '+' '.join(p.t[:60]))
        while p.peek()=='(' :  # function type
            d=0
            while True:
                x=p.nx()
                if x=='(':d+=1
                if x==')':
                    d-=1
                    if d==0:break
            r=T('fn',e=r)
        return r
    def res(s,t):
        while t.k=='named': t=s.types[t.name]
        return t
    _sz=None
    def size(s,t):
        if t.k=='int': 
            b=(t.n+7)//8
            return 1 if b<=1 else 2 if b<=2 else 4 if b<=4 else 8 if b<=8 else 16
        if t.k=='ptr': return 8
        if t.k=='float': return t.n
        if t.k=='array': return t.n*s.size(t.e)
        if t.k=='named':
            if s._sz is None: s._sz={}
            if t.name not in s._sz: s._sz[t.name]=s.size(s.types[t.name])
            return s._sz[t.name]
        if t.k=='struct': return s.layout(t)[1]
        return 0
    def align(s,t):
        t=s.res(t)
        if t.k=='array': return s.align(t.e)
        if t.k=='struct': return 1 if t.packed else max([s.align(e) for e in t.e] or [1])
        return max(1,min(s.size(t),16))
    _lay=None
    def layout(s,t):
        if s._lay is None: s._lay={}
        t=s.res(t)
        k=id(t)
        if k in s._lay: return s._lay[k][:2]
        off=0; offs=[]
        for e in t.e:
            a=1 if t.packed else s.align(e)
            off=(off+a-1)//a*a
            offs.append(off); off+=s.size(e)
        a=s.align(t)
        off=(off+a-1)//a*a
        s._lay[k]=(offs,off,t)
        return offs,off
    # ---- values
    def pval(s,p,t):
        """value of type t -> ('r',name)|('i',int)|('null',)|('undef',)|('g',name)|('ce',...)|('agg',[..])"""
        x=p.nx()
        c=x[0]
        if c=='%': return ('r',unq(x))
        if c=='@': return ('g',unq(x))
        if x in('true','false'): return ('i',1 if x=='true' else 0)
        if x=='null': return ('null',)
        if x in('undef','poison'): return ('undef',)
        if x=='zeroinitializer': return ('zero',)
        if c=='!':
            return ('md',x)
        if c=='c' and x.startswith('c"'): return ('str',x)
        if re.fullmatch(r'-?\d+',x): return ('i',int(x))
        if x in('{','<{','['):
            close={'{':'}','<{':'}>','[':']'}[x]; vs=[]
            if not p.eat(close):
                while True:
                    tt=s.ptype(p); vs.append((tt,s.pval(p,tt)))
                    if p.eat(close): break
                    p.need(',')
            return ('agg',vs)
        if x=='getelementptr':
            p.eat('inbounds')
            if p.peek()=='inrange':  # inrange(a,b)
                while p.nx()!=')': pass
            p.need('(')
            ty=s.ptype(p); p.need(',')
            ops=[]
            while True:
                p.eat('inrange')
                tt=s.ptype(p); ops.append((tt,s.pval(p,tt)))
                if p.eat(')'): break
                p.need(',')
            return ('ce','gep',ty,ops)
        if x in('bitcast','ptrtoint','inttoptr','addrspacecast','trunc','zext'):
            p.need('('); tt=s.ptype(p); v=s.pval(p,tt); p.need('to'); t2=s.ptype(p); p.need(')')
            return ('ce','cast',x,tt,v,t2)
        if x in('sub','add'):
            while p.peek()!='(' : p.nx()
            p.need('('); ops=[]
            while True:
                tt=s.ptype(p); ops.append((tt,s.pval(p,tt)))
                if p.eat(')'): break
                p.need(',')
            return ('ce',x,ops)
        return ('other',x)
    def skipattrs(s,p):
        while True:
            x=p.peek()
            if x in PARAM_ATTRS: p.nx(); continue
            if x in('align',) :
                p.nx()
                p.nx(); continue
            if x in('dereferenceable','dereferenceable_or_null','sret','byval','byref','elementtype','nofpclass','captures','memory','range','allocsize','vscale_range','initializes','inalloca','preallocated'):
                p.nx()
                if p.peek()=='(':
                    d=0
                    while True:
                        y=p.nx()
                        if y=='(':d+=1
                        elif y==')':
                            d-=1
                            if d==0:break
                continue
            break
    def args(s,p):
        p.need('('); out=[]
        if p.eat(')'): return out
        while True:
            if p.peek()=='...': p.nx()
            else:
                t=s.ptype(p); s.skipattrs(p)
                if t.k=='meta':
                    d=0
                    while not (d==0 and p.peek() in(',',')')):
                        y=p.nx()
                        if y in('(','{'):d+=1
                        if y in(')','}'):d-=1
                    out.append((t,('md',)))
                else: out.append((t,s.pval(p,t)))
            if p.eat(')'): break
            p.need(',')
        return out

class Instr:
    __slots__=('op','r','a','txt','ln')
    def __init__(s,op,r,a,txt,ln): s.op=op;s.r=r;s.a=a;s.txt=txt;s.ln=ln
    def __repr__(s): return s.txt.strip()

class Func:
    def __init__(s,name,ret,params): s.name=name;s.ret=ret;s.params=params;s.blocks={};s.order=[];s.lines=None;s.parsed=False;s.loops=None
    
LINK={'private','internal','available_externally','linkonce','weak','common','appending','extern_weak','linkonce_odr','weak_odr','external','dso_local','dso_preemptable','hidden','protected','default','unnamed_addr','local_unnamed_addr','thread_local','fastcc','ccc','coldcc','cc','externally_initialized','global','constant','alias'}

def parse(path):
    M=Module()
    import alias
    with open(path) as f: lines=alias.fix_ll(f.read(),path).split('\n')
    i=0
    n=len(lines)
    while i<n:
        l=lines[i]
        if l.startswith('%') and ' = type ' in l:
            nm,rest=l.split(' = type ',1)
            M.types[unq(nm)]=M.ptype(P(tokenize(rest)))
        elif l.startswith('@'):
            m=re.match(r'(@(?:"(?:[^"\\]|\\.)*"|[-\w.$]+)) = (.*)',l)
            M.globals[unq(m.group(1))]=m.group(2)
            a=re.match(r'(?:\w+ )*alias .*, ptr (@(?:"(?:[^"\\]|\\.)*"|[-\w.$]+))',m.group(2))
            if a: M.aliases[unq(m.group(1))]=unq(a.group(1))
        elif l.startswith('declare'):
            m=re.search(r'(@(?:"(?:[^"\\]|\\.)*"|[-\w.$]+))\(',l)
            M.decls[unq(m.group(1))]=l
        elif l.startswith('define'):
            m=re.search(r'(@(?:"(?:[^"\\]|\\.)*"|[-\w.$]+))\(',l)
            name=unq(m.group(1))
            j=i+1
            while lines[j]!='}': j+=1
            f=Func(name,None,None); f.lines=(l,lines[i+1:j],i+1)
            M.funcs[name]=f
            i=j
        i+=1
    for a,t in M.aliases.items():
        if t in M.funcs: M.funcs[a]=M.funcs[t]
    return M

def getf(M,name):
    f=M.funcs.get(name)
    if f is None: return None
    if not f.parsed: parse_func(M,f)
    return f

def parse_func(M,f):
    head,body,ln0=f.lines
    p=P(tokenize(head[len('define'):]))
    while p.peek() in LINK or p.peek()=='comdat': p.nx()
    M.skipattrs(p)
    f.ret=M.ptype(p)
    p.nx() # name
    p.need('(')
    params=[]
    idx=0
    if not p.eat(')'):
        while True:
            if p.peek()=='...': p.nx()
            else:
                t=M.ptype(p)
                st=p.i
                M.skipattrs(p)
                attrs=' '.join(p.t[st:p.i])
                if p.peek() and p.peek()[0]=='%': nm=unq(p.nx())
                else: nm=str(idx); 
                idx+=1
                params.append((t,nm,attrs))
            if p.eat(')'): break
            p.need(',')
    f.params=params
    cur=None
    first=True
    for k,l in enumerate(body):
        if not l.strip() or l.lstrip().startswith(';'): continue
        if not l.startswith(' '):
            m=re.match(r'("(?:[^"\\]|\\.)*"|[-\w.$]+):',l)
            lab=m.group(1)
            if lab.startswith('"'): lab=lab[1:-1]
            cur=lab; f.blocks[cur]=[]; f.order.append(cur); first=False
            continue
        if first:
            cur=str(len(params)); f.blocks[cur]=[]; f.order.append(cur); first=False
        f.blocks[cur].append((l,ln0+1+k))
    # join multi-line instrs (invoke/switch/landingpad)
    for b in f.order:
        raw=f.blocks[b]; out=[]; acc=None
        for l,ln in raw:
            s=l.strip()
            if acc is not None:
                if acc[2]=='switch':
                    acc[0]+=' '+s
                    if s==']': out.append((acc[0],acc[1])); acc=None
                    continue
                if acc[2]=='invoke':
                    acc[0]+=' '+s; out.append((acc[0],acc[1])); acc=None; continue
                if acc[2]=='lp':
                    if s.startswith('catch') or s.startswith('cleanup') or s.startswith('filter'):
                        acc[0]+=' '+s; continue
                    out.append((acc[0],acc[1])); acc=None
            core=re.sub(r'^%(?:"[^"]*"|[-\w.$]+) = ','',s)
            if core.startswith('switch') and not s.endswith(']'): acc=[s,ln,'switch']
            elif core.startswith('invoke'): acc=[s,ln,'invoke']
            elif core.startswith('landingpad'): acc=[s,ln,'lp']
            else: out.append((s,ln))
        if acc is not None: out.append((acc[0],acc[1]))
        f.blocks[b]=[parse_instr(M,s,ln) for s,ln in out]
    f.entry=f.order[0]
    f.parsed=True
    find_loops(f)

def lab(x):
    return unq(x)

def parse_instr(M,s,ln):
    txt=s
    s=re.sub(r', ![\w.]+ ![\w]+','',s)
    s=re.sub(r'; preds.*','',s)
    p=P(tokenize(s))
    r=None
    if p.peek()[0]=='%' and p.peek(1)=='=':
        r=unq(p.nx()); p.nx()
    op=p.nx()
    if op in('tail','musttail','notail'): op=p.nx()
    I=lambda o,*a: Instr(o,r,a,txt,ln)
    if op=='alloca':
        t=M.ptype(p); n=None
        if p.eat(','):
            if p.peek()!='align':
                tt=M.ptype(p); n=M.pval(p,tt)
        return I('alloca',t,n)
    if op=='load':
        if p.peek() in('volatile','atomic'): p.nx()
        if p.peek() in('volatile',): p.nx()
        t=M.ptype(p); p.need(','); pt=M.ptype(p); v=M.pval(p,pt)
        return I('load',t,v)
    if op=='store':
        while p.peek() in('volatile','atomic'): p.nx()
        t=M.ptype(p); v=M.pval(p,t); p.need(','); pt=M.ptype(p); a=M.pval(p,pt)
        return I('store',t,v,a)
    if op=='getelementptr':
        while p.peek() in('inbounds','nuw','nusw'): p.nx()
        t=M.ptype(p); p.need(',')
        ops=[]
        while True:
            tt=M.ptype(p); ops.append((tt,M.pval(p,tt)))
            if not p.eat(','): break
        return I('gep',t,ops)
    if op in('call','invoke'):
        while p.peek() in('fastcc','ccc','fast','nnan','ninf','nsz','arcp','contract','afn','reassoc','coldcc'): p.nx()
        M.skipattrs(p)
        rt=M.ptype(p)
        if p.peek()=='asm': return I('asm',rt)
        callee=M.pval(p,T('ptr'))
        if callee[0]=='other': raise SyntaxError(txt)
        args=M.args(p)
        if op=='invoke':
            while p.peek()!='to': p.nx()
            p.nx(); p.need('label'); n=lab(p.nx()); p.need('unwind'); p.need('label'); u=lab(p.nx())
            return I('invoke',rt,callee,args,n,u)
        return I('call',rt,callee,args)
    if op=='br':
        if p.peek()=='label':
            p.nx(); return I('jmp',lab(p.nx()))
        M.ptype(p); c=M.pval(p,T('int',1)); p.need(','); p.need('label'); a=lab(p.nx()); p.need(','); p.need('label'); b=lab(p.nx())
        return I('br',c,a,b)
    if op=='switch':
        t=M.ptype(p); v=M.pval(p,t); p.need(','); p.need('label'); d=lab(p.nx()); p.need('[')
        cs=[]
        while not p.eat(']'):
            tt=M.ptype(p); cv=M.pval(p,tt); p.need(','); p.need('label'); cs.append((cv[1],lab(p.nx())))
        return I('switch',t,v,d,cs)
    if op=='ret':
        t=M.ptype(p)
        return I('ret',t,None if t.k=='void' else M.pval(p,t))
    if op=='icmp':
        pr=p.nx(); t=M.ptype(p); a=M.pval(p,t); p.need(','); b=M.pval(p,t)
        return I('icmp',pr,t,a,b)
    if op in('add','sub','mul','sdiv','udiv','srem','urem','and','or','xor','shl','lshr','ashr'):
        while p.peek() in('nuw','nsw','exact','disjoint'): p.nx()
        t=M.ptype(p); a=M.pval(p,t); p.need(','); b=M.pval(p,t)
        return I('bin',op,t,a,b)
    if op in('zext','sext','trunc','bitcast','ptrtoint','inttoptr','fptosi','sitofp','fpext','fptrunc','uitofp','fptoui'):
        while p.peek() in('nneg','nuw','nsw'): p.nx()
        t=M.ptype(p); v=M.pval(p,t); p.need('to'); t2=M.ptype(p)
        return I('cast',op,t,v,t2)
    if op=='phi':
        t=M.ptype(p); inc=[]
        while True:
            p.need('['); v=M.pval(p,t); p.need(','); l=lab(p.nx()); p.need(']'); inc.append((v,l))
            if not p.eat(','): break
        return I('phi',t,inc)
    if op=='select':
        t=M.ptype(p); c=M.pval(p,t); p.need(','); t1=M.ptype(p); a=M.pval(p,t1); p.need(','); t2=M.ptype(p); b=M.pval(p,t2)
        return I('select',c,a,b)
    if op=='extractvalue':
        t=M.ptype(p); v=M.pval(p,t); ix=[]
        while p.eat(','): ix.append(int(p.nx()))
        return I('extractvalue',v,ix)
    if op=='insertvalue':
        t=M.ptype(p); v=M.pval(p,t); p.need(','); t2=M.ptype(p); v2=M.pval(p,t2); ix=[]
        while p.eat(','): ix.append(int(p.nx()))
        return I('insertvalue',t,v,v2,ix)
    if op=='landingpad':
        M.ptype(p); cl=[]
        while p.peek() in('catch','cleanup','filter'):
            k=p.nx()
            if k=='cleanup': cl.append(('cleanup',None))
            else:
                tt=M.ptype(p); cl.append((k,M.pval(p,tt)))
        return I('landingpad',cl)
    if op=='resume':
        t=M.ptype(p); return I('resume',M.pval(p,t))
    if op=='unreachable': return I('unreachable')
    if op in('atomicrmw','cmpxchg','fence'): return I('atomic',op)
    if op in('fcmp','fadd','fsub','fmul','fdiv','fneg','extractelement','insertelement','shufflevector','freeze'): return I('unsup',op)
    raise SyntaxError('instr '+txt)

def succs(ins):
    o=ins.op
    if o=='jmp': return [ins.a[0]]
    if o=='br': return [ins.a[1],ins.a[2]]
    if o=='switch': return [ins.a[2]]+[l for _,l in ins.a[3]]
    if o=='invoke': return [ins.a[3],ins.a[4]]
    return []

def find_loops(f):
    """natural loops: header -> set of blocks"""
    idx={b:i for i,b in enumerate(f.order)}
    succ={b:succs(f.blocks[b][-1]) for b in f.order}
    # DFS for back edges
    color={}; back=[]
    stack=[(f.entry,iter(succ[f.entry]))]; color[f.entry]=1
    while stack:
        b,it=stack[-1]
        for s in it:
            if color.get(s,0)==0:
                color[s]=1; stack.append((s,iter(succ[s]))); break
            elif color[s]==1: back.append((b,s))
        else:
            color[b]=2; stack.pop()
    pred={b:[] for b in f.order}
    for b in f.order:
        for s in succ[b]: pred[s].append(b)
    loops={}
    for t,h in back:
        body={h}; w=[t]
        while w:
            x=w.pop()
            if x in body: continue
            body.add(x); w+=pred[x]
        loops.setdefault(h,set()).update(body)
    f.loops=loops

def demangle(names):
    p=subprocess.run(['/usr/bin/llvm-cxxfilt-18'],input='\n'.join(names)+'\n',capture_output=True,text=True)
    return dict(zip(names,p.stdout.split('\n')))

def strip_templates(s):
    """remove <...> (not operators) from a demangled name"""
    s=re.sub(r'operator(<<|>>|<=>|<=|>=|->\*|->|<|>)',lambda m:'operator'+m.group(1).replace('<','\x01').replace('>','\x02'),s)
    out=[];d=0
    for ch in s:
        if ch=='<': d+=1
        elif ch=='>': d-=1
        elif d==0: out.append(ch)
    return ''.join(out).replace('\x01','<').replace('\x02','>')

def base_name(dem):
    """qualified name without templates, args, return type"""
    s=dem
    s=re.sub(r'\[abi:\w+\]','',s)
    s=s.replace('(anonymous namespace)','anon')
    s=strip_templates(s)
    s=s.replace('operator()','operator\x03')
    # cut args
    i=s.find('(')
    if i>=0: s=s[:i]
    s=s.replace('operator\x03','operator()')
    # return type: last space-separated token unless operator conversions
    if 'operator ' in s:
        k=s.index('operator ')
        pre=s[:k].split(' ')[-1]
        return pre+s[k:].strip()
    return s.strip().split(' ')[-1]
