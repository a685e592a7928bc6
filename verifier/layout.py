"""Field offsets from clang's -fdump-record-layouts."""
import re
def parse(path):
    """class name -> list of (offset, depth, type, member)"""
    out={}; cur=None; skip=True
    for l in open(path,errors='replace'):
        if l.startswith('*** Dumping'): cur=None; skip=False; continue
        m=re.match(r'\s*(\d+)(?::[-\d]+)? \| ( *)(.*)$',l)
        if not m or skip: continue
        off=int(m.group(1)); d=len(m.group(2))//2; txt=m.group(3).rstrip()
        if d==0:
            nm=re.sub(r'^(class|struct|union) ','',txt); nm=re.sub(r' \(empty\)$','',nm)
            if nm in out: skip=True; continue
            cur=out[nm]=[]
            continue
        if cur is None: continue
        base=txt.endswith(' (base)') or '(base)' in txt or '(primary base)' in txt
        if base: cur.append((off,d,re.sub(r'^(class|struct) ','',re.sub(r' \((primary )?base\).*$','',txt)),None)); continue
        if 'vtable pointer' in txt: continue
        k=txt.rfind(' ')
        cur.append((off,d,re.sub(r'^(class|struct|enum|union) ','',re.sub(r'^const ','',txt[:k])),txt[k+1:]))
    return out
class Layouts:
    def __init__(s,path):
        import alias
        s.t=alias.fix_lay(parse(path),path)
    def cls(s,rx):
        r=[k for k in s.t if re.match(rx,k)]
        if not r: raise KeyError('class '+rx)
        return min(r,key=len)
    def off(s,rx,member):
        """offset of the member with this name at any depth (first), base classes included"""
        for o,d,t,m in s.t[s.cls(rx)]:
            if m==member: return o
        raise KeyError('%s::%s'%(rx,member))
    def off_type(s,rx,trx):
        for o,d,t,m in s.t[s.cls(rx)]:
            if d==1 and re.match(trx,t.replace('class ','').replace('struct ','').replace('const ','').strip()): return o
        raise KeyError('%s of type %s'%(rx,trx))
