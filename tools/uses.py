import re,sys,glob
root=sys.argv[1]
out=set()
def expand(s):
    s=s.strip()
    m=re.match(r'^(.*?)\{(.*)\}$',s,re.S)
    if not m: return [s]
    pre=m.group(1); body=m.group(2); parts=[];d=0;cur=''
    for c in body:
        if c=='{':d+=1
        if c=='}':d-=1
        if c==',' and d==0: parts.append(cur);cur=''
        else: cur+=c
    parts.append(cur)
    r=[]
    for p in parts:
        if p.strip(): r+= [pre+x for x in expand(p)]
    return r
for f in glob.glob('/repo/pallets/**/*.rs',recursive=True)+glob.glob('/repo/traits/**/*.rs',recursive=True)+glob.glob('/repo/primitives/**/*.rs',recursive=True):
    if 'benchmark' in f: continue
    s=open(f).read()
    s=re.sub(r'//.*','',s)
    for m in re.finditer(r'\buse\s+([^;]+);',s):
        for x in expand(re.sub(r'\s+',' ',m.group(1))):
            if x.startswith(root+'::'): out.add(x.replace(' ',''))
    for m in re.finditer(r'(?<![\w:])'+root+r'((?:::\w+)+)',s): out.add(root+m.group(1))
print('\n'.join(sorted(out)))
