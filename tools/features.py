import json,subprocess,os,collections
pk=sorted(set(l.split()[1] for l in open('/verif/checks.tsv')))
feat=collections.defaultdict(lambda: collections.defaultdict(set))
env=dict(os.environ,RUSTC_BOOTSTRAP='1')
def units(args):
    o=subprocess.run(['cargo','build','--release','--offline','--unit-graph','-Z','unstable-options']+args,capture_output=True,text=True,env=env)
    if o.returncode: print(o.stderr[-500:])
    for u in json.loads(o.stdout)['units']:
        if u['mode']!='build': continue
        k=('host' if 'proc-macro' in u['target']['kind'] or u.get('is_std') else '', u['pkg_id'].split(' (')[0], u['target']['kind'][0], u['profile']['name']+str(u['profile']['opt_level']))
        yield k, tuple(sorted(u['features']))
for p in pk:
    for k,f in units(['-p',p]): feat[k][f].add(p)
allf=collections.defaultdict(set)
for k,f in units(sum([['-p',p] for p in pk],[])): allf[k].add(f)
for k in sorted(allf):
    a=allf[k]; b=set(feat[k])
    if a!=b: print(k,'ALL',a,'EACH',{f:len(v) for f,v in feat[k].items()})
