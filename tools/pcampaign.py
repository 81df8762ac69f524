#!/usr/bin/env python3
"""Mutation campaign on the pallets against the P checks, in private copies (see campaign.py for the math one).
pcampaign.py mutants FILE PER      sample PER mutants for every P check, as JSON lines
pcampaign.py work FILE OUT I N     worker I of N (inside a mount namespace of its own: /repo and /verif/mc are bound to copies)"""
import json, os, random, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
R = '/repo/'
ROWS = [l.split() for l in open('/verif/checks.tsv')]
PKG = {r[0]: r[1] for r in ROWS if r[0][0] == 'P'}
PROPS = {p['id']: p for p in map(json.loads, open('/verif/properties.jsonl')) if p['id'] in PKG}
SUB = [(r'checked_add\b', ['checked_sub']), (r'checked_sub\b', ['checked_add', 'saturating_sub']), (r'checked_mul\b', ['checked_div']), (r'checked_div\b', ['checked_mul']),
 (r'saturating_sub\b', ['saturating_add']), (r'saturating_add\b', ['saturating_sub']), (r'(?<![-<=])>=', ['>']), (r'(?<!<)<=', ['<']), (r' > ', [' >= ']), (r' < ', [' <= ']), (r'==', ['!=']), (r'!=', ['==']),
 (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' / ']), (r' / ', [' * ']), (r'&&', ['||']), (r'\|\|', ['&&']), (r'\.min\(', ['.max(']), (r'\.max\(', ['.min(']),
 (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\bIncrease\b', ['Decrease']), (r'\bDecrease\b', ['Increase']), (r'asset_in\b(?!\()', ['asset_out']), (r'asset_out\b(?!\()', ['asset_in']),
 (r'asset_a\b(?!\()', ['asset_b']), (r'asset_b\b(?!\()', ['asset_a']), (r'amount_in\b(?!\()', ['amount_out']), (r'amount_out\b(?!\()', ['amount_in']), (r'\bhub_reserve\b', ['reserve']), (r'\bprotocol_shares\b', ['shares']),
 (r'&([a-z_]+), &([a-z_]+)\b', ['SWAP']), (r'\((\w+), (\w+)\)', ['SWAPP']), (r'if (?!let)([^{]+) \{', ['IFT', 'IFF']), (r'ensure!\(([^,]+),', ['ENS']), (r'\bis_zero\(\)', ['is_one()']), (r'AllowDeath', ['KeepAlive']), (r'KeepAlive', ['AllowDeath']),
 (r'unwrap_or_default\(\)', ['unwrap_or(One::one())']), (r'mul_floor', ['mul_ceil']), (r'\.is_some\(\)', ['.is_none()']), (r'\.is_none\(\)', ['.is_some()']), (r'is_ok\(\)', ['is_err()'])]
def files(p):
    out = set(PROPS[p]['anchors']['files']) | {m['where'] for m in PROPS[p]['anchors']['mechanism']}
    return sorted(f.split(':')[0] for f in out if f.endswith('.rs') and os.path.exists(R + f))
def mutants(p):
    out = []
    names = {m['name'].split('::')[-1] for m in PROPS[p]['anchors']['mechanism']}
    for f in files(p):
        txt = open(R + f).read().split('\n'); stop = False; inw = 0; fn = ''
        for i, l in enumerate(txt):
            if re.search(r'cfg\(test\)|cfg\(feature = "runtime-bench', l): stop = bool(re.search(r'\bmod \w+ \{', ' '.join(txt[i:i + 2]))) or stop
            m = re.search(r'\bfn (\w+)', l)
            if m: fn = m.group(1)
            s = l.strip()
            if stop or not fn or s.startswith(('//', '#', 'use ', 'pub ', 'mod ', 'type ', 'const ', 'impl', 'fn ', 'where', 'log::', 'debug_assert', '}')) or 'weight' in fn.lower() or 'try_runtime' in fn or 'Weight' in l: continue
            code = l.split('//')[0]
            # statement deletion
            if re.match(r'\s*(Self::|T::|<|[A-Z]\w+::|ensure!|pallet_|self\.|\w+\.\w+|\*?\w+ [-+]?= )', code) and (txt[i - 1].strip().endswith((';', '{', '}')) or txt[i - 1].strip().startswith('//')):
                j, blk = i, code
                while j - i < 9 and j + 1 < len(txt) and not (blk.count('(') == blk.count(')') and blk.count('{') == blk.count('}') and blk.rstrip().endswith(';')): j += 1; blk += '\n' + txt[j]
                if blk.rstrip().endswith(';') and blk.count('(') == blk.count(')') and 'deposit_event' not in blk: out.append(dict(file=f, line=i + 1, end=j + 1, fn=fn, old=s, new='DEL', full=''))
            for rx, news in SUB:
                for m in re.finditer(rx, code):
                    if re.match(r'.*\bfn\b|.*->', code): continue
                    for n in news:
                        g = m.groups()
                        n2 = {'IFT': lambda: 'if true || (%s) {' % g[0], 'IFF': lambda: 'if false && (%s) {' % g[0], 'SWAP': lambda: '&%s, &%s' % (g[1], g[0]), 'SWAPP': lambda: '(%s, %s)' % (g[1], g[0]), 'ENS': lambda: 'ensure!(true || (%s),' % g[0]}.get(n, lambda: n)()
                        new = code[:m.start()] + n2 + code[m.end():]
                        if new != code: out.append(dict(file=f, line=i + 1, end=i + 1, fn=fn, old=s, new=new.strip(), full=new))
    for m in out: m['p'] = p; m['named'] = m['fn'] in names
    return out
def sh(c, t=900, **k):
    pr = subprocess.Popen(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, **k)
    try: o, _ = pr.communicate(timeout=t); pr.stdout_ = o; return pr
    except subprocess.TimeoutExpired: os.killpg(pr.pid, 9); pr.wait(); return None
def work(src, dst, me, n):
    ms = [json.loads(l) for l in open(src)][me::n]
    env = dict(os.environ, CARGO_TARGET_DIR='/tmp/mt/t%d' % me, VERIF_DIR='/tmp/mt/v%d' % me, VERIF_SEED='1', VERIF_TIER='quick')
    for m in ms:
        p = R + m['file']; orig = open(p).read(); L = orig.split('\n')
        if L[m['line'] - 1].strip() != m['old']: continue
        L[m['line'] - 1:m['end']] = [m['full']]; open(p, 'w').write('\n'.join(L))
        try: r = one(m, env)
        finally: open(p, 'w').write(orig)
        m = dict(m, **r); m.pop('full'); open(dst, 'a').write(json.dumps(m) + '\n')
def one(m, env):
    pkg = PKG[m['p']]
    b = sh('. /verif/mc/env.sh; export CARGO_TARGET_DIR=%s; cd /verif/mc && rm -f $CARGO_TARGET_DIR/release/%s && cargo build --release --offline -q -p %s 2>&1 | grep -E "^error" -A3 | head -5; test -x $CARGO_TARGET_DIR/release/%s' % (env['CARGO_TARGET_DIR'], pkg, pkg, pkg), 900, env=env)
    if b is None or b.returncode: return dict(res='nobuild', out=b.stdout_[:200] if b else '')
    for c in [m['p']] + [k for k in PKG if k != m['p'] and m['file'] in files(k)]:
        if PKG[c] != pkg: continue
        r = sh('cd %s && MC_CAP=150 %s/release/%s %s' % (env['VERIF_DIR'], env['CARGO_TARGET_DIR'], PKG[c], c), 400, env=env)
        if r is None: return dict(res='timeout', by=c)
        if r.returncode in (1, 101, 134, 136, 139): return dict(res='caught', by=c, rc=r.returncode)
        if r.returncode: return dict(res='crash', by=c, out=r.stdout_[-300:])
    return dict(res='SURVIVED')
if sys.argv[1] == 'mutants':
    rnd = random.Random(int(sys.argv[4]) if len(sys.argv) > 4 else 11); per = int(sys.argv[3]); pick = {}
    for p in PROPS:
        ms = mutants(p); rnd.shuffle(ms); ms.sort(key=lambda m: not m['named'])
        named = [m for m in ms if m['named']]; other = [m for m in ms if not m['named']]
        k = min(len(named), per * 3 // 4); pick[p] = named[:k] + other[:per - k]; rnd.shuffle(pick[p])
        print(p, len(named), len(other))
    with open(sys.argv[2], 'w') as f:
        for i in range(per):
            for p in pick:
                if i < len(pick[p]): f.write(json.dumps(pick[p][i]) + '\n')
else: work(sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5]))
