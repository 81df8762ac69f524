#!/usr/bin/env python3
"""Mutation campaign on /repo/math against the mcmath checks, in private copies.
campaign.py mutants FILE                      list all mutants (file, line, old, new) as JSON lines
campaign.py work FILE OUT I N                 worker I of N (run inside: unshare -Urm, see campaign.sh)"""
import json, os, random, re, subprocess, sys
R = '/repo/math/src/'
FILES = {  # file -> checks to run first
 'xyk/math.rs': 'N01 N02 N11', 'lbp/lbp.rs': 'N03 N04 N11', 'omnipool/math.rs': 'N05 N06 N07 N11', 'omnipool/types.rs': 'N05 N06 N07 N11',
 'omnipool_subpools/math.rs': 'N20', 'stableswap/math.rs': 'N08 N09 N10 N11', 'stableswap/types.rs': 'N08 N09',
 'transcendental.rs': 'N12', 'support/rational.rs': 'N13', 'ratio.rs': 'N13 N14', 'support/u128.rs': 'N13', 'ema/math.rs': 'N14',
 'dynamic_fees/math.rs': 'N15', 'dynamic_fees/types.rs': 'N15', 'staking/math.rs': 'N16', 'liquidity_mining/liquidity_mining.rs': 'N17',
 'rate_limiter/math.rs': 'N18', 'fee.rs': 'N19', 'fraction.rs': 'N19', 'lib.rs': 'N01 N03', 'support/traits.rs': 'N13', 'types.rs': 'N05'}
ALL = ['N%02d' % i for i in range(1, 21)]
SUB = [(r'checked_add\b', ['checked_sub']), (r'checked_sub\b', ['checked_add', 'saturating_sub']), (r'checked_mul\b', ['checked_div', 'checked_add']), (r'checked_div\b', ['checked_mul']),
 (r'saturating_sub\b', ['saturating_add']), (r'saturating_add\b', ['saturating_sub']), (r'saturating_mul\b', ['saturating_add']),
 (r'checked_mul_int\b', ['checked_div_int']), (r'(?<![-<=])>=', ['>']), (r'(?<!<)<=', ['<']), (r' > ', [' >= ', ' < ']), (r' < ', [' <= ', ' > ']), (r'==', ['!=']), (r'!=', ['==']),
 (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' / ']), (r' / ', [' * ']), (r' % ', [' / ']), (r' << ', [' >> ']), (r' >> ', [' << ']), (r'&&', ['||']), (r'\|\|', ['&&']),
 (r'Rounding::Up\b', ['Rounding::Down']), (r'Rounding::Down\b', ['Rounding::Up']), (r'Rounding::Nearest\b', ['Rounding::Down']), (r'Rounding::Minimal\b', ['Rounding::Up']),
 (r'\.min\(', ['.max(']), (r'\.max\(', ['.min(']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\bOk\(true\)', ['Ok(false)']),
 (r'\bIncrease\b', ['Decrease']), (r'\bDecrease\b', ['Increase']), (r'\bis_zero\b', ['is_one']), (r'ROUND_UP|ONE\b', ['0']),
 (r'_in\b(?!\()', ['_out']), (r'_out\b(?!\()', ['_in']), (r'\breserve\b', ['hub_reserve']), (r'\bhub_reserve\b', ['reserve']), (r'\bprotocol_shares\b', ['shares']), (r'\bshares\b', ['protocol_shares']),
 (r'\.n\b', ['.d']), (r'\.d\b', ['.n']), (r'\bmul_floor\b', ['mul_ceil']), (r'\.checked_add\((?:1|ONE|U256::one\(\)|Balance::one\(\)|U256::from\(1u128\))\)\?', ['']), (r'\.checked_sub\((?:1|ONE)\)\?', ['']),
 (r'(?<![\w.])(\d+)(u128|u32|u64|u8|usize|_?f64)?\b(?![\w.])', ['INC']), (r'if (?!let)([^{]+) \{', ['IFT', 'IFF'])]
def mutants():
    out = []
    for f in FILES:
        if not os.path.exists(R + f): continue
        txt = open(R + f).read().split('\n'); intest = False
        for i, l in enumerate(txt):
            if '#[cfg(test)]' in l or 'mod test' in l: intest = True
            s = l.strip()
            if intest or s.startswith(('//', '#', 'use ', 'pub use', 'pub mod', 'mod ')) : continue
            if s.startswith(('pub const', 'const', 'pub type')) and not re.search(r'= .*\d', s): continue
            code = l.split('//')[0]
            for rx, news in SUB:
                for m in re.finditer(rx, code):
                    if re.match(r'.*\bfn\b|.*->', code) : continue
                    for n in news:
                        if n == 'INC': n2 = str(int(m.group(1)) + 1) + (m.group(2) or '')
                        elif n == 'IFT': n2 = 'if true || (%s) {' % m.group(1)
                        elif n == 'IFF': n2 = 'if false && (%s) {' % m.group(1)
                        else: n2 = n
                        new = code[:m.start()] + n2 + code[m.end():]
                        out.append(dict(file=f, line=i + 1, old=l.strip(), new=new.strip(), full=new))
    return out
def sh(c, t=900, **k):
    try: return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, text=True, **k)
    except subprocess.TimeoutExpired: return None
def work(src, dst, me, n):
    ms = [json.loads(l) for l in open(src)][me::n]
    base = set(json.load(open('/opt/vp/BASELINE.json')).get('passed') or json.load(open('/opt/vp/BASELINE.json'))['stable'])
    env = dict(os.environ, CARGO_TARGET_DIR='/tmp/mt/t%d' % me, VERIF_DIR='/tmp/mt/v%d' % me, VERIF_SEED='1', VERIF_TIER='quick')
    done = set()
    for m in ms:
        p = R + m['file']; orig = open(p).read()
        L = orig.split('\n'); assert L[m['line'] - 1].strip() == m['old'], m
        L[m['line'] - 1] = m['full']; open(p, 'w').write('\n'.join(L))
        try: r = one(m, base, env)
        finally: open(p, 'w').write(orig)
        m = dict(m, **r); m.pop('full')
        open(dst, 'a').write(json.dumps(m) + '\n')
def one(m, base, env):
    b = sh('. /verif/mc/env.sh; export CARGO_TARGET_DIR=%s; cd /verif/mc && touch /repo/math/src/lib.rs && cargo build --release --offline -q -p mcmath 2>&1 | tail -5' % env['CARGO_TARGET_DIR'], 600, env=env)
    if b is None or b.stdout.strip().find('error') >= 0: return dict(res='nobuild')
    t = sh('bash /opt/vp/test.sh /tmp/mt/out.%d.json' % os.getpid(), 400)
    try: d = json.load(open('/tmp/mt/out.%d.json' % os.getpid())); ok = base <= set(d['passed'])
    except Exception: ok = False
    if not ok: return dict(res='tests')
    first = FILES[m['file']].split(); order = first + [x for x in ALL if x not in first]
    for c in order:
        r = sh('cd %s && MC_CAP=60 %s/release/mcmath %s' % (env['VERIF_DIR'], env['CARGO_TARGET_DIR'], c), 300, env=env)
        if r is None: return dict(res='caught', by=c + ' (timeout)')
        if r.returncode == 1: return dict(res='caught', by=c, first=c in first)
        if r.returncode: return dict(res='crash', by=c, out=r.stdout[-300:])
    return dict(res='SURVIVED')
if sys.argv[1] == 'mutants':
    ms = mutants(); random.Random(7).shuffle(ms)
    with open(sys.argv[2], 'w') as f:
        for m in ms: f.write(json.dumps(m) + '\n')
    from collections import Counter; print(len(ms), Counter(m['file'] for m in ms))
else: work(sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5]))
