#!/usr/bin/env python3
"""Writes mc/repo/<crate>/Cargo.toml: the crate of /repo built from its own sources against the
stand-ins in mc/shim.  Usage: shadow.py <dir in /repo>... (no arguments: every crate in the table)"""
import os, re, sys, tomllib
R, V = '/repo', '/verif/mc'
TABLE = open('/verif/tools/shadow.txt').read().split()
shims = set(os.listdir(V + '/shim'))
def pkgname(d): return tomllib.load(open(f'{R}/{d}/Cargo.toml', 'rb'))['package']['name']
# a crate which others replace by a stand-in of the same name (its tests depend on theirs) is built under another name
RENAME = {'runtime/adapters': 'runtime-adapters'}
repo = {pkgname(d): d for d in TABLE if d not in RENAME}
repo['hydra-dx-math'] = 'math'
repo['precompile-utils-macro'] = 'precompiles/utils/precompile-utils-macro'
REG = {'codec': 'package = "parity-scale-codec", version = "3.4.0", features = ["derive", "max-encoded-len"]', 'scale-info': 'version = "2.1.1", features = ["derive", "serde"]',
       'serde': 'version = "1", features = ["derive"]', 'primitive-types': 'version = "0.12", features = ["codec", "scale-info", "serde"]', 'impl-trait-for-tuples': 'version = "0.2"', 'log': 'version = "0.4"', 'hex-literal': 'version = "0.3"',
       'static_assertions': 'version = "1"', 'proptest': 'version = "1"', 'test-case': 'version = "2"', 'lazy_static': 'version = "1"', 'rand': 'version = "0.8"', 'rand_xoshiro': 'version = "0.6"', 'bitflags': 'version = "1"',
       'fixed': 'version = "=1.15.0", features = ["num-traits"]', 'num-traits': 'version = "0.2"', 'hex': 'version = "0.4"', 'rustc-hex': 'version = "2"', 'derive_more': 'version = "0.99", default-features = false, features = ["add"]', 'num_enum': 'version = "0.5"', 'ethereum': 'version = "0.14"', 'rlp': 'version = "0.5"', 'rug': 'version = "1.17", features = ["num-traits"]', 'once_cell': 'version = "1"', 'serde_json': 'version = "1"'}
def target(d): return os.path.basename(d) if d in ('math', 'traits', 'primitives') or d.startswith('precompiles') or d.startswith('utils') else pkgname(d)
def gen(d):
    m = tomllib.load(open(f'{R}/{d}/Cargo.toml', 'rb'))
    name = RENAME.get(d) or m['package']['name']
    out = f'{V}/repo/{RENAME.get(d) or target(d)}'
    os.makedirs(out, exist_ok=True)
    deps, feats, dropped = [], {'std': [], 'runtime-benchmarks': [], 'try-runtime': []}, []
    alld = {}
    for sec in ('dependencies', 'dev-dependencies'):
        for k, v in m.get(sec, {}).items(): alld[k] = v
    extra = EXTRA.get(name, [])
    for k in extra: alld.setdefault(k, {})
    for k in sorted(alld):
        v = alld[k]
        if k in ('frame-benchmarking', 'substrate-wasm-builder', 'sp-api') and k not in shims: continue
        pkg = v.get('package', k) if isinstance(v, dict) else k
        pkg = {'warehouse-liquidity-mining': 'pallet-liquidity-mining'}.get(pkg, pkg)
        if k in REG: deps.append(f'{k} = {{ {REG[k]} }}')
        elif pkg in repo and pkg != name: deps.append(f'{k} = {{ path = "../{target(repo[pkg])}", package = "{pkg}" }}' if pkg != k else f'{k} = {{ path = "../{target(repo[pkg])}" }}')
        elif pkg in shims: deps.append(f'{k} = {{ path = "../../shim/{pkg}"' + (f', package = "{pkg}"' if pkg != k else '') + ' }')
        elif pkg == name: pass
        else: dropped.append(k)
    for f in m.get('features', {}):
        feats.setdefault(f, [])
    open(out + '/Cargo.toml', 'w').write(f'''# written by tools/shadow.py
[package]
name = "{name}"
version = "{m['package'].get('version', '0.0.0') if isinstance(m['package'].get('version'), str) else '0.0.0'}"
edition = "2021"
[lib]
path = "{R}/{d}/src/lib.rs"
doctest = false
[dependencies]
''' + '\n'.join(deps) + '\n[features]\ndefault = ["std"]\n' + '\n'.join(f'{f} = []' for f in feats if f != 'default') + '\n')
    if dropped: print(name, 'dropped:', *dropped)
EXTRA = {}
for l in open('/verif/tools/shadow_extra.txt') if os.path.exists('/verif/tools/shadow_extra.txt') else []:
    p = l.split()
    if p: EXTRA[p[0]] = p[1:]
for d in (sys.argv[1:] or TABLE): gen(d)
