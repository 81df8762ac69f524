#!/usr/bin/env python3
"""Build and confirm planted bugs: python3 tools/mkseed.py [id...]  (definitions in tools/seeds/*.py).
For each: patch.diff, demo.sh, demo.rs, shim.tgz, meta.json in seeded/<id>; then confirm on /repo (apply, build,
tests, demo, undo) and say whether the property's quick check catches it. Use --noverify to only write files."""
import json, os, subprocess, sys, glob, importlib.util, io, tarfile, time
V = "/verif"; R = "/repo"
SEEDS = {}
def seed(id, prop, file, edits, demo, needs, what, kind="math"):
    if isinstance(edits, tuple): edits = [edits]
    SEEDS[id] = dict(prop=prop, file=file, edits=edits, demo=demo, needs=needs, what=what, kind=kind)
for f in sorted(glob.glob(V + "/tools/seeds/*.py")):
    spec = importlib.util.spec_from_file_location("s", f); m = importlib.util.module_from_spec(spec); m.seed = seed; spec.loader.exec_module(m)

# kind -> (members copied beside the demo, dependencies)
KINDS = {
    "mathf": (["shim/sp-arithmetic", "shim/sp-std", "repo/math"], 'hydra-dx-math = { path = "../mc/repo/math" }\nfixed = "=1.15.0"\n'),
    "math": (["shim/sp-arithmetic", "shim/sp-std", "repo/math"],
             'hydra-dx-math = { path = "../mc/repo/math" }\nsp-arithmetic = { path = "../mc/shim/sp-arithmetic" }\nprimitive-types = "0.12"\n'),
    "keccak": ([], 'module-evm-utility-macro = { path = "/opt/vp/slice/runtime/hydradx/src/evm/evm-utility/macro" }\n'),
}
DEMO = r'''#!/bin/bash
# exit 0 when the behaviour is right, nonzero when it is broken
set -e
here="$(cd "$(dirname "$0")" && pwd)"
export RUSTUP_TOOLCHAIN=1.75.0 CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
w="$(mktemp -d)"
trap 'find "$w" -delete' EXIT
mkdir -p "$w/demo/src"
[ -f "$here/shim.tgz" ] && tar -xzf "$here/shim.tgz" -C "$w"
cp "$here/demo.rs" "$w/demo/src/main.rs"
cp "$here/demo.toml" "$w/demo/Cargo.toml"
[ -f "$here/demo.lock" ] && cp "$here/demo.lock" "$w/demo/Cargo.lock"
cd "$w/demo"
CARGO_TARGET_DIR="$w/target" cargo build --offline -q 2>"$w/err" || { cat "$w/err" >&2; exit 9; }
"$w/target/debug/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def write(id):
    s = SEEDS[id]; d = f"{V}/seeded/{id}"; os.makedirs(d, exist_ok=True)
    old = {}
    for e in s["edits"]:
        f, (a, b) = (s["file"], e) if len(e) == 2 else (e[0], e[1:])
        p = f"{R}/{f}"; t = open(p).read(); old.setdefault(p, t)
        assert t.count(a) == 1, f"{id}: {t.count(a)} matches for {a!r} in {f}"
        open(p, "w").write(t.replace(a, b))
    diff = subprocess.run(["git", "-C", R, "diff"], stdout=subprocess.PIPE, text=True).stdout
    for p, t in old.items(): open(p, "w").write(t)
    assert diff
    open(d + "/patch.diff", "w").write(diff)
    members, deps = KINDS[s["kind"]]
    open(d + "/demo.toml", "w").write('[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[profile.dev]\nopt-level = 1\n[dependencies]\n' + deps)
    open(d + "/demo.rs", "w").write(s["demo"].strip() + "\n")
    open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
    if members:
        def flt(i):
            i.mtime = 0; i.uid = i.gid = 0; i.uname = i.gname = ""; return i
        buf = io.BytesIO()
        with tarfile.open(fileobj=buf, mode="w") as t:
            for m in members: t.add(f"{V}/mc/{m}", f"mc/{m}", filter=flt)
        import gzip
        with open(d + "/shim.tgz", "wb") as f:
            with gzip.GzipFile(fileobj=f, mode="wb", mtime=0, filename="") as g: g.write(buf.getvalue())
        sh(f"cp {V}/mc/Cargo.lock {d}/demo.lock")
    else: sh(f"cp /opt/vp/slice/Cargo.lock {d}/demo.lock")
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(d + "/meta.json", "w"), indent=1)
def verify(id):
    s = SEEDS[id]; d = f"{V}/seeded/{id}"; out = []
    r = sh(f"cd {R} && timeout 300 bash {d}/demo.sh")
    out.append("demo-clean " + ("ok" if r.returncode == 0 else f"FAIL({r.returncode}) {r.stdout[-800:]}"))
    assert sh(f"git -C {R} apply {d}/patch.diff").returncode == 0, id
    try:
        r = sh("bash /opt/vp/build.sh"); out.append("build " + ("ok" if r.returncode == 0 else "FAIL " + r.stdout[-800:]))
        r = sh("bash /opt/vp/test.sh /tmp/seed_out.json"); n = len(json.load(open("/tmp/seed_out.json"))["passed"]); out.append(f"tests {n}")
        t = time.time(); r = sh(f"cd {R} && timeout 300 bash {d}/demo.sh"); out.append(f"demo-bug {'ok' if r.returncode not in (0, 9) else 'FAIL(%d)' % r.returncode} {time.time()-t:.0f}s [{r.stdout.strip()[-160:]}]")
        t = time.time(); r = sh(f"cd {V} && VERIF_TIER=quick VERIF_SEED=1 timeout 900 bash run.sh {s['prop']}")
        out.append(f"check {'CAUGHT' if r.returncode == 1 and 'VIOLATION property=' + s['prop'] in r.stdout else 'MISSED(%d)' % r.returncode} {time.time()-t:.0f}s")
        if r.returncode == 1: out.append([l for l in r.stdout.splitlines() if l.startswith("  [")][0][:160] if "  [" in r.stdout else "")
    finally:
        sh(f"git -C {R} checkout -- .")
    rf = V + "/tools/seed_results.json"; res = json.load(open(rf)) if os.path.exists(rf) else {}
    res[id] = "yes" if any(o.startswith("check CAUGHT") for o in out) else "no"
    json.dump(res, open(rf, "w"), indent=1, sort_keys=True)
    print(id, "|", " | ".join(out), flush=True)
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or list(SEEDS)
for i in ids: write(i)
if "--noverify" not in sys.argv:
    for i in ids: verify(i)
    sh("bash /opt/vp/build.sh")
