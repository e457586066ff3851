#!/usr/bin/env python3
"""Verify planted bugs: plant.py [ID ...] [--all-checks] [--no-test]
For each seeded/<id>: the patch applies to /repo HEAD, builds, keeps the stable tests,
its demo passes without and fails with it; then runs the property's quick check."""
import json, os, subprocess, sys, glob
V="/verif"; R="/repo"
args=[a for a in sys.argv[1:] if not a.startswith("--")]
allc="--all-checks" in sys.argv; notest="--no-test" in sys.argv
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
base=json.load(open("/opt/vp/BASELINE.json"))
ids=args or sorted(os.path.basename(d.rstrip("/")) for d in glob.glob(V+"/seeded/*/"))
checks=[c["property"] if "property" in c else c["id"] for c in json.load(open(V+"/MANIFEST.json"))["checks"]]
assert sh(f"git -C {R} status --porcelain").stdout.strip()=="", "repo dirty"
for i in ids:
    d=f"{V}/seeded/{i}"; meta=json.load(open(d+"/meta.json")); p=meta["property"]
    res=[]
    if not notest:
        r=sh(f"bash {d}/demo.sh",cwd=R); res.append(f"demo-clean={r.returncode}")
        if r.returncode: res.append(r.stdout[-300:]+r.stderr[-300:])
    a=sh(f"git -C {R} apply {d}/patch.diff")
    if a.returncode: print(i,p,"DOES NOT APPLY",a.stderr); continue
    try:
        if not notest:
            b=sh("bash /opt/vp/build.sh"); res.append(f"build={b.returncode}")
            if b.returncode: res.append((b.stdout+b.stderr)[-800:])
            sh("bash /opt/vp/test.sh /tmp/plant-out.json"); o=json.load(open("/tmp/plant-out.json"))
            lost=set(base["stable"])-set(o["passed"]); res.append(f"lost={len(lost)}")
            if lost: res.append(str(sorted(lost)[:4]))
            r=sh(f"bash {d}/demo.sh",cwd=R); res.append(f"demo-bug={r.returncode} {r.stdout.strip()[-160:]}")
        which=checks if allc else [p]
        hit=[]
        for c in which:
            k=sh(f"node {V}/harness/run.mjs {c}")
            if k.returncode==1 and f"VIOLATION property={c}" in k.stdout: hit.append(c+(": "+k.stdout.strip().splitlines()[0][:200] if c==p else ""))
            elif k.returncode!=0: hit.append(f"{c}?exit{k.returncode} {k.stderr[-200:]}")
        res.append("CAUGHT by "+"; ".join(hit) if hit else "MISSED")
    finally:
        sh(f"git -C {R} checkout -- .")
    print(i,p," | ".join(res),flush=True)
if not notest: sh("bash /opt/vp/build.sh")
