#!/usr/bin/env python3
"""Like plant.py, but in scratch copies of /repo, several at a time: plantp.py [ID ...] [--all-checks] [--no-test] [-j N]
The checks run against the copy through VERIF_REPO (development only; registered commands use /repo)."""
import json, os, subprocess, sys, glob, queue, threading, shutil
V="/verif"; R="/repo"
argv=sys.argv[1:]; J=3
if "-j" in argv: k=argv.index("-j"); J=int(argv[k+1]); del argv[k:k+2]
args=[a for a in argv if not a.startswith("--")]
allc="--all-checks" in argv; notest="--no-test" in argv
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
base=json.load(open("/opt/vp/BASELINE.json"))
ids=args or sorted(os.path.basename(d.rstrip("/")) for d in glob.glob(V+"/seeded/*/"))
checks=[c["property"] for c in json.load(open(V+"/MANIFEST.json"))["checks"]]
q=queue.Queue(); [q.put(i) for i in ids]; lock=threading.Lock(); out={}
def one(i,C):
    d=f"{V}/seeded/{i}"; meta=json.load(open(d+"/meta.json")); p=meta["property"]; res=[]
    if not notest:
        r=sh(f"bash {d}/demo.sh",cwd=C); res.append(f"demo-clean={r.returncode}")
        if r.returncode: res.append(r.stdout[-300:]+r.stderr[-300:])
    a=sh(f"git -C {C} apply {d}/patch.diff")
    if a.returncode: return f"{i} {p} DOES NOT APPLY {a.stderr}"
    try:
        if not notest:
            b=sh(f"sed 's#/repo#{C}#g' /opt/vp/build.sh | bash"); res.append(f"build={b.returncode}")
            if b.returncode: res.append((b.stdout+b.stderr)[-800:])
            sh(f"sed 's#/repo#{C}#g' /opt/vp/test.sh > {C}.test.sh; sed 's#/repo#{C}#g' /opt/vp/results.py > {C}.results.py; sed -i 's#/opt/vp/results.py#{C}.results.py#' {C}.test.sh; bash {C}.test.sh {C}.out.json")
            o=json.load(open(f"{C}.out.json")); lost=set(base["stable"])-set(o["passed"]); res.append(f"lost={len(lost)}")
            if lost: res.append(str(sorted(lost)[:4]))
            r=sh(f"bash {d}/demo.sh",cwd=C); res.append(f"demo-bug={r.returncode} {(r.stdout+r.stderr).strip()[-160:]}")
        hit=[]
        for c in (checks if allc else [p]):
            k=sh(f"VERIF_REPO={C} VERIF_EVIDENCE={C}.ev node {V}/harness/run.mjs {c}")
            if k.returncode==1 and f"VIOLATION property={c}" in k.stdout:
                l=[x for x in k.stdout.splitlines() if x.startswith("["+c)]
                hit.append(c+(": "+l[0][:200] if c==p and l else ""))
            elif k.returncode!=0: hit.append(f"{c}?exit{k.returncode} {k.stderr[-200:]}")
        res.append("CAUGHT by "+"; ".join(hit) if hit else "MISSED")
    finally: sh(f"git -C {C} checkout -- .")
    return f"{i} {p} "+" | ".join(res)
def work(n):
    C=f"/tmp/plantcopy{n}"; shutil.rmtree(C,ignore_errors=True); sh(f"cp -a {R} {C} && git -C {C} checkout -- .")
    while True:
        try: i=q.get_nowait()
        except queue.Empty: break
        try: t=one(i,C)
        except Exception as e: t=f"{i} ERROR {e!r}"
        with lock: print(t,flush=True)
    sh(f"rm -rf {C} {C}.*")
ts=[threading.Thread(target=work,args=(n,)) for n in range(min(J,len(ids)))]
[t.start() for t in ts]; [t.join() for t in ts]
