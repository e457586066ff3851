"""mkbug.make(id, property, [(file, old, new)...], needs, breaks, demo_ts|demo_sh, extra={name:text})
writes seeded/<id>/; the edit is made in a scratch copy of /repo's HEAD, never in /repo."""
import json, os, shutil, subprocess, stat
V="/verif"; R="/repo"; BASE="79ba9d0"
DEMO='''#!/bin/bash
# exit 0: the behaviour holds; nonzero: it is broken. cwd = the repository.
here="$(cd "$(dirname "$0")" && pwd)"
exec node "$here/run.mjs" "$here/demo.ts"
'''
def git(*a): return subprocess.run(["git","-C",R,*a],capture_output=True,text=True,check=True).stdout
def make(id, prop, edits, needs, breaks, ts=None, sh=None, extra=None):
    d=f"{V}/seeded/{id}"; os.makedirs(d,exist_ok=True)
    patch=""
    files={}
    for f,old,new in edits:
        cur=files.get(f) or git("show",f"HEAD:{f}")
        assert cur.count(old)==1,(id,f,cur.count(old),old)
        files[f]=cur.replace(old,new)
    t=f"/tmp/mkbug"; shutil.rmtree(t,ignore_errors=True)
    base_ok=False
    for f,new in files.items():
        for side,txt in (("a",git("show",f"HEAD:{f}")),("b",new)):
            os.makedirs(os.path.dirname(f"{t}/{side}/{f}"),exist_ok=True); open(f"{t}/{side}/{f}","w").write(txt)
        base=set(git("show",f"{BASE}:{f}").splitlines())
        p=subprocess.run(["diff","-u",f"a/{f}",f"b/{f}"],cwd=t,capture_output=True,text=True).stdout
        p=f"diff --git a/{f} b/{f}\n"+"".join(l+"\n" for l in p.splitlines())
        lines=p.splitlines(); lines[1]=f"--- a/{f}"; lines[2]=f"+++ b/{f}"; p="\n".join(lines)+"\n"
        rem=[l[1:] for l in lines[3:] if l.startswith("-")]
        orig=[l for l in rem if l in base and l.strip()]
        if orig: base_ok=True
        patch+=p
    assert base_ok,(id,"changes no original line")
    shutil.rmtree(t)
    open(d+"/patch.diff","w").write(patch)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
    open(d+"/demo.sh","w").write(sh or DEMO); os.chmod(d+"/demo.sh",0o755)
    if ts: open(d+"/demo.ts","w").write(ts.lstrip()); shutil.copy(V+"/tools/demo/run.mjs",d+"/run.mjs")
    for n,x in (extra or {}).items(): open(f"{d}/{n}","w").write(x)
