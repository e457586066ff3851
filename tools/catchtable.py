"""Rewrites the table of planted bugs in DESIGN.md from plantp.py's output: catchtable.py OUT.txt"""
import re,sys,json
rows=[]
for l in re.sub(r"\n(?!\S+ C\d\d demo)"," ",open(sys.argv[1]).read()).split("\n"):
    m=re.match(r"(\S+) (C\d\d) .*?(CAUGHT by|MISSED)(?: \S+ \[C\d\d\] (.*))?",l.rstrip())
    if not m: continue
    b=json.load(open(f"/verif/seeded/{m[1]}/meta.json"))["what_it_breaks"]
    c=lambda x:(x or "").replace("|","\\|").strip()
    rows.append((m[2],m[1],c(b),"caught" if m[3].startswith("C") else "MISSED",c(m[4])[:110]))
rows.sort()
t="## Planted bugs\n\nEach under seeded/<id>/ builds, keeps the stable tests passing and has a demonstration. Result of\nthe quick tier of the bug's own property (seed 1), as last run:\n\n| property | bug | breaks | result | what the monitor saw |\n|---|---|---|---|---|\n"
t+="".join("| "+" | ".join(r)+" |\n" for r in rows)
p="/verif/DESIGN.md"; s=open(p).read()
i=s.find("## Planted bugs"); s=(s[:i] if i>=0 else s.rstrip()+"\n\n")+t
open(p,"w").write(s); print(len(rows))
