#!/usr/bin/env python3
"""Regenerates MANIFEST.json from harness/*.c and properties.jsonl."""
import json, os, re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA={}
exec(open(V+"/tools/na.py").read()) if os.path.exists(V+"/tools/na.py") else None
ids=[json.loads(l)["id"] for l in open(V+"/properties.jsonl")]
checks=[];na=[]
for i in ids:
    h=V+"/harness/"+i+".c"
    if i in NA: na.append({"property":i,"reason":NA[i]}); continue
    if not os.path.exists(h): na.append({"property":i,"reason":"no check built (yet)"}); continue
    t=open(h).read(); g=lambda k:" ".join(m.strip()+("" if m.strip().endswith(".") else ".") for m in re.findall(r"^//@"+k+r" (.*)$",t,re.M))
    note="Bounded symbolic execution of the LLVM IR of the real sources: every path within the bounds is explored and every assertion (plus memory safety of every access) decided by the solver. Bounds: "+g("bounds")
    if g("outside"): note+=" Outside: "+g("outside")
    if g("stubs"): note+=" Environment model: "+g("stubs")
    note+=" Trusts the clang front end, the engine (engine/), the libc model (lib/libc.c) and z3; counterexamples are replayed natively where the environment allows."
    checks.append({"property":i,"quick_cmd":f"python3 run.py {i} --tier quick","thorough_cmd":f"python3 run.py {i} --tier thorough","evidence_file":f"evidence/{i}.json","technique":"symbolic execution of the compiled LLVM IR with SMT (z3) deciding every branch and assertion","level":"model_checking","level_note":note})
m={"version":1,"setup_cmd":"bash engine/build.sh","checks":checks,"not_applicable":na,"notes":"No hooks in /repo. Each check rebuilds the bitcode of /repo's current sources; known-findings.txt lists repaired and open findings."}
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1); open(V+"/MANIFEST.json","a").write("\n")
print(len(checks),"checks",len(na),"n/a")
