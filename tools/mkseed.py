"""mk(id, prop, file, old, new, demo, needs, breaks): writes seeded/<id> (patch made in a scratch copy of the file)."""
import os, json, subprocess, tempfile, difflib
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH='''#!/bin/bash
# exit 0 when the behaviour is right
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
gcc -w -o "$t/demo" "$d/demo.c" -I/repo/include -I/repo/_build/include -L/repo/_build/lib %s -lpthread -lm || exit 3
cd "$t" && LD_LIBRARY_PATH=/repo/_build/lib timeout 60 ./demo
'''
LIBS="-lmstdlib_sql -lmstdlib_log -lmstdlib_net -lmstdlib_tls -lmstdlib_formats -lmstdlib_text -lmstdlib_io -lmstdlib_thread -lmstdlib"
def mk(id, prop, edits, demo, needs, breaks):
    d=f"{V}/seeded/{id}"; os.makedirs(d,exist_ok=True); out=""
    if isinstance(edits,tuple): edits=[edits]
    byf={}
    for f,o,n in edits: byf.setdefault(f,[]).append((o,n))
    for f,es in byf.items():
        s=t=open("/repo/"+f).read()
        for o,n in es:
            assert t.count(o)==1,(id,f,t.count(o),o); t=t.replace(o,n)
        out+="".join(x if x.endswith("\n") else x+"\n" for x in difflib.unified_diff(s.splitlines(True),t.splitlines(True),"a/"+f,"b/"+f))
    open(d+"/patch.diff","w").write(out)
    open(d+"/demo.c","w").write(demo)
    open(d+"/demo.sh","w").write(SH%LIBS); os.chmod(d+"/demo.sh",0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
