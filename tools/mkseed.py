#!/usr/bin/env python3
"""Development aid: writes seeded/<id>/ from a description: mkseed.py FILE where FILE defines SEEDS = [dict(id, property, file, old, new, demo, needs, breaks)].
'old'/'new' may be lists (several replacements, each in 'file' or as (file, old, new) tuples)."""
import json, os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
for s in ns["SEEDS"]:
    d = os.path.join(V, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="mkseed")
    subprocess.check_call("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm b" % (t, t), shell=True)
    edits = s.get("edits") or [(s["file"], s["old"], s["new"])]
    for f, o, n in edits:
        p = os.path.join(t, f); x = open(p).read()
        assert x.count(o) == 1, (s["id"], f, x.count(o), o)
        open(p, "w").write(x.replace(o, n))
    root = subprocess.check_output("git -C /repo rev-list --max-parents=0 HEAD", shell=True, text=True).strip()
    for f, o, n in edits:  # the changed lines must be the original repository's
        ls = open(os.path.join("/repo", f)).read(); a = ls[:ls.index(o)].count("\n") + 1; b = a + o.count("\n")
        new = set(x.strip() for x in n.splitlines())
        for bl in subprocess.check_output(["git", "-C", "/repo", "blame", "-l", "--root", "-L", "%d,%d" % (a, b), f], text=True).splitlines():
            if bl.split()[0].lstrip("^")[:39] != root[:39] and bl.split(")", 1)[1].strip() not in new and bl.split(")", 1)[1].strip(): print("   NOT ORIGINAL:", s["id"], f, bl.split(")", 1)[1])
    df = subprocess.check_output(["git", "-C", t, "diff"], text=True)
    open(d + "/patch.diff", "w").write(df)
    demo = s["demo"]
    if "int main" not in demo:
        demo = '#include "TinyTorch.h"\n#include "Operations.h"\n#include <cstdio>\n#include <cmath>\n#include <vector>\nusing namespace tinytorch;\nstatic int bad(const char* m) { printf("%s\\n", m); return 1; }\nint main() {\n' + demo + '\nreturn 0; }\n'
    open(d + "/demo.cpp", "w").write(demo)
    shutil.copy(V + "/tools/demo_template.sh", d + "/demo.sh")
    if s.get("sources"): open(d + "/sources", "w").write(s["sources"] + "\n")
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(t)
    print(s["id"])
