#!/usr/bin/env python3
"""Development aid: confirm planted bugs in scratch copies of /repo, and run the checks against them.
seedtool.py verify [ID...]  in a private mount namespace with a scratch copy bound over /repo: build with the patch, run
                            the stable tests, run demo.sh with and without the patch
seedtool.py check [ID...]   run the property's quick check against the patched copy (VERIF_REPO)
"""
import json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("SEEDW", "/tmp/seedw")
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def check(i):
    d = os.path.join(V, "seeded", i); meta = json.load(open(d + "/meta.json")); c = "%s/chk_%s" % (W, i)
    sh("rm -rf %s; mkdir -p %s; cp -a /repo %s" % (c, W, c))
    a = sh("cd %s && git checkout -q -- . && git apply %s/patch.diff" % (c, d))
    if a.returncode: print(i, "patch does not apply"); return
    r = sh("cd %s && VERIF_REPO=%s python3 run.py %s %s" % (V, c, meta["property"], os.environ.get("TIERX", "quick")))
    lines = r.stdout.splitlines()
    idx = [k for k, l in enumerate(lines) if l.startswith("VIOLATION")]
    print("%-28s %s %s" % (i, meta["property"], "CAUGHT " + lines[idx[0] + 1].strip()[:150] if r.returncode == 1 else "MISSED rc=%d" % r.returncode))
    if r.returncode != 1: print("   " + "\n   ".join(lines[-6:]))
    sh("rm -rf %s" % c); sys.stdout.flush()
INNER = r'''
set -e
mount --bind %(c)s /repo
cd /repo
git checkout -q -- .
bash /opt/vp/build.sh >/dev/null
bash %(d)s/demo.sh > %(c)s.d0 2>&1 && echo demo0=ok || echo demo0=FAIL
git apply %(d)s/patch.diff
if bash /opt/vp/test.sh %(c)s.json > %(c)s.t 2>&1; then echo tests=ok; else echo tests=FAIL; fi
bash %(d)s/demo.sh > %(c)s.d1 2>&1 && echo demo1=PASSES || echo demo1=fails
'''
def verify(i):
    d = os.path.join(V, "seeded", i); c = "%s/ver_%s" % (W, i)
    sh("rm -rf %s; mkdir -p %s; cp -a /repo %s" % (c, W, c))
    r = subprocess.run(["unshare", "-m", "bash", "-c", INNER % {"c": c, "d": d}], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    n = len(json.load(open(c + ".json"))["passed"]) if os.path.exists(c + ".json") else -1
    ok = "demo0=ok" in r.stdout and "demo1=fails" in r.stdout and n >= 112
    print("%-28s %s passed=%d %s" % (i, "OK" if ok else "BAD", n, r.stdout.replace("\n", " ")[-300:]))
    rd = lambda p: open(p).read()[-700:] if os.path.exists(p) else ""
    if not ok: print(rd(c + ".d0"), "\n--\n", rd(c + ".d1"), "\n--\n", rd(c + ".t") if n < 112 else "")
    else: print("    demo says: " + " ".join(rd(c + ".d1").split())[-200:])
    sh("rm -rf %s %s.json %s.d0 %s.d1 %s.t" % (c, c, c, c, c)); sys.stdout.flush()
def main():
    mode, ids = sys.argv[1], sys.argv[2:]
    if not ids: ids = sorted(os.listdir(V + "/seeded"))
    ids = [k for k in sorted(os.listdir(V + "/seeded")) if any(k == x or k.startswith(x) for x in ids)]
    if mode == "verify":
        with ThreadPoolExecutor(4) as ex: list(ex.map(verify, ids))
    else:
        for i in ids: check(i)
main()
