#!/usr/bin/env python3
"""Plants a bug: mkbug.py SPEC.py
SPEC defines: id, prop, needs, breaks, edits=[(file, old, new)], and either
fs=(scenario, prop, keyre, nseeds, least, [extra...]) or files={name: text} with demo=text.
Works in a scratch copy; verifies build, tests and demo both ways."""
import sys, os, json, shutil, subprocess
spec = {}; exec(open(sys.argv[1]).read(), spec)
W = os.environ.get("W", "/tmp/w"); V = "/verif"; D = V + "/seeded/" + spec["id"]
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def sync():
    sh("mkdir -p %s && rsync -a --delete --exclude _build --exclude '*.o' --exclude '*.dep' --exclude '*.a' --exclude bin/ /repo/ %s/ 2>/dev/null || (rm -rf %s && cp -a /repo %s)" % (W, W, W, W))
sync(); sh("git -C %s checkout -q -- ." % W)
for f, old, new in spec["edits"]:
    p = os.path.join(W, f); s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
diff = sh("git -C %s diff" % W).stdout
os.makedirs(D, exist_ok=True)
open(D + "/patch.diff", "w").write(diff)
json.dump({"property": spec["prop"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(D + "/meta.json", "w"), indent=1)
shutil.rmtree(D + "/kit", ignore_errors=True)
if "fs" in spec:
    sc, pr, key, n, least, extra = spec["fs"]
    os.makedirs(D + "/kit/vlib")
    shutil.copy(V + "/tools/demokit/fsdemo.py", D + "/kit/"); shutil.copy(V + "/vlib/build.py", D + "/kit/vlib/")
    shutil.copytree(V + "/fsim", D + "/kit/fsim")
    os.makedirs(D + "/kit/mon")
    open(D + "/kit/mon/.keep", "w").close()
    demo = "#!/bin/sh\n# %s\nexec python3 -B \"$(dirname \"$0\")/kit/fsdemo.py\" %s %s '%s' %d %d %s\n" % (spec["breaks"].replace("\n", " "), sc, pr, key, n, least, " ".join(extra))
else:
    for n, t in spec.get("files", {}).items(): open(os.path.join(D, n), "w").write(t)
    demo = spec["demo"]
open(D + "/demo.sh", "w").write(demo); os.chmod(D + "/demo.sh", 0o755)
if "--nocheck" in sys.argv: sys.exit(0)
# the demonstration: unchanged tree, then the changed one
t = D
r0 = sh("cd /repo && bash %s/demo.sh" % D)
r1 = sh("cd %s && bash %s/demo.sh" % (W, D))
print("demo unchanged: %d  changed: %d" % (r0.returncode, r1.returncode)); print(r0.stdout[-600:]); print(r1.stdout[-1200:])
