"""Runs the daemon built from the current directory's tree on a simulated filesystem
(kit/fsim) and reports how often one kind of violation was seen.
usage: fsdemo.py SCENARIO PROP KEYREGEX NSEEDS MIN [VARIANT] [k=v ...]
exit 1 if at least MIN of the NSEEDS runs show it."""
import sys, os, re, json, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__))
top = tempfile.mkdtemp(prefix="demo-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp")
os.environ["VERIF_REPO"] = os.getcwd()
os.environ["VERIF_BUILD"] = os.path.join(top, "b")
sys.path.insert(0, os.path.join(here, "vlib"))
import build
sc, prop, key, n, least = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5])
rest = sys.argv[6:]
variant = "plain"
if rest and "=" not in rest[0]: variant = rest.pop(0)
def one(seed):
    d = os.path.join(top, "r%d" % seed); os.makedirs(d + "/s"); out = d + "/out.json"
    cmd = [fsim, sc, "--bees", bees, "--scratch", d + "/s", "--out", out, "--seed", str(seed)]
    for o in rest: cmd += ["--opt", o]
    try: subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
    except subprocess.TimeoutExpired: pass
    r = []
    if os.path.exists(out):
        with open(out) as f: j = json.load(f)
        r = [v for v in j["violations"] if v["prop"] == prop and re.search(key, v["key"])]
        if j.get("san") and prop == "SAN":
            r += [{"key": "san", "msg": b[:3000]} for b in j["san"].split("==================") if re.search(key, b)]
    shutil.rmtree(d, ignore_errors=True)
    return r
try:
    bees, fsim = build.sut_and_harness(variant)
    with ThreadPoolExecutor(12) as ex: res = list(ex.map(one, range(1, n + 1)))
    bad = [r for r in res if r]
    print("%d of %d runs: %s" % (len(bad), n, key))
    for r in bad[:2]: print("  " + r[0]["msg"][:700])
finally:
    shutil.rmtree(top, ignore_errors=True)
sys.exit(1 if len(bad) >= least else 0)
