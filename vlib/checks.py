"""Runs the checks: builds the code under test from /repo's working tree, drives the
scenarios of a property's plan, judges what the monitors reported, writes evidence."""
import sys, os, json, subprocess, tempfile, shutil, time, re, collections, glob
import concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, plans

VERIF = build.VERIF
EVID = os.path.join(VERIF, "evidence")
SCRATCH = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"

class Run:
    __slots__ = ("kind", "scenario", "variant", "opts", "seed", "out", "rc", "err", "wall")
    def __init__(s, kind, scenario, variant, opts, seed):
        s.kind, s.scenario, s.variant, s.opts, s.seed = kind, scenario, variant, dict(opts), seed
        s.out = None; s.rc = None; s.err = ""; s.wall = 0
    def desc(s):
        return {"kind": s.kind, "scenario": s.scenario, "variant": s.variant, "opts": s.opts, "seed": s.seed}
    def clone(s, seed=None, **kw):
        o = dict(s.opts); o.update(kw)
        return Run(s.kind, s.scenario, s.variant, o, s.seed if seed is None else seed)

_bins = {}
def binary(r):
    k = (r.kind, r.variant) if r.kind == "fsim" else (r.kind, r.scenario, r.variant)
    if k not in _bins:
        _bins[k] = build.sut_and_harness(r.variant) if r.kind == "fsim" else plans.build_mon(r.scenario, r.variant)
    return _bins[k]

def execute(r):
    d = tempfile.mkdtemp(prefix="verif-%s-" % r.kind, dir=SCRATCH)
    out = os.path.join(d, "out.json")
    t = time.time()
    try:
        env = {k: v for k, v in os.environ.items() if not k.startswith(("BEES", "ASAN_", "UBSAN_", "TSAN_"))}
        scale = {"plain": 1, "o2": 1, "dbg": 2, "asan": 1.5, "tsan": 2}.get(r.variant, 1)
        o = dict(r.opts)
        if r.kind == "fsim":
            b, h = binary(r)
            o["scale"] = scale * float(o.get("scale", 1))
            sc = os.path.join(d, "s"); os.mkdir(sc)
            cmd = [h, r.scenario, "--bees", b, "--scratch", sc, "--out", out, "--seed", str(r.seed)]
        else:
            cmd = [binary(r), "--seed", str(r.seed), "--out", out, "--scratch", d]
            env["ASAN_OPTIONS"] = "log_path=%s/san:detect_leaks=0:exitcode=99:allocator_may_return_null=1" % d
            env["UBSAN_OPTIONS"] = "log_path=%s/san:print_stacktrace=1" % d
            env["TSAN_OPTIONS"] = "log_path=%s/san:halt_on_error=0:exitcode=0:second_deadlock_stack=1:history_size=6:report_thread_leaks=0:atexit_sleep_ms=0" % d
        for k, v in sorted(o.items()):
            cmd += ["--opt", "%s=%s" % (k, v)]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, start_new_session=True, cwd=d)
        try:
            so, _ = p.communicate(timeout=plans.WATCHDOG * scale)
            r.rc = p.returncode
        except subprocess.TimeoutExpired:
            r.rc = "watchdog"
            subprocess.run(["pkill", "-KILL", "-g", str(p.pid)], check=False)
            try: so, _ = p.communicate(timeout=20)
            except Exception: so = b""
        r.err = so.decode("utf-8", "replace")[-4000:]
        if os.path.exists(out):
            try:
                with open(out) as f: r.out = json.load(f)
            except ValueError as e:
                r.err += "\nbad output: %s" % e
        san = ""
        for f in glob.glob(d + "/san.*"):
            with open(f, errors="replace") as g: san += g.read()
        if r.kind == "mon":
            # undefined behaviour is reported on the standard error output
            txt = so.decode("utf-8", "replace")
            for m in list(re.finditer(r"^\S+:\d+:\d+: runtime error: ", txt, re.M))[:5]: san += txt[m.start():m.start() + 3000] + "\n"
        if san:
            if r.out is None: r.out = {"violations": [], "stat": {}, "inconclusive": "", "san": "", "digest": ""}
            r.out["san"] = r.out.get("san", "") + san
        if r.kind == "mon" and r.out is None and isinstance(r.rc, int) and r.rc < 0 and r.rc != -9:
            # a monitor program runs the code under test in its own process
            r.out = {"violations": [{"prop": "*", "key": "crash:signal%d" % -r.rc, "msg": "program using the library died with signal %d: %s" % (-r.rc, r.err[-1500:])}], "stat": {}, "inconclusive": "", "san": "", "digest": ""}
        if r.kind == "mon" and r.out is None and r.rc == "watchdog":
            r.out = {"violations": [], "stat": {}, "inconclusive": "did not finish", "hang_prop": "*", "san": "", "digest": ""}
    finally:
        shutil.rmtree(d, ignore_errors=True)
        r.wall = time.time() - t
    return r

def run_all(runs, par):
    for r in runs: binary(r)          # build first, once
    with cf.ThreadPoolExecutor(par) as ex:
        return list(ex.map(execute, runs))

# ------------------------------------------------------------------ sanitizer reports
def _frames(txt):
    out = []
    for m in re.finditer(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) (/[^\s:]+):(\d+)", txt):
        out.append((re.sub(r"\(.*", "", m.group(1)).strip(), os.path.basename(m.group(2)), m.group(2)))
    return out
def san_reports(txt, variant):
    """list of (key, text): keys do not contain line numbers"""
    res = []
    if variant == "tsan":
        for blk in txt.split("=================="):
            m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]+)", blk)
            if not m: continue
            kind = m.group(1).strip()
            if kind == "thread leak": continue
            # one side's stack is no longer known: nothing to classify (a real race is seen again)
            if "failed to restore the stack" in blk: continue
            sides = []
            for s in re.split(r"\n\s*\n", blk):
                if re.search(r"(?i)\b(read|write) of size|^\s*Cycle|Mutex M\d+ acquired", s):
                    fr = [f for f in _frames(s) if build.REPO + "/" in f[2] or "/verif/" in f[2]][:2]
                    sides.append("<".join(f[0].split("::")[-1] + "@" + f[1] for f in fr))
            # drop the parts of a stack that make it long without saying anything
            short = re.sub(r" \(BuildId: [^)]*\)| \(bees-[^)]*\)", "", blk)
            short = "\n".join(l for l in short.split("\n") if "/c++/" not in l)
            res.append(("tsan:%s:%s" % (kind, "|".join(sorted(set(sides)))), short.strip()[:12000]))
    else:
        for m in re.finditer(r"(?:ERROR: AddressSanitizer: ([^\n]+)|([^\s:]+):\d+:\d+: runtime error: ([^\n]+))", txt):
            seg = txt[m.start():m.start() + 6000]
            fr = [f for f in _frames(seg) if build.REPO + "/" in f[2]][:2]
            if m.group(1): k = "asan:" + m.group(1).split(" ")[0]
            else: k = "ubsan:" + re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(3))[:80] + "@" + os.path.basename(m.group(2))
            res.append((k + ":" + "<".join(f[0].split("::")[-1] + "@" + f[1] for f in fr), seg))
        if txt.strip() and not res: res.append(("asan:other", txt[:3000]))
    return res

# ------------------------------------------------------------------ known findings
def known_findings():
    p = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    if not os.path.exists(p): return []
    with open(p) as f: return [k for k in json.load(f)["findings"] if k["status"] == "known"]
def match_known(kf, prop, key, msg):
    for k in kf:
        if prop in k["properties"] and re.search(k["key"], key) and re.search(k.get("text", ""), msg, re.S): return k
    return None

SOFT = re.compile(r"not-scanned|not-deduped|space-grew|temporary-space|no-exit|not-paused|not-retried|progress-lost|restarted|second-pass|hang|slow-lookups|counter|progress-|generation-|starved|late")
LIVENESS = {"B03", "B05", "B06", "B08", "B11", "B15", "B16", "B17", "B18"}

class Checker:
    def __init__(s, prop, tier, seed):
        s.prop, s.tier, s.seed = prop, tier, seed
        s.plan = plans.PLANS[prop]
        s.kf = known_findings()
        s.known_hits = {}
        s.inconc = []; s.errors = []; s.notes = []; s.others = collections.Counter(); s.osamples = []
        s.runs = []; s.viol = []          # (key, msg, run)

    def findings(s, r):
        """violations of this check's property in one run"""
        res = []
        if not r.out: return res
        for v in r.out.get("violations", []):
            p = v["prop"]
            if p == s.prop or p == "*" or (p == "B19" and v["key"].startswith("daemon-crashed") and s.prop in LIVENESS):
                res.append((v["key"], v["msg"]))
            else: s.others[p + " " + v["key"]] += 1; s.osamples.append({"key": p + " " + v["key"], "msg": v["msg"][:600], "run": r.desc()})
        if r.out.get("san"):
            p = "B20" if r.variant == "tsan" else "B19"
            for k, t in san_reports(r.out["san"], r.variant):
                if p == s.prop or (r.kind == "mon" and s.plan.get("own_san")): res.append((k, t))
                else: s.others[p + " " + k] += 1
        out = []
        for k, m in res:
            f = match_known(s.kf, s.prop, k, m)
            if f:
                s.known_hits[f["id"]] = s.known_hits.get(f["id"], 0) + 1
                continue
            out.append((k, m))
        return out

    def hang_counts(s, r):
        hp = r.out.get("hang_prop", "") if r.out else ""
        return hp in (s.prop, "*") or (hp and s.prop in LIVENESS)

    def go(s):
        t0 = time.time()
        par = int(os.environ.get("VERIF_PAR", s.plan.get("par", plans.PAR)))
        runs = plans.expand(s.prop, s.tier, s.seed)
        s.runs = run_all(runs, par)
        # runs without a verdict are repeated once, with more time
        again = [r for r in s.runs if r.out is None or (r.out.get("inconclusive") and not self_found(s, r))]
        if again:
            redo = run_all([r.clone(scale=2) if r.kind == "fsim" else r.clone() for r in again[:24]], max(4, par // 3))
            for a, b in zip(again, redo):
                if b.out is None:
                    s.errors.append("%s seed %d: no result (%s) %s" % (b.scenario, b.seed, b.rc, b.err[-300:]))
                elif b.out.get("inconclusive"):
                    if a.out and s.hang_counts(a) and s.hang_counts(b):
                        s.viol.append(("hang", "%s: seed %d twice: %s" % (b.scenario, b.seed, b.out["inconclusive"]), b))
                    else: s.inconc.append("%s seed %d: %s" % (b.scenario, b.seed, b.out["inconclusive"]))
                if b.out is not None: s.runs[s.runs.index(a)] = b
        soft = []
        for r in s.runs:
            for k, m in s.findings(r):
                (soft if SOFT.search(k) else s.viol).append((k, m, r))
        hangs = [v for v in s.viol if v[0] == "hang"]
        if hangs: s.viol = [v for v in s.viol if v[0] != "hang"]; soft += hangs
        if soft and not s.viol:
            seeds = {(v[2].scenario, v[2].seed) for v in soft}
            if len(seeds) >= 2: s.viol += soft
            else:
                # a judgement that depends on timing: confirm before reporting
                r = soft[0][2]
                more = run_all([r.clone() for _ in range(4)] + [r.clone(seed=r.seed + 7919 * n) for n in range(1, 17)], max(4, par // 2))
                conf = [(k, m, x) for x in more for k, m in s.findings(x) if SOFT.search(k)]
                s.runs += more
                if conf: s.viol += soft + conf
                else: s.notes.append("not reproduced in %d further runs, not reported: %s %s" % (len(more), soft[0][0], soft[0][1][:500]))
        else: s.viol += soft
        return s.report(time.time() - t0)

    def report(s, wall):
        nt = s.plan["nontrivial"]
        done = [r for r in s.runs if r.out is not None]
        seen = {}
        for r in done:
            st = collections.defaultdict(float, r.out.get("stat", {}))
            if nt(st): seen[(r.scenario, r.variant, r.out.get("digest") or r.seed)] = r
        agg = collections.Counter(); mx = {}
        for r in done:
            for k, v in r.out.get("stat", {}).items():
                if k.startswith("max_") or k.endswith("_max"): mx[k] = max(mx.get(k, 0), v)
                elif k not in ("mode", "workers", "seed", "wall_s", "faultkind", "crawl_kind", "hash_kind"): agg[k] += v
        samples = []
        for r in list(seen.values())[:40:8] or done[:2]:
            st = r.out.get("stat", {})
            samples.append({"run": r.desc(), "seen": {k: st[k] for k in list(st)[:60] if st[k]}, "inconclusive": r.out.get("inconclusive", "")})
        ev_extra = {}
        if s.plan.get("evaluations_stat"):
            n = sum(r.out.get("stat", {}).get(s.plan["evaluations_stat"], 0) for r in done); d = sum(r.out.get("stat", {}).get("distinct", 0) for r in done)
            evals, dist = int(n), int(min(d, n)) if d else len(seen)
        else: evals, dist = len(done), len(seen)
        ev = {"property": s.prop, "tier": s.tier, "seed": s.seed, "level": s.plan.get("level", "exploration"),
              "coverage": {"evaluations": evals, "distinct_nontrivial": dist, "rule": s.plan["rule"], "samples": samples,
                           "executions": len(done), "executions_by_scenario": dict(collections.Counter(r.scenario + "/" + r.variant for r in done)),
                           "observed": {k: round(v, 3) for k, v in sorted(agg.items()) if v}, "observed_max": mx,
                           "inconclusive": s.inconc[:50], "inconclusive_count": len(s.inconc), "notes": s.notes, "errors": s.errors[:20],
                           "known_findings_seen": s.known_hits, "signs_for_other_properties": dict(s.others), "signs_samples": s.osamples[:8]},
              "wall_s": round(wall, 2), "violations": len(s.viol), "assumptions": s.plan.get("assumptions", plans.ASSUMPTIONS)}
        os.makedirs(EVID, exist_ok=True)
        for f in s.kf:
            if s.prop in f["properties"]: print("KNOWN-FINDING: property=%s %s" % (s.prop, f["what"]))
        rc = 0
        if s.viol:
            os.makedirs(EVID + "/replay", exist_ok=True)
            by = {}
            for k, m, r in s.viol: by.setdefault(k, (m, r))
            for n, (k, (m, r)) in enumerate(sorted(by.items())[:10]):
                p = os.path.join(EVID, "replay", "%s-%d.json" % (s.prop, n))
                with open(p, "w") as f: json.dump({"property": s.prop, "key": k, "message": m, "run": r.desc(), "output": r.out}, f, indent=1)
                print("VIOLATION property=%s replay=%s" % (s.prop, p))
                print("  %s: %s" % (k, m[:700].replace("\n", "\n    ")))
            ev["coverage"]["violation_keys"] = dict(collections.Counter(k for k, _, _ in s.viol))
            rc = 1
        elif len(s.errors) * 2 > max(1, len(s.runs)):
            print("ERROR: no usable result: %s" % s.errors[:3]); rc = 2
        elif not seen:
            print("ERROR: nothing was observed"); rc = 2
        with open(os.path.join(EVID, s.prop + ".json.tmp"), "w") as f: json.dump(ev, f, indent=1)
        os.rename(os.path.join(EVID, s.prop + ".json.tmp"), os.path.join(EVID, s.prop + ".json"))
        print("%s %s: %d executions, %d distinct non-trivial, %d inconclusive, %d errors, %.0f s%s" % (s.prop, "VIOLATED" if rc == 1 else "held", len(done), dist, len(s.inconc), len(s.errors), wall, "" if not s.others else ", signs for others: %s" % dict(s.others)))
        return rc

def self_found(s, r):
    return bool(r.out and s.findings(r))

def replay(path):
    with open(path) as f: j = json.load(f)
    d = j["run"]
    c = Checker(j["property"], "quick", d["seed"])
    hit = 0
    for n in range(5):
        r = execute(Run(d["kind"], d["scenario"], d["variant"], d["opts"], d["seed"]))
        fs = c.findings(r)
        print("replay %d: %s" % (n + 1, [(k, m[:300]) for k, m in fs] or (r.out and r.out.get("inconclusive")) or "no violation"))
        if any(k == j["key"] for k, _ in fs): hit = 1; break
    print("reproduced" if hit else "not reproduced in 5 runs")
    return hit

def main(argv):
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    props = []; rp = None
    it = iter(argv)
    for a in it:
        if a == "--tier": tier = next(it)
        elif a == "--seed": seed = int(next(it))
        elif a == "--replay": rp = next(it)
        else: props.append(a)
    try:
        if rp: return replay(rp)
        rc = 0
        for p in props: rc = max(rc, Checker(p, tier, seed).go())
        return rc
    except build.BuildError as e:
        print("ERROR: build failed: %s" % e); return 3

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
