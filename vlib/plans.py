"""What each property's check runs."""
import build

PAR = 22            # executions at a time; a simulated daemon mostly waits
WATCHDOG = 400
THOROUGH = 8        # times the number of executions

ASSUMPTIONS = [
    "the kernel side (btrfs metadata, dedupe, LOGICAL_INO, TREE_SEARCH, INO_PATHS ioctls) is a model in /verif/fsim/sim.cc, written from the btrfs interface; file data lives in real files and is moved by real system calls",
    "intervals (polling, write-back, status) are shortened through the BEES_VERIF hooks",
    "held on the executions listed, not verified beyond them",
]

def st(*keys):
    return lambda s: any(s[k] > 0 for k in keys)

FS_RULE = "one execution = the real daemon on a generated filesystem with random layout, scan mode, worker count and delays; it is non-trivial if %s; executions are distinct if the order of (thread, operation, object) at the kernel interface differs"

MON_RULE = "one execution = a seeded random history of calls to the real library code, judged against a reference model; it is non-trivial if %s; executions are distinct if the sequence of observed events (digest) differs"

def P(runs, nontrivial, rule, level="exploration", **kw):
    d = dict(runs=runs, nontrivial=nontrivial, rule=rule, level=level); d.update(kw); return d
def F(sc, n, variant="plain", **opts):
    return ("fsim", sc, variant, opts, n)
def M(sc, n, variant="plain", **opts):
    return ("mon", sc, variant, opts, n)

PLANS = {
  "B01": P([F("settle", 12), F("phases", 8), F("crash", 6), F("faults", 6), F("pause", 4), F("live", 10)], st("integrity_checks", "dedupe_ok"), FS_RULE % "at least one dedupe request succeeded"),
  "B02": P([F("settle", 10), F("phases", 6), F("faults", 8), F("badstate", 8), F("term", 6)], st("dedupe_ok"), FS_RULE % "at least one dedupe request succeeded; every modifying call is judged"),
  "B03": P([F("settle", 24), F("phases", 18)], st("strict_blocks"), FS_RULE % "blocks with known duplicates were judged at the end"),
  "B04": P([F("settle", 40)], st("space_checks"), FS_RULE % "storage was accounted before and after"),
  "B05": P([F("settle", 10), F("settle", 8, big=1, size=6 << 20, mode=4), F("phases", 12), F("crash", 8), F("pause", 6), F("live", 10)], st("cov_exts"), FS_RULE % "extents were judged for having been read"),
  "B06": P([F("crash", 24), F("crashhold", 12), F("term", 6)], st("kills", "stuck_kills", "terms"), FS_RULE % "the daemon was killed or stopped and started again on the state it left", level="fault_enumeration"),
  "B07": P([F("faults", 22, faultkind=0), F("crash", 10), F("term", 8)], st("home_versions.beescrawl.dat"), FS_RULE % "at least one state file version was saved", level="fault_enumeration"),
  "B08": P([F("term", 40)], st("terms"), FS_RULE % "the daemon was told to stop while working"),
  "B09": P([M("hash", 6, part="table", secs=4), M("hash", 3, "asan", part="table", secs=4), M("hash", 3, "tsan", part="table", secs=4), F("hashflush", 16), F("term", 4)], st("inserted_during_write", "resume_checks", "terms", "during_write", "single_changes"), FS_RULE % "entries were inserted while the table was being written, or looked up after a restart", own_san=True),
  "B10": P([F("exclude", 44)], st("excluded_files", "ro_subvols"), FS_RULE % "files that must not be touched were present next to duplicates of them"),
  "B11": P([F("phases", 32, refs=1), F("settle", 8)], st("strict_blocks"), FS_RULE % "duplicates with several references were judged at the end"),
  "B12": P([F("pathrace", 44), F("live", 8)], st("races", "op.rename"), FS_RULE % "names were changed between a lookup and the open that followed"),
  "B13": P([F("refs", 40)], st("limit_judged", "slow_judged"), FS_RULE % "dedupe requests were compared with the number of references their source had, or lookups of slow extents were counted"),
  "B14": P([F("phases", 20, workers=8), F("settle", 8, workers=8), F("pause", 8)], st("overlap_checks"), FS_RULE % "kernel requests of several workers were compared for overlap"),
  "B15": P([F("settle", 28), F("phases", 12)], st("dedupe_ok"), FS_RULE % "dedupe requests were judged"),
  "B16": P([F("faults", 40)], st("faults_injected"), FS_RULE % "system calls were made to fail", level="fault_enumeration"),
  "B17": P([F("badstate", 44)], st("judged", "boots"), FS_RULE % "the daemon was started on damaged state files", level="fault_enumeration"),
  "B18": P([F("pause", 40)], st("pauses", "busy_samples"), FS_RULE % "the daemon was paused and resumed, or its concurrent activity was sampled"),
  "B19": P([F("settle", 8, "asan"), F("phases", 6, "asan"), F("crash", 4, "asan"), F("faults", 10, "asan"), F("badstate", 8, "asan"), F("hashflush", 2, "asan"), F("live", 6, "asan"), F("pathrace", 4, "asan"), F("exclude", 2, "asan")], st("dedupe_ok", "user_reads"), FS_RULE % "the instrumented daemon processed data"),
  "B20": P([F("settle", 6, "tsan"), F("phases", 5, "tsan"), F("crash", 3, "tsan"), F("faults", 4, "tsan"), F("pause", 3, "tsan"), F("hashflush", 2, "tsan"), F("term", 3, "tsan"), F("badstate", 2, "tsan"), F("live", 4, "tsan"), F("pathrace", 3, "tsan")], st("dedupe_ok", "user_reads"), FS_RULE % "the instrumented daemon processed data", par=14),
  "B21": P([M("hash", 3, part="stats", secs=4), F("settle", 40)], st("counter_checks", "progress_rows", "stats_checked"), FS_RULE % "published numbers were compared with the kernel interface"),
  "L01": P([M("task", 12, part="L01", secs=5), M("task", 4, "tsan", part="L01", secs=6), M("task", 4, "asan", part="L01", secs=5)], st("requests"), MON_RULE % "tasks were requested to run", own_san=True),
  "L02": P([M("task", 12, part="L02", secs=5), M("task", 4, "tsan", part="L02", secs=6), M("task", 4, "asan", part="L02", secs=5)], st("locks", "refused"), MON_RULE % "tasks contended for locks", own_san=True),
  "L03": P([M("sync", 6, part="L03", secs=4), M("sync", 3, "tsan", part="L03", secs=4), M("sync", 3, "asan", part="L03", secs=4)], st("observations", "steps"), MON_RULE % "progress was observed", own_san=True),
  "L04": P([M("sync", 6, part="L04", secs=4), M("sync", 3, "tsan", part="L04", secs=4), M("sync", 3, "asan", part="L04", secs=4)], st("locks"), MON_RULE % "locks were held", own_san=True),
  "L05": P([M("sync", 6, part="L05", secs=4), M("sync", 3, "tsan", part="L05", secs=4), M("sync", 3, "asan", part="L05", secs=4)], st("lookups"), MON_RULE % "the cache was consulted", own_san=True),
  "L06": P([M("sync", 6, part="L06", secs=4), M("sync", 3, "tsan", part="L06", secs=4), M("sync", 3, "asan", part="L06", secs=4)], st("lookups", "opened"), MON_RULE % "objects were looked up or files opened", own_san=True),
  "L07": P([M("sync", 6, part="L07", secs=4), M("sync", 3, "tsan", part="L07", secs=4), M("sync", 3, "asan", part="L07", secs=4)], st("uses"), MON_RULE % "pooled objects were used", own_san=True),
  "L08": P([M("timer", 10, secs=5), M("timer", 3, "asan", secs=5)], st("steps", "windows"), MON_RULE % "rates were limited or estimated", own_san=True),
  "L09": P([M("tree", 10, part="L09", secs=4), M("tree", 4, "asan", part="L09", secs=4)], st("lookups", "seeks", "iterations"), MON_RULE % "trees were searched", own_san=True),
  "L10": P([M("tree", 10, part="L10", secs=4), M("tree", 4, "asan", part="L10", secs=4)], st("positions", "steps"), MON_RULE % "extents were visited", own_san=True),
  "L11": P([M("tree", 10, part="L11", secs=4), M("tree", 4, "asan", part="L11", secs=4)], st("dedupes", "refs_compared", "searches"), MON_RULE % "kernel requests were made", own_san=True),
  "L12": P([M("types", 8, part="L12", secs=4), M("types", 4, "asan", part="L12", secs=4)], st("grown", "ranges"), MON_RULE % "addresses and ranges were compared and pairs were grown", own_san=True),
  "L13": P([M("types", 5, part="L13", secs=4), M("types", 3, "tsan", part="L13", secs=4), M("types", 3, "asan", part="L13", secs=4)], st("fingerprints", "blocks"), MON_RULE % "fingerprints were computed", own_san=True),
  "L14": P([M("types", 8, part="L14", secs=4), M("types", 3, "tsan", part="L14", secs=4), M("types", 4, "asan", part="L14", secs=4)], st("transfers", "buffer_ops", "casts"), MON_RULE % "data was transferred, buffers were cut or values converted", own_san=True),
  "B22": P([M("beesd", 16, secs=8)], st("started", "refused", "case_ok"), "one execution = a series of runs of the real start-up script with generated configuration files, disks, state directories and arguments, its commands replaced by recording stand-ins; it is non-trivial if the daemon was started or a configuration refused; executions are distinct if the sequence of commands differs"),
  "B23": P([F("options", 16), F("options", 3, "asan")], st("options_judged", "refused_checks"), FS_RULE % "the daemon ran, or refused to run, with a generated command line"),
  "B24": P([F("order", 7, mode=m) for m in range(5)], st("inodes_judged"), FS_RULE % "the order of first reads was compared with the scan mode"),
  "L15": P([M("load", 8, part="L15", secs=5), M("load", 4, "tsan", part="L15", secs=5), M("load", 4, "asan", part="L15", secs=5)], st("steps"), MON_RULE % "the load was looked at while a target was set", own_san=True),
  "L16": P([M("load", 8, part="L16", secs=4), M("load", 3, "tsan", part="L16", secs=4), M("load", 3, "asan", part="L16", secs=4)], st("throttled"), MON_RULE % "operations were throttled", own_san=True),
}

def expand(prop, tier, seed):
    from checks import Run
    idx = sorted(PLANS).index(prop) if prop in PLANS else 0
    # stable under the addition of properties
    pid = (ord(prop[0]) * 100 + int(prop[1:])) % 1000
    out = []
    mult = THOROUGH if tier == "thorough" else 1
    # entries are interleaved so that long scenarios start early
    for e, (kind, sc, var, opts, n) in enumerate(PLANS[prop]["runs"]):
        for i in range(n * mult):
            out.append((i / (n * mult), Run(kind, sc, var, opts, seed * 1000000 + pid * 1000 + e * 100000000 + i)))
    out.sort(key=lambda x: x[0])
    return [r for _, r in out]

# ------------------------------------------------------------------ monitor programs
NOT_APPLICABLE = {}

MON = {
  "task": dict(src="task.cc", shim="mon/delay.cc"),
  "sync": dict(src="sync.cc", shim="mon/syncshim.cc"),
  "timer": dict(src="timer.cc", shim="mon/timeshim.cc"),
  "tree": dict(src="tree.cc", shim="mon/kernshim.cc"),
  "types": dict(src="types.cc", shim="mon/ioshim.cc", with_src="nomain"),
  "load": dict(src="load.cc", shim="mon/loadshim.cc", with_src="nomain"),
  "hash": dict(src="hash.cc", shim="mon/ioshim.cc", with_src="nomain"),
}
def build_mon(name, variant):
    if name == "beesd":             # the system under test is a script
        import os
        return os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mon", "beesd.py")
    spec = dict(MON[name])
    if variant == "tsan" and name in ("task", "sync", "timer"): spec.pop("shim", None)     # its own scheduling is disturbance enough
    return build.libprog(variant, **spec)
