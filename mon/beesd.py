#!/usr/bin/env python3
"""B22: runs the real start-up script with stand-ins for the commands that act on the system, and
judges what it ran, in what order, and what it left behind.  Everything happens as an unprivileged
user inside a scratch directory; the stand-ins refuse paths outside of it."""
import hashlib, json, os, random, re, shutil, stat, subprocess, sys, time

A = dict(zip(sys.argv[1::2], sys.argv[2::2])); OPT = {}
for i in range(1, len(sys.argv) - 1):
    if sys.argv[i] == "--opt": k, _, v = sys.argv[i + 1].partition("="); OPT[k] = v
REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
R = random.Random(int(A["--seed"])); OUT = A["--out"]; TOP = os.path.join(A["--scratch"], "b"); SECS = float(OPT.get("secs", "5"))
VIOL = []; STAT = {}; DIG = hashlib.sha1()
def stat_(k, n=1): STAT[k] = STAT.get(k, 0) + n
def viol(key, msg):
    stat_("violations")
    if sum(v["key"] == key for v in VIOL) < 3: VIOL.append({"prop": "B22", "key": key, "msg": msg[:3000]})
def finish():
    with open(OUT + ".tmp", "w") as f: json.dump({"violations": VIOL, "stat": STAT, "inconclusive": "", "hang_prop": "", "san": "", "digest": DIG.hexdigest()[:16]}, f)
    os.rename(OUT + ".tmp", OUT)

USAGE = open(REPO + "/src/bees-usage.txt").read().replace("%s", "bees")
K128 = 128 * 1024
STUB = r'''#!/bin/sh
# record, refuse what is outside the scratch directory, act inside
n=${0##*/}
{ printf '%%s' "$n"; for a in "$@"; do printf '\037%%s' "$a"; done; printf '\n'; } >> "%(log)s"
real() { PATH=/usr/bin:/bin:/usr/sbin:/sbin exec "$@"; }
inside() { for a in "$@"; do case "$a" in -*|"") ;; "%(top)s"/*) case "$a" in */../*|*/..) echo "outside" >&2; printf 'OUTSIDE\037%%s\n' "$a" >> "%(log)s"; exit 1;; esac ;; /*) printf 'OUTSIDE\037%%s\n' "$a" >> "%(log)s"; exit 1;; esac; done; }
case "$n" in
mount) [ -e "%(top)s/fail-mount" ] && exit 32; for a in "$@"; do t=$a; done; inside "$t"; touch "%(top)s/mounted"; rmdir "$t" && real mv -T "%(top)s/fsroot" "$t" ;;
umount) exit 0 ;;
blkid) for a in "$@"; do t=$a; done; u=${t##*/}; [ -e "%(top)s/disks/$u" ] || exit 2; cat "%(top)s/disks/$u" ;;
uuidparse) for a in "$@"; do t=$a; done; if printf '%%s' "$t" | grep -Eq '^[0-9a-fA-F]{8}(-[0-9a-fA-F]{4}){3}-[0-9a-fA-F]{12}$'; then echo DCE; else echo invalid; fi ;;
btrfs) [ -e "%(top)s/fail-btrfs" ] && exit 1; for a in "$@"; do t=$a; done; inside "$t"; real mkdir "$t" ;;
unshare) while [ $# -gt 0 ] && [ "$1" != "--" ]; do shift; done; shift; exec "$@" ;;
truncate) shift; shift; inside "$@"; set -- ; eval "$BEESD_TRUNC" ;;
*) inside "$@"; real "$n" "$@" ;;
esac
'''
ACTING = "mount umount blkid uuidparse btrfs unshare rm rmdir mkdir mv cp ln dd touch chmod chown chattr truncate fallocate install kill swapoff losetup mkfs".split()
PLAIN = "bash sh grep sed cut head tail realpath readlink du stat cat tr awk wc sort dirname basename env test expr printf true false id ls tee find sleep seq xargs uniq date mktemp printenv cmp md5sum tac paste comm timeout".split()

def write(p, t, mode=0o644):
    with open(p, "w") as f: f.write(t)
    os.chmod(p, mode)
def uuid(): h = "%032x" % R.getrandbits(128); return "-".join((h[:8], h[8:12], h[12:16], h[16:20], h[20:]))
def snap(d):
    r = {}
    for b, ds, fs in os.walk(d):
        for n in ds + fs:
            p = os.path.join(b, n); s = os.lstat(p)
            r[os.path.relpath(p, d)] = (stat.S_IFMT(s.st_mode), s.st_size if stat.S_ISREG(s.st_mode) else 0, hashlib.sha1(open(p, "rb").read(1 << 16)).hexdigest() if stat.S_ISREG(s.st_mode) else "")
    return r

LIMITED = False
def limit():
    os.setgid(65534); os.setgroups([]); os.setuid(65534)

def case():
    global LIMITED
    if os.path.exists(TOP): shutil.rmtree(TOP)
    d = TOP; os.makedirs(d); log = d + "/log"
    for s in ("etc/bees", "lib/bees", "bin", "disks", "fsroot", "run"): os.makedirs(d + "/" + s)
    stub = STUB % dict(log=log, top=d)
    # truncate needs its arguments as given: a stand-in of its own
    stub = stub.replace('''truncate) shift; shift; inside "$@"; set -- ; eval "$BEESD_TRUNC" ;;''', '''truncate) for a in "$@"; do case "$a" in /*) inside "$a";; esac; done; real truncate "$@" ;;''')
    for n in ACTING: write(d + "/bin/" + n, stub, 0o755)
    for n in PLAIN:
        w = shutil.which(n)
        if w: os.symlink(w, d + "/bin/" + n)
    usage = d + "/usage"; write(usage, USAGE)
    write(d + "/lib/bees/bees", '#!/bin/sh\nif [ "$#" = 1 ] && [ "$1" = --help ]; then cat "%s"; [ -e "%s/help-asked" ] || { : > "%s/help-asked"; exit 0; }; printf "HELP\\n" >> "%s"; exit 0; fi\n{ printf "BEES"; for a in "$@"; do printf "\\037%%s" "$a"; done; printf "\\n"; printf "ENV\\037%%s\\037%%s\\037%%s\\n" "$PWD" "$BEESHOME" "$BEESSTATUS"; } >> "%s"\nexit 0\n' % (usage, d, d, log, log), 0o755)
    text = open(REPO + "/scripts/beesd.in").read().replace("@ETC_PREFIX@", d + "/etc").replace("@LIBEXEC_PREFIX@", d + "/lib/bees").replace("@PREFIX@", "/usr").replace("@BINDIR@", "bin")
    write(d + "/beesd", text, 0o755)
    write(log, "")
    # configuration
    u = uuid(); others = [uuid() for _ in range(R.randint(0, 3))]
    kind = R.choice(["ok"] * 7 + ["nodisk", "notbtrfs", "noconf", "badsize", "mountfails", "nouuid", "twouuid", "notroot"])
    size = K128 * R.choice([1, 2, 3, 8, 64, 8192, R.randint(1, 300)]); deflt = R.random() < 0.15
    if kind == "badsize": size += R.choice([1, 4096, 65536, K128 - 1]); deflt = False
    if deflt: size = 8192 * K128
    wd = d + "/run/bees" + R.choice(["", "/"]); conf = []
    conf.append("WORK_DIR=" + wd)
    mnt = wd + "/mnt/" + u
    if R.random() < 0.3: mnt = d + "/run/m%d" % R.randint(1, 9); conf.append('MNT_DIR="%s"' % mnt)
    home = mnt + "/.beeshome"
    if R.random() < 0.25: home = mnt + "/sub/home"; conf.append("BEESHOME=" + home)
    status = wd + "/" + u + ".status"
    if R.random() < 0.25: status = d + "/run/st%d" % R.randint(1, 9); conf.append("BEESSTATUS=" + status)
    opts = R.sample(["--strip-paths", "--no-timestamps", "-c 4", "--thread-count=2", "-v5", "-m 3", "--loadavg-target 2.5"], R.randint(0, 3))
    if opts or R.random() < 0.3: conf.append('OPTIONS="%s"' % " ".join(opts))
    if not deflt: conf.append(R.choice(["DB_SIZE=%d" % size, 'DB_SIZE="%d"' % size, "DB_SIZE=$((%d))" % size]))
    R.shuffle(conf); conf.insert(R.randint(0, len(conf)), R.choice(["UUID=%s", 'UUID="%s"']) % u); conf.insert(0, "## Config for Bees")
    if R.random() < 0.3: conf.insert(R.randint(0, len(conf)), "# UUID=" + uuid())
    names = R.sample(["a", "b", "beesd", "z", "data", "k9"], len(others) + 1)
    if kind != "noconf": write("%s/etc/bees/%s.conf" % (d, names[0]), "\n".join(conf) + "\n")
    for o, n in zip(others, names[1:]):
        c = ["UUID=" + o, "WORK_DIR=%s/run/other" % d, "DB_SIZE=%d" % (K128 * 5), 'OPTIONS="--other-file"']
        if R.random() < 0.5: c.insert(R.randint(0, 2), "# UUID=" + u); c.insert(0, "#UUID=" + u)
        write("%s/etc/bees/%s.conf" % (d, n), "\n".join(c) + "\n")
    write(d + "/etc/bees/beesd.conf.sample", "UUID=%s\nWORK_DIR=%s/run/sample\n" % (u, d))
    if kind != "nodisk": write(d + "/disks/" + u, "ext4\n" if kind == "notbtrfs" else "btrfs\n")
    for o in others: write(d + "/disks/" + o, "btrfs\n")
    if kind == "mountfails": write(d + "/fail-mount", "")
    # what is on the filesystem
    fs = d + "/fsroot"; rel = os.path.relpath(home, mnt); h = fs + "/" + rel; old = None; crawl = False
    if "/" in rel: os.makedirs(os.path.dirname(h))
    write(fs + "/user-file", "data")
    if R.random() < 0.75:
        os.mkdir(h)
        if R.random() < 0.85:
            old = size if R.random() < 0.5 and kind != "badsize" else K128 * R.choice([1, 2, 5, 100])
            with open(h + "/beeshash.dat", "wb") as f: f.write(os.urandom(min(old, 4096))); f.truncate(old)
            os.chmod(h + "/beeshash.dat", R.choice([0o600, 0o644, 0o700]))
        if R.random() < 0.7: write(h + "/beescrawl.dat", "root 5 objectid 0\n"); crawl = True
        if R.random() < 0.5: write(h + "/beesstats.txt", "TOTAL:\n")
        if R.random() < 0.3: write(h + "/keep-me", "x")
    before = snap(fs)
    # command line
    args = R.sample(["-c4", "--thread-count=3", "-P", "--no-timestamps", "-a", "-v6", "--scan-mode=2", "-c 2", "--loadavg-target 1.5", "--verbose 7"], R.randint(0, 3))
    if kind != "nouuid": args.insert(R.randint(0, len(args)), u)
    if kind == "twouuid": args.insert(R.randint(0, len(args)), (others or [uuid()])[0])
    if kind == "nouuid" and R.random() < 0.5: args.insert(0, "not-a-uuid")
    args = " ".join(args).split(); given = [a for a in args if a != u]
    so = d + "/pre.so"; shutil.copy(PRELOAD, so)
    env = {"PATH": d + "/bin", "LD_PRELOAD": so, "BEESD_DISKS": d + "/disks", "HOME": d, "LANG": "C", "TERM": "dumb"}
    if R.random() < 0.5: env["SYSTEMD_EXEC_PID"] = "1"
    cmd = [d + "/bin/bash", d + "/beesd"] + args
    # an unprivileged user who is root in a namespace of its own, where the sandbox allows that
    pre = None
    if LIMITED:
        for b, ds, fl in os.walk(d):
            for x in [b] + [os.path.join(b, n) for n in fl]: os.lchown(x, 65534, 65534)
        pre = limit
        if kind != "notroot": cmd = ["/usr/bin/env", "-i", "/usr/bin/unshare", "-Ur", "/usr/bin/env"] + ["%s=%s" % x for x in env.items()] + cmd
    elif kind == "notroot": return
    try:
        p = subprocess.run(cmd, env=env, cwd=d, preexec_fn=pre, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
    except subprocess.TimeoutExpired:
        viol("hangs", "the script does not end (%s)" % kind); return
    ev = [l.split("\037") for l in open(log).read().split("\n") if l]
    names_ = [e[0] for e in ev]; bees = [e for e in ev if e[0] == "BEES"]; mounts = [e for e in ev if e[0] == "mount"]
    DIG.update(repr((kind, names_)).encode()); stat_("runs"); stat_("case_" + kind); stat_("commands", len(ev))
    said = p.stdout.decode("utf-8", "replace")[-800:].replace(d, "")
    what = lambda: "case %s, args %s, exit %d, commands %s; config: %s; output: %s" % (kind, args, p.returncode, [" ".join(e).replace(d, "") for e in ev][:14], "; ".join(conf).replace(d, ""), said)
    for e in ev:
        if e[0] == "OUTSIDE": viol("outside", "a command acts on %s; %s" % (e[1], what()))
    where = mnt if os.path.exists(d + "/mounted") else fs
    hh = os.path.join(where, rel); after = snap(where); hashf = hh + "/beeshash.dat"
    # nothing but the state directory is touched
    for x, v in before.items():
        if x in (rel, rel + "/beeshash.dat", rel + "/beescrawl.dat"): continue
        if after.get(x) != v: viol("touched", "%s was changed or removed; %s" % (x, what()))
    if kind == "ok":
        stat_("started" if bees else "not_started")
        if p.returncode or len(bees) != 1: viol("not-started", "the daemon was not started exactly once; " + what()); return
        want = [x for x in given] + " ".join(opts).split() + [os.path.realpath(mnt)]
        if bees[0][1:] != want: viol("arguments", "the daemon got the arguments %s instead of %s; %s" % (bees[0][1:], want, what()))
        en = [e for e in ev if e[0] == "ENV"][0]
        if os.path.realpath(en[1]) != os.path.realpath(mnt): viol("directory", "the daemon runs in %s; %s" % (en[1], what()))
        if os.path.normpath(en[2]) != os.path.normpath(home): viol("environment", "BEESHOME is %s instead of %s; %s" % (en[2], home, what()))
        if os.path.normpath(en[3]) != os.path.normpath(status): viol("environment", "BEESSTATUS is %s instead of %s; %s" % (en[3], status, what()))
        if len(mounts) != 1: viol("mount", "%d mounts; %s" % (len(mounts), what()))
        else:
            m = mounts[0]; o = ",".join(re.sub("^-o|^--options=?", "", a) for i, a in enumerate(m) if a.startswith(("-o", "--options")) or m[i - 1] in ("-o", "--options"))
            for x in ("subvolid=5", "nodev", "noexec"):
                if x not in o.split(","): viol("mount-options", "the filesystem is mounted without %s; %s" % (x, what()))
            if m[-2] != "/dev/disk/by-uuid/" + u and "UUID=" + u not in m: viol("mount", "%s is mounted; %s" % (m[-2], what()))
            if os.path.normpath(m[-1]) != os.path.normpath(mnt): viol("mount", "mounted at %s; %s" % (m[-1], what()))
            if not any("private" in a for a in m): viol("mount-options", "the mount is not private; " + what())
            i = ev.index(m)
            for e in ev[:i]:
                if e[0] in ("btrfs", "touch", "truncate", "chmod", "rm"): viol("before-mount", "%s before the filesystem was mounted; %s" % (e[0], what()))
            if ev.index(bees[0]) < max(i for i, e in enumerate(ev) if e[0] not in ("ENV", "BEES")): viol("order", "work after the daemon was started; " + what())
        if not os.path.exists(hashf): viol("hash-size", "no hash table file; " + what()); return
        s = os.stat(hashf)
        if s.st_size != size: viol("hash-size", "the hash table is %d bytes, configured are %d; %s" % (s.st_size, size, what()))
        if s.st_mode & 0o077: viol("hash-mode", "the hash table has mode %o; %s" % (s.st_mode & 0o7777, what()))
        c = os.path.exists(hh + "/beescrawl.dat")
        if old == size:
            stat_("kept")
            if after[rel + "/beeshash.dat"][2] != before[rel + "/beeshash.dat"][2]: viol("hash-lost", "the hash table was changed although its size is the configured one; " + what())
            if crawl and not c: viol("progress-lost", "the scan progress was removed although the hash table keeps its size; " + what())
        else:
            stat_("resized")
            if c: viol("stale-progress", "the hash table changed from %s to %d bytes but the scan progress was kept; %s" % (old, size, what()))
        if rel in before and "btrfs" in names_: viol("home", "the state directory was created again; " + what())
        if rel not in before and "btrfs" not in names_: viol("home", "the state directory is not a subvolume of its own; " + what())
        return
    if bees: viol("started-anyway", "the daemon was started; " + what())
    if kind in ("nouuid", "twouuid"):
        if "HELP" not in names_: viol("no-help", "no help is shown; " + what())
    elif p.returncode == 0: viol("no-error", "no error is reported; " + what())
    if kind not in ("badsize", "mountfails") and mounts: viol("mounted-anyway", "something was mounted; " + what())
    for x in ("/beeshash.dat", "/beescrawl.dat"):
        if rel + x in before and after.get(rel + x) != before[rel + x]: viol("state-lost", "%s was changed or removed; %s" % (x, what()))
    stat_("refused")

def usable():
    """is an unprivileged user with a namespace of its own to be had?"""
    try: return os.getuid() == 0 and subprocess.run(["/usr/bin/unshare", "-Ur", "/usr/bin/id", "-u"], preexec_fn=limit, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=20).stdout.strip() == b"0"
    except Exception: return False

PRELOAD = os.path.join(A["--scratch"], "pre.so")
subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", PRELOAD, HERE + "/beesd_preload.c", "-ldl"], check=True)
os.chmod(A["--scratch"], 0o711)
LIMITED = usable(); stat_("limited", int(LIMITED))
t0 = time.time()
while time.time() - t0 < SECS and not VIOL: case()
finish()
