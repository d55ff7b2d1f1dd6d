#!/usr/bin/env python3
"""Builds one property's explorer in every lane, runs it to completion, and reports.

usage: run.py PROPERTY [--tier quick|thorough] | run.py --setup | run.py PROPERTY --replay FILE

Exit 0: every execution in the stated bounds was explored and the property held.
Exit 1: a VIOLATION line was printed.  Exit 3: the check itself failed (never a verdict).
"""
import hashlib, json, os, re, shutil, signal, struct, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
MC = os.path.join(VERIF, "mc")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks import CHECKS  # noqa: E402

# lane -> (toolchain, features, checked build)
LANES = {}
for tc, t in (("stable", "s"), ("nightly", "n")):
    for feat in ("none", "alloc", "std"):
        for mode, dbg in (("dbg", True), ("rel", False)):
            LANES["%s-%s-%s" % (t, feat, mode)] = (tc, feat, dbg)

# a backtrace of an expected abort would be counted as allocations of the code under test
os.environ["RUST_BACKTRACE"] = "0"

HANG_S = 25


def die(msg):
    print("CHECK-ERROR " + msg)
    sys.stdout.flush()
    os._exit(3)


def tree_hash():
    h = hashlib.sha256()
    files = []
    for root in (os.path.join(REPO, "src"), os.path.join(MC, "src")):
        for d, ds, fs in os.walk(root):
            ds.sort()
            files += [os.path.join(d, f) for f in sorted(fs)]
    for f in (os.path.join(REPO, "Cargo.toml"), os.path.join(MC, "Cargo.toml")):
        files.append(f)
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()[:16]


def base_env():
    env = dict(os.environ)
    env.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0",
               RUSTUP_AUTO_INSTALL="0")
    env.setdefault("HOME", "/root")
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "")
    env.pop("RUSTFLAGS", None)
    env.pop("CARGO_TARGET_DIR", None)
    return env


def target_root():
    root = os.path.join(VERIF, "target")
    os.makedirs(root, exist_ok=True)
    mine = os.path.join(root, tree_hash())
    # keep the disk small: builds of other trees that nobody used for an hour go
    for d in os.listdir(root):
        p = os.path.join(root, d)
        if p != mine and os.path.isdir(p) and time.time() - os.path.getmtime(p) > 3600:
            shutil.rmtree(p, ignore_errors=True)
    os.makedirs(mine, exist_ok=True)
    os.utime(mine)
    return mine


def build(lane, bin_, troot, jobs, out):
    tc, feat, dbg = LANES[lane]
    env = base_env()
    feats = [] if feat == "none" else [feat]
    cmd = ["cargo"]
    if tc == "stable":
        cmd.append("+stable")
    else:
        cmd.append("+1.79.0")
        env["RUSTC"] = os.path.join(VERIF, "shim", "rustc")
        feats.append("nightly")
    if THOROUGH:
        feats.append("deep")
    on = "true" if dbg else "false"
    env["CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS"] = on
    env["CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS"] = on
    tdir = os.path.join(troot, lane + ("-deep" if THOROUGH else ""))
    cmd += ["build", "--release", "--offline", "--bin", bin_, "--features", ",".join(feats), "--target-dir", tdir,
            "-j", str(jobs)]
    r = subprocess.run(cmd, cwd=MC, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    out[lane] = (r.returncode, os.path.join(tdir, "release", bin_), r.stdout)


TRAIL_OFF = 8 + 8 + 4 + 4 + 8


def read_shared(path):
    try:
        with open(path, "rb") as f:
            b = f.read()
        execs, group, ln, ticks = struct.unpack_from("<QIIQ", b, 8)
        t = [struct.unpack_from("<HH", b, TRAIL_OFF + 4 * i)[0] for i in range(min(ln, 8192))]
        return execs, group, t, ticks
    except Exception:
        return 0, 0, [], 0


def preexec():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Run:
    def __init__(self, lane, exe, args, scratch, limit):
        self.lane, self.exe, self.args, self.scratch, self.limit = lane, exe, args, scratch, limit
        self.out, self.rc, self.hang, self.shared = "", None, False, os.path.join(scratch, lane + ".shared")

    def go(self):
        cmd = [self.exe, "--shared", self.shared, "--lane", self.lane] + self.args
        with open(os.path.join(self.scratch, self.lane + ".out"), "w+") as o:
            p = subprocess.Popen(cmd, stdout=o, stderr=subprocess.STDOUT, preexec_fn=preexec, cwd=self.scratch)
            last, since, start = None, time.time(), time.time()
            while True:
                try:
                    self.rc = p.wait(timeout=0.2)
                    break
                except subprocess.TimeoutExpired:
                    pass
                now = time.time()
                e = read_shared_head(self.shared)
                if e != last:
                    last, since = e, now
                if now - since > HANG_S:
                    self.hang = True
                    p.kill()
                    self.rc = p.wait()
                    break
                if now - start > self.limit:
                    p.kill()
                    p.wait()
                    self.rc = None
                    break
            o.seek(0)
            self.out = o.read()


def read_shared_head(path):
    try:
        with open(path, "rb") as f:
            return f.read(16)
    except OSError:
        return None


def parallel(fs, n):
    sem = threading.Semaphore(n)

    def w(f):
        with sem:
            f()
    ts = [threading.Thread(target=w, args=(f,)) for f in fs]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


def group_name(exe, idx):
    r = subprocess.run([exe, "--list"] + THOROUGH, stdout=subprocess.PIPE, text=True)
    names = r.stdout.split()
    return names[idx] if idx < len(names) else "?"


THOROUGH = []


def replay_once(exe, lane, gt, timeout=60):
    try:
        r = subprocess.run([exe, "--lane", lane, "--replay", gt] + THOROUGH, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, preexec_fn=preexec)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        o = e.stdout or b""
        return "hang", o.decode(errors="replace") if isinstance(o, bytes) else o


def violation(prop, data):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps(data, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(d, "%s-%s.json" % (prop, h))
    data["how_to_replay"] = "python3 %s/run.py %s --replay %s" % (VERIF, prop, path)
    with open(path, "w") as f:
        json.dump(data, f, indent=1)
    print("%s: %s [lane %s, %s]" % (prop, data.get("message"), data.get("lane"), data.get("execution", "")[:200]))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    sys.stdout.flush()
    return path


def write_evidence(prop, tier, cov, wall, nviol, assumptions):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov, assumptions=assumptions,
              wall_s=round(wall, 2), violations=nviol)
    tmp = os.path.join(d, "%s.json.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, "%s.json" % prop))


ASSUME = [
    "single-threaded executions; the code under test has no threads and no nondeterminism of its own",
    "bounds as listed per group: every decision vector of a group is executed, none is sampled or cut off",
    "the reference sequence, the element registry and the checking allocator of /verif/mc are right",
    "nightly lanes are rustc 1.52.1 with unstable features enabled, as in the repository's own test setup",
]


def main():
    global THOROUGH
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        return setup()
    if not a or a[0] not in CHECKS:
        die("unknown property %s" % a)
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if tier == "thorough":
        THOROUGH = ["--thorough"]
    c = CHECKS[prop]
    t0 = time.time()
    if c.get("kind") == "miri":
        import miri
        return miri.run(sys.modules[__name__], prop, tier, c, a)
    lanes = c.get("lanes_thorough", list(LANES)) if tier == "thorough" else c["lanes"]
    if "--lanes" in a:
        lanes = a[a.index("--lanes") + 1].split(",")
    troot = target_root()
    bin_ = c.get("bin", prop.lower())
    if "--replay" in a:
        with open(a[a.index("--replay") + 1]) as f:
            data = json.load(f)
        lanes = data.get("lanes") or [data["lane"]]
        if data.get("tier") == "thorough":
            THOROUGH = ["--thorough"]
    built = {}
    jobs = max(1, 8 // max(1, min(len(lanes), 8)))
    parallel([lambda l=l: build(l, bin_, troot, jobs, built) for l in lanes], 8)
    for l in lanes:
        rc, exe, log = built[l]
        if rc != 0:
            print(log[-4000:])
            die("lane %s does not build" % l)
    if "--replay" in a:
        bad = 0
        for l in lanes:
            rc, out = replay_once(built[l][1], l, data["execution"])
            print("== lane %s: exit %s" % (l, rc))
            print(out)
            bad |= rc != 0
        if data.get("lanes"):
            return 0
        return 1 if bad else 0
    t_built = time.time()
    scratch = os.path.join(troot, "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(scratch)
    limit = 780 if tier == "quick" else 6 * 3600
    runs = [Run(l, built[l][1], list(THOROUGH), scratch, limit) for l in lanes]
    try:
        parallel([r.go for r in runs], 8)
        code, cov, nviol = judge(prop, tier, c, runs, built)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if cov is not None:
        cov["build_s"] = round(t_built - t0, 1)
        write_evidence(prop, tier, cov, time.time() - t0, nviol, ASSUME + c.get("assume", []))
    if code == 0:
        print("%s: held on all %d executions (%d transitions, %d states) in %d lanes, %.1f s" % (
            prop, cov["traces_validated_against_impl"], cov["transitions"], cov["states"], len(lanes),
            time.time() - t0))
    return code


def judge(prop, tier, c, runs, built):
    stats = []
    nviol = 0
    errors = []
    for r in runs:
        exe = built[r.lane][1]
        m = re.search(r"^MC-VIOLATION (\S+) :: (\S+) :: (.*)$", r.out, re.M)
        if m:
            rc, out = replay_once(exe, r.lane, m.group(1))
            if rc == 0:
                # only visible after earlier executions: the replay is the whole run
                again = Run(r.lane, exe, list(THOROUGH), os.path.dirname(r.shared), r.limit)
                again.go()
                m2 = re.search(r"^MC-VIOLATION (\S+) :: (\S+) :: (.*)$", again.out, re.M)
                if not m2 or m2.group(1) != m.group(1):
                    errors.append("violation %s in %s does not reproduce" % (m.group(1), r.lane))
                    continue
            nviol += 1
            if nviol == 1:
                violation(prop, dict(property=prop, lane=r.lane, tier=tier, execution=m.group(1), message=m.group(3),
                                     trace=out.splitlines()[-60:]))
            continue
        if "ENGINE-ERROR" in r.out:
            errors.append("%s: %s" % (r.lane, re.search(r"ENGINE-ERROR.*", r.out).group(0)))
            continue
        if r.rc is None:
            errors.append("%s: did not finish in %d s" % (r.lane, r.limit))
            continue
        m = re.search(r"^MC-STATS (.*)$", r.out, re.M)
        if r.rc == 0 and m:
            stats.append((r.lane, json.loads(m.group(1))))
            continue
        # a crash or a hang: reproduce it from the recorded decisions
        execs, gi, trail, _ = read_shared(r.shared)
        gt = "%s:%s" % (group_name(exe, gi), ",".join(map(str, trail)) or "-")
        rc, out = replay_once(exe, r.lane, gt, timeout=HANG_S + 10)
        what = "hangs" if r.hang else "dies (exit status %s)" % r.rc
        if rc == 0:
            again = Run(r.lane, exe, list(THOROUGH), os.path.dirname(r.shared), r.limit)
            again.go()
            e2 = read_shared(again.shared)
            if again.rc == 0 or e2[:3] != (execs, gi, trail):
                errors.append("%s: %s at %s, which does not reproduce\n%s" % (r.lane, what, gt, r.out[-600:]))
                continue
        nviol += 1
        if nviol == 1:
            tail = [x for x in (r.out or out).splitlines() if x.strip()][-4:]
            violation(prop, dict(property=prop, lane=r.lane, tier=tier, execution=gt,
                                 message="the process %s during this execution: %s" % (what, " | ".join(tail)[-400:]),
                                 trace=out.splitlines()[-60:]))
    if c.get("compare") and not nviol and not errors:
        nviol += compare(prop, tier, stats, built, c)
    cov = coverage(stats, c)
    if nviol:
        return 1, cov, nviol
    if errors:
        for e in errors:
            print("CHECK-ERROR " + e)
        return 3, None, 0
    if cov["transitions"] == 0:
        die("nothing was explored")
    return 0, cov, 0


def coverage(stats, c):
    groups = {}
    for lane, s in stats:
        for g in s["groups"]:
            d = groups.setdefault(g["group"], dict(executions={}, max_choices=0))
            d["executions"][lane] = g["executions"]
            d["max_choices"] = max(d["max_choices"], g["max_choices"])
    samples = []
    for lane, s in stats[:2]:
        xs = s["samples"]
        step = max(1, len(xs) // 8)
        samples += ["[%s] %s" % (lane, x) for x in xs[::step]][:8]
    return dict(
        states=sum(s["states"] for _, s in stats),
        transitions=sum(s["transitions"] for _, s in stats),
        traces_validated_against_impl=sum(s["executions"] for _, s in stats),
        distinct_outcomes=sum(s["outcomes"] for _, s in stats),
        exhaustive=True,
        rule="each execution runs the real code against the reference in lockstep; states are distinct canonical "
             "(contents, spare room) pairs reached, summed over lanes; transitions are calls into the crate",
        bounds=c.get("bounds", ""),
        lanes=[l for l, _ in stats],
        groups=groups,
        samples=samples,
        replays_checked_for_determinism="the last two power-of-two executions of every group, twice each",
    )


def compare(prop, tier, stats, built, c):
    """Same decision vectors, same observations, whatever the lane."""
    ref = {}
    for lane, s in stats:
        for g in s["groups"]:
            key = g["group"]
            if key not in ref:
                ref[key] = (lane, g)
            elif (g["digest"], g["executions"]) != (ref[key][1]["digest"], ref[key][1]["executions"]):
                l0 = ref[key][0]
                fs = []
                for l in (l0, lane):
                    f = os.path.join(os.path.dirname(built[l][1]), "digest-%s.txt" % l)
                    subprocess.run([built[l][1], "--lane", l, "--only", key, "--digest", f] + THOROUGH,
                                   stdout=subprocess.DEVNULL)
                    fs.append(open(f).read().splitlines())
                    os.unlink(f)
                first = next((x for x, y in zip(*fs) if x != y), None) or "?"
                ex = "%s:%s" % (key, first.split()[0])
                traces = []
                for l in (l0, lane):
                    traces += ["== " + l] + replay_once(built[l][1], l, ex)[1].splitlines()[-40:]
                violation(prop, dict(property=prop, lane=l0 + " vs " + lane, lanes=[l0, lane], tier=tier, execution=ex,
                                     message="the lanes observe different results", trace=traces))
                return 1
    # every group must have been compared between at least two lanes
    return 0


def setup():
    """Nothing is kept between runs; this only makes sure the tools are there and the engine builds."""
    out = {}
    troot = target_root()
    ls = ["s-std-dbg", "n-std-rel"]
    parallel([lambda l=l: build(l, "p01", troot, 4, out) for l in ls], 2)
    for l in ls:
        if out[l][0] != 0:
            print(out[l][2][-3000:])
            return 3
    print("setup done")
    return 0


if __name__ == "__main__":
    sys.exit(main())
