"""Every execution of the small driver in /verif/ub, run by machines that see undefined behaviour: Miri for the stable
configuration, and valgrind for the one with unstable features, which Miri cannot compile."""
import hashlib, json, os, re, shutil, subprocess, time

UB = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "ub")
FLAGS = ("-Zmiri-disable-stacked-borrows -Zmiri-disable-isolation -Zmiri-ignore-leaks "
         "-Zmiri-disable-data-race-detector -Zmiri-permissive-provenance")
# so many parts, eight at a time: they are not of equal size
PARTS = dict(miri=8, valgrind=24)


def env(mod):
    e = mod.base_env()
    e["MIRIFLAGS"] = FLAGS
    e["RUSTFLAGS"] = "-Awarnings"
    e["CARGO_PROFILE_DEV_OPT_LEVEL"] = "0"
    return e


class Machine:
    def __init__(self, mod, name, troot, feats, deep):
        self.mod, self.name, self.env = mod, name, env(mod)
        self.dir = os.path.join(troot, "ub-" + name)
        if deep:
            feats = feats + ["deep"]
        self.build = ["--offline", "--features", ",".join(feats), "--target-dir", self.dir]
        if name == "miri":
            self.cmd = ["cargo", "+nightly", "miri", "run", "-q"] + self.build + ["--"]
        else:
            self.cmd = ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes",
                        os.path.join(self.dir, "debug", "ub")]

    def prepare(self):
        e = dict(self.env)
        if self.name == "miri":
            # a group that is not there
            cmd = self.cmd + ["0", "1", "only", "none"]
        else:
            e["RUSTC"] = os.path.join(self.mod.VERIF, "shim", "rustc")
            cmd = ["cargo", "+1.79.0", "build"] + self.build
        r = subprocess.run(cmd, cwd=UB, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout[-4000:])
            self.mod.die("the driver does not build for " + self.name)

    def run(self, args, limit):
        try:
            r = subprocess.run(self.cmd + args, cwd=UB, env=self.env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, errors="replace", timeout=limit)
            return r.returncode, r.stdout
        except subprocess.TimeoutExpired as x:
            o = x.stdout or b""
            return None, o.decode(errors="replace") if isinstance(o, bytes) else o


def trouble(rc, out):
    """What went wrong, or nothing."""
    m = re.search(r"^UB-VIOLATION (\S+) :: (.*)$", out, re.M)
    if m:
        return m.group(2)
    m = re.search(r"^error: (Undefined Behavior.*|abnormal termination.*)$", out, re.M)
    if m:
        return m.group(1)
    m = re.search(r"^==\d+== (?!\s)(.*)$", out, re.M)
    if rc == 99 and m:
        return m.group(1)
    if rc not in (0, None):
        return "the process dies (exit status %s): %s" % (rc, " | ".join(out.splitlines()[-4:])[-300:])
    return None


def last(out):
    g = re.findall(r"^GROUP (\S+)$", out, re.M)
    t = re.findall(r"^EXEC (\S+)$", out, re.M)
    v = re.search(r"^UB-VIOLATION (\S+) ::", out, re.M)
    return (g[-1] if g else None), (v.group(1) if v else t[-1] if t else None)


def run(mod, prop, tier, c, a):
    t0 = time.time()
    deep = tier == "thorough"
    if "--replay" in a:
        with open(a[a.index("--replay") + 1]) as f:
            data = json.load(f)
        deep = data.get("tier") == "thorough"
    troot = os.path.join(mod.target_root(), "ub-" + own_hash())
    os.makedirs(troot, exist_ok=True)
    extra = ["deep"] if deep else []
    # machine, the groups it runs
    plan = [(Machine(mod, "miri", troot, ["alloc"], deep), ["slow"] + extra),
            (Machine(mod, "valgrind", troot, ["alloc", "nightly"], deep), extra)]
    if "--replay" in a:
        for m, args in plan:
            if m.name == data["lane"]:
                m.prepare()
                rc, out = m.run(["0", "1"] + args + ["replay", data["execution"]], 600)
                print(out)
                return 1 if trouble(rc, out) else 0
        return 3
    mod.parallel([m.prepare for m, _ in plan], 2)
    built = time.time()
    limit = 780 if tier == "quick" else 6 * 3600
    stats, errors, found = [], [], []
    for m, args in plan:
        res = {}

        def part(i, m=m, args=args, res=res):
            if not found:
                res[i] = m.run([str(i), str(PARTS[m.name])] + args, limit)
                if trouble(*res[i]):
                    found.append(1)
        mod.parallel([lambda i=i: part(i) for i in range(PARTS[m.name])], 8)
        for i in sorted(res):
            rc, out = res[i]
            if "ENGINE-ERROR" in out:
                errors.append("%s part %d: the harness is not deterministic" % (m.name, i))
            elif "error: unsupported operation" in out:
                errors.append("%s part %d: %s" % (m.name, i, re.search("error: unsupported.*", out).group(0)))
            elif rc is None:
                errors.append("%s part %d: did not finish in %d s" % (m.name, i, limit))
            elif trouble(rc, out):
                # which execution it was
                g, t = last(out)
                rc2, out2 = m.run([str(i), str(PARTS[m.name])] + args + ["only", str(g), "print"], limit)
                what = trouble(rc2, out2)
                if not what:
                    errors.append("%s part %d: %s, which does not reproduce" % (m.name, i, trouble(rc, out)))
                    continue
                ex = "%s:%s" % (g, last(out2)[1])
                rc3, out3 = m.run(["0", "1"] + args + ["replay", ex], limit)
                mod.violation(prop, dict(property=prop, lane=m.name, tier=tier, execution=ex, message=what,
                                         reproduces_alone=bool(trouble(rc3, out3)),
                                         trace=(out3 if trouble(rc3, out3) else out2).splitlines()[-60:]))
                return 1
            elif "UB-DONE" not in out:
                errors.append("%s part %d: stopped early" % (m.name, i))
            else:
                for g, x, s in re.findall(r"^UB-STATS (\S+) (\d+) (\d+)$", out, re.M):
                    stats.append((m.name, g, int(x), int(s)))
    if errors:
        for e in errors:
            print("CHECK-ERROR " + e)
        return 3
    groups = {}
    for m, g, x, s in stats:
        d = groups.setdefault(g, {}).setdefault(m, dict(executions=0, transitions=0))
        d["executions"] += x
        d["transitions"] += s
    ex, st = sum(x[2] for x in stats), sum(x[3] for x in stats)
    if not st:
        mod.die("nothing was explored")
    cov = dict(states=ex, transitions=st, traces_validated_against_impl=ex, exhaustive=True,
               rule="each execution runs the real code in a machine that stops at undefined behaviour; no states are "
                    "merged, so as many states as executions; transitions are calls into the crate",
               bounds=c["bounds"], lanes=[m.name for m, _ in plan], groups=groups,
               samples=["%s in %s: %d executions" % (g, m, d["executions"]) for g in groups for m, d in groups[g].items()],
               build_s=round(built - t0, 1))
    mod.write_evidence(prop, tier, cov, time.time() - t0, 0, mod.ASSUME[:2] + c.get("assume", []))
    print("%s: held on all %d executions (%d transitions) in %d machines, %.1f s" % (prop, ex, st, len(plan), time.time() - t0))
    return 0


def own_hash():
    h = hashlib.sha256()
    for d, ds, fs in os.walk(UB):
        ds[:] = sorted(x for x in ds if x != "target")
        for f in sorted(fs):
            with open(os.path.join(d, f), "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:10]
