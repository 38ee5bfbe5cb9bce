#!/usr/bin/env python3
"""Builds the monitors against /repo's working tree, runs them, and reports.

  check.py C07              the check of one property (VERIF_SEED, VERIF_TIER)
  check.py --replay FILE    runs one reported case again
  check.py --setup          builds everything the quick checks need

Exit 0: held on everything explored. Exit 1: violated (a VIOLATION line names the replay file).
Exit 2: no verdict (build failure, harness error, stuck or starved run).
"""
import concurrent.futures as cf
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from plan import PROPS, TITLE  # noqa: E402

REPO = "/repo"
BUILD = os.path.join(ROOT, ".build")
HARNESS = os.path.join(ROOT, "harness")
EVID = os.path.join(ROOT, "evidence")
X64 = "x86_64-unknown-linux-gnu"
X86 = "i686-unknown-linux-gnu"
T0 = time.time()


class NoVerdict(Exception):
    pass


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- builds

def repo_stamp():
    h = hashlib.sha256()
    for base, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
        for f in sorted(files):
            if f.endswith(".rs") or f in ("Cargo.toml",):
                p = os.path.join(base, f)
                h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()


STAMP = None
NOABI = "-Cunsafe-allow-abi-mismatch=sanitizer"

# leg -> (toolchain args, cargo args, RUSTFLAGS, extra env, path of the binary below the target directory)
LEGS = {
    # arithmetic sanitizer: overflow checks, debug assertions and std's UB checks
    "chk": ([], [], "", {}, "debug"),
    # as users ship it
    "rel": ([], ["--release"], "", {}, "release"),
    # mixed settings
    "relchk": ([], ["--release"], "-Cdebug-assertions=off -Coverflow-checks=on", {}, "release"),
    "dbgwrap": ([], [], "-Cdebug-assertions=on -Coverflow-checks=off -Copt-level=0", {}, "debug"),
    # every executed edge counted
    "steps": ([], ["--release", "--target", X64],
              "--cfg steps -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 "
              "-Cllvm-args=-sanitizer-coverage-trace-pc-guard -Clink-arg=" + BUILD + "/steps/cov.o",
              {}, X64 + "/release"),
    "asan": (["+nightly"], ["--release", "--target", X64],
             "--cfg mon_san -Zsanitizer=address %s -Copt-level=1" % NOABI, {}, X64 + "/release"),
    "tsan": (["+nightly"], ["--release", "--target", X64, "-Zbuild-std"],
             "--cfg mon_san -Zsanitizer=thread %s -Copt-level=1" % NOABI, {}, X64 + "/release"),
    "msan": (["+nightly"], ["--release", "--target", X64, "-Zbuild-std"],
             "--cfg mon_san -Zsanitizer=memory -Zsanitizer-memory-track-origins %s -Copt-level=1" % NOABI, {}, X64 + "/release"),
}
for _n, _p, _d in (("x32", [], "debug"), ("x32rel", ["--release"], "release")):
    # 32-bit programs run natively; only the C library's run-time files are installed, so tools/link32 supplies the rest
    LEGS[_n] = (["+nightly"], _p + ["--target", X86, "-Zbuild-std"], "-Crelocation-model=static -Clinker-flavor=gcc",
                {"CARGO_TARGET_I686_UNKNOWN_LINUX_GNU_LINKER": os.path.join(ROOT, "tools/link32/cc.sh")}, X86 + "/" + _d)
LEGS["steps32"] = (["+nightly"], ["--release", "--target", X86, "-Zbuild-std"],
                   LEGS["x32rel"][2] + " " + LEGS["steps"][2].replace("/steps/", "/steps32/"), LEGS["x32rel"][3], X86 + "/release")
LEGS["steps32chk"] = (["+nightly"], ["--target", X86, "-Zbuild-std"], LEGS["steps32"][2].replace("/steps32/", "/steps32chk/"), LEGS["x32"][3], X86 + "/debug")
LEGS["stepschk"] = ([], ["--target", X64], LEGS["steps"][2].replace("/steps/", "/stepschk/"), {}, X64 + "/debug")
MIRI_TARGETS = {
    "miri": X64,
    "miri32": "i686-unknown-linux-gnu",
    "miribe": "s390x-unknown-linux-gnu",
    "miri32be": "powerpc-unknown-linux-gnu",
}


def env_for(leg):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST", "MIRI"))}
    for k in ("CARGO_HOME", "RUSTUP_HOME"):
        if k in os.environ:
            e[k] = os.environ[k]
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, leg)
    e["RUST_BACKTRACE"] = "0"
    return e


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def freshen(leg):
    """Cargo goes by modification times; go by contents."""
    global STAMP
    STAMP = STAMP or repo_stamp()
    d = os.path.join(BUILD, leg)
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "repo-stamp")
    old = open(p).read() if os.path.exists(p) else None
    if old != STAMP:
        for base, dirs, _ in os.walk(d):
            if os.path.basename(base) == ".fingerprint":
                for x in dirs:
                    if x.startswith("succinct-"):
                        shutil.rmtree(os.path.join(base, x), ignore_errors=True)
                dirs[:] = []
        open(p, "w").write(STAMP)


def run(cmd, env, timeout, cwd=HARNESS):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf8", "replace"), e.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return None, o.decode("utf8", "replace"), e.decode("utf8", "replace")


def build(leg, binary):
    with Lock(leg):
        freshen(leg)
        e = env_for(leg)
        t = time.time()
        if leg in MIRI_TARGETS:
            miri_env(leg, e)
            tgt = MIRI_TARGETS[leg]
            sysroot = miri_sysroot(leg, tgt)
            e["MIRI_SYSROOT"] = sysroot
            # `run` of an empty case list builds, and shows that the interpreter works
            cmd = ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--target", tgt, "--bin", binary, "--",
                   "--case", "none:0", "--threads", "1", "--out", "/dev/null"]
        else:
            tc, args, flags, extra, _ = LEGS[leg]
            if leg.startswith("steps"):
                r = subprocess.run(["clang", "-O2", "-m32" if "32" in leg else "-m64", "-c", os.path.join(HARNESS, "cov/cov.c"), "-o",
                                    os.path.join(BUILD, leg, "cov.o")], capture_output=True, text=True)
                if r.returncode:
                    raise NoVerdict("cov.c: " + r.stderr)
            e["RUSTFLAGS"] = "-Awarnings " + flags
            e.update(extra)
            cmd = ["cargo"] + tc + ["build", "-q", "--offline", "--bin", binary] + args
        rc, o, er = run(cmd, e, 800)
        if rc != 0:
            raise NoVerdict("build of %s (%s) failed (rc %s):\n%s" % (binary, leg, rc, (o + er)[-1500:]))
        log("built", binary, leg, "%.1f s" % (time.time() - t))


def miri_env(leg, e):
    """64-bit Miri hunts undefined behaviour; the others only stand in for another machine, as fast as they can."""
    e["RUSTFLAGS"] = "-Awarnings" if leg == "miri" else "-Awarnings -Zmir-opt-level=3"
    e["MIRIFLAGS"] = "-Zmiri-disable-isolation"
    if leg != "miri":
        e["MIRIFLAGS"] += " -Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmiri-disable-alignment-check"


def miri_sysroot(leg, tgt):
    d = os.path.join(BUILD, "sysroot-" + leg)
    if not os.path.exists(os.path.join(d, "done")):
        e = env_for(leg)
        e["MIRI_SYSROOT"] = d
        rc, o, er = run(["cargo", "+nightly", "miri", "setup", "--target", tgt], e, 600)
        if rc != 0:
            raise NoVerdict("miri setup %s: %s" % (tgt, (o + er)[-3000:]))
        open(os.path.join(d, "done"), "w").write("")
    return d


def command(leg, binary, args, miriflags=""):
    e = env_for(leg)
    if leg in MIRI_TARGETS:
        miri_env(leg, e)
        e["MIRIFLAGS"] = (e["MIRIFLAGS"] + " " + miriflags).strip()
        e["MIRI_SYSROOT"] = os.path.join(BUILD, "sysroot-" + leg)
        return ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--target", MIRI_TARGETS[leg],
                "--bin", binary, "--"] + args, e
    if leg == "asan":
        e["ASAN_OPTIONS"] = "detect_leaks=1:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1"
        e["LSAN_OPTIONS"] = "exitcode=99"
    if leg == "tsan":
        e["TSAN_OPTIONS"] = "exitcode=99:halt_on_error=0:second_deadlock_stack=1"
    if leg == "msan":
        e["MSAN_OPTIONS"] = "exitcode=99"
    return [os.path.join(BUILD, leg, LEGS[leg][4], binary)] + args, e


# ---------------------------------------------------------------- one run

REPORTS = [
    ("asan", r"ERROR: AddressSanitizer:? ([\w-]+)"),
    ("lsan", r"ERROR: LeakSanitizer: (detected memory leaks)"),
    ("tsan", r"WARNING: ThreadSanitizer: ([\w -]+)"),
    ("msan", r"WARNING: MemorySanitizer: ([\w-]+)"),
    ("miri", r"error: (Undefined Behavior: [^\n]*)"),
    ("miri", r"error: (memory leaked[^\n]*)"),
    ("miri", r"error: (the evaluated program deadlocked[^\n]*)"),
    ("ub", r"MON-UB ([^\n]*)"),
]


def viol(leg, binary, seed, args, sig, msg, case=None, history=(), miriflags=""):
    return {"leg": leg, "bin": binary, "seed": seed, "args": args, "sig": sig, "msg": msg, "case": case,
            "history": list(history), "miriflags": miriflags}


def one(leg, binary, seed, args, cap, miriflags="", tag=""):
    """Runs one monitor process; returns (report, violations)."""
    out = os.path.join(BUILD, "out-%s-%s-%d%s.json" % (binary, leg, os.getpid(), tag))
    if os.path.exists(out):
        os.remove(out)
    full = ["--seed", str(seed), "--out", out, "--cap", str(cap)] + args
    cmd, e = command(leg, binary, full, miriflags)
    t = time.time()
    rc, o, er = run(cmd, e, cap + 330)
    wall = time.time() - t
    rep = None
    if os.path.exists(out):
        try:
            rep = json.load(open(out))
        except ValueError:
            rep = None
        os.remove(out)
    vs = []
    for kind, rx in REPORTS:
        m = re.search(rx, er)
        if m:
            at = er.find(m.group(0))
            vs.append(viol(leg, binary, seed, args, "%s: %s" % (kind, m.group(1).strip()[:120]),
                           er[at:at + 3000], miriflags=miriflags))
            break
    if rep:
        for v in rep["violations"]:
            vs.append(viol(leg, binary, seed, args, v["sig"], v["msg"], "%s:%d" % (v["workload"], v["case"]),
                           v["history"], miriflags))
        if rep["harness_errors"] and not vs:
            raise NoVerdict("%s %s: %s" % (binary, leg, rep["harness_errors"]))
    m = re.search(r"MON-ALLOC-BUDGET (\S+) (\d+)", er) or re.search(r"MON-CRASH (\S+) (\d+) signal 06", er)
    if m and not vs and "--case" not in args:
        # aborts, for want of memory perhaps: alone, the case has all of it
        vs += confirm_abort(leg, binary, seed, args, cap, "%s:%s" % m.group(1, 2), miriflags)
    m = re.search(r"MON-CRASH (\S+) (\d+) signal (\d+)", er)
    if m and m.group(3) != "06":
        vs.append(viol(leg, binary, seed, args, "crash", "the process died with signal %s while running this case\n%s"
                       % (m.group(3), er[-2500:]), "%s:%s" % m.group(1, 2), miriflags=miriflags))
    m = re.search(r"MON-STUCK (\S+):(\d+)", er)
    if rc == 3 and m and not vs:
        vs += confirm_stuck(leg, binary, seed, args, "%s:%s" % m.group(1, 2))
    if not vs:
        if rc is None:
            raise NoVerdict("%s %s: no end within its time" % (binary, leg))
        if rc != 0 or rep is None:
            raise NoVerdict("%s %s %s: exit %s\n%s" % (binary, leg, " ".join(args), rc, er[-3000:]))
    if rep is None:
        rep = {"workloads": [], "observed": {}, "complete": False}
    rep["leg"] = leg
    rep["run_wall_s"] = round(wall, 2)
    return rep, vs


def confirm_abort(leg, binary, seed, args, cap, case, miriflags):
    full = ["--seed", str(seed), "--out", "/dev/null", "--cap", str(cap)] + args + ["--case", case, "--threads", "1"]
    cmd, e = command(leg, binary, full, miriflags)
    rc, o, er = run(cmd, e, cap + 330)
    if "MON-ALLOC-BUDGET" in er:
        return [viol(leg, binary, seed, args, "memory", "this case asks for far more memory than it has any use for\n" + er[-1500:], case, miriflags=miriflags)]
    if "MON-CRASH" in er:
        return [viol(leg, binary, seed, args, "crash", "the process aborts while running this case\n" + er[-2500:], case, miriflags=miriflags)]
    raise NoVerdict("%s %s: case %s aborted, but not again (rc %s)" % (binary, leg, case, rc))


STEP_LIMIT = 20_000_000_000
# which build counts the steps of a case that does not end in this one
COUNTING = {"chk": "stepschk", "relchk": "stepschk", "dbgwrap": "stepschk", "x32": "steps32chk", "x32rel": "steps32"}


def asleep(pid):
    """(every thread sleeps, processor time used) of one of our processes."""
    states, ticks = [], 0
    for t in os.listdir("/proc/%d/task" % pid):
        f = open("/proc/%d/task/%s/stat" % (pid, t)).read().rsplit(")", 1)[1].split()
        states.append(f[0])
        ticks += int(f[11]) + int(f[12])
    return all(x == "S" for x in states), ticks / os.sysconf("SC_CLK_TCK")


def confirm_stuck(leg, binary, seed, args, case):
    """A case that does not end is judged by the steps it executes, or by all its threads being blocked; never by the clock alone."""
    if leg in MIRI_TARGETS:
        raise NoVerdict("%s %s: case %s takes too long" % (binary, leg, case))
    log("case", case, "does not end; counting its steps")
    counting = COUNTING.get(leg, "steps")
    build(counting, binary)
    cmd, e = command(counting, binary, ["--seed", str(seed), "--cap", "10000", "--case", case, "--out", "/dev/null", "--threads", "1"]
                     + [a for i, a in enumerate(args) if a == "--tier" or (i and args[i - 1] == "--tier")])
    e["MON_STEP_LIMIT"] = str(STEP_LIMIT)
    p = subprocess.Popen(cmd, cwd=HARNESS, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
    blocked, since, t = 0, 0, time.time()
    while p.poll() is None and time.time() - t < 400 and blocked < 100:
        time.sleep(0.25)
        try:
            s, cpu = asleep(p.pid)
        except (OSError, IndexError):
            continue
        if not s or cpu - since > 0.15:
            blocked, since = 0, cpu
        else:
            blocked += 1
    rc = p.poll()
    if rc is None:
        os.killpg(p.pid, 9)
        p.wait()
    if rc == 71:
        return [viol(leg, binary, seed, args, "no-end", "this case executed more than %d steps without ending" % STEP_LIMIT, case)]
    if rc is None and blocked >= 100:
        return [viol(leg, binary, seed, args, "no-end", "every thread of this case is blocked for good", case)]
    raise NoVerdict("%s %s: case %s was stuck, but not again (rc %s)" % (binary, leg, case, rc))


def compare_digests(reports, seed, tier):
    """Every case's record must be the same in every leg of a group (C24: builds and targets; C22: contents of fresh memory)."""
    vs = []
    bases, wants = {}, {}
    for r in sorted(reports, key=lambda r: r["leg"] != "rel"):
        g = r["spec"].get("cmp")
        if g is None:
            continue
        base = bases.setdefault(g, r)
        if r is base:
            wants[g] = {w["name"]: w["digests"] for w in base["workloads"]}
            continue
        want = wants[g]
        n, bad = 0, []
        for w in r["workloads"]:
            for i, d in w["digests"].items():
                if i in want.get(w["name"], {}):
                    n += 1
                    if want[w["name"]][i] != d:
                        bad.append((w["name"], i))
        r["extra"] = {"leg": r["name"], "compared_with": base["name"], "cases_compared": n, "different": len(bad)}
        if not n:
            raise NoVerdict("%s: nothing to compare" % r["name"])
        for w, i in bad[:2]:
            vs.append(explain(base, r, w, i))
    return vs


def explain(a, b, w, i):
    """Runs one case again in both builds and finds where the records part."""
    h = []
    for r in (a, b):
        sp = r["spec"]
        out = os.path.join(BUILD, "explain-%d.json" % os.getpid())
        cmd, e = command(sp["leg"], sp["bin"], ["--seed", str(sp["seed"]), "--out", out, "--threads", "1", "--case", "%s:%s" % (w, i)]
                         + [x for i, x in enumerate(sp["args"]) if x in ("--tier", "quick", "thorough", "--no-signals", "--junk")
                            or (i and sp["args"][i - 1] == "--junk")], sp.get("miriflags", ""))
        run(cmd, e, 300)
        try:
            h.append(json.load(open(out))["history"])
            os.remove(out)
        except (OSError, ValueError):
            h.append(["(no record)"])
    k = 0
    while k < min(map(len, h)) and h[0][k] == h[1][k]:
        k += 1
    x, y = [q[k] if k < len(q) else "(end)" for q in h]
    return viol(b["leg"], b["spec"]["bin"], b["spec"]["seed"], b["spec"]["args"], "differs",
                "case %s:%s differs between %s and %s, first at step %d: %s / %s" % (w, i, a["name"], b["name"], k, x, y),
                "%s:%s" % (w, i), h[1][:k + 1])


# ---------------------------------------------------------------- known findings

def known(prop):
    """Lines `finding: property=<id> sig=<signature> case=<substring of the message> -- <what fails>`."""
    r = []
    p = os.path.join(ROOT, "known-findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"finding: property=(\S+) sig=(\S+) msg=<<(.*)>> -- (.*)$", l)
        if m and m.group(1) == prop:
            r.append((m.group(2), m.group(3), m.group(4)))
    return r


# ---------------------------------------------------------------- checks

def mixseed(seed, k):
    h = hashlib.sha256(("%d/%d" % (seed, k)).encode()).digest()
    return int.from_bytes(h[:8], "little") >> 1


def check(prop, tier, seed):
    P = PROPS[prop]
    binary = prop.lower()
    legs = P["legs"](tier)
    # build what the legs need, in parallel
    need = sorted({(l["leg"], l.get("bin", binary)) for l in legs})
    with cf.ThreadPoolExecutor(8) as ex:
        errs = []
        for f in [ex.submit(build, a, b) for a, b in need]:
            try:
                f.result()
            except NoVerdict as x:
                errs.append(str(x))
        if errs:
            raise NoVerdict("\n".join(errs))
    reports, vs = [], []

    def go(k, l):
        s = seed if l.get("same_seed") else mixseed(seed, l.get("k", k))
        a = ["--tier", tier] + l.get("args", [])
        rep, v = one(l["leg"], l.get("bin", binary), s, a, l.get("cap", 200), l.get("miriflags", ""), "-%d" % k)
        rep["name"] = l.get("name", l["leg"])
        rep["spec"] = dict(l, seed=s, bin=l.get("bin", binary), args=a)
        log("ran", rep["name"], "%.1f s" % rep["run_wall_s"], sum(w["cases"] for w in rep["workloads"]), "cases",
            "%d violation(s)" % len(v) if v else "")
        return rep, v

    serial = [(k, l) for k, l in enumerate(legs) if not l.get("par")]
    par = [(k, l) for k, l in enumerate(legs) if l.get("par")]
    errs = []
    for k, l in serial:
        try:
            r, v = go(k, l)
            reports.append(r)
            vs += v
        except NoVerdict as x:
            errs.append(str(x))
        if vs:
            break
    if par and not vs:
        with cf.ThreadPoolExecutor(8) as ex:
            for f in [ex.submit(go, k, l) for k, l in par]:
                try:
                    r, v = f.result()
                    reports.append(r)
                    vs += v
                except NoVerdict as x:
                    errs.append(str(x))
    if any("cmp" in l for l in legs) and not vs and not errs:
        try:
            vs += compare_digests(reports, seed, tier)
        except NoVerdict as x:
            errs.append(str(x))
    if not vs and errs:
        raise NoVerdict("\n".join(errs))
    if not vs:
        for r in reports:
            if not sum(w["cases"] for w in r["workloads"]) or not sum(w["evals"] for w in r["workloads"]):
                raise NoVerdict("%s: the run observed nothing" % r["name"])
            if r["name"] in ("chk", "rel") and r["spec"].get("whole", True):
                for w in r["workloads"]:
                    if w["planned"] and not w["cases"]:
                        raise NoVerdict("%s: no case of %s was run" % (r["name"], w["name"]))
    return reports, vs


def evidence(prop, tier, seed, reports, vs, wall):
    P = PROPS[prop]
    per = {}
    observed = {}
    samples = []
    for r in reports:
        for w in r["workloads"]:
            p = per.setdefault(w["name"], {"cases": 0, "oracle_comparisons": 0, "distinct_nontrivial": 0})
            p["cases"] += w["cases"]
            p["oracle_comparisons"] += w["evals"]
            p["distinct_nontrivial"] = max(p["distinct_nontrivial"], w["distinct"])
            if w["fixed"]:
                p["enumeration_completed"] = p.get("enumeration_completed", True) and w["cases"] == w["planned"]
            samples += [s for s in w["samples"][:1] if len(samples) < 12 and not any(x.split(":")[0] == s.split(":")[0] for x in samples)]
        for k, v in r["observed"].items():
            observed[k] = observed.get(k, 0) + v
    cov = {
        "evaluations": sum(p["cases"] for p in per.values()),
        "distinct_nontrivial": sum(p["distinct_nontrivial"] for p in per.values()),
        "rule": P["rule"] + " Distinct: by fingerprint of the generated input, within a workload, in the leg that saw most.",
        "samples": samples or ["(violated before a sample was written)"],
        "oracle_comparisons": sum(p["oracle_comparisons"] for p in per.values()),
        "workloads": per,
        "observed": dict(sorted(observed.items())),
        "legs": [{"leg": r["name"], "wall_s": r["run_wall_s"], "cases": sum(w["cases"] for w in r["workloads"]),
                  "all_planned_cases_run": r["complete"]} for r in reports],
    }
    for r in reports:
        if "extra" in r:
            cov.setdefault("comparisons", []).append(r["extra"])
    ev = {"property": prop, "tier": tier, "seed": seed, "level": P["level"], "coverage": cov,
          "assumptions": P.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(vs)}
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, prop + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(EVID, prop + ".json"))


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "--setup":
        return setup()
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1) % (1 << 63)
    try:
        reports, vs = check(prop, tier, seed)
    except NoVerdict as x:
        print("NO VERDICT property=%s %s" % (prop, x))
        return 2
    unknown = []
    seen = set()
    for v in vs:
        k = next((k for k in known(prop) if k[0] == v["sig"] and k[1] in v["msg"]), None)
        if k:
            if k not in seen:
                print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
            seen.add(k)
        else:
            unknown.append(v)
    evidence(prop, tier, seed, reports, unknown, time.time() - T0)
    for f in os.listdir(EVID):
        if f.startswith("replay-%s-" % prop):
            os.remove(os.path.join(EVID, f))
    for i, v in enumerate(unknown[:10]):
        p = os.path.join(EVID, "replay-%s-%d.json" % (prop, i + 1))
        json.dump(dict(v, property=prop, title=TITLE[prop], tier=tier), open(p, "w"), indent=1)
        print("%s in %s, case %s: %s" % (v["sig"], v["leg"], v["case"], v["msg"][:600]))
        print("VIOLATION property=%s replay=%s" % (prop, p))
    if unknown:
        return 1
    print("held property=%s tier=%s cases=%d wall=%.0fs" % (
        prop, tier, sum(w["cases"] for r in reports for w in r["workloads"]), time.time() - T0))
    return 0


def replay(path):
    v = json.load(open(path))
    build(v["leg"], v["bin"])
    a = list(v["args"])
    if v["case"]:
        a += ["--case", v["case"]]
    cmd, e = command(v["leg"], v["bin"], ["--seed", str(v["seed"])] + a, v.get("miriflags", ""))
    rc, o, er = run(cmd, e, 3000)
    print(o[-20000:])
    print(er[-20000:])
    return rc if rc is not None else 2


def setup():
    need = sorted({(l["leg"], l.get("bin", p.lower())) for p in PROPS for l in PROPS[p]["legs"]("quick")})
    bad = 0
    with cf.ThreadPoolExecutor(3) as ex:
        for (a, b), f in [((a, b), ex.submit(build, a, b)) for a, b in need]:
            try:
                f.result()
            except NoVerdict as x:
                bad = 1
                print(x)
    return bad


if __name__ == "__main__":
    sys.exit(main())
