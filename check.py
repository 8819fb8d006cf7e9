#!/usr/bin/env python3
"""Driver of the checks: check.py <ID> | check.py --replay FILE | check.py --setup

Builds the harness against /repo's working tree, runs the monitored workloads of one property,
judges the reports, and writes evidence/<ID>.json.

exit 0  the property held on everything explored
exit 1  a "VIOLATION property=<ID> replay=<path>" line was printed
exit 2  no answer (the tree does not build, the machine ran out of something, ...)
"""
import concurrent.futures, glob, json, os, re, shutil, signal, struct, subprocess, sys, tarfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VREPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, os.path.join(VERIF, "tools"))
import literals  # noqa: E402
import serdegen  # noqa: E402
import typegen  # noqa: E402

TOOLCHAIN = "nightly-2023-10-11"


class NoAnswer(Exception):
    pass


def env(extra=None):
    e = dict(os.environ)
    e.update(
        RUSTUP_TOOLCHAIN=TOOLCHAIN,
        CARGO_NET_OFFLINE="true",
        CARGO_TARGET_DIR=os.path.join(BUILD, "target"),
        CARGO_TERM_COLOR="never",
        CARGO_INCREMENTAL="0",
        VDICT=os.path.join(BUILD, "dict.txt"),
    )
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e.update(extra or {})
    return e


def sh(cmd, cwd=VERIF, e=None, timeout=800):
    """Run to completion; output returned. The whole process group ends on a timeout."""
    p = subprocess.Popen(cmd, cwd=cwd, env=e or env(), stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.communicate()
        raise NoAnswer("timed out: %s" % " ".join(cmd))
    return p.returncode, out.decode("utf-8", "replace")


def cargo_build(crate, args, e=None):
    rc, out = sh(["cargo", "build", "--offline"] + args, cwd=os.path.join(VERIF, crate), e=e)
    if rc != 0:
        e = NoAnswer("build of %s failed:\n%s" % (crate, out[-4000:]))
        e.log = out
        raise e


def read_slots(path):
    """(stage, idx, state, note) of every thread that was inside the code under test."""
    res = []
    try:
        b = open(path, "rb").read()
    except OSError:
        return res
    for i in range(len(b) // 128):
        s = b[i * 128:(i + 1) * 128]
        state, idx = struct.unpack_from("<QQ", s)
        if state:
            stage = s[32:64].split(b"\0")[0].decode("utf-8", "replace")
            note = s[64:128].split(b"\0")[0].decode("utf-8", "replace")
            res.append((stage, idx, state, note))
    return res


def run_bin(prop, exe, tag, a, extra_args=(), e=None, retry=True):
    """Run one workload binary and return its report."""
    out = os.path.join(BUILD, "out.%s.%s.json" % (prop, tag))
    slots = os.path.join(BUILD, "slots.%s.%s" % (prop, tag))
    for f in (out, slots):
        if os.path.exists(f):
            os.unlink(f)
    cmd = [exe, "--prop", prop, "--seed", str(a.seed), "--tier", a.tier, "--out", out,
           "--slots", slots, "--deadline", str(int(a.deadline))] + list(extra_args)
    rc, log = sh(cmd, e=e, timeout=a.deadline * 1.3 + 120)
    if rc == 0:
        return json.load(open(out))
    inside = read_slots(slots)
    if rc == 77 and any(s[2] == 2 for s in inside):
        s = [s for s in inside if s[2] == 2][0]
        return crash_report("hang", s, "a call into the code under test used all of its CPU time", log)
    if rc < 0 and rc != -signal.SIGKILL and inside:
        what = "crash:" + signal.Signals(-rc).name
        if len(inside) > 1 and retry:
            # Several threads were inside: find the one that ends the process by itself.
            for s in inside:
                one = list(extra_args) + ["--replay", "%s/%d" % (s[0], s[1])]
                try:
                    rc2, log2 = sh([exe, "--prop", prop, "--seed", str(a.seed), "--tier", a.tier,
                                    "--out", out, "--slots", slots] + one, e=e, timeout=120)
                except NoAnswer:
                    continue
                if rc2 < 0:
                    return crash_report("crash:" + signal.Signals(-rc2).name, s, "", log2)
        return crash_report(what, inside[0], "", log)
    raise NoAnswer("%s ended with %d:\n%s" % (os.path.basename(exe), rc, log[-3000:]))


def crash_report(sig, slot, text, log):
    stage, idx, _, note = slot
    return {"evaluations": 0, "distinct": 0, "digest": "", "stages": [], "counts": {}, "samples": [],
            "violations": [{"sig": sig, "stage": stage, "idx": idx,
                            "detail": ("%s %s\n%s" % (text, note, log[-2500:])).strip()}]}


# ------------------------------------------------------------------------------------------------
# Parts: what is built and run for a property. Each returns [(part name, report)].


def scaled(a):
    return ["--scale", "4"] if a.tier == "quick" else []


def twice(prop, exe, name, a, x, **kw):
    """C12: the same workload in a second process has to print the same digest of all outputs."""
    r1 = run_bin(prop, exe, name, a, x, **kw)
    if prop != "C12" or a.replay or r1["violations"]:
        return [(name, r1)]
    r2 = run_bin(prop, exe, name + "2", a, x, **kw)
    if r1["digest"] != r2["digest"] and all(s["done"] == s["planned"] for s in r1["stages"] + r2["stages"]):
        r2["violations"].append({"sig": "processes", "stage": "second-process", "idx": 0,
                                 "detail": "the same calls gave other outputs in a second process: digest %s, then %s" % (
                                     r1["digest"], r2["digest"])})
    return [(name, r1), (name + "-second-process", r2)]


def part_core(prop, a):
    cargo_build("harness", ["--bin", "core"])
    exe = os.path.join(BUILD, "target", "debug", "core")
    return twice(prop, exe, "core", a, scaled(a) + a.replay_args("core"))


def generate(a, name, gen):
    """Generate the types under test for this seed."""
    path = os.path.join(BUILD, name)
    gen.main(path + ".new", a.seed, 2.0 if a.tier == "quick" else 4.0)
    new = open(path + ".new").read()
    if not os.path.exists(path) or open(path).read() != new:
        os.replace(path + ".new", path)
    else:
        os.unlink(path + ".new")
    return path


def derives_refused(prop, zoo, log):
    """The compiler refuses code that the derive macros made of supported types: nothing can be run,
    and what is wrong is the derived code. Any other failure to build is no answer."""
    lines = open(zoo).read().split("\n")
    found = []
    errors = re.split(r"(?m)^(?=error)", log)[1:]
    for x in errors:
        m = re.search(r"--> \S*zoo\.rs:(\d+):", x)
        if not m:
            continue
        # The derive attribute at or above the place, within the same item.
        n = int(m.group(1)) - 1
        while n >= 0 and not lines[n].startswith("#[derive(") and not lines[n].startswith("impl"):
            n -= 1
        if n < 0 or not lines[n].startswith("#[derive(") or "cbor::" not in lines[n]:
            continue
        side = set(re.findall(r"derive macro `cbor::(\w+)`", x)) or {"Encode", "Decode"}
        found.append((int(m.group(1)), side, x))
    mine = {"C13": {"Encode"}, "C14": {"Encode", "Decode"}}.get(prop, {"Decode"})
    found = [f for f in found if f[1] & mine]
    if not found:
        return None
    return {"evaluations": 0, "distinct": 0, "digest": "", "stages": [], "counts": {}, "samples": [],
            "violations": [{"sig": "derived-code-refused", "stage": "build", "idx": n,
                            "detail": x.strip()[:2500]} for n, _, x in found[:5]]}


def part_typed(prop, a):
    zoo = generate(a, "zoo.rs", typegen)
    try:
        cargo_build("typed", ["--bin", "typed"], e=env({"VZOO": zoo}))
    except NoAnswer as e:
        bad = derives_refused(prop, zoo, getattr(e, "log", ""))
        if not bad:
            raise
        return [("typed", bad)]
    exe = os.path.join(BUILD, "target", "debug", "typed")
    x = ["--scale", "2"] if prop == "C12" and a.tier == "quick" else scaled(a)
    return twice(prop, exe, "typed", a, x + a.replay_args("typed"))


def part_bridge(prop, a):
    cargo_build("bridge", ["--bin", "bridge"], e=env({"VSZOO": generate(a, "szoo.rs", serdegen)}))
    exe = os.path.join(BUILD, "target", "debug", "bridge")
    return twice(prop, exe, "bridge", a, scaled(a) + a.replay_args("bridge"))


# C21: the C interface.

TRIPLE = "x86_64-unknown-linux-gnu"


def at_once(*fs):
    """Run several builds beside each other."""
    with concurrent.futures.ThreadPoolExecutor() as p:
        for r in [p.submit(f) for f in fs]:
            r.result()


def ffilib(e=None, args=()):
    e = e or {}
    cargo_build("ffilib", list(args), e=env({"CARGO_TARGET_DIR": os.path.join(BUILD, "ffilib"), **e}))
    d = [os.path.join(BUILD, "ffilib")] + list(args[1:]) + ["debug", "libdifffuzz.so"]
    return os.path.join(*d)


def part_ffi(prop, a):
    """Guard pages and allocation counts around the plain library."""
    at_once(lambda: ffilib(), lambda: cargo_build("ffi", ["--features", "count"]))
    e = env({"VFFILIB": ffilib()})
    return [("ffi", run_bin(prop, os.path.join(BUILD, "target", "debug", "ffi"), "ffi", a, a.replay_args("ffi"), e=e))]


ASAN = {"RUSTFLAGS": "-Zsanitizer=address -Clink-arg=-rdynamic", "CARGO_TARGET_DIR": os.path.join(BUILD, "asan")}
ASAN_RUN = {"ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1"}


def part_asan_ffi(prop, a):
    """The same, library and caller instrumented by AddressSanitizer."""
    san = {"RUSTFLAGS": "-Zsanitizer=address"}
    at_once(lambda: ffilib(san, ["--target", TRIPLE]),
            lambda: cargo_build("ffi", ["--target", TRIPLE], e=env(ASAN)))
    e = env({"VFFILIB": ffilib(san, ["--target", TRIPLE]), **ASAN_RUN})
    exe = os.path.join(BUILD, "asan", TRIPLE, "debug", "ffi")
    return [("asan_ffi", run_bin(prop, exe, "asan_ffi", a, a.replay_args("asan_ffi"), e=e))]


def callers(a):
    """Build the callers in Go and C, and the inputs they are fed with."""
    d = os.path.join(BUILD, "goffi")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "target", "release"))
    os.makedirs(os.path.join(d, "cmd", "run"))
    src = os.path.join(REPO, "difffuzz")
    for f in os.listdir(src):
        if re.search(r"(?<!_test)\.(go|h|c)$", f):
            shutil.copy(os.path.join(src, f), d)
    shutil.copy(os.path.join(VERIF, "goffi", "main.go"), os.path.join(d, "cmd", "run"))
    open(os.path.join(d, "go.mod"), "w").write("module github.com/oasisprotocol/oasis-cbor/difffuzz\n\ngo 1.18\n")
    e = env()
    lib = ffilib()
    shutil.copy(lib, os.path.join(d, "target", "release"))
    e.update(GOCACHE=os.path.join(BUILD, "gocache"), GOPATH=os.path.join(BUILD, "gopath"), GOFLAGS="-mod=mod",
             GOPROXY="off", GOTOOLCHAIN="local", GO111MODULE="on", CGO_ENABLED="1",
             LD_LIBRARY_PATH=os.path.join(d, "target", "release"))

    def go():
        rc, out = sh(["go", "build", "-o", "run", "./cmd/run"], cwd=d, e=e)
        if rc != 0:
            raise NoAnswer("build of the Go caller failed:\n" + out[-3000:])

    def c():
        rc, out = sh(["gcc", "-g", "-O1", "-I.", "-o", "crun", os.path.join(VERIF, "goffi", "main.c"),
                      "-Ltarget/release", "-ldifffuzz"], cwd=d, e=e)
        if rc != 0:
            raise NoAnswer("build of the C caller failed:\n" + out[-3000:])

    def inputs():
        cargo_build("ffi", ["--features", "count"])
        rc, out = sh([os.path.join(BUILD, "target", "debug", "ffi"), "--prop", "inputs", "--seed", str(a.seed),
                      "--tier", a.tier, "--out", os.path.join(d, "inputs.bin")], e=e)
        if rc != 0:
            raise NoAnswer("no inputs:\n" + out[-3000:])

    at_once(go, c, inputs)
    return d, e


def part_callers(prop, a):
    d, e = callers(a)
    res = []
    some = "3000" if a.tier == "quick" else "60000"
    for name, cmd in [
        ("go", ["./run", "inputs.bin"]),
        ("c-valgrind", ["valgrind", "-q", "--error-exitcode=9", "--leak-check=full", "--errors-for-leak-kinds=definite,indirect",
                        "./crun", "inputs.bin", some]),
    ]:
        rc, out = sh(cmd, cwd=d, e=e)
        done = re.search(r"^DONE inputs=(\d+) calls=(\d+) accepted=(\d+) failed=(\d+)", out, re.M)
        r = {"evaluations": 0, "distinct": 0, "digest": "", "stages": [], "counts": {}, "samples": [], "violations": []}
        if done:
            n, calls, acc, _ = map(int, done.groups())
            r["evaluations"], r["distinct"] = calls, n
            r["stages"] = [{"name": name, "done": n, "planned": n}]
            r["counts"] = {"accepted": acc, "refused": n - acc}
        for l in re.findall(r"FAIL .*", out)[:20]:
            r["violations"].append({"sig": name + "-verdict", "stage": name, "idx": int(l.split()[1]), "detail": l})
        if rc != 0 or not done:
            if rc in (-signal.SIGKILL, 3):
                raise NoAnswer("%s ended with %d:\n%s" % (name, rc, out[-3000:]))
            r["violations"].append({"sig": name + "-crash", "stage": name, "idx": 0,
                                    "detail": "ended with %d\n%s" % (rc, out[-2500:])})
        res.append(("callers-" + name, r))
    return res


# C22: Miri on three targets, AddressSanitizer and native threads.

TARGETS = {"host": TRIPLE, "32-bit": "i686-unknown-linux-gnu", "big-endian": "s390x-unknown-linux-gnu"}
MBINS = ["medge", "mvalue", "mtyped", "mserde"]


def miri_env(target, sysroots, flags, zoos):
    return env({"RUSTUP_TOOLCHAIN": "nightly", "CARGO_TARGET_DIR": os.path.join(BUILD, "miri." + target), "MIRI_SYSROOT": sysroots[target],
                "MIRIFLAGS": "-Zmiri-disable-isolation " + flags, "RUST_BACKTRACE": "0", "RUSTFLAGS": "-Awarnings", **zoos})


def jobs_of(path):
    n, i, b = 0, 0, open(path, "rb").read()
    while i < len(b):
        i += 13 + struct.unpack_from("<I", b, i + 9)[0]
        n += 1
    return n


def empty_report():
    return {"evaluations": 0, "distinct": 0, "digest": "", "stages": [], "counts": {}, "samples": [], "violations": []}


def part_miri(prop, a):
    quick = a.tier == "quick"
    zoos = {"VZOO": os.path.join(BUILD, "mzoo.rs"), "VSZOO": os.path.join(BUILD, "mszoo.rs")}
    typegen.main(zoos["VZOO"], a.seed, 0.2 if quick else 0.6)
    serdegen.main(zoos["VSZOO"], a.seed, 0.4 if quick else 1.0)
    mdir = os.path.join(VERIF, "miri")
    vendor = os.path.join(BUILD, "vendor")
    sysroots = {t: os.path.join(BUILD, "sysroot." + t) for t in TARGETS.values()}
    native = os.path.join(BUILD, "target", "debug")

    def sysroot(t):
        rc, out = sh(["cargo", "miri", "setup", "--target", t], cwd="/", e=miri_env(t, sysroots, "", zoos))
        if rc != 0:
            raise NoAnswer("no Miri sysroot for %s:\n%s" % (t, out[-3000:]))

    at_once(lambda: cargo_build("miri", [], e=env(zoos)), lambda: vendored("miri", vendor), *[lambda t=t: sysroot(t) for t in sysroots])

    def miri(target, flags, b, args, timeout=800):
        return sh(["cargo", "miri", "run", "-q", "--config", vendor + ".toml", "--target", target, "--bin", b, "--"] + args,
                  cwd=mdir, e=miri_env(target, sysroots, flags, zoos), timeout=timeout)

    def first(t):
        for b in MBINS:
            rc, out = miri(t, "", b, ["run", "/dev/null", "0", "1"])
            if rc != 0:
                raise NoAnswer("Miri cannot run %s on %s:\n%s" % (b, t, out[-4000:]))

    jobs, count, want = {}, {}, {}

    def expect():
        for b in MBINS:
            jobs[b] = os.path.join(BUILD, "jobs." + b)
            rc, out = sh([os.path.join(native, b), "gen", jobs[b], str(a.seed), "400"])
            if rc == 0:
                rc, out = sh([os.path.join(native, b), "run", jobs[b], "0", "1"])
            if rc != 0:
                raise NoAnswer("native run of %s ended with %d:\n%s" % (b, rc, out[-3000:]))
            count[b] = jobs_of(jobs[b])
            want[b] = {int(l.split()[0]): l for l in out.split("\n") if l[:1].isdigit()}

    at_once(expect, *[lambda t=t: first(t) for t in sysroots])

    # Small shares of the cases, each in a process of its own, in turns over targets and programs.
    per = 150
    tasks = []
    for rnd in range(8 if quick else 200):
        for name, t in TARGETS.items():
            for b in MBINS:
                step = max(4, count[b] // per)
                if rnd < step:
                    tasks.append((name, b, "run", rnd, step, rnd))
        for b in MBINS:
            tasks.append(("threads", b, "threads", rnd, max(8, count[b] // 25), a.seed * 1000 + rnd))
    tasks.sort(key=lambda t: t[1] != "medge" or t[0] == "threads")
    if a.replay:
        w, b = a.replay["stage"].split("/")[:2]
        tasks = [t for t in tasks if t[0] == w and t[1] == b and t[3] == a.replay["idx"] % t[4]] if w == "threads" else [
            (w, b, "run", a.replay["idx"], 1 << 40, 0)]
    end = time.time() + (210 if quick else 3000)
    stop = []

    def task(x):
        name, b, mode, lo, step, seed = x
        if time.time() > end or stop:
            return None
        t = TARGETS.get(name, TRIPLE)
        # Aliasing and validity are watched on the host; on the others, results.
        flags = {"host": "", "threads": "-Zmiri-seed=%d -Zmiri-preemption-rate=%s" % (seed, [0.01, 0.05, 0.3][lo % 3])}.get(
            name, "-Zmiri-disable-stacked-borrows -Zmiri-disable-validation")
        try:
            rc, out = miri(t, flags, b, [mode, jobs[b], str(lo), str(step)], timeout=max(60, end + 150 - time.time()))
        except NoAnswer:
            return None
        return (x, rc, out)

    with concurrent.futures.ThreadPoolExecutor(os.cpu_count()) as pool:
        results = list(pool.map(task, tasks))

    rep = {}
    for x, res in zip(tasks, results):
        name, b = x[0], x[1]
        r = rep.setdefault("miri-" + name, empty_report())
        st = "%s/%s" % (name, b)
        s = next((s for s in r["stages"] if s["name"] == st), None)
        if s is None:
            s = {"name": st, "done": 0, "planned": 0}
            r["stages"].append(s)
        s["planned"] += 1
        if res is None:
            continue
        _, rc, out = res
        last = -1
        if x[2] == "run":
            for l in out.split("\n"):
                m = re.match(r"(\d+) (\w+) ([0-9a-f]{16})$", l)
                if not m:
                    continue
                last = int(m.group(1))
                r["evaluations"] += 1
                r["distinct"] += 1
                k = "%s.%s" % (b, m.group(2))
                r["counts"][k] = r["counts"].get(k, 0) + 1
                if want[b].get(last) != l:
                    if len(r["violations"]) >= 3:
                        continue
                    _, here = sh([os.path.join(native, b), "show", jobs[b], str(last)])
                    try:
                        _, there = miri(TARGETS[name], "-Zmiri-disable-stacked-borrows", b, ["show", jobs[b], str(last)])
                    except NoAnswer:
                        there = "?"
                    r["violations"].append({"sig": "differs", "stage": st, "idx": last,
                                            "detail": "natively:\n%s\non %s:\n%s" % (here[:1500], name, there[-1500:])})
        else:
            m = re.search(r"^(\d+) (\d+)$", out, re.M)
            if m:
                r["evaluations"] += int(m.group(1))
                r["distinct"] += 1
                r["counts"]["schedules"] = r["counts"].get("schedules", 0) + 1
            for l in re.findall(r"^DIFFERS .*", out, re.M)[:3]:
                r["violations"].append({"sig": "threads", "stage": st, "idx": int(l.split()[1]), "detail": l})
        if rc == 0 and "END" in out:
            s["done"] += 1
            continue
        err = re.search(r"^error: .*", out, re.M)
        err = err.group(0) if err else "ended with %d" % rc
        if re.search("unsupported operation|resource exhaustion", err) or rc == -signal.SIGKILL:
            r["counts"]["not_interpretable"] = r["counts"].get("not_interpretable", 0) + 1
            continue
        at = last + x[4] if last >= 0 else x[3]
        i = out.find("error:")
        r["violations"].append({"sig": re.sub(r"0x[0-9a-f]+|alloc\d+|\d+", "#", err)[:60], "stage": st, "idx": at, "detail": out[i:i + 3000]})
    return sorted(rep.items())


def part_asan(prop, a):
    """The same cases, many more of them, natively: under AddressSanitizer, and on threads."""
    zoos = {"VZOO": os.path.join(BUILD, "mzoo.rs"), "VSZOO": os.path.join(BUILD, "mszoo.rs")}
    if not all(os.path.exists(p) for p in zoos.values()):
        typegen.main(zoos["VZOO"], a.seed, 0.2)
        serdegen.main(zoos["VSZOO"], a.seed, 0.4)
    at_once(lambda: cargo_build("miri", [], e=env(zoos)),
            lambda: cargo_build("miri", ["--target", TRIPLE], e=env({**ASAN, **zoos})))
    r = empty_report()

    def one(b):
        jobs = os.path.join(BUILD, "manyjobs." + b)
        plain = os.path.join(BUILD, "target", "debug", b)
        rc, out = sh([plain, "gen", jobs, str(a.seed + 1), "6000" if a.tier == "quick" else "100000"])
        if rc != 0:
            raise NoAnswer(out[-2000:])
        rc, want = sh([plain, "run", jobs, "0", "1"])
        if rc < 0 and rc != -signal.SIGKILL:
            return b, want.count("\n"), want, [("native", (rc, want))]
        if rc != 0:
            raise NoAnswer("%s ended with %d\n%s" % (b, rc, want[-2000:]))
        n = want.count("\n") - 1
        res = [("asan", sh([os.path.join(BUILD, "asan", TRIPLE, "debug", b), "run", jobs, "0", "1"], e=env(ASAN_RUN))),
               ("threads", sh([plain, "threads", jobs, "0", "1"]))]
        os.unlink(jobs)
        return b, n, want, res

    with concurrent.futures.ThreadPoolExecutor() as p:
        for b, n, want, res in p.map(one, MBINS):
            for how, (rc, out) in res:
                st = "%s/%s" % (how, b)
                r["stages"].append({"name": st, "done": n, "planned": n})
                r["evaluations"] += n
                r["distinct"] += n if how == "asan" else 0
                r["counts"][st] = n
                if rc == -signal.SIGKILL:
                    raise NoAnswer("%s was killed" % st)
                if rc != 0:
                    r["violations"].append({"sig": st, "stage": st, "idx": 0, "detail": "ended with %d\n%s" % (rc, out[-3000:])})
                elif how == "asan" and out != want:
                    d = [x for x in zip(want.split("\n"), out.split("\n")) if x[0] != x[1]][:2]
                    r["violations"].append({"sig": st, "stage": st, "idx": 0, "detail": "other results: %s" % d})
                elif how == "threads" and "DIFFERS" in out:
                    r["violations"].append({"sig": st, "stage": st, "idx": 0, "detail": out[-1500:]})
    return [("asan", r)]


def vendored(crate, to, std=False):
    """A directory of all dependencies, for the newest toolchain, which keeps its cache elsewhere."""
    shutil.rmtree(to, ignore_errors=True)
    os.makedirs(to)
    # Not `cargo vendor`: it removes and unpacks again the sources that other builds are reading.
    home = os.environ.get("CARGO_HOME") or os.path.expanduser("~/.cargo")
    lock = open(os.path.join(VERIF, crate, "Cargo.lock")).read()
    for name, version, sum_ in re.findall(r'name = "([^"]+)"\nversion = "([^"]+)"\nsource = "registry[^"]*"\nchecksum = "([^"]+)"', lock):
        nv = "%s-%s" % (name, version)
        found = glob.glob(os.path.join(home, "registry/cache/*", nv + ".crate"))
        if not found:
            raise NoAnswer("no source of " + nv)
        with tarfile.open(found[0]) as t:
            t.extractall(to)
        json.dump({"files": {}, "package": sum_}, open(os.path.join(to, nv, ".cargo-checksum.json"), "w"))
    if std:
        rc, out = sh(["rustc", "--print", "sysroot"], e=env({"RUSTUP_TOOLCHAIN": "nightly"}))
        lib = os.path.join(out.strip().split("\n")[-1], "lib/rustlib/src/rust/library/vendor")
        for d in os.listdir(lib):
            shutil.copytree(os.path.join(lib, d), os.path.join(to, "std-" + d))
    open(to + ".toml", "w").write('[source.crates-io]\nreplace-with = "v"\n[source.v]\ndirectory = "%s"\n' % to)
    return to + ".toml"


def part_sanitizer(prop, a, name, flag, mode, env_run, size):
    """The same cases with everything, the standard library included, built by the newest toolchain
    with another sanitizer."""
    zoos = {"VZOO": os.path.join(BUILD, "mzoo.rs"), "VSZOO": os.path.join(BUILD, "mszoo.rs")}
    if not all(os.path.exists(p) for p in zoos.values()):
        typegen.main(zoos["VZOO"], a.seed, 0.2)
        serdegen.main(zoos["VSZOO"], a.seed, 0.4)
    cfg = vendored("miri", os.path.join(BUILD, "vendor." + name), std=True)
    e = env({"RUSTUP_TOOLCHAIN": "nightly", "CARGO_TARGET_DIR": os.path.join(BUILD, name),
             "RUSTFLAGS": "-Awarnings -Zsanitizer=" + flag, **zoos})
    at_once(lambda: cargo_build("miri", [], e=env(zoos)),
            lambda: cargo_build("miri", ["--config", cfg, "-Zbuild-std", "--target", TRIPLE], e=e))
    r = empty_report()

    def one(b):
        jobs = os.path.join(BUILD, name + "jobs." + b)
        plain = os.path.join(BUILD, "target", "debug", b)
        rc, out = sh([plain, "gen", jobs, str(a.seed + 2), size])
        if rc != 0:
            raise NoAnswer(out[-2000:])
        want = None
        if mode == "run":
            rc, want = sh([plain, "run", jobs, "0", "1"])
            if rc != 0:
                raise NoAnswer(want[-2000:])
        n = jobs_of(jobs)
        rc, out = sh([os.path.join(BUILD, name, TRIPLE, "debug", b), mode, jobs, "0", "1"], e=env(env_run))
        os.unlink(jobs)
        return b, n, want, rc, out

    with concurrent.futures.ThreadPoolExecutor() as p:
        for b, n, want, rc, out in p.map(one, MBINS):
            st = "%s/%s" % (name, b)
            r["stages"].append({"name": st, "done": n, "planned": n})
            r["evaluations"] += n
            r["distinct"] += n
            r["counts"][st] = n
            if rc == -signal.SIGKILL:
                raise NoAnswer("%s was killed" % st)
            if rc != 0:
                r["violations"].append({"sig": st, "stage": st, "idx": 0, "detail": "ended with %d\n%s" % (rc, out[-3000:])})
            elif "DIFFERS" in out:
                r["violations"].append({"sig": st, "stage": st, "idx": 0, "detail": out[-1500:]})
            elif want is not None and out != want:
                d = [x for x in zip(want.split("\n"), out.split("\n")) if x[0] != x[1]][:2]
                r["violations"].append({"sig": st, "stage": st, "idx": 0, "detail": "other results: %s" % d})
    return [(name, r)]


def part_tsan(prop, a):
    return part_sanitizer(prop, a, "tsan", "thread", "threads", {"TSAN_OPTIONS": "halt_on_error=1 exitcode=66"},
                          "1500" if a.tier == "quick" else "40000")


def part_msan(prop, a):
    """Reads of uninitialized memory, beyond what Miri has time for."""
    if a.tier == "quick":
        return []
    return part_sanitizer(prop, a, "msan", "memory", "run", {"MSAN_OPTIONS": "halt_on_error=1 exitcode=66"}, "30000")


class Args:
    pass


PARTS = {}


def main(argv):
    a = Args()
    a.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    a.tier = os.environ.get("VERIF_TIER", "quick")
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    a.deadline = 240 if a.tier == "quick" else 2400
    replay = None
    if argv[:1] == ["--setup"]:
        os.makedirs(BUILD, exist_ok=True)
        cargo_build("harness", ["--bin", "core"])
        print("setup ok")
        return 0
    if argv[:1] == ["--replay"]:
        replay = json.load(open(argv[1]))
        prop, a.seed, a.tier = replay["property"], replay["seed"], replay["tier"]
    else:
        prop = argv[0]
    a.replay_args = lambda part: (
        ["--replay", "%s/%d" % (replay["stage"], replay["idx"])]
        if replay and replay["part"] == part else [])
    a.replay = replay
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    t0 = time.time()
    try:
        literals.write(REPO, os.path.join(BUILD, "dict.txt"))
        reports = []
        for part in PARTS[prop]["parts"]:
            if replay and replay["part"].split("-")[0] != part.__name__[5:]:
                continue
            try:
                reports += part(prop, a)
            except NoAnswer:
                if any(r["violations"] for _, r in reports):
                    break
                raise
            if any(r["violations"] for _, r in reports) and a.tier == "quick":
                break
        return judge(prop, a, reports, t0)
    except NoAnswer as e:
        print("NO ANSWER property=%s: %s" % (prop, e))
        return 2


def known(prop):
    res = {}
    for l in open(os.path.join(VERIF, "known-findings.txt")):
        m = re.match(r"finding: property=(\S+) sig=(\S+) (.*)", l.strip())
        if m and m.group(1) == prop:
            res[m.group(2)] = m.group(3)
    return res


def judge(prop, a, reports, t0):
    kf = known(prop)
    viols, hit = [], set()
    for part, r in reports:
        for v in r["violations"]:
            if v["sig"] in kf:
                hit.add(v["sig"])
            else:
                viols.append((part, v))
    for s in sorted(hit):
        print("KNOWN-FINDING: property=%s %s" % (prop, kf[s]))
    ev = sum(r["evaluations"] for _, r in reports)
    di = sum(r["distinct"] for _, r in reports)
    stages, counts, samples = {}, {}, []
    few = []
    for part, r in reports:
        for s in r["stages"]:
            stages["%s/%s" % (part, s["name"])] = [s["done"], s["planned"]]
            if s["done"] * 20 < s["planned"] or s["done"] == 0:
                few.append("%s/%s" % (part, s["name"]))
        for k, n in r["counts"].items():
            counts["%s/%s" % (part, k)] = n
        samples += ["%s/%s" % (part, s) for s in r["samples"]]
    cov = {"evaluations": ev, "distinct_nontrivial": di, "rule": PARTS[prop]["rule"],
           "samples": samples[:40], "stages_done_planned": stages, "observed": counts}
    for part, r in reports:
        if r.get("digest"):
            cov.setdefault("output_digests", {})[part] = r["digest"]
        if r.get("extra"):
            cov[part] = r["extra"]
    if not a.replay:
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump({"property": prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
                       "coverage": cov, "assumptions": PARTS[prop].get("assume", []),
                       "wall_s": round(time.time() - t0, 1), "violations": len(viols)}, f, indent=1)
            f.write("\n")
    if viols:
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        sigs = {}
        for part, v in viols:
            sigs.setdefault(v["sig"], (part, v))
        for i, (part, v) in enumerate(list(sigs.values())[:5]):
            path = os.path.join(d, "%s-%d.json" % (prop, i))
            json.dump({"property": prop, "part": part, "seed": a.seed, "tier": a.tier, "stage": v["stage"],
                       "idx": v["idx"], "sig": v["sig"], "detail": v["detail"],
                       "how": "python3 /verif/check.py --replay " + path}, open(path, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  [%s] %s/%s/%s: %s" % (v["sig"], part, v["stage"], v["idx"], v["detail"][:1200]))
        print("%d violation(s), %d kind(s)" % (len(viols), len(sigs)))
        return 1
    if a.replay:
        print("replayed: no violation")
        return 0
    if few or ev == 0:
        raise NoAnswer("too little was explored: %s" % few)
    print("OK property=%s evaluations=%d distinct=%d wall=%.1fs" % (prop, ev, di, time.time() - t0))
    return 0


import props  # noqa: E402

PARTS.update(props.build(globals()))

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
