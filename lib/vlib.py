"""Shared machinery of the checks: builds, harness runs, TLC runs, evidence and verdicts."""
import glob, hashlib, json, os, random, re, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
REPO = os.environ.get("VERIF_REPO", "/repo")     # a copy, for experiments only
CACHE = os.path.join(VERIF, ".cache")
OUT = os.path.join(VERIF, "out")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JOBS = 8
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check itself failed: neither held nor violated."""


class CompileError(CheckError):
    """One of the harness's sources doesn't compile."""

    def __init__(self, source, text):
        CheckError.__init__(self, text)
        self.source = source


def sh(cmd, timeout=600, cwd=None, env=None, check=True):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                       timeout=timeout, cwd=cwd, env=env)
    out = p.stdout.decode("utf-8", "replace")
    if check and p.returncode:
        raise CheckError("command failed (%d): %s\n%s" % (p.returncode, " ".join(cmd)[:400], out[-4000:]))
    return p.returncode, out


def tree_hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    files = []
    for p in paths:
        if os.path.isdir(p):
            for d, _, fs in os.walk(p):
                files += [os.path.join(d, f) for f in fs]
        elif os.path.exists(p):
            files.append(p)
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        h.update(open(f, "rb").read() + b"\0")
    return h.hexdigest()[:20]


SAN = {
    "asan": ["-fsanitize=address", "-fno-omit-frame-pointer"],
    "tsan": ["-fsanitize=thread", "-g1"],
    "plain": [],
}


def build_libs(variant="asan", exceptions=1, opt="-O0"):
    """Builds /repo's libraries from its working tree; returns the directory with the .so files."""
    flags = ["-w", "-Wno-error", opt, "-g0" if variant != "tsan" else "-g1",
             "-DREFLECT_USE_EXCEPTIONS=%d" % exceptions, "-UNDEBUG"] + SAN[variant]
    key = tree_hash([REPO + "/src", REPO + "/CMakeLists.txt"], "libs " + " ".join(flags))
    d = os.path.join(CACHE, "libs-%s-%s" % (variant, key))
    if os.path.exists(d + "/done"):
        return d
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    rule = ("<CMAKE_CXX_COMPILER> <DEFINES> <INCLUDES> <FLAGS> %s -o <OBJECT> -c <SOURCE>" % " ".join(flags))
    env = dict(os.environ, CC="/usr/bin/gcc", CXX="/usr/bin/g++")
    for k in ("CFLAGS", "CXXFLAGS", "CPPFLAGS", "LDFLAGS"):
        env.pop(k, None)
    link = " ".join(SAN[variant][:1])
    sh(["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DUSE_TCMALLOC=OFF",
        "-DCMAKE_SHARED_LINKER_FLAGS=" + link, "-DCMAKE_EXE_LINKER_FLAGS=" + link,
        "-DCMAKE_CXX_COMPILE_OBJECT=" + rule], env=env)
    sh(["ninja", "-C", d, "reflect", "reflect_primitives", "reflect_std", "reflect_json"], env=env)
    open(d + "/done", "w").close()
    return d


def build_harness(name, sources, variant="asan", exceptions=1, libs=None, extra=(), opt="-O0", link=True):
    """Compiles the harness against /repo/src and the fresh libraries; returns the program."""
    libs = libs or build_libs(variant, exceptions)
    srcs = [os.path.join(HARNESS, s) for s in sources]
    flags = ["-std=c++11", "-I" + REPO + "/src", "-DREFLECT_USE_EXCEPTIONS=%d" % exceptions, "-w", opt,
             "-pthread"] + SAN[variant] + list(extra)
    hdrs = glob.glob(HARNESS + "/*.h")
    key = tree_hash([REPO + "/src"] + srcs + hdrs, " ".join(flags) + libs)
    exe = os.path.join(CACHE, "%s-%s-%s" % (name, variant, key))
    if os.path.exists(exe):
        return exe
    objs = [(s, exe + "." + os.path.basename(s) + ".o") for s in srcs]

    def comp(so):
        rc, out = sh(["/usr/bin/g++"] + flags + ["-c", so[0], "-o", so[1]], timeout=800, check=False)
        if rc:
            raise CompileError(so[0], "%s doesn't compile (%d)\n%s" % (so[0], rc, out[:6000]))
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(comp, objs))
    if not link:
        return [os.unlink(o) for _, o in objs]
    so = []
    for d, _, fs in os.walk(libs):
        so += [os.path.join(d, f) for f in fs if f.endswith(".so")]
    order = ["libreflect.so", "libreflect_primitives.so", "libreflect_std.so", "libreflect_json.so"]
    so.sort(key=lambda p: order.index(os.path.basename(p)) if os.path.basename(p) in order else 9)
    sh(["/usr/bin/g++"] + flags + [o for _, o in objs] + ["-o", exe + ".tmp", "-Wl,--no-as-needed"] + so +
       ["-Wl,-rpath," + ":".join(sorted(set(os.path.dirname(p) for p in so)))] + ["-lpthread", "-ldl"])
    for _, o in objs:
        os.unlink(o)
    os.rename(exe + ".tmp", exe)
    return exe


def run_harness(exe, scripts, work, tag, timeout=600, env=None, jobs=JOBS):
    """scripts: list of (name, [line]); returns the trace file with the events of all scripts in order."""
    os.makedirs(work, exist_ok=True)
    n = max(1, min(jobs, (len(scripts) + 9) // 10))
    chunks = [scripts[i * len(scripts) // n:(i + 1) * len(scripts) // n] for i in range(n)]
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:symbolize=0:allocator_may_return_null=1:detect_odr_violation=0"
    e["TSAN_OPTIONS"] = "halt_on_error=0"
    if env:
        e.update(env)

    def one(i):
        sf, tf = "%s/%s.%d.script" % (work, tag, i), "%s/%s.%d.trace" % (work, tag, i)
        with open(sf, "w") as f:
            for name, lines in chunks[i]:
                f.write("---\t%s\n" % name)
                f.write("".join(l + "\n" for l in lines))
        p = subprocess.run([exe, sf, tf], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                           stderr=open("%s/%s.%d.err" % (work, tag, i), "w"), timeout=timeout, env=e)
        if p.returncode:
            raise CheckError("harness %s ended with %d: %s" % (
                exe, p.returncode, open("%s/%s.%d.err" % (work, tag, i)).read()[-2000:]))
        return tf
    with ThreadPoolExecutor(jobs) as ex:
        files = list(ex.map(one, range(n)))
    trace = "%s/%s.ndjson" % (work, tag)
    with open(trace, "w") as o:
        for f in files:
            with open(f) as i:
                shutil.copyfileobj(i, o)
            os.unlink(f)
    return trace


def tlc(module, cfg_text, work, env=None, args=(), timeout=800, workers="1", heap="4g", ok_codes=(0,)):
    """Runs TLC on spec/<module>.tla with the given configuration text; returns its output."""
    os.makedirs(work, exist_ok=True)
    cfg = os.path.join(work, module + ".%d.cfg" % random.SystemRandom().randrange(10**9))
    open(cfg, "w").write(cfg_text)
    meta = cfg + ".meta"
    os.makedirs(meta)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if env:
        e.update({k: str(v) for k, v in env.items()})
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-cp", TLAJARS,
           "-Djava.io.tmpdir=" + meta, "-DTLA-Library=" + SPEC, "tlc2.TLC", "-metadir", meta, "-config", cfg, "-workers", workers,
           "-noGenerateSpecTE", "-cleanup"] + list(args) + [os.path.join(SPEC, module + ".tla")]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                           timeout=timeout, env=e, cwd=SPEC)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout.decode("utf-8", "replace")
    if ok_codes is not None and p.returncode not in ok_codes:
        raise CheckError("TLC failed (%d) on %s:\n%s" % (p.returncode, module, "\n".join(l for l in out.splitlines() if ":>" not in l)[:20000]))
    return p.returncode, out


def tlc_stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        return int(m[-1][0]), int(m[-1][1])
    m = re.findall(r"The number of states generated: (\d+)", out)
    return (int(m[-1]), int(m[-1])) if m else (0, 0)


def model_check(module, cfg_text, work, env=None, timeout=800, workers="8", args=(), heap="8g"):
    """Exhaustive run: an invariant that fails is an error of the specification, not of the code."""
    _, out = tlc(module, cfg_text, work, env=env, timeout=timeout, workers=workers, args=args, heap=heap)
    return tlc_stats(out)


def tla_unquote(s):
    return json.loads('"' + s + '"') if "\\" in s else s


def generate(module, cfg_text, work, num, depth, seed, env=None, timeout=600, prefix="SCRIPT ", jobs=1):
    """Behaviours of the specification: TLC -simulate prints each as JSON; returns lists of command records."""
    def one(k):
        n = num // jobs + (1 if k < num % jobs else 0)
        if not n:
            return []
        _, out = tlc(module, cfg_text, work, env=env, timeout=timeout,
                     args=["-simulate", "num=%d" % n, "-depth", str(depth), "-seed", str(seed * 1000 + k),
                           "-aril", str(k)])
        res = []
        for line in out.splitlines():
            line = line.strip()
            if line.startswith('"' + prefix):
                s = json.loads(line) if line.endswith('"') else None
                if s:
                    res.append(json.loads(s[len(prefix):]))
        return res
    with ThreadPoolExecutor(jobs) as ex:
        all_ = [x for l in ex.map(one, range(jobs)) for x in l]
    if not all_:
        raise CheckError("the specification %s generated no behaviour" % module)
    return all_


def to_line(c):
    return "\t".join([c["op"]] + list(c["a"]) + ["#%d" % n for n in c["n"]])


MISM = re.compile(r'^<<"MISMATCH", (\d+), (.*)$', re.S)


def validate(module, trace, work, env=None, timeout=800, heap="6g", cfg=None, parts=4):
    """Checks a recorded trace against the specification. Returns (lines, [mismatch])."""
    lines = open(trace).read().splitlines()
    # split at resets so that parts are checked in parallel
    starts = [i for i, l in enumerate(lines) if l.startswith('{"op":"reset"')]
    if not starts:
        raise CheckError("empty trace " + trace)
    parts = max(1, min(parts, len(lines) // 1500 + 1))
    cuts = [starts[len(starts) * k // parts] for k in range(parts)] + [len(lines)]
    cfg = cfg or ("SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n")

    def one(k):
        part = lines[cuts[k]:cuts[k + 1]]
        if not part:
            return []
        pf = "%s.part%d" % (trace, k)
        open(pf, "w").write("\n".join(part) + "\n")
        e = dict(env or {})
        e["TRACE"] = pf
        rc, out = tlc(module, cfg, work, env=e, timeout=timeout, heap=heap, ok_codes=None)
        mm = []
        for line in out.splitlines():
            if line.startswith('"MISMATCH '):
                d = json.loads(json.loads(line)[len("MISMATCH "):])
                i = cuts[k] + int(d["line"]) - 1
                st = max(s for s in starts if s <= i)
                d["event"] = json.loads(lines[i])
                d["script"] = json.loads(lines[st])["a"][0]
                d["step"] = i - st
                mm.append(d)
        done = [l for l in out.splitlines() if l.startswith('"TRACE-DONE ')]
        if not done or int(json.loads(done[-1]).split()[1]) != len(part):
            raise CheckError("trace validation did not finish (%d) on %s:\n%s" % (rc, module, out[-5000:]))
        os.unlink(pf)
        return mm
    with ThreadPoolExecutor(parts) as ex:
        mm = [m for l in ex.map(one, range(parts)) for m in l]
    return len(lines), mm


def validate_histories(module, trace, work, env=None, timeout=800, heap="4g", parts=JOBS):
    """Which of the recorded histories the specification accepts. Returns (events, [rejected history])."""
    lines = [l for l in open(trace).read().splitlines() if l]
    if not lines:
        raise CheckError("no history in " + trace)
    parts = max(1, min(parts, len(lines) // 20 + 1))
    cuts = [len(lines) * k // parts for k in range(parts)] + [len(lines)]

    def one(k):
        part = lines[cuts[k]:cuts[k + 1]]
        pf = "%s.part%d" % (trace, k)
        open(pf, "w").write("\n".join(part) + "\n")
        e = dict(env or {})
        e["TRACE"] = pf
        rc, out = tlc(module, "SPECIFICATION TraceSpec\nPOSTCONDITION Done\nCHECK_DEADLOCK FALSE\n", work, env=e,
                      timeout=timeout, heap=heap, ok_codes=None)
        done = [l for l in out.splitlines() if l.startswith('"TRACE-DONE ')]
        if not done or int(json.loads(done[-1]).split()[1]) != len(part):
            raise CheckError("history validation did not finish (%d) on %s:\n%s" % (rc, module, out[-5000:]))
        ok = {int(m) for m in re.findall(r'^"ACCEPT (\d+)"', out, re.M)}
        os.unlink(pf)
        return [json.loads(l) for i, l in enumerate(part) if i + 1 not in ok]
    with ThreadPoolExecutor(parts) as ex:
        bad = [h for l in ex.map(one, range(parts)) for h in l]
    return sum(len(json.loads(l)["ev"]) for l in lines), len(lines), bad


class Check:
    """One property's run."""

    def __init__(self, pid):
        self.pid = pid
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.t0 = time.time()
        self.work = os.path.join(OUT, pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        os.makedirs(CACHE, exist_ok=True)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0,
                        trace_events=0, models=[], samples=[])
        self.violations = []
        self.known = []
        self.rng = random.Random(self.seed)

    @property
    def quick(self):
        return self.tier == "quick"

    def pick(self, q, t):
        return q if self.quick else t

    def mc(self, module, cfg, name=None, **kw):
        t = time.time()
        g, d = model_check(module, cfg, self.work, **kw)
        self.cov["states"] += d
        self.cov["transitions"] += g
        self.cov["models"].append(dict(module=module, config=name or module, states=d, transitions=g,
                                       wall_s=round(time.time() - t, 1)))
        return g, d

    def conform(self, exe, module, scripts, tag, env=None, henv=None, heap="3g", timeout=800, parts=4, cfg=None,
                known=None, confirm=True):
        """Runs scripts in the code, checks the recorded traces against the specification, repeats a rejection."""
        trace = run_harness(exe, scripts, self.work, tag, env=henv, timeout=timeout)
        n, mm = validate(module, trace, self.work, env=env, heap=heap, timeout=timeout, parts=parts, cfg=cfg)
        self.cov["trace_events"] += n
        self.cov["traces_validated_against_impl"] += len(scripts)
        ev = open(trace).read().splitlines()
        if ev and len(self.cov["samples"]) < 6:
            k = self.rng.randrange(len(ev))
            self.cov["samples"] += [dict(suite=tag, event=json.loads(e)) for e in ev[k:k + 1]]
        if mm:
            byname = {}
            for m in mm:
                byname.setdefault(m["script"], m)
            redo = [s for s in scripts if str(s[0]) in byname][:20]
            again = set()
            for k in range(3):
                t2 = run_harness(exe, redo, self.work, tag + ".again", env=henv, timeout=timeout)
                _, mm2 = validate(module, t2, self.work, env=env, heap=heap, timeout=timeout, parts=1, cfg=cfg)
                again |= {m["script"] for m in mm2}
                if again:
                    break
            for s in redo:
                m = byname[str(s[0])]
                # a wrong answer counts even when it comes once; a process that ended may have been ended
                if confirm and str(s[0]) not in again and m["event"]["op"] == "crash" and not again:
                    raise CheckError("a rejection did not repeat: %s %s" % (tag, json.dumps(m)[:800]))
                if confirm and str(s[0]) not in again and m["event"]["op"] == "crash":
                    continue
                if known and known(m, s):
                    continue
                self.violation("%s: %s" % (tag, json.dumps(m)[:3000]), dict(
                    suite=tag, module=module, script=s, mismatch=m, harness=os.path.basename(exe)))
        else:
            os.unlink(trace)
        return n, mm

    def model(self, module, invariants, config, depth, constraint="Bound", extra="", **kw):
        kw.setdefault("timeout", self.pick(300, 3000))
        return self.mc(module, 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Config="%s" Depth=%d\n%s'
                       'INVARIANTS %s\nCONSTRAINT %s\n' % (config, depth, extra, invariants, constraint),
                       name="%s depth %d" % (config, depth), **kw)

    def explore(self, exe, gen, tracem, profile, total, length, setup, env=None, batch=3000, tag=None, **kw):
        """Behaviours of the specification, replayed in the code and checked against the specification."""
        done = k = 0
        while done < total and not self.violations:
            n = min(batch, total - done)
            cfg = ('SPECIFICATION GSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS Profile="%s" Len_=%d Setup=%d\n'
                   % (profile, length, setup))
            sc = generate(gen, cfg, self.work, n, length * 3, self.seed * 1000 + k, env=env, jobs=JOBS)
            scripts = [("%s-%d-%d" % (profile, k, i), [to_line(x) for x in s]) for i, s in enumerate(sc)]
            self.conform(exe, tracem, scripts, tag or profile, parts=JOBS, env=env, **kw)
            done += n
            k += 1

    def histories(self, exe, tracem, scripts, tag, env=None, henv=None, repeat=True, races=None):
        """Concurrent runs: every recorded history has to be one which the specification allows."""
        henv = dict(henv or {})
        if races:
            henv.update(TSAN_OPTIONS="exitcode=0 detect_deadlocks=0 report_signal_unsafe=0 log_path=" + races,
                        RACE_LOG=races)
        trace = run_harness(exe, scripts, self.work, tag, env=henv)
        events, n, bad = validate_histories(tracem, trace, self.work, env=env)
        self.cov["trace_events"] += events
        self.cov["traces_validated_against_impl"] += n
        if len(self.cov["samples"]) < 6:
            l = open(trace).read().splitlines()
            self.cov["samples"].append(dict(suite=tag, history=json.loads(self.rng.choice(l))))
        if not bad:
            os.unlink(trace)
            return
        names = {h["h"] for h in bad}
        redo = [s for s in scripts if s[0] in names][:20]
        again = names
        if repeat:
            again = set()
            for k in range(3):
                t2 = run_harness(exe, redo, self.work, "%s.again%d" % (tag, k), env=henv)
                again |= {h["h"] for h in validate_histories(tracem, t2, self.work, env=env)[2]}
        for h in bad:
            race = [e for e in h["ev"] if e["k"] == "race"]
            if race:
                h["report"] = open(race[0]["x"][0]).read()[:4000]
        real = [h for h in bad if h["h"] in again or any(e["k"] == "race" for e in h["ev"])]
        if not real:
            raise CheckError("a rejected history did not repeat: " + json.dumps(bad[0])[:2000])
        for h in real:
            s = [s for s in scripts if s[0] == h["h"]][0]
            self.violation("%s: %s" % (tag, json.dumps(h)[:3000]), dict(
                suite=tag, module=tracem, script=s, history=h, harness=os.path.basename(exe)))

    def alongside(self, build, models):
        """Compiles while the models are checked."""
        with ThreadPoolExecutor(2) as ex:
            fb, fm = ex.submit(build), ex.submit(models)
            exe = fb.result()
            fm.result()
        return exe

    def violation(self, text, data):
        path = os.path.join(self.work, "violation-%d.json" % len(self.violations))
        json.dump(dict(property=self.pid, text=text, data=data, seed=self.seed, tier=self.tier),
                  open(path, "w"), indent=1)
        self.violations.append((text, path))

    def listed(self, key):
        """What known-findings.txt says of a defect which isn't repaired."""
        for l in open(os.path.join(VERIF, "known-findings.txt")):
            head = "finding: property=%s key=%s " % (self.pid, key)
            if l.startswith(head):
                return l[len(head):].strip()

    def known_finding(self, text):
        self.known.append(text)

    def finish(self, **extra):
        cov = dict(self.cov)
        cov.update(extra)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
                  wall_s=round(time.time() - self.t0, 1))
        if self.known:
            ev["coverage"]["known_findings"] = self.known
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        if self.violations:
            for text, path in self.violations[:5]:
                print(text[:2000])
            print("VIOLATION property=%s replay=%s" % (self.pid, self.violations[0][1]))
            return 1
        shutil.rmtree(self.work, ignore_errors=True)
        print("OK property=%s %s events=%d states=%d %.0fs" % (
            self.pid, self.tier, cov["trace_events"], cov["states"], time.time() - self.t0))
        return 0
