"""P10: the registry used by several threads against spec/RegConc.tla."""
from vlib import *

MODELS = {  # config: (threads, operations per thread) quick, thorough
    "get": [(2, 2), (3, 1)], "templates": [(3, 1), (2, 2)], "add": [(2, 2), (3, 1)],
}
BROKEN = [("unlocked", "get"), ("nonrecursive", "get"), ("flagfirst", "templates")]
INVS = "Once Complete Present OneOwner NoDeadlock"


def cfg(variant, config, threads, ops, live):
    return ('SPECIFICATION %s\nCHECK_DEADLOCK FALSE\nCONSTANTS Config="%s" Depth=%d Variant="%s" Threads={%s}\n'
            'INVARIANTS %s\nPROPERTIES Stays %s\n' % ("Live" if live else "Spec", config, ops, variant, ",".join(
                str(i + 1) for i in range(threads)), INVS, "Ends" if live else ""))


def models(c):
    for conf, sizes in MODELS.items():
        for n, ops in sizes[:c.pick(1, 2)]:
            c.mc("MC_RegConc", cfg("ok", conf, n, ops, n == 2), "%s, %d threads, %d operations" % (conf, n, ops),
                 timeout=c.pick(300, 2000))
    if not c.quick:
        c.mc("MC_RegConc", cfg("ok", "get", 3, 2, False), "get, 3 threads, 2 operations", timeout=3000, heap="16g")
    for variant, conf in BROKEN:
        rc, out = tlc("MC_RegConc", cfg(variant, conf, 2, 1, False), c.work, ok_codes=None, workers="4")
        if "is violated" not in out:
            raise CheckError("the invariants accept the broken design %s: %s" % (variant, out[-2000:]))


def pre(scripts, rng, per, tag):
    """The same programs under systematic schedules: one or two preemptions anywhere."""
    res = []
    for name, lines in scripts:
        lines = [l for l in lines if not l.startswith("picks")]
        for k in range(per):
            n = rng.choice([1, 2, 2, 3])
            pts = sorted(rng.sample(range(1, 400), n))
            res.append(("%s-%s%d" % (name, tag, k), lines + ["preempt\t" + "\t".join(
                "#%d\t#%d" % (p, rng.randrange(4)) for p in pts)]))
    return res


def run(c):
    with ThreadPoolExecutor(3) as ex:
        fa = ex.submit(lambda: build_harness("regconc", ["regconc.cpp"], extra=["-DSCHED_CONTROL", "-rdynamic"]))
        ft = ex.submit(lambda: build_harness("regconc", ["regconc.cpp"], variant="tsan"))
        fm = ex.submit(lambda: models(c))
        asan, tsan = fa.result(), ft.result()
        explore(c, asan, tsan)
        fm.result()
    return c.finish()


def explore(c, asan, tsan):
    suites = [("mixed", c.pick(1000, 12000), 4), ("first", c.pick(800, 8000), 2)]
    for profile, total, length in suites:
        done = k = 0
        while done < total and not c.violations:
            n = min(2000, total - done)
            sc = generate("GenRegConc", 'SPECIFICATION GSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS Variant="ok" '
                          'Threads={1,2,3,4} Len_=%d Profile="%s"\n' % (length, profile), c.work, n, 600,
                          c.seed * 1000 + k, jobs=JOBS)
            scripts = [("%s%d-%d" % (profile, k, i), [to_line(x) for x in s]) for i, s in enumerate(sc)]
            for exe, part, tag, kw in [
                    (asan, scripts, "schedules", {}),
                    (asan, pre(scripts[:len(scripts) // 3], c.rng, 4, "p"), "preemptions", {}),
                    (tsan, scripts[:len(scripts) // 2], "free", dict(races=c.work + "/race", repeat=False))]:
                if not c.violations:
                    c.histories(exe, "TraceRegConc", part, profile + "-" + tag, **kw)
            done += n
            k += 1
