"""P16: JSON used by several threads against spec/JsonConc.tla."""
from vlib import *
from regconc import pre

INVS = "Prepared OneOwner NoDeadlock"


def cfg(variant, threads, depth):
    return ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Variant="%s" Threads={%s} Depth=%d Parts <- Recursive\n'
            'INVARIANTS %s\n' % (variant, ",".join(str(i + 1) for i in range(threads)), depth, INVS))


def models(c):
    for n, depth in c.pick([(2, 2), (3, 1)], [(2, 3), (3, 2), (4, 1)]):
        c.mc("MC_JsonConc", cfg("ok", n, depth), "%d threads, %d operations" % (n, depth), timeout=c.pick(300, 2000))
    for variant in ["unlocked", "relock"]:
        rc, out = tlc("MC_JsonConc", cfg(variant, 2, 1), c.work, ok_codes=None, workers="4")
        if "is violated" not in out:
            raise CheckError("the invariants accept the broken design %s: %s" % (variant, out[-2000:]))


def run(c):
    with ThreadPoolExecutor(3) as ex:
        fa = ex.submit(lambda: build_harness("jsonconc", ["jsonconc.cpp"], extra=["-DSCHED_CONTROL", "-rdynamic"]))
        ft = ex.submit(lambda: build_harness("jsonconc", ["jsonconc.cpp"], variant="tsan"))
        fm = ex.submit(lambda: models(c))
        asan, tsan = fa.result(), ft.result()
        explore(c, asan, tsan)
        fm.result()
    return c.finish()


def explore(c, asan, tsan):
    ops = [(o, t) for o in ("parse", "print", "both", "fail") for t in "ABCDEFVM"]
    alone = run_harness(asan, [("alone-%s-%s" % x, ["op\t1\t%s\t%s" % x]) for x in ops], c.work, "alone")
    for l in open(alone):
        h = json.loads(l)
        if [e["k"] for e in h["ev"]] != ["c", "r"]:
            raise CheckError("one thread alone doesn't answer: " + l[:500])
    env = dict(ALONE=alone)
    total, done, k = c.pick(1200, 16000), 0, 0
    while done < total and not c.violations:
        n = min(2000, total - done)
        sc = generate("GenJsonConc", 'SPECIFICATION GSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS Variant="ok" Depth=1 '
                      'Threads={1,2,3,4} Len_=3 Parts <- Both\n', c.work, n, 900, c.seed * 1000 + k, jobs=JOBS)
        scripts = [("json%d-%d" % (k, i), [to_line(x) for x in s]) for i, s in enumerate(sc)]
        for exe, part, tag, kw in [
                (asan, scripts, "schedules", {}),
                (asan, pre(scripts[:len(scripts) // 3], c.rng, 4, "p"), "preemptions", {}),
                (tsan, scripts[:len(scripts) // 2], "free", dict(races=c.work + "/race", repeat=False))]:
            if not c.violations:
                c.histories(exe, "TraceJsonConc", part, tag, env=env, **kw)
        done += n
        k += 1
