"""P01-P04, P06, P07, P17: the core of the library against spec/Core.tla."""
from vlib import *

SOURCES = ["core.cpp", "core_pool1.cpp", "core_pool2.cpp", "core_pool3.cpp",
           "core_call1.cpp", "core_call2.cpp", "core_call3.cpp"]

# property -> exhaustive configurations (quick depth, thorough depth), scripts (quick, thorough), setup, length
PLAN = {
    "P01": ([("rel", 3, 5), ("calls", 3, 5)], (1500, 24000), 12, 45),
    "P02": ([("calls", 4, 5)], (1500, 24000), 14, 50),
    "P03": ([("calls", 4, 5), ("values", 4, 7)], (1500, 24000), 16, 50),
    "P04": ([("values", 6, 8)], (1500, 24000), 14, 55),
    "P06": ([("names", 6, 9)], (1200, 20000), 0, 45),
    "P07": ([("rel", 3, 5), ("names", 5, 8)], (1200, 20000), 0, 45),
    "P17": ([("callables", 7, 11)], (1500, 24000), 12, 55),
}


def run(c):
    mcs, num, setup, length = PLAN[c.pid]

    def models():
        for conf, q, t in mcs:
            c.model("MC_Core", "Laws HeavyLaws", conf, c.pick(q, t), constraint="CallBound",
                    workers=c.pick("4", "8"))
    exe = c.alongside(lambda: build_harness("core", SOURCES), models)
    pool = os.path.join(c.work, "pool.json")
    sh([exe, "--pool", pool])
    c.explore(exe, "GenCore", "TraceCore", c.pid, c.pick(*num), length, setup, env={"POOL": pool})
    return c.finish()
