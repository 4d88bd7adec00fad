"""P08, P09, P11, P23: scopes, the registry and traits against spec/Names.tla."""
import itertools
from vlib import *

PLAN = {
    "P08": ([("scopes", 3, 4)], (1600, 24000), 15, 50),
    "P09": ([("registry", 4, 6)], (1600, 24000), 18, 50),
    "P11": ([("traits", 7, 11)], (1600, 24000), 18, 60),
    "P23": ([("scopes", 3, 3), ("traits", 6, 9)], (1600, 24000), 22, 50),
}


def split_scripts(longest):
    """Every string over the characters which matter to names."""
    lines = []
    for n in range(longest + 1):
        for t in itertools.product("a:<>", repeat=n):
            lines += ["head\t" + "".join(t), "tail\t" + "".join(t)]
    lines += ["join\t%s\t%s" % (a, b) for a in ("", "a", "a::b", "x<y::z>") for b in ("a", "b::c", "x<y::z>")]
    return [("split-%d" % i, lines[i:i + 400]) for i in range(0, len(lines), 400)]


def run(c):
    mcs, num, setup, length = PLAN[c.pid]

    def models():
        for conf, q, t in mcs:
            c.model("MC_Names", "Tree Reg Traits_ Printed" if c.pid == "P23" else "Tree Reg Traits_", conf, c.pick(q, t), workers=c.pick("4", "8"))
    exe = c.alongside(lambda: build_harness("names", ["names.cpp"]), models)
    if c.pid == "P08":
        c.conform(exe, "TraceNames", split_scripts(c.pick(6, 8)), "split", parts=8)
    c.explore(exe, "GenNames", "TraceNames", c.pid, c.pick(*num), length, setup)
    return c.finish()
