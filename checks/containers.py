"""P18: containers and pointers against spec/Containers.tla."""
from vlib import *


def run(c):
    def models():
        for conf, q, t in [("ptr", 6, 8), ("vec", 6, 8), ("map", 6, 8)]:
            c.model("MC_Containers", "Ownership Fresh OwnFresh Sorted", conf, c.pick(q, t))
    exe = c.alongside(lambda: build_harness("containers", ["containers.cpp"]), models)
    c.explore(exe, "GenContainers", "TraceContainers", "P18", c.pick(1200, 24000), 60, 0)
    return c.finish()
