"""P22: the built-in types against spec/Primitives.tla."""
from vlib import *


def run(c):
    def models():
        for conf, q, t in [("narrow", 4, 6), ("wide", 4, 6), ("float", 4, 6)]:
            c.model("MC_Primitives", "TypesKept", conf, c.pick(q, t))
    exe = c.alongside(lambda: build_harness("primitives", ["primitives.cpp"]), models)
    c.explore(exe, "GenPrimitives", "TracePrimitives", "P22", c.pick(1600, 32000), 40, 0)
    return c.finish()
