"""P19: misuse against spec/Errors.tla, with and without exceptions."""
from vlib import *


def run(c):
    def build():
        with ThreadPoolExecutor(2) as ex:
            e = ex.submit(build_harness, "errors", ["errors.cpp"])
            p = ex.submit(build_harness, "errorsabort", ["errors.cpp"], "plain", 0)
            return e.result(), p.result()

    def models():
        for conf, q, t in [("members", 4, 5), ("registry", 5, 6), ("values", 6, 7)]:
            c.model("MC_Errors", "Sane", conf, c.pick(q, t))
    thrown, aborted = c.alongside(build, models)
    c.explore(thrown, "GenErrors", "TraceErrors", "P19", c.pick(800, 12000), 60, 0)
    c.explore(aborted, "GenErrors", "TraceErrors", "P19abort", c.pick(300, 4000), 60, 1)
    return c.finish()
