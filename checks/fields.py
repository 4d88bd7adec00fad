"""P05: field access against spec/Fields.tla."""
from vlib import *


def run(c):
    exe = build_harness("fields", ["fields.cpp"])
    pool = os.path.join(c.work, "pool.json")
    sh([exe, "--pool", pool])
    env = {"POOL": pool}
    for conf, q, t in [("In", 6, 9), ("Der2", 5, 7), ("Hold", 4, 6)]:
        c.model("MC_Fields", "Inside", conf, c.pick(q, t), env=env)
    c.explore(exe, "GenFields", "TraceFields", "P05", c.pick(1600, 24000), 60, 0, env=env)
    return c.finish()
