"""P20, P21: the declaration macros and the operators of dynamic values against spec/Decl.tla."""
import declgen
from vlib import *


def run(c):
    # the classes of the quick check are always the same ones; the thorough check goes on to others
    def build(seed):
        d = os.path.join(CACHE, "decl-%d" % seed)
        srcs = declgen.make(seed, d)
        extra = ["-iquote", HARNESS, "-iquote", d,
                 "-DPOOL_HASH=0x" + tree_hash([d + "/decl_gen.h"])[:8]]
        return srcs, extra

    for k in range(c.pick(1, 4)):
        seed = 7 + k if c.quick else c.seed * 100 + k
        env = {"POOL": os.path.join(CACHE, "decl-%d" % seed, "pool.json")}
        declgen.make(seed, os.path.dirname(env["POOL"]))

        def models():
            for conf, q, t in [("assign", 3, 4), ("ops", 3, 4)]:
                c.model("MC_Decl", "Laws", conf, c.pick(q, t), env=env)

        def compiled():
            srcs, extra = build(seed)
            try:
                return build_harness("decl", ["decl.cpp"] + srcs, extra=extra)
            except CompileError as e:
                text = str(e)
                if e.source not in srcs or not re.search(r"\berror: ", text):
                    raise
                # the classes are legal and the rest of the harness, which only uses them, has to compile
                build_harness("declmain", ["decl.cpp"], extra=extra, link=False)
                c.violation("a class can't be declared: " + text, dict(suite="declarations", source=e.source,
                            text=open(e.source).read(), error=text))
        exe = c.alongside(compiled, models)
        if exe:
            c.explore(exe, "GenDecl", "TraceDecl", c.pid, c.pick(1600, 6000), 45, 0, env=env,
                      tag="%s.%d" % (c.pid, seed))
        if c.violations:
            break
    return c.finish()
