"""P12, P13, P14, P15: JSON against spec/JsonOps.tla."""
import itertools
from vlib import *
import numbers_ as numbers

MODELS = {"P12": [("text", 2, 4), ("strings", 2, 4)], "P13": [("values", 1, 3)], "P14": [("values", 1, 3)], "P15": [("values", 1, 3)]}


def cmd(op, b, o):
    return "\t".join([op, "#%d" % o] + ["#%d" % x for x in b])


def texts(c):
    """Every short text over the bytes which matter to the reader, then every escape and UTF-8 sequence of note."""
    out = []
    letters = [ord(x) for x in '{}[],:"\\/-019.e+ \n'] + [ord("n"), 0x80, 0xC3, 0]
    for n in range(c.pick(3, 4) + 1):
        for t in itertools.product(letters, repeat=n):
            out.append((list(t), (0, 7) if n < 3 else ((7,) if n == 3 else (1,))))
    # what ends a literal or a numeral
    for w in ("null", "true", "false", "-12", "0.5", "1e5", "1.5E-3", '"a"', "//x"):
        b = [ord(x) for x in w]
        for i in range(len(b) + 1):
            for x in range(256):
                out.append((b[:i] + [x], (7,)))
                if x in (0, 10, 32, 34, 44, 46, 47, 48, 92, 101, 255):
                    out.append((b[:i] + [x] + b[i:], (6,)))
    # escapes
    q = lambda s: [34] + s + [34]
    for x in range(256):
        out.append((q([92, x]), (0, 6)))
        out.append((q([x]), (0, 4)))
    u = lambda s: [92, 117] + [ord(x) for x in s]
    for s in itertools.product("08dDcCfFg/", repeat=c.pick(3, 4)):
        out.append((q(u("".join(s) + ("0" if len(s) == 3 else ""))), (2,)))
    for v in [0, 1, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xffff]:
        for w in [0, 0x41, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xddab, 0xdfff, 0xe000, 0xffff]:
            out.append((q(u("%04x" % v) + u("%04X" % w)), (0, 2, 6)))
    # UTF-8
    heads = [0x7f, 0x80, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xfc, 0xfe, 0xff]
    tails = [0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0]
    for h in heads:
        for n in (0, 1, 2, 3):
            for t in itertools.product(tails if n < 3 else tails[2:8], repeat=n):
                out.append((q([h] + list(t)), (4,)))
    return out


def traits():
    mix = []
    for n in itertools.product((0, 1), repeat=4):
        for a in itertools.product(("", "x"), ("", "p"), ("", "q")):
            for b in itertools.product(("", "y"), ("", "r"), ("", "s")):
                mix.append("mix\t%s\t%s" % ("\t".join(a + b), "\t".join("#%d" % x for x in n)))
    make = ["make\tskip", "make\tskipEmpty", "make\talias\tx", "make\tcustom\tp\tq", "make\tcustom\t\tq", "make\tcustom\tp\t"]
    return [("mix", mix), ("make", make), ("traits-0", ["traits\t#0"]), ("traits-255", ["traits\t#255"])]


def big(c):
    """Long texts, lists and numerals, deep nesting, long keys."""
    b = lambda s: list(s.encode("latin-1"))
    hexs = lambda l: "".join("%02x" % x for x in l)
    out = []
    sizes = [100, 126, 127, 128, 129, 255, 256, 257] + c.pick([1024], [1023, 1024, 1025, 2049])
    fill = lambda n, k: [(97 + (i * k) % 26) for i in range(n)]
    if c.pid == "P12":
        for n in sizes:
            s = [34] + fill(n, 7) + [34]
            out.append(["reader" + cmd("", s + [32] + s, 6)] + ["next"] * 3)
            out.append(["reader" + cmd("", [34] + [195, 169] * n + [34, 32] + [34] + b("\\u00e9") * (n // 4) + [34], 6)] + ["next"] * 3)
            n = min(n, 260)
            out.append(["reader" + cmd("", [49] * n + b(" 0." + "1" * n + " ") + [48] * n + b(" -" + "9" * n + "e-%d" % n), 0)] + ["next"] * 5)
            out.append(["reader" + cmd("", [91] * n + [93] * (n - 1), 0)] + ["skip", "next"])
            out.append(["reader" + cmd("", [10] * n + [32] * n + [47, 47] + fill(n, 3) + [10] + [120], 1)] + ["next", "next"])
            out.append(["reader" + cmd("", b('{"a":') * n + [49] + [125] * n + [49], 0)] + ["skip", "next"])
        return [("big-%d" % i, x) for i, x in enumerate(out)]
    ops = {"P13": [], "P14": ["print\t#%d" % o for o in (0, 1, 2, 4, 5, 8, 12)], "P15": ["round\t#%d" % o for o in (0, 1, 3, 4, 5, 8)]}[c.pid]
    for n in sizes:
        s = fill(n, 5)
        if c.pid != "P13":
            out.append(["new\tstring\t" + hexs(s)] + ops)
            out.append(["new\tstring\t" + hexs([226, 130, 172] * (n // 3) + [240, 159, 152, 128])] + ops)
            out.append(["new\tms\tn1\t%s\t%s" % (hexs(s), hexs(s))] + ops)
        else:
            out.append(["new\tstring\t", cmd("parse", [34] + s + [34], 6), cmd("parse", [34] + s[:-1] + [34], 6)])
            out.append(["new\tms\tn0", cmd("parse", b("{") + [34] + s + [34, 58, 34] + s + [34] + b("}"), 6)])
        if n > 300:
            continue
        m = n // 4
        items = ["%d" % (i * 37 % 101 - 50) for i in range(m)]
        if c.pid != "P13":
            out.append(["new\tints\tn%d\t%s" % (m, "\t".join(items)) if m <= 40 else "new\tints\tn0"] + ops)
        else:
            out.append(["new\tints\tn0", cmd("parse", b("[" + ",".join(items) + "]"), 6), cmd("parse", b("[1]"), 6)])
            out.append(["new\tmi\tn0", cmd("parse", b("{" + ",".join('"k%s":%s' % (i, i) for i in items) + "}"), 6)])
        # a chain of pointers
        node = lambda i: hexs([97 + i % 26])
        m = n // 3
        doc = "".join('{"n":"%s","%s":' % (chr(97 + i % 26), "a raw" if i % 3 else "sp") for i in range(m)) + "null" + "}" * m
        if c.pid == "P13":
            out.append(["new\tnode\t\tn0\tn0\tn0\tn0", cmd("parse", b(doc), 6)])
            out.append(["new\tany", cmd("parse", b("[" * n + "]" * n), 6)])
            out.append(["new\tany", cmd("parse", b('{"a":[' * m + "7" + "]}" * m), 6)])
        else:
            out.append(["new\tnode\t\tn0\tn0\tn0\tn0", cmd("parse", b(doc), 6)] + ops)
    return [("big-%d" % i, x) for i, x in enumerate(out)]


def run(c):
    num = os.path.join(c.work, "numbers.json")
    numbers.write(num)
    env = {"NUMBERS": num}

    def models():
        for conf, q, t in MODELS[c.pid]:
            c.model("MC_Json", "Laws", conf, c.pick(q, t), env=env, workers=c.pick("4", "8"))
    exe = c.alongside(lambda: build_harness("json", ["json.cpp"]), models)
    if c.pid == "P12":
        lines = [(b, o) for b, os_ in texts(c) for o in os_]
        for part in range(0, len(lines), 120000):
            scripts = []
            chunk = lines[part:part + 120000]
            for i in range(0, len(chunk), 200):
                s = []
                for b, o in chunk[i:i + 200]:
                    s.append(cmd("all", b, o))
                scripts.append(("all-%d-%d" % (part, i), s))
            if not c.violations:
                c.conform(exe, "TraceJson", scripts, "texts", env=env, parts=8)
    if c.pid == "P14":
        def known(m, s):
            text = c.listed("json-traits-skipEmpty")
            if text and m["event"]["op"] == "traits" and m["event"]["n"] == [255] and m["event"]["r"] == ["0", "1", "", "", ""]:
                c.known_finding(text)
                return True
        c.conform(exe, "TraceJson", traits(), "traits", env=env, known=known)
    c.conform(exe, "TraceJson", big(c), "big", env=env, parts=8)
    c.explore(exe, "GenJson", "TraceJson", c.pid, c.pick(1600, 24000), 30, 0, env=env)
    return c.finish()
