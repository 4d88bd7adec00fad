"""Classes for the declaration macros: C++ sources and the description spec/Decl.tla reads, from a seed."""
import itertools, json, os, random

ASSIGN = ["+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="]
ARITH = ["+", "-", "*", "/", "%", "~", "&", "|", "^", "<<", ">>"]
LOGIC = ["!", "&&", "||"]
COMP = ["==", "!=", "<", ">", "<=", ">="]
MACRO = {"+=": "PlusAssign", "-=": "MinusAssign", "*=": "MultAssign", "/=": "DivAssign", "%=": "ModAssign",
         "&=": "BitAndAssign", "|=": "BitOrAssign", "^=": "BitXorAssign", "<<=": "BitLShiftAssign",
         ">>=": "BitRShiftAssign", "+": "Plus", "-": "Minus", "*": "Mult", "/": "Div", "%": "Mod", "~": "BitNot",
         "&": "BitAnd", "|": "BitOr", "^": "BitXor", "<<": "BitLShift", ">>": "BitRShift", "!": "LogicNot",
         "&&": "LogicAnd", "||": "LogicOr", "==": "EqComp", "!=": "NEComp", "<": "LTComp", ">": "GTComp",
         "<=": "LEComp", ">=": "GEComp", "()": "Function", "[]": "Array"}
GROUPS = {"reflectOpAssign": ASSIGN, "reflectOpIncDec": ["++", "--"], "reflectOpArithmetic": ARITH,
          "reflectOpLogical": LOGIC, "reflectOpComparaison": COMP, "reflectOpOther": ["()", "[]"]}


def A(t, r="C", c="n"):
    return dict(t=t, r=r, c=c)


def cpp(a):
    t = ("const " if a["c"] == "c" else "") + a["t"]
    return t + {"C": "", "L": "&", "R": "&&"}[a["r"]]


class Gen:
    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.classes = []
        self.by = {}
        self.tag = 20

    def newtag(self):
        self.tag += 1
        return 20 + self.tag % 300

    def moveC(self, k):
        return k["caps"]["MC"] == "y" or (k["caps"]["MC"] == "u" and k["caps"]["CC"] == "y")

    def cls(self, name, caps, base=None, parent=None):
        k = dict(name=name, base=base or "", parent=parent or "", caps=dict(zip(("D", "CC", "MC", "CA", "MA"), caps)),
                 members=[], regs=[], cons=[], alias="", kind=name[0])
        self.classes.append(k)
        self.by[name] = k
        return k

    def arg(self, k, simple=False):
        r, n = self.rng, k["name"]
        l = [A("int")] * 3 + [A("int", "L"), A("int", "L", "c"), A(n, "L", "c"), A(n, "L", "c"), A(n, "L")]
        if not simple:
            l += [A("int", "R")]
            if self.moveC(k):
                l += [A(n, "R")]
                if k["caps"]["CC"] == "y":
                    l += [A(n)]
            others = [c["name"] for c in self.classes if c["name"][0] == "O" and c is not k]
            if others:
                l += [A(r.choice(others), "L", "c")]
        return r.choice(l)

    def ret(self, k, cv, static=False, boolish=False):
        r, n = self.rng, k["name"]
        if boolish and r.random() < .75:
            return A("bool")
        l = [A("void"), A("int"), A("int"), A("bool")]
        if not static:
            l += [A(n, "L", "c"), A("int", "L", "c")]
            if cv == "n":
                l += [A(n, "L"), A(n, "L"), A("int", "L")]
            if self.moveC(k):
                l += [A(n), A(n)]
        return r.choice(l)

    def member(self, k, name, args, cv=None, ret=None, acc="pub", static=False, boolish=False):
        if cv is None:
            cv = self.rng.choice("cn")
        m = dict(name=name, acc=acc, kind="s" if static else "m", cv=cv if not static else "c",
                 ret=ret or self.ret(k, cv, static, boolish), args=args, tag=self.newtag())
        k["members"].append(m)
        return m

    def operators(self, k, density):
        r, n = self.rng, k["name"]
        for op in ASSIGN + ARITH + LOGIC + COMP + ["()", "[]"]:
            if r.random() > density:
                continue
            f = "operator" + op
            boolish = op in LOGIC + COMP
            if op in ("~", "!"):
                args = []
            elif op == "()":
                args = [self.arg(k) for _ in range(r.randrange(3))]
            elif op in ("+", "-", "*") and r.random() < .3:
                args = []
            else:
                args = [self.arg(k)]
            cv = r.choice("ccn") if op not in ASSIGN else r.choice("nnnc")
            acc = "priv" if r.random() < .1 else "pub"
            m = self.member(k, f, args, cv, acc=acc, boolish=boolish)
            if r.random() < .15:        # a second overload
                if op in ("+", "-", "*", "()") and args:
                    self.member(k, f, [], r.choice("cn"), boolish=boolish)
                else:
                    self.member(k, f, args, "n" if m["cv"] == "c" else "c", boolish=boolish)
        for op in ("++", "--"):
            f = "operator" + op
            x = r.random()
            if x < .6:
                self.member(k, f, [], "n", A(n, "L"), acc="priv" if r.random() < .15 else "pub")
            elif x < .75:
                self.member(k, f, [], r.choice("cn"), A(r.choice(["int", "void"])))
            x = r.random()
            if x < .6 and self.moveC(k):
                self.member(k, f, [A("int")], "n", A(n), acc="priv" if r.random() < .15 else "pub")
            elif x < .8:
                self.member(k, f, [A("int")], r.choice("cn"), A(n, "L", "c"))

    def reg(self, k, what, name="", args=None, **kw):
        d = dict(k=what, name=name, args=args or [], ret=A("void"), tag=0, val=0, of="")
        d.update(kw)
        k["regs"].append(d)
        return d

    def plumbing(self, k, mode):
        r = self.rng
        if mode == "all":
            self.reg(k, "plumbing")
        else:
            for m in ("sizeof", "defcons", "copycons", "movecons", "copyassign", "moveassign"):
                if r.random() < .6:
                    self.reg(k, m)
        x = r.random()
        if x < .5:
            self.reg(k, "allocplumbing")
        elif x < .65 and k["caps"]["D"] in "yi":
            self.reg(k, "alloc")
        elif x < .8:
            for m in ("allocdef", "alloccopy", "allocmove"):
                if r.random() < .6:
                    self.reg(k, m)

    def extras(self, k):
        """functions, constructors, custom functions, casts, fields and traits"""
        r, n = self.rng, k["name"]
        fns = []
        for f in ("f", "g"):
            if r.random() < .7:
                self.member(k, f, [self.arg(k) for _ in range(r.randrange(3))], static=r.random() < .25)
                self.reg(k, "fn", f)
                fns.append(f)
        if r.random() < .5:             # chosen among overloads
            m = [self.member(k, "h", [self.arg(k)], "c"), self.member(k, "h", [self.arg(k), A("int")], "n")]
            for i in sorted(r.sample([0, 1], r.choice([1, 2]))):
                self.reg(k, "fntyped", "h", m[i]["args"], ret=m[i]["ret"], tag=m[i]["tag"])
            fns.append("h")
        if r.random() < .6:
            first = r.choice([A(n, "L"), A(n, "L", "c")])
            self.reg(k, "custom", "cu", [first] + [self.arg(k, True) for _ in range(r.randrange(3))],
                     ret=self.ret(k, "c", True), tag=self.newtag())
            fns.append("cu")
        if r.random() < .3:
            self.reg(k, "custom", "cs", [self.arg(k, True) for _ in range(r.randrange(3))], ret=self.ret(k, "c", True),
                     tag=self.newtag())
        if self.moveC(k):
            if r.random() < .5:
                self.reg(k, "cons", "", [A("int")])
            if r.random() < .5:
                args = [self.arg(k, True) for _ in range(2)]
                if r.random() < .5:
                    args[r.randrange(2)] = A(r.choice([n, n, "int"]), "R")
                k["cons"].append(dict(args=args, tag=self.newtag()))
                self.reg(k, "cons", "", args, tag=k["cons"][-1]["tag"])
        for t in ("bool", "int"):
            if r.random() < (.6 if t == "bool" else .25):
                # one conversion only, and const: what needs it can't fail halfway
                self.member(k, "operator " + t, [], "c", A(t))
                self.reg(k, "cast", t)
        if r.random() < .8:
            self.reg(k, "field", "n")
            if r.random() < .5:
                self.reg(k, "fieldtrait", "ft", of="n")
            if r.random() < .5:
                self.reg(k, "fieldvalue", "fv", of="n", val=r.randrange(1000))
        for f in fns:
            if r.random() < .3:
                self.reg(k, "fntrait", "t1", of=f)
            if r.random() < .3:
                self.reg(k, "fnvalue", "t2", of=f, val=r.randrange(1000))
        if r.random() < .4:
            self.reg(k, "typetrait", "tt")
        if r.random() < .4:
            self.reg(k, "typevalue", "tv", val=r.randrange(1000))
        if r.random() < .5:
            k["alias"] = n + "Alias"
            self.reg(k, "alias", n + "Alias")

    def opregs(self, k):
        r = self.rng
        x = r.random()
        if x < .6:
            self.reg(k, "operators")
            return
        for g, ops in GROUPS.items():
            y = r.random()
            if y < .5:
                self.reg(k, "group", g)
            elif y < .8:
                for op in ops:
                    if op not in ("++", "--", "*") and r.random() < .7:
                        self.reg(k, "op", "operator" + op)

    def build(self):
        r = self.rng
        i = 0
        for caps in itertools.product("yd", "yd", "ydu", "yd", "ydu"):
            k = self.cls("K%02d" % i, caps)
            self.reg(k, "plumbing")
            if i % 3 != 2:
                self.reg(k, "allocplumbing")
            if i % 4 == 0:
                self.reg(k, "field", "n")
            i += 1
        for j, caps in enumerate(["iyyyy", "iyuyu", "idydy", "idddd"]):
            k = self.cls("K%02d" % (90 + j), caps)
            self.reg(k, "plumbing")
            self.reg(k, "allocplumbing" if j % 2 else "alloc")
        good = [("y", "y", "y", "y", "y")] * 5 + [("y", "y", "u", "y", "u"), ("d", "y", "y", "y", "y"),
                ("y", "d", "y", "d", "y"), ("y", "d", "d", "d", "d"), ("d", "y", "d", "y", "u"), ("y", "y", "y", "d", "d")]
        plain = [("i", "y", "y", "y", "y"), ("i", "y", "u", "y", "u")]
        for j in range(24):
            base = parent = None
            if j >= 14 or j in (4, 9):
                base = r.choice([c["name"] for c in self.classes if c["name"][0] == "O"])
                parent = base if r.random() < .8 else None
            k = self.cls("O%02d" % j, r.choice(good if base or j % 5 else plain), base, parent)
            if parent:
                self.reg(k, "parent", parent)
            self.operators(k, .35 if base else .7)
            self.plumbing(k, r.choice(["all", "all", "some"]))
            self.opregs(k)
            self.extras(k)
        self.scopes = self.globals()
        return self

    def globals(self):
        """namespaces with traits, functions and variables, for reflectScope"""
        r = self.rng = random.Random(self.tag * 7919)
        out = []
        objs = [k for k in self.classes if k["kind"] == "O" and k["caps"]["CC"] == "y" and k["caps"]["CA"] == "y"
                and self.moveC(k) and k["caps"]["D"] == "y"]
        for name in ("ns0", "ns0::in", "ns1::deep::er", "ns2"):
            s = dict(name=name, traits=[], regs=[])
            for x in r.sample(["ta", "tb", "tc"], r.randrange(3)):
                s["traits"].append(dict(name=x, val=r.choice([-1, 0, r.randrange(100)])))
            for f in r.sample(["f", "g", "h", "k"], r.choice([2, 3, 4])):
                sizes = r.sample([0, 1, 2], r.choice([1, 1, 2, 3]))
                for n in sizes:
                    k = r.choice(objs)
                    s["regs"].append(dict(k="fntyped" if len(sizes) > 1 or r.random() < .3 else "fn", name=f,
                                          args=[self.arg(k) for _ in range(n)], ret=self.ret(k, "c", True), tag=self.newtag()))
            for v in r.sample(["v", "w", "c", "d"], r.choice([2, 3, 4])):
                s["regs"].append(dict(k="var", name=v, args=[], tag=r.randrange(2, 40), cv="c" if v in "cd" else "n",
                                      ret=A(r.choice(["int", "int", r.choice(objs)["name"]]))))
            r.shuffle(s["regs"])
            out.append(s)
        return out


def body(k, self_, args, tag, ret, own):
    """what a member, function or constructor does"""
    s = "int p0 = %s, p1 = %s; int v = calc(%d, %s, p0, p1); (void) v; " % (
        "num(a0)" if len(args) > 0 else "0", "num(a1)" if len(args) > 1 else "0", tag, "n" if self_ else "0")
    if self_ == "n":
        s += "n = (n + %d + p0) %% 97; " % tag
    for i, a in enumerate(args):
        if a["r"] == "L" and a["c"] == "n":
            s += "ref(a%d) = (ref(a%d) + %d) %% 97; " % (i, i, tag)
    t = ret["t"]
    if t == "void":
        return s
    if t == "bool":
        return s + "return v % 2 == 1;"
    if t == "int":
        return s + ("return n;" if ret["r"] == "L" else "return v;")
    if ret["r"] == "L":
        return s + "return *this;"
    return s + "return %s(v %% 97);" % own


def emit(g, d, parts):
    """writes decl_gen.h and decl_<i>.cpp to d; returns the sources"""
    os.makedirs(d, exist_ok=True)
    h = ['#pragma once', '#include "decl.h"', ""]
    for k in g.classes:
        h.append("struct %s;" % k["name"])
    for k in g.classes:
        n, c = k["name"], k["caps"]
        b = k["base"]
        init = (lambda s: ": %s(%s)" % (b, s)) if b else (lambda s: "")
        h.append("struct %s : %s {" % (n, b or "Cell"))
        h.append("    int z;")
        h.append("    explicit %s(int x) %s { n = x; how = \"i\"; z = 0; }" % (n, init("x")))
        special = [("%s()" % n, c["D"], init("5"), "n = 5; how = \"d\"; z = 0;"),
                   ("%s(const %s& o)" % (n, n), c["CC"], init("o.n"), "n = o.n; how = \"cc\"; z = o.z;"),
                   ("%s(%s&& o)" % (n, n), c["MC"], init("o.n"), "n = o.n; how = \"mc\"; z = o.z; o.n = -1;"),
                   ("%s& operator=(const %s& o)" % (n, n), c["CA"], "", "n = o.n; how = \"ca\"; z = o.z; return *this;"),
                   ("%s& operator=(%s&& o)" % (n, n), c["MA"], "", "int x = o.n; o.n = -1; n = x; how = \"ma\"; z = o.z; return *this;")]
        for sig, cap, ini, bod in special:
            if cap == "y":
                h.append("    %s %s { %s }" % (sig, ini if "operator" not in sig else "", bod))
            elif cap == "d":
                h.append("    %s = delete;" % sig)
            elif cap == "i":        # the compiler's: T() zeroes what nothing else initialises
                h.append("    %s = default;" % sig)
        for x in k["cons"]:
            ps = ", ".join("%s a%d" % (cpp(a), i) for i, a in enumerate(x["args"]))
            h.append("    %s(%s) %s { %s n = v %% 97; how = \"c\"; z = 0; }" % (
                n, ps, init("0"), body(k, "", x["args"], x["tag"], A("void"), n)))
        # bodies outside of the classes, which are all complete then
        for m in k["members"]:
            ps = ", ".join(cpp(a) + " a%d" % i for i, a in enumerate(m["args"]))
            cast = m["name"].startswith("operator ")
            h.append("    %s: %s%s%s(%s)%s;" % (
                "private" if m["acc"] == "priv" else "public", "static " if m["kind"] == "s" else "",
                "" if cast else cpp(m["ret"]) + " ", m["name"], ps, " const" if m["kind"] == "m" and m["cv"] == "c" else ""))
        h.append("};")
        if k["alias"]:
            h.append("typedef %s %s;" % (n, k["alias"]))
    for k in g.classes:
        for m in k["members"]:
            ps = ", ".join(cpp(a) + " a%d" % i for i, a in enumerate(m["args"]))
            cast = m["name"].startswith("operator ")
            h.append("inline %s%s::%s(%s)%s { %s }" % (
                "" if cast else cpp(m["ret"]) + " ", k["name"], m["name"], ps,
                " const" if m["kind"] == "m" and m["cv"] == "c" else "",
                body(k, "" if m["kind"] == "s" else m["cv"], m["args"], m["tag"], m["ret"], k["name"])))
    for k in g.classes:
        h.append("reflectTypeDecl(%s)" % k["name"])
    for x in g.scopes:
        h += ["namespace %s {" % n for n in x["name"].split("::")]
        for f in x["regs"]:
            if f["k"] == "var":
                h.append("    extern %s%s %s;" % ("const " if f["cv"] == "c" else "", f["ret"]["t"], f["name"]))
            else:
                h.append("    inline %s %s(%s) { %s }" % (
                    cpp(f["ret"]), f["name"], ", ".join(cpp(a) + " a%d" % i for i, a in enumerate(f["args"])),
                    body(None, "", f["args"], f["tag"], f["ret"], f["ret"]["t"])))
        h.append("}" * (x["name"].count("::") + 1))
    open(d + "/decl_gen.h", "w").write("\n".join(h) + "\n")
    srcs = []
    for p in range(parts):
        mine = [k for i, k in enumerate(g.classes) if i % parts == p]
        s = ['#include "decl_gen.h"']
        for k in mine:
            n = k["name"]
            s.append("reflectTypeImpl(%s)\n{" % n)
            for x in k["regs"]:
                w, nm = x["k"], x["name"]
                simple = dict(plumbing="reflectPlumbing()", sizeof="reflectSizeof()", defcons="reflectDefaultCons()",
                              copycons="reflectCopyCons()", movecons="reflectMoveCons()", copyassign="reflectOpCopyAssign()",
                              moveassign="reflectOpMoveAssign()", allocplumbing="reflectAllocPlumbing()",
                              alloc="reflectAlloc()", allocdef="reflectAllocDefaultCons()",
                              alloccopy="reflectAllocCopyCons()", allocmove="reflectAllocMoveCons()",
                              operators="reflectOperators()", group=nm + "()", fn="reflectFn(%s)" % nm,
                              cast="reflectOpCast(%s)" % nm, field="reflectField(%s)" % nm, parent="reflectParent(%s)" % nm,
                              alias="reflectAlias(%s)" % nm, typetrait="reflectTypeTrait(%s)" % nm,
                              typevalue="reflectTypeValue(%s, %d)" % (nm, x["val"]),
                              fntrait="reflectFnTrait(%s, %s)" % (x["of"], nm),
                              fnvalue="reflectFnValue(%s, %s, %d)" % (x["of"], nm, x["val"]),
                              fieldtrait="reflectFieldTrait(%s, %s)" % (x["of"], nm),
                              fieldvalue="reflectFieldValue(%s, %s, %d)" % (x["of"], nm, x["val"]),
                              cons="reflectCons(%s)" % ", ".join(cpp(a) for a in x["args"]))
                if w in simple:
                    s.append("    %s;" % simple[w])
                elif w == "op":
                    s.append("    reflectOp(%s, %s);" % (nm, MACRO[nm[8:]]))
                elif w == "fntyped":
                    m = [m for m in k["members"] if m["tag"] == x["tag"] and m["name"] == nm][0]
                    s.append("    { typedef %s (T_::*Sig)(%s)%s; reflectFnTyped(%s, Sig); }" % (
                        cpp(m["ret"]), ", ".join(cpp(a) for a in m["args"]), " const" if m["cv"] == "c" else "", nm))
                elif w == "custom":
                    s.append("    reflectCustom(%s) (%s) -> %s { %s };" % (
                        nm, ", ".join(cpp(a) + " a%d" % i for i, a in enumerate(x["args"])), cpp(x["ret"]),
                        body(k, "", x["args"], x["tag"], x["ret"], n)))
                else:
                    raise Exception(w)
            s.append("}")
        s.append("static bool here = classes({%s});" % ", ".join(
            "info<%s, %s>(\"%s\")" % (k["name"], "true" if k["kind"] == "O" else "false", k["name"]) for k in mine))
        f = d + "/decl_%d.cpp" % p
        open(f, "w").write("\n".join(s) + "\n")
        srcs.append(f)
    # linked last: a reflectScope block reflects at start-up the types of what it registers
    s = ['#include "decl_gen.h"']
    for x in g.scopes:
        s.append("reflectScope(%s)\n{" % x["name"])
        for y in x["traits"]:
            s.append("    reflectScopeTrait(%s);" % y["name"] if y["val"] < 0 else
                     "    reflectScopeValue(%s, %d);" % (y["name"], y["val"]))
        for f in x["regs"]:
            full = x["name"] + "::" + f["name"]
            if f["k"] == "fn":
                s.append("    reflectGlobalFn(%s);" % full)
            elif f["k"] == "var":
                s.append("    reflectGlobalVar(%s);" % full)
            else:
                s.append("    { typedef %s (*Sig)(%s); reflectGlobalFnTyped(%s, Sig); }" % (
                    cpp(f["ret"]), ", ".join(cpp(a) for a in f["args"]), full))
        s.append("}")
        for f in x["regs"]:
            if f["k"] == "var":
                full = x["name"] + "::" + f["name"]
                s.append("%s%s %s(%d);" % ("extern const " if f["cv"] == "c" else "", f["ret"]["t"], full, f["tag"]))
                s.append("static bool at%d = variable(\"%s\", \"%s\", (void*) &%s, [] () -> reflect::Value { return reflect::Value(%s); });" % (
                    len(s), full, f["ret"]["t"], full, full))
    f = d + "/decl_scopes.cpp"
    open(f, "w").write("\n".join(s) + "\n")
    srcs.append(f)
    fns = ["operator" + o for o in ASSIGN + ARITH + LOGIC + COMP + ["()", "[]", "=", "++", "--"]] + [
        "f", "g", "h", "cu", "cs", "new", "operator bool()", "operator int()"]
    json.dump(dict(classes=g.classes, fns=fns, scopes=g.scopes), open(d + "/pool.json", "w"))
    return srcs


def make(seed, d, parts=8):
    return emit(Gen(seed).build(), d, parts)


if __name__ == "__main__":
    import sys
    print("\n".join(make(int(sys.argv[1]), sys.argv[2])))
