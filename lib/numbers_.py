"""The table of numerals which spec/JsonVal.tla uses: what double they stand for and how it's printed."""
import json, math

POOL = """0 1 2 3 5 7 9 10 12 42 99 100 255 256 1000 -1 -2 -7 -10 -128 -0 00 007 0001 -05 2147483647 2147483648 -2147483648 -2147483649
4294967295 4294967296 9007199254740991 9007199254740993 999999999999 1000000000000 123456789012 1234567890123
9223372036854775807 9223372036854775806 9223372036854775808 -9223372036854775808 -9223372036854775807 -9223372036854775809
9999999999999999999 00009223372036854775807 18446744073709551615 18446744073709551616 123456789012345678901234567890
0.0 -0.0 0.5 1.0 1.5 -1.5 2.25 0.1 0.2 0.3 -0.001 3.14159265358979 2.718281828459045 0.30000000000000004 1. -2. 0. .5e1
-.5 -.25 1e0 1E0 1e1 1e+1 1e-1 1E+2 1.5e3 -1.5E-3 1e5 1e10 1e11 1e12 1e13 1e15 1e16 1e17 1e20 1e21 1e22 1e23 1e-4 1e-5 1e-6 1e-7 1e-10 1e-300
1e300 1.7976931348623157e308 -1.7976931348623157e308 2.2250738585072014e-308 4.9e-324 5e-324 1e-400 1e308 1e309 -1e309 1e400 9e999 1e 1e+ 2.5e- 1.e1
123456.789 0.123456789012 0.1234567890123 12345678901.25 999999999999.5 99999999999.95 100000000000.5 0.000123456789012345
1.00000000000049 1.0000000000005 1.0000000000015 33.3333333333333 66.6666666666667 179769313486e297""".split()


def value(t):
    s = t
    if s.lower().rstrip("+-").endswith("e"):
        s = s.lower().rstrip("+-")[:-1]
    return float(s)


def table():
    todo, seen, out = [t for t in POOL if not t.startswith(".")], set(), []
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        v = value(t)
        p = "%.12g" % v
        out.append(dict(text=t, f="%.17g" % v, p=p, inf=math.isinf(v)))
        if not math.isinf(v):
            todo += [p, "%.17g" % v]
    return sorted(out, key=lambda d: d["text"])


def write(path):
    with open(path, "w") as f:
        json.dump(table(), f)
