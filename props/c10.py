"""C10: integers and rationals are exact."""
from props.nums import *


def run(ctx):
    ctx.rule("Every operation of the integer and rational classes is interpreted for arbitrary arguments (also for an object "
             "combined with itself) over summaries of the FLINT functions and compared with exact arithmetic; results have "
             "to be canonical, constant arguments unchanged and objects initialised and cleared exactly once.")
    ctx.assume("FLINT functions behave as documented")
    prog = ctx.prog("tableau", "parsing")
    add_operations(ctx, prog, {"Integer", "Rational"}, False)
    fs = prog.functions

    def method(cls, m, **kw):
        def g(I):
            c, v = make(I, cls, "a")
            if m == "neg":
                r = I.call_method(c, "neg")
                same(I, c, -v, "negated number")
                if I.loc(r) is not c and I.rv(r) is not c.v:
                    raise Violation("negation does not return the number")
            elif m == "swap":
                d, w = make(I, cls, "b")
                I.call_method(c, "swap", d)
                same(I, c, w, "first swapped number")
                same(I, d, v, "second swapped number")
            elif m == "swap itself":
                I.call_method(c, "swap", c)
                same(I, c, v, "number swapped with itself")
            elif m == "destroy":
                I.call_method(c, "~" + cls)
                x = c.v.f["num_"].v
                vs = [x.v] if cls == "Integer" else [x.f["num"].v.v, x.f["den"].v.v]
                if any(y is not None for y in vs):
                    raise Violation("destroying a number does not clear it")
            elif m == "parts":
                for nm, w in (("num", c.v.f["num_"].v.f["num"].v.v), ("den", c.v.f["num_"].v.f["den"].v.v)):
                    for fn in [f for f in fs.values() if f.get("cls") == cls and f["name"] == nm]:
                        same(I, I.call_function(fn, c, []), w, {"num": "numerator", "den": "denominator"}[nm])
            elif m == "canonicalize":
                n, d = Poly.sym("n"), Poly.sym("d")
                I.facts.assume(d, "!=")
                x = c.v.f["num_"].v
                x.f["num"].v.v, x.f["den"].v.v = n, d
                I.call_method(c, "canonicalize")
                same(I, c, n / d, "canonicalized number")
            elif m == "divide":
                d, w = make(I, cls, "b")
                if I.is_zero(w):
                    return
                r = I.call_method(c, "divide", d)
                same(I, c, v / w, "quotient")
                same(I, d, w, "divisor")
            elif m == "add_mul":
                d, w = make(I, cls, "b")
                e, x = make(I, cls, "c")
                for fn in [f for f in fs.values() if f.get("cls") == cls and f["name"] == "add_mul"]:
                    c, v = make(I, cls, "a")
                    r = I.call_function(fn, c, [d, e])
                    same(I, r, v + w * x, "result of a + b * c")
                    same(I, d, w, "factor")
                    same(I, e, x, "factor")
                    c, v = make(I, cls, "a")
                    same(I, I.call_function(fn, c, [c, c]), v + v * v, "result of a + a * a")
            elif m == "as_int":
                r = I.rv(I.call_method(c, "as_int"))
                fits = I.sign(v + 2**31) >= 0 and I.sign(v - (2**31 - 1)) <= 0
                has = isinstance(r, Opt) and r.c is not None
                if has != fits:
                    raise Violation("an integer is %s to a machine integer although it %s" % (
                        ("converted", "does not fit") if has else ("not converted", "fits")))
                if has:
                    same(I, r.c, v, "converted integer")
        return g

    for cls, ms in (("Integer", ("neg", "swap", "swap itself", "destroy", "divide", "add_mul", "as_int")),
                    ("Rational", ("neg", "swap", "swap itself", "destroy", "parts", "canonicalize"))):
        for m in ms:
            ctx.explore("%s: %s" % (cls, m), prog, method(cls, m), native_numbers=False)

    def special(f, cls):
        pts = [p["t"] for p in f["params"]]
        st = [strip_t(t) for t in pts]

        def g(I):
            ctor = f.get("ctor")
            if ctor:
                c, v = Cell(I.new_struct(cls)), None
            else:
                c, v = make(I, cls, "a")
            if st == ["char"] or any("basic_string" in t or t.startswith("char") or t.startswith("const char") for t in st):
                s = "TEXT" if "basic_string" in st[0] else StrPtr("TEXT")
                try:
                    I.call_function(f, c, [Cell(s) if "basic_string" in st[0] else s, 7])
                    thrown = False
                except CxxThrow:
                    thrown = True
                if [x[:2] for x in I.strings] != [("TEXT", 7)]:
                    raise Violation("the text or base given is not passed on when parsing a number")
                k = I.strings[0][2]
                if thrown:
                    if k in ("number", "rational"):
                        raise Violation("parsing a well-formed number fails")
                    return
                if k in ("zero", "other"):
                    raise Violation("%s is accepted as a number" % ("a rational with denominator zero" if k == "zero" else "text that is no number"))
                v = Poly.sym("parsed")
                same(I, c, v / Poly.sym("parsed.den") if cls == "Rational" else v, "parsed number")
                return
            if not st:
                I.call_function(f, c, [])
                same(I, c, Poly.const(0), "default value")
                return
            if cls == "Rational" and st == ["Integer", "Integer"]:
                n, a = make(I, "Integer", "n")
                d, b = make(I, "Integer", "d")
                I.facts.assume(b, "!=")
                I.call_function(f, c, [n.v, d.v])
                same(I, c, a / b, "number constructed from numerator and denominator")
                return
            if len(st) == 1:
                d, w = make(I, st[0], "b")
                r = I.call_function(f, c, [d if pts[0].endswith("&") else d.v])
                same(I, c, w, "copy")
                if pts[0].startswith("const"):
                    same(I, d, w, "copied number")
                elif pts[0].endswith("&&"):
                    read(I, d, "number moved from")
                if not ctor:
                    if I.loc(r) is not c and I.rv(r) is not c.v:
                        raise Violation("the assignment does not return the assigned object")
                    if st[0] == cls:
                        c, v = make(I, cls, "a")
                        I.call_function(f, c, [c])
                        same(I, c, v, "number assigned to itself")
                return
            raise Undecided("no specification for " + f["id"])
        return g
    for f in sorted(fs.values(), key=lambda f: f["id"]):
        if f.get("cls") in ("Integer", "Rational") and (f.get("ctor") or f["name"] == "operator="):
            ctx.explore(short(f["id"]), prog, special(f, f["cls"]), native_numbers=False)

    # conversions between machine integers either keep the value or fail
    RANGE = {"int": (-2**31, 2**31 - 1), "unsigned int": (0, 2**32 - 1), "unsigned long": (0, 2**64 - 1), "long": (-2**63, 2**63 - 1),
             "short": (-2**15, 2**15 - 1), "unsigned short": (0, 2**16 - 1), "size_t": (0, 2**64 - 1)}

    def conversion(f, src, dst):
        def g(I):
            v = Poly.sym("s")
            I.facts.assume(v - src[0], ">=")
            I.facts.assume(src[1] - v, ">=")
            try:
                r = I.rv(I.call_function(f, None, [v]))
            except CxxThrow:
                r = None
            fits = I.sign(v - dst[0]) >= 0 and I.sign(v - dst[1]) <= 0
            if (r is not None) != fits:
                raise Violation("a machine integer is %s although it %s" % (
                    ("converted", "does not fit") if not fits else ("not converted", "fits")))
            if r is not None:
                same(I, Cell(r), v, "converted machine integer")
        return g
    for f in sorted(fs.values(), key=lambda f: f["id"]):
        if f["name"] == "safe_cast" and len(f["params"]) == 1:
            src, dst = strip_t(f["params"][0]["t"]), strip_t(f["rt"])
            if src in RANGE and dst in RANGE:
                ctx.explore("conversion from %s to %s" % (src, dst), prog, conversion(f, RANGE[src], RANGE[dst]))
