"""C11: numbers with an infinitesimal part."""
from props.nums import *

NATIVE = frozenset({"Integer", "Rational"})


def run(ctx):
    ctx.rule("Every operation on pairs c + k*e is interpreted for arbitrary c and k and compared with the ordered vector "
             "space of linear polynomials in an infinitesimal e (lexicographic order), also for an object combined with itself.")
    ctx.assume("rational arithmetic is exact (C10)")
    prog = ctx.prog("solving", "problem")
    add_operations(ctx, prog, {"RationalQ"}, NATIVE)

    def method(m):
        def g(I):
            c, v = make(I, "RationalQ", "a")
            if m == "swap":
                d, w = make(I, "RationalQ", "b")
                I.call_method(c, "swap", d)
                same(I, c, w, "first swapped number")
                same(I, d, v, "second swapped number")
            elif m == "is_rational":
                r = I.call_method(c, "is_rational")
                if bool(I.rv(r)) != I.is_zero(v.split(EPS)[1]):
                    raise Violation("a number %s multiple of e is regarded as %s" % (("with a", "rational") if I.rv(r) else ("without", "irrational")))
            elif m == "as_rational":
                try:
                    r = I.call_method(c, "as_rational")
                except CxxThrow:
                    if I.is_zero(v.split(EPS)[1]):
                        raise Violation("a rational number cannot be converted to a rational")
                    return
                if not I.is_zero(v.split(EPS)[1]):
                    raise Violation("a number with an infinitesimal part is converted to a rational")
                same(I, r, v.split(EPS)[0], "converted number")
            elif m == "construct":
                for k in range(3):
                    ps = [make(I, "Rational", "pq"[i]) for i in range(k)]
                    r = I.construct("RationalQ", [p.v for p, _ in ps]) if len([1 for f in prog.functions.values() if f.get("ctor") and f.get("cls") == "RationalQ" and len(f["params"]) == k]) else None
                    if r is not None:
                        want = Poly.const(0)
                        if k > 0:
                            want = want + ps[0][1]
                        if k > 1:
                            want = want + ps[1][1] * Poly.sym(EPS)
                        same(I, r, want, "constructed number")
        return g
    for m in ("swap", "is_rational", "as_rational", "construct"):
        ctx.explore("RationalQ: " + m, prog, method(m), native_numbers=NATIVE)
