"""C02: all bounds of assigned literals are in force, the strongest one per direction."""
from props.core import *


def run(ctx):
    ctx.rule("From an arbitrary state, asserting a set of literals has to leave, for each variable and direction, the "
             "strongest of the previous and the asserted bounds in force, detect crossing bounds, keep non-basic "
             "variables within their bounds and queue violated basic variables before the simplex loop is entered.")
    prog = ctx.prog("solving", "tableau")

    def at_head(xs):
        def f(st):
            for x in xs:
                check_strongest(st, x, "after asserting bounds")
                lo, up = st.lo(x), st.up(x)
                if lo is not None and up is not None and st.I.sign(up.get("value") - lo.get("value")) < 0:
                    raise Violation("a lower bound above the upper bound is not detected")
            check_nonbasic(st, "after asserting bounds")
            check_queue(st, "after asserting bounds")
        return f

    def early(st, ret):
        """Returning before the simplex loop is only allowed if bounds cross."""
        if ret is not False:
            raise Violation("asserting bounds succeeds without entering the simplex procedure")
        I = st.I
        for x in {b.get("variable") for b in st.asserted}:
            lo = [b for b in st.asserted if b.get("variable") == x and b.get("rel") in (GE, EQ)] + [st.initial(x, GE)]
            up = [b for b in st.asserted if b.get("variable") == x and b.get("rel") in (LE, EQ)] + [st.initial(x, LE)]
            for a in lo:
                for b in up:
                    if a is not None and b is not None and I.sign(b.get("value") - a.get("value")) < 0:
                        return
        raise Violation("a conflict is reported although the bounds do not cross")
    for V in ("Rational", "RationalQ"):
        for rel in (LE, GE, EQ):
            for bs in ("l", "u", "lu") if V == "Rational" else ("l", "u"):
                ctx.explore("one bound, non-basic (%s, %s, %s)" % (V, RELS[rel], bs), prog,
                            step(prog, V, 1, 1, full(1, 1), None, (), at_head([0]), early, at=0,
                                 lits=asserts((0, rel)), bounds={0: bs, 1: ""}), 20000)
                ctx.explore("one bound, basic (%s, %s, %s)" % (V, RELS[rel], bs), prog,
                            step(prog, V, 1, 1, full(1, 1), None, (), at_head([1]), early, at=0,
                                 lits=asserts((1, rel)), bounds={1: bs, 0: ""}), 20000)
    for r1, r2 in ((LE, LE), (GE, GE), (EQ, LE), (GE, EQ), (EQ, EQ)):
        ctx.explore("two literals (%s, %s)" % (RELS[r1], RELS[r2]), prog,
                    step(prog, "Rational", 1, 1, full(1, 1), None, (), at_head([0]), early, at=0,
                         lits=asserts((0, r1), (0, r2)), bounds={0: "", 1: ""}), 20000)
    ctx.explore("one literal with several bounds", prog,
                step(prog, "Rational", 1, 2, full(2, 1), None, (), at_head([0, 1, 2]), early, at=0,
                     lits=asserts((0, GE, 50), (1, LE, 50), (2, EQ, 50)), bounds={0: "", 1: "", 2: ""}), 20000)
    ctx.explore("several literals on different variables", prog,
                step(prog, "Rational", 2, 1, full(1, 2), None, (), at_head([0, 1, 2]), early, at=0,
                     lits=asserts((1, GE), (0, LE), (2, EQ)), bounds={0: "", 1: "", 2: ""}), 20000)
    ctx.explore("exchanged positions", prog,
                step(prog, "Rational", 1, 1, full(1, 1), [1, 0], (), at_head([0, 1]), early, at=0,
                     lits=asserts((1, GE), (0, LE)), bounds={0: "", 1: ""}), 20000)
