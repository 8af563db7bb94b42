"""C05: steps of the simplex procedure preserve the row equations and the bookkeeping."""
from props.core import *


def run(ctx):
    ctx.rule("Inductive invariants of the simplex state (basic values equal their rows, index maps are inverse to each "
             "other, violated basic variables are queued, non-basic variables respect their bounds) are shown to be "
             "preserved by one generic step from an arbitrary state, for symbolic coefficients, values and bounds.")
    ctx.assume("rows and columns are represented by the row/column operated on and one further generic row/column")
    prog = ctx.prog("solving", "tableau")
    inv = lambda what: (lambda st: check_invariants(st, what))
    
    def sat(st, ret):
        if ret:
            check_invariants(st, "return")
        else:
            st.check_perm("return")
            st.check_rows("return")

    shapes = [("full", full(2, 2)), ("sparse other row", {(0, 0), (0, 1), (1, 1)}), ("sparse pivot row", {(0, 0), (1, 0), (1, 1)})]
    rows = lambda st: (st.check_perm("after a pivot"), st.check_rows("after a pivot"))
    for name, cells in shapes:
        for perm in ([0, 1, 2, 3], [3, 1, 2, 0]):
            q = perm[2]
            for kind in ("L!", "U!"):
                ctx.explore("rows after a pivot (%s, %s, %s)" % (name, perm, kind), prog,
                            step(prog, "Rational", 2, 2, cells, perm, [q], rows, sat,
                                 bounds={q: kind, perm[3]: "", perm[0]: "", perm[1]: "u" if kind == "L!" else ""}), 20000)
    # (the pivot row is the last one)
    for name, cells in (("full", full(2, 2)), ("sparse other row", {(1, 0), (0, 1), (1, 1)})):
        for perm, kind in (([0, 1, 2, 3], "L!"), ([3, 1, 2, 0], "U!"))[:2 if ctx.thorough or name == "full" else 1]:
            q = perm[3]
            ctx.explore("rows after a pivot in the last row (%s, %s, %s)" % (name, perm, kind), prog,
                        step(prog, "Rational", 2, 2, cells, perm, [q], rows, sat,
                             bounds={q: kind, perm[2]: "", perm[0]: "", perm[1]: "u" if kind == "L!" else ""}), 20000)
    for perm, k, ob, eb in [([0, 1, 2], "L!", "lu", ""), ([2, 0, 1], "U!", "l", "l")]:
        q, o, e = perm[2], perm[1], perm[0]
        ctx.explore("invariants after a pivot in the last row (%s, %s, %s, %s)" % (perm, k, ob, eb), prog,
                    step(prog, "Rational", 1, 2, full(2, 1), perm, [q], inv("after a pivot"), sat,
                         bounds={q: k, o: ob, e: eb}), 20000)
    quick = [([0, 1, 2], "L!", "lu", ""), ([0, 1, 2], "U!", "l", "l"), ([1, 0, 2], "L!", "u", "u"), ([2, 1, 0], "U!", "u", "")]
    deep = [(p, k, o, e) for p in ([0, 1, 2], [2, 1, 0], [1, 0, 2], [1, 2, 0]) for k in ("L!", "U!") for o in ("lu",) for e in ("l", "u")]
    for perm, k, ob, eb in quick + (deep if ctx.thorough else []):
        q, o, e = perm[1], perm[2], perm[0]
        ctx.explore("invariants after a pivot (%s, %s, %s, %s)" % (perm, k, ob, eb), prog,
                    step(prog, "Rational", 1, 2, full(2, 1), perm, [q], inv("after a pivot"), sat,
                         bounds={q: k, o: ob, e: eb}), 20000)
    for V in ("Rational", "RationalQ"):
        ctx.explore("pivot step 1x1 (%s)" % V, prog,
                    step(prog, V, 1, 1, full(1, 1), [0, 1], [1], inv("after a pivot"), sat, bounds={1: "L!" if V == "RationalQ" else "Lu!", 0: "lu"}), 20000)
        for rel in (LE, GE, EQ):
            ctx.explore("bound on a non-basic variable (%s, %s)" % (V, RELS[rel]), prog,
                        step(prog, V, 1, 2, full(2, 1), [0, 1, 2], (), inv("after asserting a bound"), sat, at=0,
                             lits=asserts((0, rel)), bounds={0: "", 1: "l", 2: "u"}), 20000)
    if ctx.thorough:
        ctx.explore("pivot step (RationalQ)", prog,
                    step(prog, "RationalQ", 2, 2, full(2, 2), None, [2], inv("after a pivot"), sat,
                         bounds={2: "L!", 3: "l"}), 40000)
        ctx.explore("pivot step (all bounds)", prog,
                    step(prog, "Rational", 2, 2, full(2, 2), None, [2], inv("after a pivot"), sat,
                         bounds={2: "Ll!", 3: "lu", 0: "lu", 1: "lu"}), 200000)
        ctx.explore("pivot step with queue", prog,
                    step(prog, "Rational", 2, 2, full(2, 2), None, [2, 3], inv("after a pivot"), sat,
                         bounds={2: "L!", 3: "lu"}), 200000)
