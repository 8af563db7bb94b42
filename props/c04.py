"""C04: every learned clause is a consequence of the constraints."""
from props.core import *
from props.prep import Setup, LT, GT, RN, World, coeff


def run(ctx):
    ctx.rule("Each clause handed to the ASP solver is intercepted in an arbitrary abstract state; the polyhedron of the "
             "row equations and the bounds whose literals the clause negates has to be empty, and conflict clauses may "
             "only name bounds that are in force.")
    prog = ctx.prog("solving", "tableau")
    prog2 = ctx.prog("solving", "tableau", "problem")

    def conflict(st, ret):
        if ret is False:
            if not st.w.clauses:
                raise Violation("a conflict is reported without adding a clause")
            check_clause(st, st.w.clauses[-1], "conflict of a row")
        elif st.w.clauses:
            for c in st.w.clauses:
                check_clause(st, c, "clause", False)
    for nm, b in (("lower", "L!"), ("upper", "U!")):
        ctx.explore("row conflict 2 columns (%s)" % nm, prog,
                    step(prog, "Rational", 2, 1, full(1, 2), None, [2], None, conflict, bounds={2: b, 0: "lu", 1: "lu"}), 20000)
        ctx.explore("row conflict reversed (%s)" % nm, prog,
                    step(prog, "Rational", 2, 1, full(1, 2), [2, 1, 0], [0], None, conflict, bounds={0: b, 1: "lu", 2: "lu"}), 20000)
    ctx.explore("row conflict strict", prog,
                step(prog, "RationalQ", 1, 1, full(1, 1), None, [1], None, conflict, bounds={1: "lu!", 0: "lu"}), 20000)
    for V in ("Rational", "RationalQ"):
        for rel in (LE, GE, EQ):
            ctx.explore("clash of bounds (%s, %s)" % (V, RELS[rel]), prog,
                        step(prog, V, 1, 1, full(1, 1), None, (), None, conflict, at=0, lits=asserts((0, rel), (0, GE if rel == LE else LE)),
                             bounds={0: "lu", 1: ""}), 20000)

    def again(kind):
        """A conflict that has been backtracked leaves nothing behind in the next clause."""
        def rule(I):
            st = CoreState(I, "Rational", 2, 1, full(1, 2), level=2, history=False, bounds={0: "", 1: "u", 2: ""})
            st.w.may_fail = False
            st.pos0 = {p: x for p, x in enumerate(st.perm)}
            first = asserts((0, LE), (0, GE), lit0=50)(st)
            second = asserts((1, GE), (1, LE), lit0=60)(st) if kind == "clash" else asserts((0, GE), (1, GE), (2, LE), lit0=60)(st)
            both = st.asserted
            loops = pivot_loops(prog)

            def lh(I, n, it):
                if id(n) in loops and it >= 1:
                    raise CutPath()
            for k, ls in enumerate((first, second)):
                st.asserted = [b for b in both if b.get("lit") in ls]
                if k:
                    I.loop_hook = lh
                st.w.clauses.clear()
                r = st.call("solve", st.ctl, Cell(Vec([Cell(x) for x in ls], "int")))
                if k:
                    conflict(st, r)
                elif r is not False:
                    return
                else:
                    st.call("undo")
        return rule

    for kind in ("clash", "row"):
        ctx.explore("%s after an earlier conflict" % ("clash of bounds" if kind == "clash" else "row conflict"), prog, again(kind), 20000)

    def on_clause(st):
        def f(I, cl):
            check_clause(st, cl, "propagated clause", False)
        st.w.on_clause = f
        st.w.may_fail = False
    for mode in ("Full", "Changed"):
        m = ctx.enum(prog, "PropagateMode", mode)
        for V in ("Rational", "RationalQ") if mode == "Full" else ("Rational",):
            for rel in (LE, GE, EQ):
                def pre2(st, rel=rel, mode=mode):
                    on_clause(st)
                    x = st.perm[-1]
                    c = st.bound(x, rel, val=value(st.I, st.V, "q"), lit=70)
                    st.w.truths[70] = 0
                    st.vars[x].get("bounds").items.append(Cell(Ptr(c)))
                    if mode == "Changed":
                        st.vars[0].set("propagate", True)
                        st.s.get("propagate_queue_").items.append(Cell(0))
                ctx.explore("row propagation (%s, %s, %s)" % (mode, V, RELS[rel]), prog,
                            step(prog, V, 2 if V == "Rational" else 1, 1, full(1, 2 if V == "Rational" else 1), None, (), None, None, pre=pre2,
                                 options={"propagate_mode": m}, bounds={0: "lu", 1: "lu", 2: ""} if V == "Rational" else {0: "lu", 1: ""}), 20000)

    # clauses added while setting up the solver
    from props import prep

    def pairwise(V, ra, rb, kinds):
        def f(I):
            iqs = []
            for k, (r, kind) in enumerate(zip((ra, rb), kinds)):
                t = {0: coeff(I, "c%d" % k)} if kind == 1 else {0: Poly.const(2), 1: Poly.const(-1)}
                iqs.append((t, Poly.sym("r%d" % k), r, 10 + k))
            w = World(level=0)
            w.may_fail = False
            st = Setup(I, V, 2, iqs, None, I.fork((True, False), "master"), {"propagate_conflicts": True}, {10: I.fork((0, 1), "truth"), 11: 0},
                       world=w)
            M = st.matrix()
            for cl in st.w.clauses:
                if len(cl) == 2 and {-l for l in cl} != {10, 11} or len(cl) not in (1, 2):
                    raise Violation("a clause over unexpected literals is added while setting up the solver")
                lo, up, ex = [], [], []
                for l in cl:
                    b = st.bounds(-l)
                    if len(b) != 1:
                        raise Violation("a clause contains a literal that is not the negation of a constraint")
                    b = b[0]
                    ex.append(b.get("variable"))
                    if b.get("rel") in (prep.GE, prep.EQ):
                        lo.append(b.get("value"))
                    if b.get("rel") in (prep.LE, prep.EQ):
                        up.append(b.get("value"))
                if len(set(ex)) != 1:
                    raise Violation("a clause excludes bounds on different variables")
                if not any(lexsign(I, x - y) > 0 for x in lo for y in up):
                    raise Violation("a clause excludes two constraints that can hold together: %s %s and %s %s" % (
                        RN[ra], st.bounds(10)[0].get("value"), RN[rb], st.bounds(11)[0].get("value")))
        return f

    def lexsign(I, v):
        v0, v1 = v.split(EPS) if EPS in v.symbols() else (v, Poly.const(0))
        return I.sign(v0) or I.sign(v1)
    for V, rels in (("Rational", (LE, GE, EQ)), ("RationalQ", (LE, GE, EQ, LT, GT))):
        ra = [(a, b) for a in rels for b in rels]
        for a, b in ra:
            ctx.explore("pairwise clauses (%s, %s, %s)" % (V, RN[a], RN[b]), prog2, pairwise(V, a, b, (1, 1)), 20000)
        ctx.explore("pairwise clauses of different expressions (%s)" % V, prog2, pairwise(V, LE, GE, (1, 2)), 20000)
