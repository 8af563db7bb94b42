"""C27: the propagation options select exactly what is propagated."""
from props.core import *  # noqa: F401,F403
from props import prep
from props.prep import GT, LT, RN, Setup, World, coeff


def implied(st, pos, rel):
    """Bound on the value of the row at a position implied by the bounds in force, None if there is none."""
    I, M = st.I, st.matrix()
    out = Poly.const(0)
    for (i, j), a in M.items():
        if i != pos - st.nb:
            continue
        x = st.s.get("variables_").items[j].v.get("index")
        b = (st.lo if (I.sign(a) > 0) == (rel == GE) else st.up)(x)
        if b is None:
            return None
        out = out + b.get("value") * a
    return out


def run(ctx):
    ctx.rule("Solving is analysed from arbitrary abstract states with undecided constraints over the basic variables. "
             "Without propagation no clause may be added; otherwise each row that was moved since it was last examined "
             "(or each row with full propagation) has to have made each constraint false that the bounds in force exclude. "
             "Setting up the solver has to add a clause for each pair of constraints over one variable that exclude each "
             "other if and only if the option is enabled.")
    prog = ctx.prog("solving", "tableau")
    prog2 = ctx.prog("solving", "tableau", "problem")
    modes = {k: ctx.enum(prog, "PropagateMode", k) for k in ("None", "Changed", "Full")}

    def watch(st, rels, xs, truths=(0,)):
        """Constraints over the variables xs with arbitrary values that are undecided."""
        st.free = []
        st.w.may_fail = False

        st.undone = set()

        def truth(l):
            a = abs(l)
            if 70 <= a < 90:
                return st.w.truths[a] * (1 if l > 0 else -1)
            return 0 if a in st.undone else 1 if l > 0 else -1

        def on_clause(I, cl):
            # unit propagation (bounds in force have true literals)
            open_ = {l for l in cl if truth(l) != -1}
            if len(open_) <= 1:
                for l in open_ or cl:       # a conflict counts as excluding the constraint
                    if 70 <= abs(l) < 90:
                        st.w.truths[abs(l)] = 1 if l > 0 else -1
        st.w.on_clause = on_clause
        for k, x in enumerate(xs):
            for m, rel in enumerate(rels):
                lit = 70 + 5 * k + m
                c = st.bound(x, rel, val=value(st.I, st.V, "q%d" % lit), lit=lit)
                st.w.truths[lit] = st.I.fork(truths, "truth value of a constraint")
                st.vars[x].get("bounds").items.append(Cell(Ptr(c)))
                st.free.append(c.v)

    def examined(st, pos, what):
        x = st.s.get("variables_").items[pos].v.get("index")
        for b in st.free:
            if b.get("variable") != x or st.w.truths[b.get("lit")] == -1:
                continue
            for rel, sg in ((LE, 1), (GE, -1)):
                # the row implies x <= limit (x >= limit)
                if b.get("rel") not in (EQ, GE if rel == LE else LE):
                    continue
                lim = implied(st, pos, rel)
                if lim is not None and st.I.sign((b.get("value") - lim) * sg) > 0:
                    raise Violation("%s: a constraint excluded by the bounds of a row is not propagated" % what)

    def clauses_of_rows(st):
        return [c for c in st.w.clauses if any(70 <= abs(l) < 90 for l in c)]

    def finish(mode, rows=None):
        def done(st, ret):
            if ret is not True:
                return
            if mode == "None":
                if st.w.clauses:
                    raise Violation("bounds are propagated although this is disabled")
                return
            for i in range(st.b):
                pos = st.nb + i
                x = st.s.get("variables_").items[pos].v.get("index")
                if mode == "Full" or st.pos0[pos] != x or not st.I.is_zero(st.val(x) - st.before[x]) or i in (rows or ()):
                    examined(st, pos, "row of a changed variable" if mode == "Changed" else "row")
        return done

    def setup(mode, rels, xs, truths=(0,), flagged=()):
        def pre(st):
            watch(st, rels, xs, truths)
            st.before = {x: st.val(x) for x in range(st.n)}
            for i in flagged:
                st.vars[i].set("propagate", True)
                st.s.get("propagate_queue_").items.append(Cell(i))
        return pre
    for mode, m in modes.items():
        for V in ("Rational", "RationalQ"):
            for rel in (LE, GE, EQ):
                for arel in (LE, GE):
                    if (V == "RationalQ" or mode == "None") and (arel == LE or rel != EQ) and not ctx.thorough or mode == "None" and V == "RationalQ":
                        continue
                    # a bound on a non-basic variable moves its row
                    ctx.explore("%s: moved by a bound (%s, %s, x %s)" % (mode.lower(), V, RELS[rel], RELS[arel]), prog,
                                step(prog, V, 1, 1, full(1, 1), None, (), None, finish(mode), lits=asserts((0, arel)),
                                     pre=setup(mode, [rel], [1], (0, 1) if rel == EQ else (0,)), options={"propagate_mode": m},
                                     bounds={0: "lu" if V == "Rational" or ctx.thorough else "u", 1: ""}), 20000)
        ctx.explore("%s: two constraints of one row" % mode.lower(), prog,
                    step(prog, "Rational", 1, 1, full(1, 1), None, (), None, finish(mode), lits=asserts((0, GE)),
                         pre=setup(mode, [LE, GE], [1], (0, -1)), options={"propagate_mode": m}, bounds={0: "u", 1: ""}), 20000)
        for rel in (LE, GE):
            ctx.explore("%s: two constraints excluded by one row (%s)" % (mode.lower(), RELS[rel]), prog,
                        step(prog, "Rational", 1, 1, full(1, 1), None, (), None, finish(mode), lits=asserts((0, GE)),
                             pre=setup(mode, [rel, EQ], [1]), options={"propagate_mode": m}, bounds={0: "u", 1: ""}), 20000)
        ctx.explore("%s: two rows" % mode.lower(), prog,
                    step(prog, "Rational", 1, 2, full(2, 1), None, (), None, finish(mode), lits=asserts((0, GE)),
                         pre=setup(mode, [LE], [1, 2]), options={"propagate_mode": m}, bounds={0: "u", 1: "", 2: ""}), 20000)
        ctx.explore("%s: exchanged positions" % mode.lower(), prog,
                    step(prog, "Rational", 1, 1, full(1, 1), [1, 0], (), None, finish(mode), lits=asserts((1, GE)),
                         pre=setup(mode, [GE], [0]), options={"propagate_mode": m}, bounds={1: "lu", 0: ""}), 20000)
        ctx.explore("%s: row with two variables" % mode.lower(), prog,
                    step(prog, "Rational", 2, 1, full(1, 2), None, (), None, finish(mode), lits=asserts((0, GE)),
                         pre=setup(mode, [GE], [2]), options={"propagate_mode": m}, bounds={0: "u", 1: "lu", 2: ""}), 20000)
        for b in ("L!", "U!"):
            ctx.explore("%s: moved by a pivot (%s)" % (mode.lower(), b), prog,
                        step(prog, "Rational", 1, 1, full(1, 1), None, [1], None, finish(mode), at=2,
                             pre=setup(mode, [GE if b == "L!" else LE], [0]), options={"propagate_mode": m}, bounds={0: "lu", 1: b}), 20000)
        ctx.explore("%s: other row moved by a pivot" % mode.lower(), prog,
                    step(prog, "Rational", 1, 2, full(2, 1), None, [1], None, finish(mode), at=2,
                         pre=setup(mode, [GE], [2]), options={"propagate_mode": m}, bounds={0: "u", 1: "L!", 2: ""}), 20000)
    ctx.explore("changed: rows to be examined", prog,
                step(prog, "Rational", 1, 3, full(3, 1), None, (), None, finish("Changed", (0, 2)),
                     pre=setup("Changed", [GE], [1, 2, 3], flagged=(2, 0)), options={"propagate_mode": modes["Changed"]},
                     bounds={0: "lu", 1: "", 2: "", 3: ""}), 20000)

    def twice(mode, undo, nb=1):
        """Rows that have been examined are examined again if they move again."""
        def rule(I):
            st = CoreState(I, "Rational", nb, 1, full(1, nb), level=2, history=False, bounds={0: "u" if nb == 1 else ""})
            st.opt.set("propagate_mode", modes[mode])
            st.pos0 = {p: x for p, x in enumerate(st.perm)}
            first, second = asserts((0, GE), lit0=50)(st), asserts((nb - 1, GE), lit0=60)(st)
            watch(st, [LE], [nb])
            loops = pivot_loops(prog)

            def lh(I, n, it):
                if id(n) in loops and it >= 1:
                    raise CutPath()
            I.loop_hook = lh
            for k, ls in enumerate((first, second)):
                st.before = {x: st.val(x) for x in range(st.n)}
                r = st.call("solve", st.ctl, Cell(Vec([Cell(x) for x in ls], "int")))
                if r is not True:
                    return
                finish(mode)(st, r)
                if undo and k == 0:
                    st.call("undo")
                    st.undone.update(first)
                    for b in st.free:
                        st.w.truths[b.get("lit")] = 0
        return rule
    for mode in ("Changed", "Full"):
        ctx.explore("%s: moved again" % mode.lower(), prog, twice(mode, False), 20000)
        ctx.explore("%s: moved again after backtracking" % mode.lower(), prog, twice(mode, True), 20000)
        ctx.explore("%s: moved again with more bounds" % mode.lower(), prog, twice(mode, False, 2), 20000)

    # pairs of constraints over one variable
    def lexsign(I, v):
        v0, v1 = v.split(EPS) if EPS in v.symbols() else (v, Poly.const(0))
        return I.sign(v0) or I.sign(v1)

    def unit(clauses, a, b):
        """Unit propagation derives that b is false if a is true."""
        true = {a}
        while True:
            new = {l for c in clauses for l in c if l not in true and all(-m in true for m in c if m != l)}
            if -b in true or any(-l in true for l in new):
                return True
            if not new:
                return False
            true |= new

    def pairwise(V, ra, rb, on, lits=(10, 11), rows=False):
        def f(I):
            if rows:
                ts = [{0: Poly.const(2), 1: Poly.const(-1)}] * 2
            else:
                ts = [{0: coeff(I, "c%d" % k)} for k in range(2)]
            iqs = [(t, Poly.sym("r%d" % k), r, l) for k, (r, t, l) in enumerate(zip((ra, rb), ts, lits))]
            w = World(level=0)
            w.may_fail = False
            tr = {10: 0, 11: I.fork((0, 1), "truth")}
            master = I.fork((True, False), "master")
            st = Setup(I, V, 2, iqs, None, master, {"propagate_conflicts": on}, tr, world=w)
            st.matrix()
            if not on or not master:
                if w.clauses:
                    raise Violation("a clause for a pair of constraints is added although %s" % (
                        "this is disabled" if not on else "another solver adds it"))
                return
            bs = [st.bounds(l)[k if lits[0] == lits[1] else 0] for k, l in enumerate(lits)]
            if bs[0].get("variable") != bs[1].get("variable"):
                return
            a, b = bs
            bad = False
            for x, y in ((a, b), (b, a)):
                if x.get("rel") in (prep.GE, prep.EQ) and y.get("rel") in (prep.LE, prep.EQ):
                    bad = bad or lexsign(I, x.get("value") - y.get("value")) > 0
            if bad and lits[0] != -lits[1] and not unit(w.clauses, *lits):
                raise Violation("two constraints that exclude each other (%s and %s) are not propagated" % (RN[ra], RN[rb]))
            if not bad and w.clauses:
                raise Violation("a clause is added for two constraints that can hold together")
        return f
    for V, rels in (("Rational", (LE, GE, EQ)), ("RationalQ", (LE, GE, EQ, LT, GT))):
        for a in rels:
            for b in rels:
                ctx.explore("pairs enabled (%s, %s, %s)" % (V, RN[a], RN[b]), prog2, pairwise(V, a, b, True), 20000)
        ctx.explore("pairs disabled (%s)" % V, prog2, pairwise(V, LE, GE, False), 20000)

    def triple(rels, k):
        """Three constraints over one variable; the k-th pair excludes each other."""
        def f(I):
            iqs = [({0: Poly.const(1)}, Poly.sym("r%d" % n), r, 10 + n) for n, r in enumerate(rels)]
            w = World(level=0)
            w.may_fail = False
            st = Setup(I, "Rational", 1, iqs, None, True, {"propagate_conflicts": True}, {10: 0, 11: 0, 12: 0}, world=w)
            a, b = ((10, 11), (10, 12), (11, 12))[k]
            x, y = st.bounds(a)[0], st.bounds(b)[0]
            bad = any(p.get("rel") != LE and q.get("rel") != GE and I.sign(p.get("value") - q.get("value")) > 0 for p, q in ((x, y), (y, x)))
            if bad and not unit(w.clauses, a, b):
                raise Violation("two constraints that exclude each other (%s and %s) are not propagated if there are other constraints over the variable" % (
                    RN[x.get("rel")], RN[y.get("rel")]))
        return f

    for rels in ((GE, LE, LE), (LE, GE, EQ), (EQ, EQ, GE)):
        for k in range(3):
            ctx.explore("pairs of three constraints (%s, pair %d)" % (" ".join(RN[r] for r in rels), k + 1), prog2, triple(rels, k), 20000)
    ctx.explore("pairs, one literal", prog2, pairwise("Rational", LE, GE, True, (10, 10)), 20000)
    ctx.explore("pairs, complementary literals", prog2, pairwise("Rational", LE, GE, True, (10, -10)), 20000)

    def threads(n, on):
        from interp import Sym
        from props.c21 import Atoms, fits
        from clingo_model import Control
        from props.prep import inequality, term

        def f(I):
            p = I.new_struct("Propagator<Rational>")
            p.get("options_").set("propagate_conflicts", on)
            w = World(level=0, threads=n)
            w.may_fail = False
            w.theory_atoms = Atoms()
            w.truths = {10: 0, 11: 0}
            a, b = Poly.sym("a"), Poly.sym("b")
            new = [inequality(I, [term(I, Poly.const(1), Sym("function", "x"))], v, r, l) for v, r, l in ((a, GE, 10), (b, LE, 11))]

            def theory(I, this, args, m):
                fits(I, args, "Inequality").items.extend(new)
            I.overrides["evaluate_theory"] = theory
            I.call_method(Cell(p), "init", Cell(Control(w)))
            bad = I.sign(a - b) > 0
            if on and bad and not unit(w.clauses, 10, 11):
                raise Violation("two constraints that exclude each other are not propagated with %d thread(s)" % n)
            if w.clauses and not (on and bad):
                raise Violation("a clause is added for two constraints although %s" % ("they can hold together" if on else "this is disabled"))
        return f
    for n in (1, 2):
        for on in (True, False):
            ctx.explore("pairs %s with %d thread(s)" % ("enabled" if on else "disabled", n), prog2, threads(n, on), 20000)

    def never(n):
        """Rows that have not been examined since the solver was set up."""
        from clingo_model import Control

        def f(I):
            b, c = value(I, "Rational", "b"), value(I, "Rational", "c")
            for v in (b, c):
                if I.sign(v) > 0:
                    return
            iqs = [({0: coeff(I, "c%d" % k, ">"), 1: coeff(I, "d%d" % k, ">")}, Poly.sym("a%d" % k), LE, 70 + k) for k in range(n)]
            iqs += [({0: Poly.const(1)}, b, GE, 12), ({1: Poly.const(1)}, c, GE, 13)]
            st = Setup(I, "Rational", 2, iqs, None, True, {"propagate_mode": modes["Changed"]}, {l: 0 for *_, l in iqs})
            M = st.matrix()
            w = World(level=1)
            w.may_fail = False
            w.truths = {l: 0 for *_, l in iqs}
            w.levels = {12: 1, 13: 1}

            def on_clause(I, cl):
                for l in cl:
                    if abs(l) >= 70:
                        w.truths[abs(l)] = -1
            w.on_clause = on_clause
            I.call_method(Cell(st.s), "solve", Cell(Control(w)), Cell(Vec([Cell(12), Cell(13)], "int")))
            for k in range(n):
                t, a = iqs[k][:2]
                if w.truths[70 + k] == 0 and I.sign(t[0] * b + t[1] * c - a) > 0:
                    raise Violation("a constraint excluded by the bounds of a row that has never been examined is not propagated")
        return f
    for n in (1, 2):
        ctx.explore("changed: %d rows never examined" % n, prog2, never(n), 20000)
