"""C03: backtracking restores the state before the decision level."""
from props.core import *


def undo_check(st):
    st.I.loop_hook = None
    st.force()
    expect_v = {x: st.old_value[x] for x in range(st.n)}
    st.call("undo")
    I = st.I
    for x in range(st.n):
        if not I.is_zero(st.val(x) - expect_v[x]):
            raise Violation("undoing a level does not restore the value of a variable")
        for rel, name in ((GE, "lower"), (LE, "upper")):
            old = st.old_bound.get((x, rel))
            now = st.vars[x].get("lower_bound" if rel == GE else "upper_bound")
            o = None if old is None else old.cell()
            n = None if now is None else now.cell()
            if o is not n:
                raise Violation("undoing a level does not restore the %s bound of a variable" % name)
        if st.vars[x].get("queued"):
            raise Violation("undoing a level leaves a variable marked as queued")
        if st.vars[x].get("level") != st.old_level[x]:
            raise Violation("undoing a level does not restore the level at which a variable was assigned")
    if st.s.get("conflicts_").items:
        raise Violation("undoing a level leaves variables in the conflict queue")
    st.check_perm("undo")
    if not st.hist:
        st.check_rows("undo")      # earlier values are arbitrary otherwise
    depth = len(st.s.get("trail_offset_").items)
    if depth != 1:
        raise Violation("undoing a level does not remove exactly one level from the trail (%d left)" % depth)
    if st.s.get("bound_trail_").items or st.s.get("assignment_trail_").items:
        raise Violation("undoing a level does not cut the trails")


def run(ctx):
    ctx.rule("Ghost copies of values, bounds and levels are kept from the state before the current decision level; after "
             "undoing the level at an arbitrary point of the procedure (after asserting bounds, after a generic pivot "
             "or after a conflict) they have to be restored exactly and the rows have to be satisfied.")
    prog = ctx.prog("solving", "tableau")
    ret = lambda st, r: undo_check(st)
    for V in ("Rational", "RationalQ"):
        for rel in (LE, GE, EQ):
            for hist in (False, True):
                if V == "RationalQ" and hist:
                    continue
                ctx.explore("after one bound (%s, %s, %s)" % (V, RELS[rel], "level entered" if hist else "new level"), prog,
                            step(prog, V, 1, 1, full(1, 1), None, (), undo_check, ret, at=0, lits=asserts((0, rel)),
                                 history=hist, hist_bounds=hist, bounds={0: "lu" if not hist else ("u" if rel == LE else "l"), 1: ""}, new_level=not hist), 20000)
        ctx.explore("after two bounds (%s)" % V, prog,
                    step(prog, V, 1, 1, full(1, 1), None, (), undo_check, ret, at=0, lits=asserts((0, EQ), (0, GE)),
                         bounds={0: "l", 1: ""}, new_level=True), 20000)
    ctx.explore("after bounds on basic variables", prog,
                step(prog, "Rational", 1, 1, full(1, 1), None, (), undo_check, ret, at=0, lits=asserts((1, EQ)),
                     bounds={0: "", 1: "lu"}, new_level=True), 20000)
    for cells, nm in ((full(2, 1), "full"), ({(0, 0)}, "sparse")):
        for hist in (False, True):
            ctx.explore("after a pivot (%s, %s)" % (nm, "level entered" if hist else "new level"), prog,
                        step(prog, "Rational", 1, 2, cells, None, [1], undo_check, ret, history=hist,
                             bounds={1: "L!", 0: "", 2: "" if hist else "u"}, new_level=not hist), 20000)
    ctx.explore("after a pivot (2x2)", prog,
                step(prog, "Rational", 2, 2, full(2, 2), None, [2], undo_check, ret,
                     bounds={2: "L!", 0: "", 1: "", 3: ""}, new_level=True), 20000)
    ctx.explore("after a conflict with other variables queued", prog,
                step(prog, "Rational", 1, 2, full(2, 1), None, [1, 2], undo_check, ret,
                     bounds={1: "L!", 0: "u", 2: "U!"}, new_level=True), 20000)
    for perm in ([1, 2, 0], [2, 0, 1]):
        a, b = perm[1], perm[2]
        ctx.explore("after a conflict with other variables queued (%s)" % perm, prog,
                    step(prog, "Rational", 1, 2, full(2, 1), perm, [a, b], undo_check, ret,
                         bounds={a: "L!", perm[0]: "u", b: "U!"}, new_level=True), 20000)
        ctx.explore("after a bound on a basic variable (%s)" % perm, prog,
                    step(prog, "Rational", 1, 2, full(2, 1), perm, (), undo_check, ret, at=0, lits=asserts((a, EQ), (b, GE)),
                         bounds={a: "l", perm[0]: "u"}, new_level=True), 20000)
    ctx.explore("after a bound and a pivot", prog,
                step(prog, "Rational", 1, 1, full(1, 1), None, (), undo_check, ret, at=1, lits=asserts((1, GE)),
                     bounds={0: "u", 1: "u"}, new_level=True), 20000)

    # nested levels
    def nested(pers, spec1, spec2, store=None, levels=(2, 3), spec3=None, nb=1, cells=None, opt=None, bare=False):
        loops = pivot_loops(prog)

        def rule(I):
            st = CoreState(I, "Rational", nb, 1, cells or full(1, nb), level=2, history=False, bounds={})
            st.opt.set("store_sat_assignment", pers)
            st.w.may_fail = False
            if bare:     # (nothing has been propagated on level zero)
                st.s.get("trail_offset_").items[:] = []
                for x in range(st.n):
                    st.vars[x].set("level", 0)
            snaps = []
            stored, stored_at = None, 0

            def snap():
                return ([st.val(x) for x in range(st.n)], [st.lo(x) for x in range(st.n)], [st.up(x) for x in range(st.n)])
            asserted = [asserts(*s, lit0=50 + 10 * k)(st) for k, s in enumerate([spec1, spec2, spec3]) if s is not None]
            for b in st.bounds:
                st.w.levels[b.v.get("lit")] = levels[(b.v.get("lit") - 50) // 10]
            for k, ls in enumerate(asserted):
                st.w.level = levels[k]
                if k == 0 or levels[k] != levels[k - 1]:
                    snaps.append(snap())

                def lh(I, n, it):
                    if id(n) in loops and it >= steps[0]:
                        raise CutPath()
                I.loop_hook = lh
                steps = [1]
                r = st.call("solve", st.ctl, Cell(Vec([Cell(x) for x in ls], "int")))
                if r is False:
                    break
                if opt == k + 1:      # (the objective is optimized for a total assignment)
                    ob = st.s.get("objective_")
                    ob.set("active", True)
                    ob.set("var", st.n - 1)
                    steps[0] = 2
                    st.call("optimize")
                if store and k == store - 1:     # (a total assignment, possibly with further bounds to come in the level)
                    st.call("store_sat_assignment")
                    stored, stored_at = [st.val(x) for x in range(st.n)], len(snaps)
            I.loop_hook = None
            while snaps:
                v, lo, up = snaps.pop()
                st.call("undo")
                for x in range(st.n):
                    if (st.lo(x) is not lo[x]) or (st.up(x) is not up[x]):
                        raise Violation("undoing nested levels does not restore the bounds")
                    want = stored[x] if stored and len(snaps) < stored_at else v[x]
                    if pers == 0 or stored:    # (stored assignments survive)
                        if not I.is_zero(st.val(x) - want):
                            raise Violation("undoing nested levels does not restore the values")
                st.check_rows("nested undo")
        return rule
    none = ctx.enum(prog, "StoreSATAssignments", "No")
    part = ctx.enum(prog, "StoreSATAssignments", "Partial")
    for a, b in (((0, GE), (0, GE)), ((0, GE), (0, LE)), ((0, EQ), (0, GE)), ((0, GE), (1, LE)), ((1, GE), (0, EQ))):
        nm = "x%d%s, x%d%s" % (a[0], RELS[a[1]], b[0], RELS[b[1]])
        ctx.explore("nested levels (%s)" % nm, prog, nested(none, [a], [b]), 20000)
        ctx.explore("one level twice (%s)" % nm, prog, nested(none, [a], [b], None, (2, 2)), 20000)
        ctx.explore("one level twice, stored assignment (%s)" % nm, prog, nested(none, [a], [b], 2, (2, 2)), 20000)
        ctx.explore("one level twice, assignment stored in between (%s)" % nm, prog, nested(none, [a], [b], 1, (2, 2)), 20000)
        ctx.explore("nested levels, stored assignment (%s)" % nm, prog, nested(none, [a], [b], 2), 20000)
        ctx.explore("nested levels, partial assignments stored (%s)" % nm, prog, nested(part, [a], [b]), 20000)
    # a level that only moves a variable without rows, further levels on top
    for a, b, c in (((0, GE), (1, GE), (1, LE)), ((1, EQ), (0, GE), (0, LE)), ((0, GE), (0, GE), (0, GE))):
        nm = "x%d%s, x%d%s, x%d%s" % (a[0], RELS[a[1]], b[0], RELS[b[1]], c[0], RELS[c[1]])
        for store in (None, 1, 2, 3):
            ctx.explore("three levels (%s)%s" % (nm, ", assignment stored on level %d" % (store + 1) if store else ""), prog,
                        nested(none, [a], [b], store, (2, 3, 4), [c], 2, {(0, 1)}), 20000)
    # values changed by optimizing
    for a, b in (((0, LE), (1, GE)), ((0, GE), (0, LE)), ((0, LE), (0, EQ))):
        nm = "x%d%s, x%d%s" % (a[0], RELS[a[1]], b[0], RELS[b[1]])
        for bare in (False, True):
            at = ", first level" if bare else ""
            ctx.explore("optimized after one level (%s)%s" % (nm, at), prog, nested(none, [a], None, opt=1, bare=bare), 20000)
            ctx.explore("optimized after two levels (%s)%s" % (nm, at), prog, nested(none, [a], [b], opt=2, bare=bare), 20000)
            ctx.explore("optimized on the level, then bounded (%s)%s" % (nm, at), prog, nested(none, [a], [b], levels=(2, 2), opt=1, bare=bare), 20000)
            ctx.explore("optimized, then stored (%s)%s" % (nm, at), prog, nested(none, [a], [b], 2, opt=2, bare=bare), 20000)
