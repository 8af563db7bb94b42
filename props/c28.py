"""C28: assignments survive backtracking exactly if this is configured."""
from props.core import *  # noqa: F401,F403
from props.propag import Prop
from interp import Cell, CutPath, Infeasible, Vec, Violation


def run(ctx):
    ctx.rule("A callback of the propagator is analysed from an arbitrary abstract state and the decision level is undone "
             "afterwards: the values of the variables have to be the ones found by the callback if the configuration asks "
             "for storing them (partial: after each successful propagation; partial and total: after the check of a total "
             "assignment), and the ones from before the level otherwise.")
    prog = ctx.prog("solving", "tableau")
    modes = {k: ctx.enum(prog, "StoreSATAssignments", k) for k in ("No", "Partial", "Total")}
    loops = pivot_loops(prog)

    def rule(mode, V, nb, b, spec, bounds, total=None, perm=None, queued=(), at=1, objective=False, levels=1, cells=None):
        """Propagate literals (and check the assignment if total is given) on one or more levels, then backtrack."""
        def f(I):
            st = CoreState(I, V, nb, b, cells or full(b, nb), perm, level=2, history=False, queued=queued, bounds=bounds)
            p = Prop(I, V, [(0, st.s)], {"store_sat_assignment": modes[mode]})
            st.w.may_fail = False
            if objective:
                ob = st.s.get("objective_")
                ob.set("active", True)
                ob.set("var", st.n - 1)

            def lh(I, n, it):
                if id(n) in loops and it >= at:
                    raise CutPath()
            I.loop_hook = lh
            asserted = [asserts(*(s if isinstance(s, list) else [s]), lit0=50 + 10 * k)(st) for k, s in enumerate(spec)]
            for bd in st.bounds:
                lit = bd.v.get("lit")
                if lit >= 50:
                    st.w.levels[lit] = 2 + (lit - 50) // 10 if levels > 1 else 2
            snaps, want = [], None
            for k, ls in enumerate(asserted):
                st.w.level = 2 + k if levels > 1 else 2
                if not k or levels > 1:
                    snaps.append([st.val(x) for x in range(st.n)])
                st.w.total = bool(total) and k == len(asserted) - 1
                n = len(st.w.clauses)
                p.call("propagate", st.ctl, Cell(Vec([Cell(x) for x in ls], "int")))
                if len(st.w.clauses) > n:
                    break
                if mode == "Partial":
                    want = [st.val(x) for x in range(st.n)]
                if total is not None and k == len(asserted) - 1:
                    p.call("check", st.ctl)
                    if total and mode != "No":
                        want = [st.val(x) for x in range(st.n)]
            I.loop_hook = None
            while snaps:
                old = snaps.pop()
                p.call("undo", st.ctl, Cell(Vec([], "int")))
                st.w.level -= 1
                for x in range(st.n):
                    d = st.val(x) - (want[x] if want is not None else old[x])
                    if not I.is_zero(d):
                        raise Violation("the values found are %s when backtracking (--store=%s, %s)" % (
                            "given up" if want is not None else "kept", mode.lower(),
                            "after propagation" if total is None else "total assignment" if total else "partial assignment"))
        return f
    for mode in modes:
        m = mode.lower()
        for V in ("Rational", "RationalQ"):
            bs = {0: "u", 1: ""}
            ctx.explore("%s: propagation (%s)" % (m, V), prog, rule(mode, V, 1, 1, [(0, GE)], bs), 20000)
            for total in (True, False):
                nm = "total" if total else "partial"
                ctx.explore("%s: check, %s (%s)" % (m, nm, V), prog, rule(mode, V, 1, 1, [(0, GE)], bs, total), 20000)
                if V == "Rational":
                    ctx.explore("%s: check with objective, %s" % (m, nm), prog,
                                rule(mode, V, 1, 1, [(0, GE)], {0: "lu", 1: ""}, total, objective=True, at=2), 20000)
                    ctx.explore("%s: check after a pivot, %s" % (m, nm), prog,
                                rule(mode, V, 1, 1, [(1, GE)], {0: "u", 1: ""}, total, at=2), 20000)
        for a, b in (((0, GE), (0, GE)), ((0, GE), (0, LE)), ((0, EQ), (1, GE))):
            for levels in (1, 2):
                ctx.explore("%s: %s, x%d%s, x%d%s" % (m, "two levels" if levels > 1 else "one level", a[0], RELS[a[1]], b[0], RELS[b[1]]), prog,
                            rule(mode, "Rational", 1, 1, [a, b], {}, True, levels=levels), 20000)
                ctx.explore("%s: propagation on %s, x%d%s, x%d%s" % (m, "two levels" if levels > 1 else "one level", a[0], RELS[a[1]], b[0], RELS[b[1]]), prog,
                            rule(mode, "Rational", 1, 1, [a, b], {}, None, levels=levels), 20000)
        for levels in (1, 2):
            ctx.explore("%s: conflict after moving again, %d level(s)" % (m, levels), prog,
                        rule(mode, "Rational", 1, 1, [(0, GE), [(0, GE), (1, GE)]], {}, None, levels=levels), 20000)
        for a, b, c in (((0, GE), (1, GE), (1, LE)), ((0, GE), (0, GE), (0, GE))):
            for total in (True, None):
                ctx.explore("%s: %s, three levels, x%d%s, x%d%s, x%d%s" % (
                    m, "check" if total else "propagation", a[0], RELS[a[1]], b[0], RELS[b[1]], c[0], RELS[c[1]]), prog,
                    rule(mode, "Rational", 2, 1, [a, b, c], {}, total, levels=3, cells={(0, 1)}), 20000)
