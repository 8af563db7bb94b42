"""C19: statistics count the pivots and propagated bounds of all threads."""
from props.facade import *


class Stats(Native):
    """A node of a statistics tree."""

    def __init__(self, ty=2, val=None, path=()):
        self.ty, self.val, self.sub, self.path = ty, val, {}, path

    def m_add_subkey(self, I, name, ty):
        k = name_of(I, name)
        t = I.rv(ty)
        if self.ty != 3:
            raise Violation("a key is added to statistics that are no map")
        if k not in self.sub:
            self.sub[k] = Stats(t, Poly.const(0) if t == 1 else None, self.path + (k,))
        elif self.sub[k].ty != t:
            raise Violation("the statistics entry %s is added with two types" % "/".join(self.path + (k,)))
        return self.sub[k]

    def m_value(self, I):
        if self.ty != 1:
            raise Violation("the value of statistics that hold no value is accessed")
        return self.val

    def m_set_value(self, I, v):
        if self.ty != 1:
            raise Violation("the value of statistics that hold no value is set")
        self.val = to_poly(I.rv(v))

    def flat(self):
        out = {}
        if self.ty == 1:
            out[self.path] = self.val
        for s in self.sub.values():
            out.update(s.flat())
        return out

    def m_to_c(self, I):
        return self


def name_of(I, p):
    v = I.rv(p)
    if isinstance(v, StrPtr) and isinstance(v.s, str):
        return v.s[v.i:]
    if not isinstance(v, str):
        raise Undecided("name of a statistics entry")
    return v


KEYS = {"pivots": ("Simplex", "Pivots"), "propagated_bounds": ("Simplex", "Bounds propagated")}


def run(ctx):
    ctx.rule("clingolpx_on_statistics is interpreted for several threads with arbitrary counters and earlier accumulated values: "
             "step statistics have to be the sums over the threads, accumulated ones the earlier values plus these sums. For "
             "one generic iteration the counters have to agree with the pivots performed and the clauses added.")
    prog = ctx.prog("clingo-lpx", "solving", "problem")

    def totals(V):
        def f(I):
            n = I.fork((0, 1, 2, 3), "number of threads")
            again = I.fork((False, True), "statistics exist already")
            th = Theory(I, prog, V, [False], threads=n)
            want = {k: Poly.const(0) for k in KEYS}
            for t in range(n):
                s = th.p.get("slvs_").items[t].v.items[1].v.get("statistics_")
                for k in KEYS:
                    x = Poly.sym("%s%d" % (k, t))
                    I.facts.assume(x, ">=")
                    s.set(k, x)
                    want[k] = want[k] + x
            step, accu = Stats(3), Stats(3)
            old = {k: Poly.const(0) for k in KEYS}
            if again:
                for root, nm in ((step, "s"), (accu, "a")):
                    sub = Stats(3, None, ("Simplex",))
                    root.sub["Simplex"] = sub
                    for k, p in KEYS.items():
                        x = Poly.sym(nm + "_" + k)
                        sub.sub[p[1]] = Stats(1, x, p)
                        if nm == "a":
                            old[k] = x
            roots = {"step": step, "accu": accu}

            def root(I, this, args, n):
                o = I.rv(args[0])
                I.rv(args[1]).cell().v = ids[id(o.cell().v)]
                return True
            ids = {id(step): 4711, id(accu): 4712}
            I.overrides["Clingo::Detail::handle_error"] = lambda I, this, args, n: None
            I.overrides["clingo_statistics_root"] = root

            def wrap(I, this, args, n):
                v = I.rv(args[0])
                v = v.cell().v if isinstance(v, Ptr) else v
                if len(args) > 1 and id(v) in ids and I.rv(args[1]) != ids[id(v)]:
                    raise Violation("statistics are accessed with the key of another statistics object")
                return v
            for t in ("Clingo::StatisticsBase<false>", "Clingo::UserStatistics"):
                I.overrides[t] = wrap
            r = th.call("clingolpx_on_statistics", Ptr(Cell(step)), Ptr(Cell(accu)))
            if r is not True:
                raise Violation("reporting statistics fails")
            for nm, tree, base in (("step", step, None), ("accumulated", accu, old)):
                got = tree.flat()
                for k, p in KEYS.items():
                    w = want[k] if base is None else want[k] + base[k]
                    if p not in got:
                        raise Violation("the %s statistics have no entry %s" % (nm, "/".join(p)))
                    if not I.is_zero(got[p] - w):
                        raise Violation("the %s statistics report %s for %s instead of %s" % (nm, got[p], "/".join(p), w))
        return f
    for V in ("Rational", "RationalQ"):
        ctx.explore("totals (%s)" % V, prog, totals(V))

    # the counters themselves
    from props.c08 import objective
    from props.core import GE, LE, EQ, RELS, full, step

    def counted(st, ret=None):
        I = st.I
        now = [c.v.get("index") for c in st.s.get("variables_").items]
        k = 1 if any(now[p] != st.pos0[p] for p in range(st.n)) else 0
        s = st.s.get("statistics_")
        got = s.get("pivots")
        if not I.is_zero(to_poly(got) - st.pivots0 - k):
            raise Violation("the number of pivots changes by %s although %d pivots have been performed" % (to_poly(got) - st.pivots0, k))
        if not st.w.failed and ret is not False:
            got = s.get("propagated_bounds")
            if not I.is_zero(to_poly(got) - st.prop0 - len(st.w.clauses)):
                raise Violation("the number of propagated bounds changes by %s although %d bounds have been propagated" % (to_poly(got) - st.prop0, len(st.w.clauses)))

    def start(more=None):
        def pre(st):
            s = st.s.get("statistics_")
            st.pivots0, st.prop0 = Poly.sym("pivots"), Poly.sym("propagated")
            for x in (st.pivots0, st.prop0):
                st.I.facts.assume(x, ">=")
            s.set("pivots", st.pivots0)
            s.set("propagated_bounds", st.prop0)
            if more:
                more(st)
        return pre
    core = ctx.prog("solving", "tableau")
    for V in ("Rational", "RationalQ"):
        ctx.explore("pivots of an iteration (%s)" % V, core,
                    step(core, V, 1, 1, full(1, 1), None, [1], counted, counted, pre=start(), bounds={0: "lu", 1: "lu"}), 20000)
        ctx.explore("pivots of the optimization (%s)" % V, core,
                    step(core, V, 1, 2, full(2, 1), [0, 1, 2], (), counted, counted, entry="optimize", feasible=True,
                         pre=start(objective(1)), bounds={0: "u", 1: "", 2: "lu"}), 20000)
    m = ctx.enum(core, "PropagateMode", "Full")
    for rel in (LE, GE, EQ):
        def bnds(st, rel=rel):
            x = st.perm[-1]
            c = st.bound(x, rel, val=Poly.sym("q"), lit=70)
            st.w.truths[70] = 0
            st.w.may_fail = False
            st.vars[x].get("bounds").items.append(Cell(Ptr(c)))
        ctx.explore("propagated bounds (%s)" % RELS[rel], core,
                    step(core, "Rational", 1, 1, full(1, 1), None, (), None, counted, pre=start(bnds),
                         options={"propagate_mode": m}, bounds={0: "lu", 1: ""}), 20000)
