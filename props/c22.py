"""C22: once the ASP solver reports a conflict, callbacks stop at once and report it."""
from effects import Effects, parts, unwrap, walk
from props.core import *
from props.prep import EQ as PEQ, GE as PGE, LE as PLE, LT, GT, Setup, World, coeff
from props.propag import Opt, Prop, fill_state
from props.c08 import objective

USED = ("add_clause", "propagate", "add_nogood", "add_weight_constraint")


def protocol(w):
    def f(I, name):
        raise Violation("%s is called although the ASP solver has reported a conflict before" % name)
    w.strict_protocol = f


def run(ctx):
    ctx.rule("Each call that adds a clause or propagates may fail. In all abstract states analysed, the failure has to be the "
             "last interaction with the ASP solver in that callback and solve, integrate_objective, discard_bounded and "
             "prepare have to return false. Structurally, the result of each such call is used, or nothing but returning "
             "from the function follows it.")
    prog = ctx.prog("solving", "tableau")
    prog2 = ctx.prog("solving", "tableau", "problem")

    def on(st):
        protocol(st.w)

    def done(st, ret):
        if st.w.failed and ret is not False:
            raise Violation("%s although the ASP solver has reported a conflict" % (
                "success is reported" if ret is True else "the result %s is reported" % (ret,)))
        if ret is False and not st.w.calls:
            raise Violation("a failure is reported although the ASP solver has not been involved")

    # asserting bounds, conflicts of rows, propagation of rows
    for rel in (LE, GE, EQ):
        ctx.explore("clash of bounds (%s)" % RELS[rel], prog,
                    step(prog, "Rational", 1, 1, full(1, 1), None, (), None, done, at=0, pre=on,
                         lits=asserts((0, rel), (1, GE), (0, GE if rel == LE else LE)), bounds={0: "l", 1: ""}), 20000)
    ctx.explore("conflict of a row", prog,
                step(prog, "Rational", 1, 1, full(1, 1), None, [1], None, done, pre=on, bounds={1: "lu", 0: "lu"}), 20000)
    for mode in ("Full", "Changed"):
        m = ctx.enum(prog, "PropagateMode", mode)

        def pre(st, mode=mode):
            on(st)
            k = 70
            for x, rels in ((1, (GE, LE)), (2, (EQ,))):
                for rel in rels:
                    c = st.bound(x, rel, val=Poly.sym("q%d" % k), lit=k)
                    st.w.truths[k] = 0
                    st.vars[x].get("bounds").items.append(Cell(Ptr(c)))
                    k += 1
            if mode == "Changed":
                st.vars[0].set("propagate", True)
                st.s.get("propagate_queue_").items.append(Cell(0))
        ctx.explore("propagation of rows (%s)" % mode, prog,
                    step(prog, "Rational", 1, 2, full(2, 1), None, (), None, done, pre=pre, options={"propagate_mode": m},
                         bounds={0: "lu", 1: "", 2: ""}, signs={0: 1, 1: 1, (0, 0): 1, (1, 0): -1}), 40000)

    # the objective and the callbacks
    def objectives(V, what):
        def f(I):
            from absstate import CoreState
            st = CoreState(I, V, 1, 2, full(2, 1), None, level=2, history=False, queued=(), bounds={0: "u", 1: "", 2: ""}, feasible=True,
                           signs={0: 1, 1: 1, (0, 0): 1, (1, 0): 1})
            on(st)
            o = st.s.get("objective_")
            for k, v in (("active", True), ("var", 2), ("bound_var", 1), ("bounded", I.fork((True, False), "bounded before")), ("generation", 0),
                         ("discard_bounded", I.fork((True, False), "known to be unbounded"))):
                o.set(k, v)
            e = Poly.sym("step")
            I.facts.assume(e, ">")
            st.w.total = I.fork((True, False), "total") if what == "check" else True
            if what == "check":
                pr = Prop(I, V, [(0, st.s)], {"global_objective": Opt(Cell(e)), "store_sat_assignment": I.fork((0, 1), "store")})
                fill_state(I, pr.state, V)
                level = I.fork((2, 0), "level")
                st.w.level = level
                if level == 0:
                    # a fact of an earlier step
                    pr.p.get("facts_").items = [Cell(60), Cell(61)]
                    pr.p.set("facts_offset_", 2)
                    for x, rel, lit in ((0, GE, 60), (0, LE, 61)):
                        st.bound(x, rel, val=Poly.sym("f%d" % lit), lit=lit, level=0)
                        st.w.truths[lit] = 1
                pr.call("check", st.ctl)
                return
            st.opt.set("global_objective", Opt(Cell(e)))
            if what == "discard":
                done(st, st.call("discard_bounded", st.ctl))
            else:
                state = I.new_struct("ObjectiveState<%s>" % V)
                fill_state(I, state, V)
                ret = st.call("integrate_objective", st.ctl, Cell(state))
                if st.w.failed and ret is not False:
                    raise Violation("success is reported although the ASP solver has reported a conflict")
        return f
    for what in ("integrate", "discard", "check"):
        ctx.explore("objective: %s" % what, prog, objectives("Rational", what), 40000)

    # setting up the solver
    def setup(kind):
        def f(I):
            w = World(level=0)
            protocol(w)
            if kind == "constant":
                iqs = [({}, Poly.sym("r%d" % k), r, 10 + k) for k, r in enumerate((I.fork((PLE, PGE, PEQ, LT, GT), "relation"), PGE))]
                for k in range(2):
                    iqs[k] = (iqs[k][0], iqs[k][1], iqs[k][2], iqs[k][3])
                st = Setup(I, "RationalQ", 1, iqs, None, True, {}, {10: 0, 11: 0}, may_fail=True, world=w)
            else:
                iqs = [({0: Poly.const(1)}, Poly.sym("r%d" % k), r, 10 + k) for k, r in enumerate((PLE, PGE, PEQ))]
                st = Setup(I, "Rational", 1, iqs, None, True, {"propagate_conflicts": True}, {10: 0, 11: 0, 12: 0}, may_fail=True, world=w)
            if w.failed and st.ret is not False:
                raise Violation("setting up a solver succeeds although the ASP solver has reported a conflict")
            if not w.failed and st.ret is not True:
                raise Violation("setting up a solver fails although the ASP solver has not reported a conflict")
        return f
    for kind in ("constant", "pairwise"):
        ctx.explore("setup (%s)" % kind, prog2, setup(kind), 20000)

    def initial(I):
        from props.c21 import Run
        n = 2
        r = Run(I, "Rational", {"propagate_conflicts": True})
        r.after_init = lambda n: None
        r.may_fail = True
        w = World()
        protocol(w)
        r.protocol = w.strict_protocol
        r.init([("x", PLE, 10), ("x", PGE, 11)], n)
        if not r.w.failed and len(r.slvs()) != n:
            raise Violation("there are %d solvers for %d threads" % (len(r.slvs()), n))
    ctx.explore("initialisation of several threads", prog2, initial, 20000)

    # structural rule
    whole = ctx.prog("solving", "tableau", "parsing", "problem", "clingo-lpx", "app", "main")

    def ignored():
        sites, finds = [], []
        for f in whole.functions.values():
            for p in parts(f):
                for s in walk(p):
                    if s.get("k") != "block":
                        continue
                    ss = s.get("s", [])
                    for i, x in enumerate(ss):
                        if x.get("k") != "expr":
                            continue
                        e = unwrap(x["e"])
                        if e.get("k") != "mcall" or e.get("n", "").split("::")[-1] not in USED:
                            continue
                        if not e.get("n", "").startswith(("Clingo::PropagateControl", "Clingo::PropagateInit")):
                            continue
                        sites.append("%s:%s" % (f["n"], e.get("l")))
                        if e["n"].startswith("Clingo::PropagateInit") or not leaves(ss[i + 1:]):
                            finds.append(("the result of %s is ignored and the function continues" % e["n"], "%s:%s" % (f["file"], e.get("l")), f["n"]))
            for p in parts(f):
                for e in walk(p):
                    if e.get("k") == "mcall" and e.get("n", "").split("::")[-1] in USED and e["n"].startswith(("Clingo::PropagateControl", "Clingo::PropagateInit")):
                        sites.append("%s:%s" % (f["n"], e.get("l")))
        return sorted(set(sites)), finds
    ctx.structural("results of add_clause and propagate", ignored)


def leaves(rest):
    """Only returning (without further calls) follows."""
    for s in rest:
        if s.get("k") == "return":
            return not any(x.get("k") in ("mcall", "call") for x in walk(s))
        if s.get("k") in ("null",):
            continue
        if any(x.get("k") in ("mcall", "call", "ocall") for x in walk(s)):
            return False
    return True
