"""C21: multi-shot solving keeps variables, constraints and facts of earlier steps in force in each thread."""
from absstate import *  # noqa: F401,F403
from clingo_model import Control, World
from interp import Cell, Native, Opt, Sym, Undecided, Vec, Violation
from poly import Poly, to_poly
from props.prep import EQ, GE, LE, inequality, term

NAMES = ["x", "y", "z"]


class Atoms(Native):
    pass


def fits(I, args, et):
    for a in args:
        v = I.rv(a)
        if isinstance(v, Vec) and v.et == et:
            return v
    raise Undecided("no argument of type vector of %s" % et)


class Run:
    """A propagator in a sequence of steps; constraints are bounds on single variables with arbitrary values."""

    may_fail = False

    def __init__(self, I, V, options=None):
        self.I, self.V = I, V
        self.p = I.new_struct("Propagator<%s>" % V)
        for k, v in (options or {}).items():
            self.p.get("options_").set(k, v)
        self.facts, self.iqs, self.objective = [], [], []
        self.truths, self.maybe_false = {}, (13,)
        self.order = []

    def init(self, iqs, threads, objective=()):
        """iqs: (variable, relation, literal)."""
        I = self.I
        w = self.w = World(level=0, threads=threads)
        w.may_fail = self.may_fail
        if self.may_fail:
            w.strict_protocol = self.protocol
        for _, _, lit in iqs:
            self.truths[lit] = I.fork((0, -1), "truth value of a constraint") if lit in self.maybe_false else 0
        w.truths = {l: 1 if l in self.facts else v for l, v in self.truths.items()}
        w.theory_atoms = Atoms()
        w.check_mode = None
        new = []
        for x, rel, lit in iqs:
            r = Poly.sym("r%d" % lit)
            new.append(inequality(I, [term(I, Poly.const(1), Sym("function", x))], r, rel, lit))
            self.iqs.append((x, rel, lit, r))
        obj = [term(I, Poly.const(1), Sym("function", x)) for x in objective]
        self.objective += list(objective)

        def theory(I, this, args, n):
            fits(I, args, "Inequality").items.extend(new)
            fits(I, args, "Term").items.extend(obj)
        I.overrides["evaluate_theory"] = theory
        I.call_method(Cell(self.p), "init", Cell(Control(w)))
        self.after_init(threads)

    def slvs(self):
        return [c.v.items[1].v for c in self.p.get("slvs_").items]

    def after_init(self, threads):
        I, p = self.I, self.p
        vec = [I.rv(c) for c in p.get("var_vec_").items]
        mp = [(I.rv(n.v.items[0]), I.rv(n.v.items[1])) for n in p.get("var_map_").nodes]
        if vec[:len(self.order)] != self.order:
            raise Violation("variables of an earlier step change their indices")
        if len(set(map(str, vec))) != len(vec) or sorted(i for _, i in mp) != list(range(len(vec))) or any(vec[i] != s for s, i in mp):
            raise Violation("symbols and indices of variables do not correspond to each other")
        self.order = vec
        names = {x for x, *_ in self.iqs} | set(self.objective)
        if set(v.name for v in vec) != names:
            raise Violation("the variables of the program are %s but the ones of the propagator are %s" % (sorted(names), sorted(v.name for v in vec)))
        for x, rel, lit, r in self.iqs:
            if self.w.truths.get(lit) == -1:
                continue
            ws = [q for l, q in self.w.watches if l == lit]
            if not ws or (any(ws) and [] not in ws and {q[0] for q in ws} != set(range(threads))):
                raise Violation("the literal of a constraint is not watched in each thread")
        if len(self.slvs()) != threads:
            raise Violation("there are %d solvers for %d threads" % (len(self.slvs()), threads))
        for t, s in enumerate(self.slvs()):
            if len(s.get("trail_offset_").items) or len(s.get("bound_trail_").items) or len(s.get("assignment_trail_").items):
                raise Violation("a solver does not start from scratch in a new step")
            bs = [(n.v.items[0].v, n.v.items[1].v) for n in s.get("bounds_").nodes]
            for x, rel, lit, r in self.iqs:
                if self.w.truths.get(lit) == -1:
                    continue
                k = [b for l, b in bs if I.rv(l) == lit]
                if len(k) != 1:
                    raise Violation("a constraint has %d bounds in the solver of thread %d" % (len(k), t))
                if self.order[k[0].get("variable")].name != x:
                    raise Violation("a constraint is associated with the wrong variable")
        if self.p.get("objective_state_").get("generation_") != 0:
            raise Violation("the best objective value of an earlier step is still enforced")
        if self.facts and self.w.check_mode is None:
            raise Violation("facts of earlier steps exist but checks on fixpoints have not been requested")
        if self.w.check_mode is not None and self.facts and self.w.check_mode != self.both:
            raise Violation("facts of earlier steps exist but checks on fixpoints have not been requested")

    def control(self, level, thread, total=False):
        w = self.cw = World(level=level, thread=thread, threads=len(self.p.get("slvs_").items), total=total)
        w.may_fail = False
        w.levels = {lit: level if lit not in self.facts else 0 for *_, lit, _ in self.iqs}
        w.truths = {lit: 1 for *_, lit, _ in self.iqs}
        return Cell(Control(w))

    def propagate(self, level, lits, threads):
        for t in threads:
            self.I.call_method(Cell(self.p), "propagate", self.control(level, t), Cell(Vec([Cell(l) for l in lits], "int")))
        if level == 0 and 0 in threads:
            self.facts += [l for l in lits if l not in self.facts]

    def undo(self, level, lits, threads):
        for t in threads:
            self.I.call_method(Cell(self.p), "undo", self.control(level, t), Cell(Vec([Cell(l) for l in lits], "int")))

    def check(self, level=0, total=False):
        for t in range(len(self.slvs())):
            self.I.call_method(Cell(self.p), "check", self.control(level, t, total))

    def in_force(self, lits, what):
        """Exactly the bounds of the given literals are in force in each thread."""
        for t, s in enumerate(self.slvs()):
            got = set()
            for c in s.get("variables_").items:
                for f in ("lower_bound", "upper_bound"):
                    b = c.v.get(f)
                    if b is not None:
                        got.add(self.I.rv(b.cell().v.get("lit")))
            for l in lits:
                if l not in got:
                    raise Violation("%s: a constraint that is a fact is not enforced in thread %d" % (what, t))
            for l in got - set(lits):
                raise Violation("%s: a constraint that is no fact is enforced in thread %d" % (what, t))


def run(ctx):
    ctx.rule("Sequences of up to three steps are interpreted for constraints with arbitrary bounds: after each initialisation the "
             "variables keep their indices, each constraint is watched and present in the solver of each thread; and once the "
             "top-level check of a step has been performed, exactly the constraints that are facts are in force in each thread.")
    ctx.assume("constraints over single variables represent all constraints (the translation is the subject of C01)")
    prog = ctx.prog("solving", "tableau", "problem")
    Run.both = ctx.enum(prog, "Clingo::PropagatorCheckMode", "Both") if "Clingo::PropagatorCheckMode" in prog.enums else 3
    S1 = [("x", GE, 10), ("y", LE, 11)]
    S2 = [("z", GE, 12), ("x", LE, 13)]

    def steps(V, n1, n2, glob=False):
        def f(I):
            r = Run(I, V, {"global_objective": Opt(Cell(Poly.const(0)))} if glob else None)
            obj = I.fork(((), ("x",), ("w",)), "objective")
            r.init(S1, n1, obj)
            fs = I.fork(((), (10,), (11, 10)), "facts of the first step")
            lv = I.fork((0, 1), "level on which the literals are assigned")
            if fs:
                r.propagate(lv, fs, range(n1))
                r.in_force(fs, "after propagation")
                if lv:
                    r.undo(lv, fs, range(n1))
            second = I.fork((True, False), "further propagation in the first step") if fs == (10,) and lv == 0 else False
            if second:
                r.propagate(0, (11,), range(n1))
            if glob:
                r.p.get("objective_state_").set("generation_", 3)
                r.p.get("objective_state_").set("bounded_", I.fork((True, False), "bounded"))
            r.init(S2[:I.fork((1, 2, 0) if n2 == 1 else (1, 0), "new constraints")], n2)
            if I.fork((False, True), "checks before returning to the top level") and not glob:
                # without changes clingo does not undo the level
                r.check(1)
                r.propagate(1, (11,), range(n2))
                r.undo(1, (11,), range(n2))
            r.check()
            r.in_force(r.facts, "in the second step")
            third = I.fork((True, False), "third step")
            if third:
                if len(r.iqs) > 2:
                    r.propagate(0, (12,), range(n2))
                    r.in_force(r.facts, "in the second step")
                r.init([], n1)
                r.check()
                r.in_force(r.facts, "in the third step")
        return f
    for V in ("Rational", "RationalQ"):
        for n1, n2 in ((1, 1), (1, 2), (2, 2), (2, 1)):
            ctx.explore("steps (%s, %d and %d threads)" % (V, n1, n2), prog, steps(V, n1, n2), 20000)
        ctx.explore("steps with global optimization (%s)" % V, prog, steps(V, 1, 2, True), 20000)
