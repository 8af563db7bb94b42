"""Models of the clingo objects the propagator talks to.

They record the calls made by the analysed code and return abstract answers:
results of the control object are partitioned (success/failure), the level and
truth value of a literal are properties of the abstract state.
"""
from interp import Cell, Native, Ptr, StrPtr, Struct, Sym, Tup, Undecided, Vec
from poly import Poly, to_poly


class Assignment(Native):
    def __init__(self, world):
        self.w = world

    def m_decision_level(self, I):
        return self.w.level

    def m_level(self, I, lit):
        return self.w.lit_level(I, I.rv(lit))

    def m_is_false(self, I, lit):
        return self.w.truth(I, I.rv(lit)) == -1

    def m_is_true(self, I, lit):
        return self.w.truth(I, I.rv(lit)) == 1

    def m_is_fixed(self, I, lit):
        lit = I.rv(lit)
        return self.w.truth(I, lit) != 0 and self.w.lit_level(I, lit) == 0

    def m_truth_value(self, I, lit):
        return {0: 0, 1: 1, -1: 2}[self.w.truth(I, I.rv(lit))]

    def m_is_total(self, I):
        return self.w.total

    def m_has_conflict(self, I):
        return self.w.failed

    def m_to_c(self, I):
        return self

    def m_size(self, I):
        raise Undecided("assignment size")


class World:
    """State shared by the control objects of one analysed callback."""

    def __init__(self, level=1, thread=0, threads=1, total=False):
        self.level, self.thread, self.threads, self.total = level, thread, threads, total
        self.levels = {}
        self.truths = {}
        self.clauses = []
        self.calls = []
        self.failed = False
        self.may_fail = True
        self.next_lit = 1000
        self.watches = []
        self.strict_protocol = False
        self.on_clause = None

    def lit_level(self, I, lit):
        v = abs(lit) if isinstance(lit, int) else lit
        if v not in self.levels:
            if self.level == 0 and self.truths.get(v):
                return 0
            raise Undecided("level of literal %s" % (lit,))
        return self.levels[v]

    def truth(self, I, lit):
        if not isinstance(lit, int):
            raise Undecided("truth of an abstract literal")
        v = abs(lit)
        if v not in self.truths:
            self.truths[v] = I.fork((0, 1, -1), "truth value of literal %d" % v)
        t = self.truths[v]
        return t if lit > 0 else -t

    def result(self, I, what):
        if self.may_fail and I.fork((1, 0), "%s succeeds" % what) == 0:
            self.failed = True
            return False
        return True


class Control(Native):
    """PropagateControl / PropagateInit."""

    def __init__(self, world):
        self.w = world

    def guard(self, I, name, node=None):
        if self.w.failed and self.w.strict_protocol:
            self.w.strict_protocol(I, name)
        self.w.calls.append(name)

    def m_assignment(self, I):
        return Assignment(self.w)

    def m_thread_id(self, I):
        return self.w.thread

    def m_number_of_threads(self, I):
        return self.w.threads

    def m_add_clause(self, I, lits, *rest):
        self.guard(I, "add_clause")
        v = I.rv(lits)
        if not isinstance(v, Vec):
            raise Undecided("clause of %s" % type(v).__name__)
        cl = [I.rv(c) for c in v.items]
        self.w.clauses.append(cl)
        if self.w.on_clause:
            self.w.on_clause(I, cl)
        return self.w.result(I, "add_clause")

    def m_add_nogood(self, I, lits, *rest):
        self.guard(I, "add_clause")
        cl = [-I.rv(c) for c in I.rv(lits).items]
        self.w.clauses.append(cl)
        if self.w.on_clause:
            self.w.on_clause(I, cl)
        return self.w.result(I, "add_clause")

    def m_propagate(self, I):
        self.guard(I, "propagate")
        return self.w.result(I, "propagate")

    def m_add_literal(self, I, *a):
        self.guard(I, "add_literal")
        self.w.next_lit += 1
        self.w.truths[self.w.next_lit] = 0
        return self.w.next_lit

    def m_add_watch(self, I, lit, *rest):
        self.w.calls.append("add_watch")
        self.w.watches.append((I.rv(lit), [I.rv(r) for r in rest]))
        return None

    def m_set_check_mode(self, I, mode):
        self.w.calls.append("set_check_mode")
        self.w.check_mode = I.rv(mode)
        return None

    def m_solver_literal(self, I, lit):
        return self.w.solver_literal(I, I.rv(lit))

    def m_theory_atoms(self, I):
        return self.w.theory_atoms

    def m_to_c(self, I):
        return self
