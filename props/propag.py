"""Propagator objects with abstract contents."""
from absstate import CoreState, EQ, GE, LE, value
from clingo_model import Control, World
from interp import Cell, MapObj, Native, Opt, Ptr, Struct, Sym, Tup, Undecided, Vec, Violation
from poly import EPS, Poly


class Model(Native):
    def __init__(self, thread, ctl=None):
        self.thread = thread

    def m_thread_id(self, I):
        return self.thread

    def m_context(self, I):
        return self

    def m_to_c(self, I):
        return self


class Prop:
    """A Propagator<V>; solvers are given as (offset, solver struct)."""

    def __init__(self, I, V, solvers=(), options=None):
        self.I, self.V = I, V
        self.cls = "Propagator<%s>" % V
        p = self.p = I.new_struct(self.cls)
        self.opt = p.get("options_")
        for k, v in (options or {}).items():
            self.opt.set(k, v)
        p.get("slvs_").items = [Cell(Tup([Cell(o), Cell(s)])) for o, s in solvers]
        for o, s in solvers:
            s.f["options_"] = p.f["options_"]
        self.state = p.get("objective_state_")

    def call(self, name, *args):
        return self.I.call_method(Cell(self.p), name, *args)

    def solver(self, i):
        return self.p.get("slvs_").items[i].v.items[1].v


def lits(xs):
    return Cell(Vec([Cell(x) for x in xs], "int"))


def fill_state(I, st, V, name="best"):
    """Arbitrary contents of an objective state; returns (generation, value, bounded)."""
    g = I.fork((0, 1), "a value has been found")
    if g == 0:
        gen, val, bd = 0, value(I, V, name), True
    else:
        gen, val, bd = I.fork((1, 5), "generation"), value(I, V, name), I.fork((True, False), "bounded")
    st.set("generation_", gen)
    st.set("value_", val)
    st.set("bounded_", bd)
    return gen, val, bd
