"""Theory atoms with lazily chosen terms and the meaning of linear theory terms.

A term is an individual whose shape is only chosen (by partitioning) when the
analysed code or the specification looks at it; numbers are symbols.
"""
from interp import Cell, CxxThrow, Infeasible, Native, PyFn, StrPtr, Sym, Tup, Undecided, Vec
from poly import Poly, to_poly
import re
from fractions import Fraction

TYPES = {"tuple": 0, "list": 1, "set": 2, "func": 3, "number": 4, "symbol": 5}
STRINGS = ('"1.5"', '"-2.50"', '"07"', '"abc"', '"1/2"', '"a\\n\\\\\\"b"', '""', '"1."')
BIN = ("+", "-", "*", "/")


class Error(Exception):
    """The term is not well-formed."""


class Reject(Exception):
    pass


class Shapes:
    """What terms may look like: shapes per depth, names are counted per analysis."""

    def __init__(self, depth, leaves, ops, numbers=None):
        self.depth, self.leaves, self.ops, self.numbers = depth, leaves, ops, numbers

    def options(self, d):
        return list(self.leaves) + (list(self.ops) if d < self.depth else [])


class Term(Native):
    def __init__(self, shapes=None, d=0, kind=None, name=None, args=(), num=None, path="t"):
        self.shapes, self.d, self.path = shapes, d, path
        self.kind, self.name, self.args, self.num = kind, name, list(args), num

    def force(self, I):
        if self.kind is not None:
            return self
        o = I.fork(self.shapes.options(self.d), "shape of term " + self.path)
        # numbers that become part of symbols have to be concrete
        sub = self.shapes
        if o in ("f()", "g(,)", "tuple", "list", "set", "pair"):
            sub = Shapes(sub.depth, tuple(3 if x == "number" else x for x in sub.leaves), sub.ops)
        k = lambda i: Term(sub, self.d + 1, path="%s.%d" % (self.path, i))
        if o == "number":
            self.kind, self.num = "number", Poly.sym("n_" + self.path)
        elif isinstance(o, int):
            self.kind, self.num = "number", Poly.const(o)
        elif o in ("x", "y"):
            self.kind, self.name = "symbol", o
        elif o[0] == '"':
            self.kind, self.name = "symbol", o
        elif o.startswith("u"):
            self.kind, self.name, self.args = "func", o[1:], [k(0)]
        elif o in BIN or o == "..":
            self.kind, self.name, self.args = "func", o, [k(0), k(1)]
        elif o == "f()":
            self.kind, self.name, self.args = "func", "f", [k(0)]
        elif o == "g(,)":
            self.kind, self.name, self.args = "func", "g", [k(0), k(1)]
        elif o in ("tuple", "list", "set"):
            self.kind, self.args = o, [k(0)]
        elif o == "pair":
            self.kind, self.args = "tuple", [k(0), k(1)]
        elif o == "()":
            self.kind, self.args = "tuple", []
        else:
            raise Undecided("shape " + o)
        return self

    def m_type(self, I):
        return TYPES[self.force(I).kind]

    def m_number(self, I):
        self.force(I)
        if self.kind != "number":
            raise Undecided("number of a term that is no number")
        return self.num

    def m_name(self, I):
        self.force(I)
        if self.name is None:
            raise Undecided("name of a term without name")
        return StrPtr(self.name)

    def m_arguments(self, I):
        self.force(I)
        if self.kind in ("number", "symbol"):
            raise Undecided("arguments of a term without arguments")
        return Vec([Cell(a) for a in self.args])

    def show(self):
        if self.kind is None:
            return "?"
        if self.kind == "number":
            return str(self.num)
        if self.kind == "symbol":
            return self.name
        return "%s(%s)" % (self.name or self.kind, ", ".join(a.show() for a in self.args))

    __repr__ = show


def num(n):
    return Term(kind="number", num=n if isinstance(n, Poly) else Poly.const(n))


def var(x):
    return Term(kind="symbol", name=x)


def fun(name, *args):
    return Term(kind="func", name=name, args=args)


class Element(Native):
    def __init__(self, tup, cond=None):
        self.tup, self.cond = tup, cond

    def m_tuple(self, I):
        return Vec([Cell(t) for t in self.tup])

    def m_condition(self, I):
        return Vec([Cell(1)] if self.cond is not None else [])

    def m_condition_id(self, I):
        return self.cond if self.cond is not None else 0


class Atom(Native):
    def __init__(self, name, elements, guard=None, literal=1, args=()):
        self.term = Term(kind="func" if args else "symbol", name=name, args=args)
        self.els, self.grd, self.lit = elements, guard, literal

    def m_term(self, I):
        return self.term

    def m_elements(self, I):
        return Vec([Cell(e) for e in self.els])

    def m_has_guard(self, I):
        return self.grd is not None

    def m_guard(self, I):
        if self.grd is None:
            raise Undecided("guard of an atom without guard")
        return Tup([Cell(StrPtr(self.grd[0])), Cell(self.grd[1])])

    def m_literal(self, I):
        return self.lit


# ------------------------------------------------------------- specification

def unquote(s):
    return re.sub(r"\\(.)", lambda m: {"n": "\n"}.get(m.group(1), m.group(1)), s[1:-1])


def string_number(s):
    m = re.fullmatch(r'"(-?)([0-9]+)(?:\.([0-9]+))?"', s)
    if not m:
        return None
    v = Fraction(int(m.group(2) + (m.group(3) or "")), 10 ** len(m.group(3) or ""))
    return Poly.const(-v if m.group(1) else v)


def is_str(t):
    return t.kind == "symbol" and len(t.name) >= 2 and t.name[0] == '"' and t.name[-1] == '"'


def evaluate(I, t, num_str):
    """Value of a term: a Poly or a Sym."""
    t.force(I)
    if t.kind == "number":
        return t.num
    if t.kind == "symbol":
        if is_str(t):
            v = string_number(t.name) if num_str else None
            return v if v is not None else Sym("string", name=unquote(t.name))
        return Sym("function", t.name)
    if t.kind == "func" and len(t.args) == 2 and t.name in BIN:
        a, b = evaluate(I, t.args[0], num_str), evaluate(I, t.args[1], num_str)
        if not isinstance(a, Poly) or not isinstance(b, Poly):
            raise Error("arithmetic over symbols")
        if t.name == "/":
            if I.is_zero(b):
                raise Error("division by zero")
            return a / b
        return {"+": a + b, "-": a - b, "*": a * b}[t.name]
    if t.kind == "func" and t.name == "-" and len(t.args) == 1:
        a = evaluate(I, t.args[0], num_str)
        if isinstance(a, Poly):
            return -a
        if a.kind == "function" and a.name:
            return Sym("function", a.name, a.args, not a.pos)
        raise Error("negation of a tuple or string")
    if t.kind == "func" and t.name == ".." and len(t.args) == 2:
        raise Error("interval")
    if t.kind in ("func", "tuple"):
        args = []
        for a in t.args:
            v = evaluate(I, a, False)
            if isinstance(v, Poly):
                if not v.is_const():
                    raise Undecided("symbolic number in an argument")
                q = v.const_value()
                if Fraction(q).denominator != 1 or not -2**31 <= q < 2**31:
                    raise Error("no integer")
                v = Sym("number", num=int(q))
            args.append(v)
        return Sym("function", t.name if t.kind == "func" else "", args)
    raise Error("set or list")


def linear(I, t):
    """Linear expression: list of (coefficient, Sym or None)."""
    t.force(I)
    if t.kind == "number":
        return [(t.num, None)]
    if t.kind == "func" and len(t.args) == 2 and t.name in BIN:
        a = linear(I, t.args[0])
        if t.name == "/":
            b = evaluate(I, t.args[1], True)
            if not isinstance(b, Poly):
                raise Error("division by a symbol")
            if I.is_zero(b):
                raise Error("division by zero")
            return [(c / b, v) for c, v in a]
        b = linear(I, t.args[1])
        if t.name == "+":
            return a + b
        if t.name == "-":
            return a + [(-c, v) for c, v in b]
        out = []
        for c, v in a:
            for d, w in b:
                if v is not None and w is not None:
                    raise Error("product of variables")
                out.append((c * d, w if v is None else v))
        return out
    if t.kind == "func" and t.name in ("-", "+") and len(t.args) == 1:
        a = linear(I, t.args[0])
        return [(-c, v) for c, v in a] if t.name == "-" else a
    if is_str(t):
        v = string_number(t.name)
        if v is not None:
            return [(v, None)]
    if t.kind in ("symbol", "func", "tuple"):
        v = evaluate(I, t, False)
        if isinstance(v, Poly):
            raise Error("not a variable")
        return [(Poly.const(1), v)]
    raise Error("set or list")


def collect(terms):
    out = {}
    for c, v in terms:
        out[v] = out.get(v, Poly.const(0)) + c
    return out
