"""Summaries of the FLINT functions used by the number classes.

Integers are represented by an object holding an abstract number (never by the
machine word FLINT uses), rationals by numerator and denominator.  Results of
arithmetic on rationals are canonical if the arguments are; FLINT requires
canonical arguments for arithmetic and comparison.
"""
from fractions import Fraction

from interp import Cell, Native, Ptr, StrPtr, Struct, SymStr, Undecided, Violation
from poly import Poly, to_poly


class Fmpz(Native):
    raw = True

    def __init__(self, v=None):
        self.v = v

    def __repr__(self):
        return "fmpz(%s)" % (self.v,)


def raw(t):
    if t == "Integer":
        return Cell(Fmpz(), "long")
    s = Struct("fmpq")
    s.f["num"] = Cell(Fmpz(), "long")
    s.f["den"] = Cell(Fmpz(), "long")
    return Cell(s, "fmpq")


def z(I, p, init=True):
    c = p.cell() if isinstance(p, Ptr) else p
    v = I.rv(c)
    if isinstance(v, Struct) and "num_" in v.f:
        v = v.f["num_"].v
    if not isinstance(v, Fmpz):
        raise Undecided("not an integer of FLINT: %s" % type(v).__name__)
    if init and v.v is None:
        raise Violation("an integer is used before initialisation or after being cleared")
    return v


def q(I, p, init=True):
    c = p.cell() if isinstance(p, Ptr) else p
    v = I.rv(c)
    if isinstance(v, Struct) and "num_" in v.f:
        v = v.f["num_"].v
    if not isinstance(v, Struct) or v.cls != "fmpq":
        raise Undecided("not a rational of FLINT")
    if init and (v.f["num"].v.v is None or v.f["den"].v.v is None):
        raise Violation("a rational is used before initialisation or after being cleared")
    return v


def zval(I, p):
    return z(I, p).v


def qval(I, p):
    v = q(I, p)
    n, d = v.f["num"].v.v, v.f["den"].v.v
    if d.is_const():
        if d.const_value() == 0:
            raise Violation("a rational has denominator zero")
        return n * to_poly(Fraction(1) / d.const_value())
    if len(d.t) != 1:
        raise Undecided("denominator %s" % d)
    return n / d


def canonical(I, v):
    n, d = v.f["num"].v.v, v.f["den"].v.v
    if n.is_const() and d.is_const():
        a, b = n.const_value(), d.const_value()
        return b > 0 and a.denominator == 1 and b.denominator == 1 and Fraction(a) / b == Fraction(int(a), int(b)) and \
            Fraction(int(a), int(b)).denominator == b
    if d.is_const() and d.const_value() == 1:
        return True
    return (n, d) in I.canon


def qarg(I, p):
    v = q(I, p)
    if not canonical(I, v):
        raise Violation("a rational that is not canonical is passed to FLINT")
    return qval(I, v)


def setq(I, p, val):
    v = q(I, p)
    val = to_poly(val)
    if val.is_const():
        f = val.const_value()
        n, d = Poly.const(f.numerator), Poly.const(f.denominator)
    elif val in I.integers:
        n, d = val, Poly.const(1)
    else:
        d = I.denoms.get(val)
        if d is None:
            d = I.denoms[val] = I.fresh("den", ">")
        n = val * d
        I.canon.add((n, d))
    v.f["num"].v.v, v.f["den"].v.v = n, d


def symbolic(I, s, name):
    """Give the raw number object s an arbitrary value."""
    p = Poly.sym(name)
    if s.cls == "Integer":
        s.f["num_"].v.v = p
        I.integers.add(p)
    else:
        v = s.f["num_"].v
        v.f["num"].v.v = v.f["den"].v.v = Poly.const(0)
        setq(I, v, p)
    return p


def sgn(I, v):
    """FLINT only guarantees the sign of comparison results."""
    return I.sign(v) * 2


def nonzero(I, v, what):
    if I.is_zero(v):
        raise Violation("%s by zero" % what)


def gcd(I, a, b):
    if a.is_const() and b.is_const():
        import math
        return Poly.const(math.gcd(int(a.const_value()), int(b.const_value())))
    if I.is_zero(a) and I.is_zero(b):
        return Poly.const(0)
    k = ("gcd", a, b)
    if k not in I.ratio:
        g = I.ratio[k] = I.ratio["gcd", b, a] = I.fresh("gcd", ">")
        I.integers.add(g)
    return I.ratio[k]


def num(x):
    if isinstance(x, bool):
        return Poly.const(int(x))
    return to_poly(x)


def text(x):
    return x.s if isinstance(x, StrPtr) else x


def call(I, nm, A, node):
    kind, op = nm.split("_", 1)
    return (fmpz if kind == "fmpz" else fmpq)(I, op, A, node)


def fmpz(I, op, A, node):
    if op in ("init", "init_set", "init_set_si", "init_set_ui"):
        x = z(I, A[0], False)
        if x.v is not None:
            raise Violation("an integer is initialised twice")
        x.v = Poly.const(0)
        if op == "init_set":
            x.v = zval(I, A[1])
        elif op != "init":
            x.v = num(A[1])
        return None
    if op == "clear":
        z(I, A[0]).v = None
        return None
    if op == "swap":
        a, b = z(I, A[0]), z(I, A[1])
        a.v, b.v = b.v, a.v
        return None
    if op in ("set_si", "set_ui"):
        x = num(A[1])
        if op == "set_ui" and I.sign(x) < 0:
            x = x + 2**64
        z(I, A[0]).v = x
        return None
    if op == "set":
        z(I, A[0]).v = zval(I, A[1])
        return None
    if op in ("zero", "one"):
        z(I, A[0]).v = Poly.const(int(op == "one"))
        return None
    if op == "set_str":
        k = I.fork(("number", "other"), "string is a number")
        I.strings.append((text(A[1]), A[2], k))
        if k == "other":
            return -1
        x = z(I, A[0])
        x.v = Poly.sym("parsed")
        I.integers.add(x.v)
        return 0
    base = op[:-3] if op.endswith(("_si", "_ui")) else op
    if base in ("add", "sub", "mul", "addmul", "submul", "divexact"):
        out = z(I, A[0])
        a = zval(I, A[1])
        b = num(A[2]) if base != op else zval(I, A[2])
        if base == "add":
            out.v = a + b
        elif base == "sub":
            out.v = a - b
        elif base == "mul":
            out.v = a * b
        elif base == "addmul":
            out.v = out.v + a * b
        elif base == "submul":
            out.v = out.v - a * b
        else:
            nonzero(I, b, "exact division")
            out.v = a / b
        I.integers.add(out.v)
        return None
    if op == "neg":
        z(I, A[0]).v = -zval(I, A[1])
        return None
    if op == "abs":
        v = zval(I, A[1])
        z(I, A[0]).v = v if I.sign(v) >= 0 else -v
        return None
    if op == "gcd":
        z(I, A[0]).v = gcd(I, zval(I, A[1]), zval(I, A[2]))
        return None
    if op in ("cmp", "cmp_si", "cmp_ui"):
        return sgn(I, zval(I, A[0]) - (zval(I, A[1]) if op == "cmp" else num(A[1])))
    if op in ("equal", "equal_si", "equal_ui"):
        return int(I.is_zero(zval(I, A[0]) - (zval(I, A[1]) if op == "equal" else num(A[1]))))
    if op in ("is_zero", "is_one"):
        return int(I.is_zero(zval(I, A[0]) - int(op == "is_one")))
    if op == "sgn":
        return sgn(I, zval(I, A[0]))
    if op == "fits_si":
        v = zval(I, A[0])
        return int(I.sign(v + 2**63) >= 0 and I.sign(v - 2**63) < 0)
    if op == "get_si":
        v = zval(I, A[0])
        if I.sign(v + 2**63) < 0 or I.sign(v - 2**63) >= 0:
            raise Violation("an integer that does not fit is converted to a machine integer")
        return v
    if op == "get_str":
        if A[0] is not None:
            raise Undecided("printing into a buffer")
        if A[1] != 10:
            raise Violation("numbers are printed in base %s" % A[1])
        if I.fork((0, 1), "out of memory"):
            return None
        return StrPtr(SymStr([("num", zval(I, A[2]))]))
    raise Undecided("no summary for fmpz_" + op)


def fmpq(I, op, A, node):
    if op == "init":
        v = q(I, A[0], False)
        if v.f["num"].v.v is not None:
            raise Violation("a rational is initialised twice")
        v.f["num"].v.v, v.f["den"].v.v = Poly.const(0), Poly.const(1)
        return None
    if op == "clear":
        v = q(I, A[0])
        v.f["num"].v.v = v.f["den"].v.v = None
        return None
    if op == "swap":
        a, b = q(I, A[0]), q(I, A[1])
        for k in ("num", "den"):
            x, y = a.f[k].v, b.f[k].v
            x.v, y.v = y.v, x.v
        return None
    if op in ("set_si", "set_ui"):
        n, d = num(A[1]), num(A[2])
        v = q(I, A[0])
        if d.is_const() and d.const_value() == 1:
            if op == "set_ui" and I.sign(n) < 0:
                n = n + 2**64
            v.f["num"].v.v, v.f["den"].v.v = n, d
        else:
            nonzero(I, d, "division")
            if op == "set_ui":
                raise Undecided("fmpq_" + op)
            setq(I, A[0], n / d)
        return None
    if op == "set_fmpz":
        v = q(I, A[0])
        v.f["num"].v.v, v.f["den"].v.v = zval(I, A[1]), Poly.const(1)
        return None
    if op == "set_fmpz_frac":
        n, d = zval(I, A[1]), zval(I, A[2])
        nonzero(I, d, "division")
        setq(I, A[0], n / d)
        return None
    if op == "set":
        v, w = q(I, A[0]), q(I, A[1])
        for k in ("num", "den"):
            v.f[k].v.v = w.f[k].v.v
        return None
    if op in ("zero", "one"):
        setq(I, A[0], int(op == "one"))
        return None
    if op == "set_str":
        k = I.fork(("rational", "zero", "other"), "string is a rational")
        I.strings.append((text(A[1]), A[2], k))
        if k == "other":
            return -1
        v = q(I, A[0])
        n, d = Poly.sym("parsed"), Poly.sym("parsed.den")
        v.f["num"].v.v = n
        if k == "zero":
            v.f["den"].v.v = Poly.const(0)
        else:
            I.facts.assume(d, "!=")
            v.f["den"].v.v = d
        return 0
    if op == "canonicalise":
        v = q(I, A[0])
        nonzero(I, v.f["den"].v.v, "canonicalising a rational: division")
        setq(I, v, qval(I, v))
        return None
    if op in ("neg", "abs", "inv"):
        a = qarg(I, A[1])
        if op == "inv":
            nonzero(I, a, "inversion: division")
            a = Poly.const(1) / a
        setq(I, A[0], -a if op == "neg" else a if op == "inv" or I.sign(a) >= 0 else -a)
        return None
    sfx = "_fmpz" if op.endswith("_fmpz") else op[-3:] if op.endswith(("_si", "_ui")) else ""
    base = op[:len(op) - len(sfx)]

    def arg(p):
        return zval(I, p) if sfx == "_fmpz" else num(p) if sfx else qarg(I, p)
    if base in ("add", "sub", "mul", "div", "addmul", "submul"):
        q(I, A[0])
        a, b = qarg(I, A[1]), arg(A[2])
        if base == "add":
            r = a + b
        elif base == "sub":
            r = a - b
        elif base == "mul":
            r = a * b
        elif base == "addmul":
            r = qarg(I, A[0]) + a * b
        elif base == "submul":
            r = qarg(I, A[0]) - a * b
        else:
            nonzero(I, b, "division")
            r = a / b
        setq(I, A[0], r)
        return None
    if base == "cmp":
        return sgn(I, qarg(I, A[0]) - arg(A[1]))
    if base == "equal":
        return int(I.is_zero(qarg(I, A[0]) - arg(A[1])))
    if op in ("is_zero", "is_one"):
        return int(I.is_zero(qarg(I, A[0]) - int(op == "is_one")))
    if op == "sgn":
        return sgn(I, qarg(I, A[0]))
    if op == "get_str":
        if A[0] is not None:
            raise Undecided("printing into a buffer")
        if A[1] != 10:
            raise Violation("numbers are printed in base %s" % A[1])
        if I.fork((0, 1), "out of memory"):
            return None
        return StrPtr(SymStr([("num", qarg(I, A[2]))]))
    raise Undecided("no summary for fmpq_" + op)
