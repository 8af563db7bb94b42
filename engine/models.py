"""Summaries of the number classes, the standard library and clingo's value types."""
import math
import re
from fractions import Fraction

import interp
from interp import (NULLOPT, NUMS, SIGNED, SYMTYPE, UNSIGNED, VECS, MAPS, Cell, Clo, CxxThrow, FnRef, LockGuard, MapIt,
                    MapObj, Mutex, Native, NullOpt, Opt, PQ, Ptr, PyFn, Stream, StrPtr, Struct, Sym, SymStr, Tup,
                    Undecided, UniquePtr, Variant, Vec, strip_t, targs)
from poly import EPS, Poly, to_poly

NO = object()


# ----------------------------------------------------------------- numbers

def is_num_t(t):
    return strip_t(t) in NUMS


def is_int_t(t):
    t = strip_t(t)
    return t in SIGNED or t in UNSIGNED


def num(I, x):
    v = I.rv(x)
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, (int, Fraction)):
        return to_poly(v)
    if isinstance(v, Poly):
        return v
    raise Undecided("not a number: %s" % type(v).__name__)


def check_div(I, b, node):
    if b.is_const():
        if b.const_value() == 0:
            I.ub("division by zero", node)
        return
    p = b
    if EPS in b.symbols():
        raise Undecided("division by an infinitesimal")
    ss = I.facts.signs(p)
    if 0 in ss:
        if I.fork((0, 1), "divisor %s is zero" % p) == 0:
            I.facts.assume(p, "=")
            I.ub("division by a number that can be zero (%s)" % p, node)
        I.facts.assume(p, "!=")


def arith(I, op, a, b, node):
    if op == "+":
        return a + b
    if op == "-":
        return a - b
    if op == "*":
        return a * b
    check_div(I, b, node)
    return a / b


def number_op(I, n, fr):
    if not I.native_numbers:
        return NO
    pt = n.get("pt") or []
    if I.native_numbers is not True and any(is_num_t(t) and not I.native(strip_t(t)) for t in pt + [n.get("n", "").split("::")[0]]):
        return NO
    op = n["op"]
    nm = n.get("n", "")
    cls = nm.split("::")[0] if "::" in nm else None
    if op == "=" and cls in NUMS:
        b = I.eval(n["args"][1], fr)
        a = I.eval(n["args"][0], fr)
        if isinstance(b, Cell) and pt[0].endswith("&&"):
            # move assignment swaps (or at least takes the value over)
            if a is not b:
                av, bv = a.v, b.v
                a.v = num(I, bv)
                b.v = av if cls != "RationalQ" else av
        else:
            a.v = num(I, b)
        return a
    if nm.startswith("operator") and pt and all(is_num_t(t) or is_int_t(t) for t in pt) and any(is_num_t(t) for t in pt):
        args = I.args(n, fr)
        if op in ("+", "-", "*", "/") and len(args) == 2:
            r = arith(I, op, num(I, args[0]), num(I, args[1]), n)
            if pt[0].endswith("&&") and isinstance(args[0], Cell):
                args[0].v = Poly.const(0)
            return r
        if op == "-" and len(args) == 1:
            return -num(I, args[0])
        if op in ("+=", "-=", "*=", "/="):
            args[0].v = arith(I, op[0], num(I, args[0]), num(I, args[1]), n)
            return args[0]
        if op in ("<", ">", "<=", ">=", "==", "!="):
            d = num(I, args[0]) - num(I, args[1])
            if op in ("==", "!="):
                return I.is_zero(d) == (op == "==")
            s = I.sign(d)
            return {"<": s < 0, ">": s > 0, "<=": s <= 0, ">=": s >= 0}[op]
    if op == "<<" and len(pt) == 2 and is_num_t(pt[1]):
        st = I.eval(n["args"][0], fr)
        v = num(I, I.eval(n["args"][1], fr))
        I.rv(st).parts.append(("num", v))
        return st
    return NO


def number_call(I, n, fr):
    if not I.native_numbers:
        return NO
    pt = n.get("pt") or []
    if I.native_numbers is not True and any(is_num_t(t) and not I.native(strip_t(t)) for t in pt):
        return NO
    nm = n["n"]
    if nm in ("compare", "gcd", "gcd_div") and any(is_num_t(t) for t in pt):
        a, b = [num(I, x) for x in I.args(n, fr)]
        if nm == "compare":
            return I.sign(a - b)
        za, zb = None, None
        if a.is_const() and b.is_const():
            import math
            x, y = a.const_value(), b.const_value()
            if x.denominator == 1 and y.denominator == 1:
                g = Poly.const(math.gcd(int(x), int(y)))
                if nm == "gcd":
                    return g
                if not g.t:
                    I.ub("exact division by a zero gcd", n)
                return Tup([Cell(g), Cell(a / g), Cell(b / g)])
        if a.is_const() and abs(a.const_value()) == 1 or b.is_const() and abs(b.const_value()) == 1:
            g = Poly.const(1)
        else:
            if I.must(a, {0}) and I.must(b, {0}):
                g = Poly.const(0)
            elif 0 in I.facts.signs(a) and 0 in I.facts.signs(b):
                raise Undecided("gcd of numbers that might both be zero")
            else:
                key = ("gcd", a, b)
                g = I.ratio.get(key)
                if g is None:
                    g = I.fresh("gcd", ">")
                    I.ratio[key] = g
        if nm == "gcd":
            return g
        if not g.t:
            I.ub("exact division by a zero gcd", n)
        return Tup([Cell(g), Cell(a / g), Cell(b / g)])
    return NO


def number_method(I, n, o, fr):
    if not I.native_numbers:
        return NO
    v = I.rv(o)
    if not isinstance(v, Poly):
        return NO
    c = I.loc(o)
    cls, name = n["n"].split("::")[0], n["n"].split("::")[-1]
    if cls not in NUMS:
        return NO
    args = I.args(n, fr)
    if name == "neg":
        c.v = -v
        return c
    if name == "swap":
        c.v, args[0].v = args[0].v, c.v
        return None
    if name == "canonicalize":
        return None
    if name == "num" or name == "den":
        if v.is_const():
            f = v.const_value()
            return Cell(Poly.const(f.numerator if name == "num" else f.denominator))
        r = I.ratio.get(v)
        if r is None:
            raise Undecided("numerator/denominator of %s" % v)
        return Cell(r[0] if name == "num" else r[1])
    if name == "add_mul":
        c.v = v + num(I, args[0]) * num(I, args[1])
        if n["rt"].endswith("&") or n["rt"].endswith("&&"):
            return c
        return c.v
    if name == "divide":
        b = num(I, args[0])
        check_div(I, b, n)
        c.v = v / b
        return c
    if name == "as_int":
        if v.is_const():
            f = v.const_value()
            if f.denominator == 1 and -2**31 <= f < 2**31:
                return Opt(Cell(int(f)))
            return Opt()
        if I.fork((0, 1), "%s fits an int" % v):
            return Opt(Cell(v))
        return Opt()
    if name == "is_rational":
        if EPS not in v.symbols():
            return True
        return I.sign(v.split(EPS)[1]) == 0
    if name == "as_rational":
        if EPS in v.symbols() and I.sign(v.split(EPS)[1]) != 0:
            raise CxxThrow("std::runtime_error", "no rational", I.pos(n))
        return Cell(v.split(EPS)[0] if EPS in v.symbols() else v)
    raise Undecided("number method " + name)


def parse_rational(I, s, node, base=10):
    if not isinstance(base, int) or not 2 <= base <= 36:
        raise Undecided("base of a number")
    m = re.fullmatch(r"\s*(-?\w+)\s*(?:/\s*(-?\w+)\s*)?", s)
    try:
        if m and "_" not in s:
            a, b = int(m.group(1), base), int(m.group(2) or "1", base)
            if b != 0:
                return Poly.const(Fraction(a, b))
    except ValueError:
        pass
    raise CxxThrow("std::runtime_error", "could not parse number", I.pos(node))


def make_number(I, t, args, n, rvals):
    vs = [I.rv(a) for a in args]
    if not vs:
        return Poly.const(0)
    if isinstance(vs[0], (str, SymStr, StrPtr)):
        s = vs[0]
        if isinstance(s, StrPtr):
            if not isinstance(s.s, str):
                raise Undecided("number from an abstract string")
            s = s.s[s.i:]
        if isinstance(s, SymStr):
            r = I.overrides.get("parse-number")
            if r:
                return r(I, s)
            raise Undecided("number from an abstract string")
        return parse_rational(I, s, n, vs[1] if len(vs) > 1 else 10)
    ps = []
    for a, isr in zip(args, rvals):
        p = num(I, a)
        if isr and isinstance(a, Cell):
            a.v = Poly.const(0)
        ps.append(p)
    if t == "RationalQ":
        return ps[0] + (ps[1] * Poly.sym(EPS) if len(ps) > 1 else 0)
    if t == "Rational" and len(ps) > 1:
        check_div(I, ps[1], n)
        return ps[0] / ps[1]
    return ps[0]


# ------------------------------------------------------------ construction

def make(I, t, args, n, rvals):
    """Construct a value of type t from evaluated arguments."""
    t = strip_t(t)
    if I.native(t):
        return make_number(I, t, args, n, rvals)
    if not args:
        if t in ("std::bad_alloc", "std::exception"):
            return ("exc", t)
        return I.default(t)
    v0 = I.rv(args[0])
    if t == "bool":
        return I.truth(v0)
    if t in UNSIGNED or t in SIGNED or t in I.prog.enums:
        return I.wrap(int(v0) if isinstance(v0, bool) else v0, t)
    if t.endswith("*"):
        return v0
    if t.startswith(("std::pair<", "std::tuple<")):
        ts = targs(t)
        if v0 == "piecewise_construct":
            return Tup([Cell(make(I, ts[i], I.rv(args[i + 1]).items, n, [False] * 9)) for i in range(2)])
        if len(args) == 1 and isinstance(v0, Tup) and len(ts) > 1:
            v = I.move_out(args[0]) if rvals[0] and isinstance(args[0], Cell) else I.copy(v0)
            return Tup([c if ty.endswith("&") else Cell(I.coerce(I.rv(c), ty)) for c, ty in zip(v.items, ts)],
                       [i for i, ty in enumerate(ts) if ty.endswith("&")])
        if len(args) == len(ts):
            out, refs = [], []
            for i, ty in enumerate(ts):
                if ty.endswith("&"):
                    out.append(I.loc(args[i]))
                    refs.append(i)
                else:
                    out.append(Cell(make(I, ty, [args[i]], n, [rvals[i]]), ty))
            return Tup(out, refs)
    if t.startswith("std::optional<"):
        if isinstance(v0, NullOpt):
            return Opt()
        if isinstance(v0, Opt):
            return I.move_out(args[0]) if rvals[0] and isinstance(args[0], Cell) else I.copy(v0)
        if v0 == "in_place":
            return Opt(Cell(make(I, targs(t)[0], args[1:], n, rvals[1:])))
        return Opt(Cell(make(I, targs(t)[0], args, n, rvals)))
    if t.startswith("std::variant<"):
        if isinstance(v0, Variant):
            return I.move_out(args[0]) if rvals[0] and isinstance(args[0], Cell) else I.copy(v0)
        ty = I.type_of(v0)
        alts = [strip_t(a) for a in targs(t)]
        if ty not in alts:
            raise Undecided("variant alternative for " + ty)
        val = I.move_out(args[0]) if rvals[0] and isinstance(args[0], Cell) else I.copy(v0)
        return Variant(ty, Cell(val))
    if t.startswith(("std::basic_string<", "std::basic_string_view<", "std::string")):
        return make_string(I, args)
    if t.startswith(("std::unique_ptr<", "std::shared_ptr<")):
        if isinstance(v0, UniquePtr):
            return I.move_out(args[0]) if isinstance(args[0], Cell) else v0
        return UniquePtr(v0)
    if t.startswith("Clingo::Span<"):
        return make_span(I, args, n)
    if t.startswith(VECS):
        et = targs(t)[0]
        if len(args) == 1 or isinstance(I.rv(args[0]), Vec):
            if isinstance(v0, Vec):
                v = I.move_out(args[0]) if rvals[0] and isinstance(args[0], Cell) else I.copy(v0)
                v.et = et
                return v
            if isinstance(v0, int):
                return Vec([Cell(I.default(et), et) for _ in range(v0)], et)
        if isinstance(v0, Ptr):
            return Vec([Cell(I.copy(c.v)) for c in rng(I, args[0], args[1])], et)
        if isinstance(v0, int):
            return Vec([Cell(I.copy(I.rv(args[1]))) for _ in range(v0)], et)
    if t.startswith(MAPS):
        if isinstance(v0, MapObj):
            return I.move_out(args[0]) if rvals[0] and isinstance(args[0], Cell) else I.copy(v0)
    if t.startswith("std::function<"):
        return v0
    if t == "Clingo::ShowType":
        return v0
    if t == "Clingo::Symbol":
        if isinstance(v0, Sym):
            return v0
        if isinstance(v0, tuple) and v0 and v0[0] == "csym":
            return v0[1]
    if t in I.prog.records:
        if len(args) == 1 and isinstance(v0, Struct) and v0.cls == t:
            return I.move_out(args[0]) if rvals[0] and isinstance(args[0], Cell) else I.copy(v0)
        return I.construct(t, args, n)
    if t.startswith(("std::unique_lock<", "std::lock_guard<", "std::scoped_lock<", "std::shared_lock<")):
        mode = "shared" if t.startswith("std::shared_lock<") else "exclusive"
        m = v0
        how = [I.rv(a) for a in args[1:]]
        g = LockGuard(m, mode)
        if "defer_lock" in how:
            g.held = False
            return g
        if how and "adopt_lock" not in how:
            raise Undecided("conditional locking")
        g.held = False
        g.m_lock(I, "adopt_lock" in how)
        return g
    if t.startswith("std::basic_regex<"):
        s = v0.s[v0.i:] if isinstance(v0, StrPtr) else v0
        fl = I.rv(args[1]) if len(args) > 1 else "ECMAScript"
        if fl not in ("ECMAScript", "optimize", "icase"):
            raise Undecided("regular expression with flags %s" % (fl,))
        return Regex(s, fl == "icase")
    if t in ("std::runtime_error", "std::overflow_error", "std::logic_error", "std::invalid_argument",
             "std::out_of_range", "std::bad_alloc", "std::exception"):
        return ("exc", t)
    if t.startswith("__gnu_cxx::__normal_iterator") or t.startswith("std::reverse_iterator") or "iterator" in t.lower():
        return v0
    if isinstance(v0, Native):
        return v0
    raise Undecided("construction of " + t)


def make_string(I, args):
    v0 = I.rv(args[0])
    if isinstance(v0, (str, SymStr)):
        if len(args) == 1 or not isinstance(I.rv(args[1]), (StrPtr, int)):
            return v0
        if isinstance(v0, str) and all(isinstance(I.rv(a), int) for a in args[1:3]):
            k = I.rv(args[1])
            if k > len(v0):
                raise CxxThrow("std::out_of_range", None, "")
            return v0[k:] if len(args) < 3 or not 0 <= I.rv(args[2]) < 2**32 else v0[k:k + I.rv(args[2])]
    if isinstance(v0, StrPtr):
        if len(args) == 1 or not isinstance(I.rv(args[1]), (StrPtr, int)):
            if isinstance(v0.s, str):
                return v0.s[v0.i:]
            if v0.i == 0:
                return v0.s
        v1 = I.rv(args[1]) if len(args) > 1 else None
        if isinstance(v0.s, str):
            if isinstance(v1, StrPtr):
                return v0.s[v0.i:v1.i]
            if isinstance(v1, int):
                return v0.s[v0.i:v0.i + v1]
    if isinstance(v0, Ptr):
        return "".join(chr(c.v) for c in rng(I, args[0], args[1]))
    if isinstance(v0, SubMatch):
        return v0.text()
    if isinstance(v0, int) and len(args) > 1:
        return chr(I.rv(args[1])) * v0
    raise Undecided("string from %s" % type(v0).__name__)


def make_span(I, args, n):
    v0 = I.rv(args[0])
    if v0 == "to-iterator":
        return Vec([])
    if isinstance(v0, str):
        v0 = StrPtr(v0)
    if len(args) >= 2:
        v1 = I.rv(args[1])
        if isinstance(v0, StrPtr) and isinstance(v0.s, str):
            k = v1 if isinstance(v1, int) else v1.i - v0.i
            return Vec([Cell(ord(c)) for c in v0.s[v0.i:v0.i + k]], "char")
        if isinstance(v0, Ptr) and isinstance(v1, (int, Ptr)):
            if isinstance(v1, int):
                if v0.vec is None:
                    if v1 == 1:
                        return Vec([v0.c])
                    raise Undecided("span over a plain object")
                if v0.i + v1 > len(v0.vec.items) or v1 < 0:
                    I.ub("span of %d elements exceeds its container (%d left)" % (v1, len(v0.vec.items) - v0.i), n)
                return Vec(v0.vec.items[v0.i:v0.i + v1])
            return Vec(v0.vec.items[v0.i:v1.i])
        if v0 is None and v1 == 0:
            return Vec([])
    if isinstance(v0, Vec):
        return Vec(v0.items, v0.et)
    if isinstance(v0, Native):
        return v0
    raise Undecided("span from %s %s" % (type(v0).__name__, [type(I.rv(a)).__name__ for a in args]))


def construct(I, n, fr):
    t = strip_t(n["t"])
    nm = n.get("n", "")
    ck = n["ck"]
    if t in I.overrides:
        return I.overrides[t](I, None, [I.eval(a, fr) for a in n["args"]], n)
    if t.startswith("(lambda at"):
        return I.rv(I.eval(n["args"][0], fr))
    if ck in ("copy", "move") and len(n["args"]) >= 1:
        x = I.eval(n["args"][0], fr)
        if t == "fmpq":
            I.ub("the internal representation of a rational is copied", n)
        if isinstance(x, Cell):
            if t in I.prog.records and not n.get("defaulted") and not I.native(t):
                return I.construct(t, [x], n)
            return I.move_out(x) if ck == "move" else I.copy(I.rv(x))
        return x
    f = I.prog.functions.get(n["f"])
    args = []
    pt = [p["t"] for p in f["params"]] if f else None
    rvals = []
    for i, a in enumerate(n["args"]):
        x = I.eval(a, fr)
        if pt and i < len(pt) and not pt[i].endswith("&") and isinstance(x, Cell):
            x = I.copy(I.rv(x))
        args.append(x)
        rvals.append(is_rvalue(a))
    if t in I.prog.records and not I.native(t):
        if f is not None:
            s = I.new_struct(t, False)
            I.call_function(f, Cell(s), args)
            return s
        if not args:
            return I.new_struct(t, bool(n.get("zero", True)))
        if len(args) == 1 and isinstance(I.rv(args[0]), Struct) and I.rv(args[0]).cls == t:
            return I.copy(I.rv(args[0]))
        raise Undecided("constructor " + n["f"])
    return make(I, t, args, n, rvals)


def is_rvalue(a):
    """Whether an argument expression is an rvalue (std::move or a temporary)."""
    k = a.get("k")
    if k in ("mat",):
        return True
    if k == "call" and a.get("n") in ("std::move", "std::forward"):
        return a.get("rt", "").endswith("&&")
    return False


# ----------------------------------------------------------------- ranges

def rng(I, b, e):
    b, e = I.rv(b), I.rv(e)
    I.valid(b)
    I.valid(e)
    if isinstance(b, Ptr) and isinstance(e, Ptr) and b.vec is e.vec and b.vec is not None:
        if b.rev:
            return list(reversed(b.vec.items[e.i:b.i]))
        if b.i > e.i:
            I.ub("invalid iterator range")
        return b.vec.items[b.i:e.i]
    if isinstance(b, MapIt):
        ns = list(I.map_order(b.m))
        i = ns.index(b.node) if b.node is not None else len(ns)
        j = ns.index(e.node) if e.node is not None else len(ns)
        return ns[i:j]
    if isinstance(b, StrPtr) and isinstance(e, StrPtr) and isinstance(b.s, str):
        if b.own is not None:
            return [interp.CharCell(b.own, k) for k in range(b.i, e.i)]
        return [Cell(ord(c)) for c in b.s[b.i:e.i]]
    raise Undecided("iterator range")


def pred(I, f, *cells):
    return I.truth(I.call_clo(I.rv(f), list(cells)))


def lt(I, a, b):
    """operator< on container elements."""
    va, vb = I.rv(a), I.rv(b)
    if isinstance(va, Struct) or isinstance(vb, Struct):
        def ty(v):
            return [v.cls] if isinstance(v, Struct) else (["unsigned int", "int", "unsigned long", "long"])
        for f in I.prog.functions.values():
            if f["name"] == "operator<" and len(f["params"]) == 2:
                p = [strip_t(x["t"]) for x in f["params"]]
                if p[0] in ty(va) and p[1] in ty(vb):
                    return I.truth(I.call_function(f, None, [I.loc(a), I.loc(b)]))
        raise Undecided("no operator< for elements")
    return I.less(va, vb)


def bsearch(I, b, e, key, cmp, upper=False):
    b, e = I.rv(b), I.rv(e)
    lo, hi = b.i, e.i
    vec = b.vec
    while lo < hi:
        mid = (lo + hi) // 2
        x = vec.items[mid]
        if upper:
            r = pred(I, cmp, I.loc(key), x) if cmp is not None else lt(I, key, x)
            if not r:
                lo = mid + 1
            else:
                hi = mid
        else:
            r = pred(I, cmp, x, I.loc(key)) if cmp is not None else lt(I, x, key)
            if r:
                lo = mid + 1
            else:
                hi = mid
    return Ptr(None, vec, lo)


class BackInserter:
    def __init__(self, c):
        self.c = c

    def put(self, I, v):
        o = I.rv(self.c)
        o.items.append(Cell(v))
        I.grown(o, len(o.items) - 1, 1)


def out_put(I, it, v):
    """Write v through an output iterator and return the advanced iterator."""
    o = I.rv(it)
    if isinstance(o, BackInserter):
        o.put(I, v)
        return o
    if isinstance(o, Ptr) and o.vec is not None or isinstance(o, StrPtr) and o.own is not None:
        I.deref(o).v = v
        return I.add(o, 1)
    raise Undecided("output iterator")


class Regex(Native):
    def __init__(self, p, icase=False):
        self.p = p
        self.flags = re.I if icase else 0


class MatchObj(Native):
    def __init__(self):
        self.groups = []

    def m_size(self, I):
        return len(self.groups)


class SubMatch(Native):
    def __init__(self, base, i, j, matched):
        self.base, self.i, self.j = base, i, j
        self.f_matched = Cell(matched)
        self.f_first = Cell(StrPtr(base, i))
        self.f_second = Cell(StrPtr(base, j))

    def text(self):
        return self.base[self.i:self.j] if self.f_matched.v else ""

    def m_str(self, I):
        return self.text()

    def m_operator_basic_string(self, I):
        return self.text()

    def m_length(self, I):
        return len(self.text())


def count(x):
    if not isinstance(x, int):
        raise Undecided("abstract number of elements")
    return x


def order(I, p, a, b):
    return lt(I, a, b) if p is None else pred(I, p, a, b)


def merged(I, xs, ys, p):
    res = []
    while xs or ys:
        res.append(ys.pop(0) if not xs or (ys and order(I, p, ys[0], xs[0])) else xs.pop(0))
    return res


def cstr(I, x):
    v = I.rv(x)
    if isinstance(v, StrPtr):
        return v.s[v.i:] if isinstance(v.s, str) else (v.s if v.i == 0 else None)
    if isinstance(v, (str, SymStr)):
        return v
    if v is None:
        I.ub("null string")
    raise Undecided("C string from %s" % type(v).__name__)


def free_call(I, n, fr):
    nm = n["n"]
    short = nm.split("::")[-1]
    if nm in ("std::move", "std::forward", "std::as_const", "std::addressof", "std::ref", "std::cref",
              "std::move_if_noexcept") and len(n["args"]) == 1:
        x = I.eval(n["args"][0], fr)
        if short == "addressof":
            return Ptr(I.loc(x))
        return x
    args = I.args(n, fr)
    A = [I.rv(a) for a in args]
    if nm.startswith(("fmpz_", "fmpq_")):
        import flint
        return flint.call(I, nm, A, n)
    if nm == "std::swap":
        swap_cells(I, args[0], args[1])
        return None
    if nm == "std::exchange":
        old = I.move_out(args[0])
        I.assign_into(args[0], I.rv(args[1]))
        return old
    if nm == "std::iter_swap":
        swap_cells(I, I.deref(A[0], n), I.deref(A[1], n))
        return None
    if nm in ("std::lower_bound", "std::upper_bound"):
        return bsearch(I, A[0], A[1], args[2], A[3] if len(A) > 3 else None, short == "upper_bound")
    if nm == "std::binary_search":
        p = bsearch(I, A[0], A[1], args[2], A[3] if len(A) > 3 else None)
        return p.i < A[1].i and not lt(I, args[2], p.cell())
    if nm in ("std::all_of", "std::any_of", "std::none_of"):
        for c in rng(I, A[0], A[1]):
            r = pred(I, A[2], c)
            if short == "all_of" and not r:
                return False
            if short != "all_of" and r:
                return short == "any_of"
        return short != "any_of"
    if nm in ("std::find_if", "std::find_if_not", "std::find"):
        cs = rng(I, A[0], A[1])
        for i, c in enumerate(cs):
            r = I.equal(c, A[2]) if short == "find" else pred(I, A[2], c) == (short == "find_if")
            if r:
                return I.add(A[0], i)
        return A[1]
    if nm in ("std::count_if", "std::count"):
        return sum(1 for c in rng(I, A[0], A[1]) if (I.equal(c, A[2]) if short == "count" else pred(I, A[2], c)))
    if nm == "std::for_each":
        for c in rng(I, A[0], A[1]):
            I.call_clo(A[2], [c])
        return A[2]
    if nm == "std::accumulate":
        acc = A[2]
        for c in rng(I, A[0], A[1]):
            if len(A) > 3:
                acc = I.rv(I.call_clo(A[3], [Cell(acc), c]))
            else:
                acc = I.arith("+", acc, I.rv(c), n)
        return acc
    if nm in ("std::remove_if", "std::remove"):
        cs = rng(I, A[0], A[1])
        keep = [c for c in cs if not (I.equal(c, A[2]) if short == "remove" else pred(I, A[2], c))]
        vals = [c.v for c in keep]
        for c, v in zip(cs, vals):
            c.v = v
        return I.add(A[0], len(vals))
    if nm in ("std::transform",):
        it = A[2]
        if len(A) == 4:
            for c in rng(I, A[0], A[1]):
                it = out_put(I, it, I.rv(I.call_clo(A[3], [c])))
            return it
        if len(A) == 5:
            for k, c in enumerate(rng(I, A[0], A[1])):
                it = A[3] if k == 0 else it
                it = out_put(I, it, I.rv(I.call_clo(A[4], [c, I.deref(I.add(A[2], k), n)])))
            return it if it is not A[2] else A[3]
    if nm == "std::copy_n":
        it = A[2]
        for k in range(count(A[1])):
            it = out_put(I, it, I.copy(I.deref(I.add(A[0], k), n).v))
        return it
    if nm in ("std::copy", "std::copy_if") or (nm == "std::move" and len(A) == 3):
        it = A[2]
        for c in rng(I, A[0], A[1]):
            if short == "copy_if" and not pred(I, A[3], c):
                continue
            it = out_put(I, it, I.move_out(c) if short == "move" else I.copy(c.v))
        return it
    if nm == "std::back_inserter":
        return BackInserter(args[0])
    if nm == "std::set_union":
        xs, ys, it = list(rng(I, A[0], A[1])), list(rng(I, A[2], A[3])), A[4]
        p = A[5] if len(A) > 5 else None
        while xs or ys:
            if not ys or (xs and order(I, p, xs[0], ys[0])):
                it = out_put(I, it, I.copy(xs.pop(0).v))
            elif not xs or order(I, p, ys[0], xs[0]):
                it = out_put(I, it, I.copy(ys.pop(0).v))
            else:
                it = out_put(I, it, I.copy(xs.pop(0).v))
                ys.pop(0)
        return it
    if nm in ("std::sort", "std::stable_sort", "std::reverse"):
        cs = rng(I, A[0], A[1])
        vs = [c.v for c in cs]
        if short == "reverse":
            vs.reverse()
        else:
            import functools

            def cmp(a, b):
                ca, cb = Cell(a), Cell(b)
                if len(A) > 2:
                    return -1 if pred(I, A[2], ca, cb) else (1 if pred(I, A[2], cb, ca) else 0)
                return -1 if lt(I, ca, cb) else (1 if lt(I, cb, ca) else 0)
            vs.sort(key=functools.cmp_to_key(cmp))
        for c, v in zip(cs, vs):
            c.v = v
        return None
    if nm == "std::unique":
        cs = rng(I, A[0], A[1])
        vs = []
        for c in cs:
            if not vs or not (pred(I, A[2], Cell(vs[-1]), c) if len(A) > 2 else I.equal(vs[-1], c.v)):
                vs.append(c.v)
        for c, v in zip(cs, vs):
            c.v = v
        return I.add(A[0], len(vs))
    if nm == "std::inplace_merge":
        xs, ys = [Cell(c.v) for c in rng(I, A[0], A[1])], [Cell(c.v) for c in rng(I, A[1], A[2])]
        p = A[3] if len(A) > 3 else None
        for c, v in zip(rng(I, A[0], A[2]), merged(I, xs, ys, p)):
            c.v = v.v
        return None
    if nm == "std::merge":
        it = A[4]
        for c in merged(I, list(rng(I, A[0], A[1])), list(rng(I, A[2], A[3])), A[5] if len(A) > 5 else None):
            it = out_put(I, it, I.copy(c.v))
        return it
    if nm in ("std::set_difference", "std::set_intersection"):
        xs, ys, it = list(rng(I, A[0], A[1])), list(rng(I, A[2], A[3])), A[4]
        p = A[5] if len(A) > 5 else None
        while xs and (ys or short == "set_difference"):
            if not ys or order(I, p, xs[0], ys[0]):
                c = xs.pop(0)
                if short == "set_difference":
                    it = out_put(I, it, I.copy(c.v))
            elif order(I, p, ys[0], xs[0]):
                ys.pop(0)
            else:
                c = xs.pop(0)
                ys.pop(0)
                if short == "set_intersection":
                    it = out_put(I, it, I.copy(c.v))
        return it
    if nm == "std::fill":
        for c in rng(I, A[0], A[1]):
            I.assign_into(c, I.copy(A[2]))
        return None
    if nm == "std::fill_n":
        for k in range(count(A[1])):
            I.assign_into(I.deref(I.add(A[0], k), n), I.copy(A[2]))
        return I.add(A[0], count(A[1]))
    if nm == "std::iota":
        for k, c in enumerate(rng(I, A[0], A[1])):
            I.assign_into(c, I.arith("+", A[2], k, n))
        return None
    if nm in ("std::replace", "std::replace_if"):
        for c in rng(I, A[0], A[1]):
            if I.equal(c, A[2]) if short == "replace" else pred(I, A[2], c):
                I.assign_into(c, I.copy(A[3]))
        return None
    if nm == "std::equal" and len(A) in (3, 4) and isinstance(A[2], Ptr):
        xs = list(rng(I, A[0], A[1]))
        if len(A) == 4 and isinstance(A[3], Ptr):
            ys = list(rng(I, A[2], A[3]))
            return len(xs) == len(ys) and all(I.equal(x, y) for x, y in zip(xs, ys))
        for k, c in enumerate(xs):
            y = I.deref(I.add(A[2], k), n)
            if not (pred(I, A[3], c, y) if len(A) == 4 else I.equal(c, y)):
                return False
        return True
    if nm in ("std::adjacent_find", "std::is_sorted"):
        cs = list(rng(I, A[0], A[1]))
        p = A[2] if len(A) > 2 else None
        for k in range(len(cs) - 1):
            if short == "is_sorted":
                if order(I, p, cs[k + 1], cs[k]):
                    return False
            elif pred(I, p, cs[k], cs[k + 1]) if p is not None else I.equal(cs[k], cs[k + 1]):
                return I.add(A[0], k)
        return True if short == "is_sorted" else A[1]
    if nm in ("std::partition", "std::stable_partition"):
        cs = rng(I, A[0], A[1])
        sel = [bool(pred(I, A[2], c)) for c in cs]
        vs = [c.v for c, b in zip(cs, sel) if b] + [c.v for c, b in zip(cs, sel) if not b]
        for c, v in zip(cs, vs):
            c.v = v
        return I.add(A[0], sum(sel))
    if nm == "std::rotate":
        k = len(list(rng(I, A[0], A[1])))
        cs = list(rng(I, A[0], A[2]))
        vs = [c.v for c in cs]
        for c, v in zip(cs, vs[k:] + vs[:k]):
            c.v = v
        return I.add(A[0], len(cs) - k)
    if nm == "std::clamp" and len(A) == 3:
        return args[1] if I.less(A[0], A[1]) else (args[2] if I.less(A[2], A[0]) else args[0])
    if nm == "std::invoke" and isinstance(A[0], Clo):
        return I.call_clo(A[0], [I.loc(a) for a in args[1:]])
    if nm == "std::apply" and isinstance(A[0], Clo) and isinstance(A[1], Tup):
        return I.call_clo(A[0], [c.v if isinstance(c.v, Cell) else c for c in A[1].items])
    if nm == "std::make_optional" and len(args) == 1:
        return Opt(Cell(I.move_out(args[0]) if isinstance(args[0], Cell) and is_rvalue(n["args"][0]) else I.copy(A[0])))
    if nm in ("std::min", "std::max") and len(A) >= 2:
        r = I.less(A[1], A[0])
        return args[1] if r == (short == "min") else args[0]
    if nm in ("std::min_element", "std::max_element"):
        cs = rng(I, A[0], A[1])
        best = None
        for i, c in enumerate(cs):
            if best is None or (lt(I, c, cs[best]) if short == "min_element" else lt(I, cs[best], c)):
                best = i
        return I.add(A[0], best) if best is not None else A[1]
    if nm in ("std::make_pair", "std::make_tuple"):
        return Tup([Cell(I.move_out(a) if isinstance(a, Cell) and is_rvalue(e) else I.copy(I.rv(a)))
                    for a, e in zip(args, n["args"])])
    if nm in ("std::forward_as_tuple", "std::tie"):
        return Tup([I.loc(a) for a in args], range(len(args)))
    if nm == "std::get":
        o = A[0]
        if isinstance(o, Tup):
            m = re.search(r"get<(\d+)", n["f"])
            if not m:
                raise Undecided("std::get by type")
            c = o.items[int(m.group(1))]
            while isinstance(c.v, Cell):
                c = c.v
            return c
        if isinstance(o, Variant):
            m = re.search(r"get<(\d+|[\w:]+)", n["f"])
            if o.alt == m.group(1):
                return o.c
        raise Undecided("std::get")
    if nm == "std::holds_alternative":
        m = re.search(r"holds_alternative<([\w:]+)", n["f"])
        return A[0].alt == m.group(1)
    if nm == "std::get_if":
        m = re.search(r"get_if<([\w:]+)", n["f"])
        o = I.rv(A[0].cell()) if isinstance(A[0], Ptr) else None
        return Ptr(o.c) if o is not None and o.alt == m.group(1) else None
    if nm == "std::visit":
        f = A[0]
        cells = [a.c for a in A[1:]]
        return I.call_clo(f, cells)
    if nm in ("std::make_unique", "std::make_shared"):
        t = targs(n["rt"])[0]
        rv = [is_rvalue(e) for e in n["args"]]
        return UniquePtr(Ptr(Cell(make(I, t, args, n, rv))))
    if nm in ("std::begin", "std::end", "std::size", "std::empty", "std::cbegin", "std::cend", "std::data"):
        return container_method(I, short, args[0], [], n, [])
    if nm in ("std::next", "std::prev", "std::advance", "std::distance"):
        if short == "distance":
            return I.arith("-", A[1], A[0], n)
        k = A[1] if len(A) > 1 else 1
        r = I.add(A[0], -k if short == "prev" else k, n)
        if short == "advance":
            args[0].v = r
        return r
    if nm == "std::numeric_limits::max" or nm == "std::numeric_limits::min":
        m = re.search(r"numeric_limits<([^>]*)>", n["f"])
        t = m.group(1) if m else ""
        if t in UNSIGNED:
            return (1 << UNSIGNED[t]) - 1 if short == "max" else 0
        if t in SIGNED:
            return (1 << (SIGNED[t] - 1)) - 1 if short == "max" else -(1 << (SIGNED[t] - 1))
        raise Undecided("numeric limits of " + t)
    if nm == "std::terminate" or nm == "std::abort":
        raise CxxThrow("<terminate>", None, I.pos(n))
    if short == "strcmp":
        a, b = cstr(I, A[0]), cstr(I, A[1])
        if isinstance(a, SymStr) or isinstance(b, SymStr):
            if a == b:
                return 0
            raise Undecided("comparison of abstract strings")
        return (a > b) - (a < b)
    if short in ("strncmp",):
        a, b = cstr(I, A[0])[:A[2]], cstr(I, A[1])[:A[2]]
        return (a > b) - (a < b)
    if short == "strlen":
        s = cstr(I, A[0])
        if isinstance(s, SymStr):
            raise Undecided("length of an abstract string")
        return len(s)
    if short == "tolower":
        return ord(chr(A[0]).lower()) if 0 <= A[0] < 128 else A[0]
    if short == "toupper":
        return ord(chr(A[0]).upper()) if 0 <= A[0] < 128 else A[0]
    if short in ("isdigit", "isspace", "isalpha"):
        return int(getattr(chr(A[0]), short)()) if 0 <= A[0] < 128 else 0
    if nm == "std::regex_match":
        rx = [k for k, x in enumerate(A) if isinstance(x, Regex)]
        if not rx:
            raise Undecided("std::regex_match without a regular expression")
        r = A[rx[0]]
        m = A[rx[0] - 1] if isinstance(A[rx[0] - 1], MatchObj) else MatchObj()
        if isinstance(A[1], StrPtr):
            b, text = A[0], A[0].s[A[0].i:A[1].i]
        elif isinstance(A[0], StrPtr):
            text = cstr(I, A[0])
            b = A[0]
        elif isinstance(A[0], str):
            text = A[0]
            b = StrPtr(text, 0, args[0] if isinstance(args[0], Cell) else None)
        else:
            raise Undecided("std::regex_match on " + type(A[0]).__name__)
        x = re.fullmatch(r.p, text, r.flags)
        m.groups = []
        if x:
            for g in range(0, x.re.groups + 1):
                i, j = x.span(g)
                m.groups.append(SubMatch(b.s, b.i + max(i, 0), b.i + max(j, 0), i >= 0))
        return x is not None
    if nm == "Clingo::Function":
        name = cstr(I, A[0])
        sargs = [c.v for c in A[1].items] if len(A) > 1 and isinstance(A[1], Vec) else []
        pos = A[2] if len(A) > 2 else True
        return Sym("function", name, sargs, I.truth(pos))
    if nm == "Clingo::Id":
        return Sym("function", cstr(I, A[0]), [], I.truth(A[1]) if len(A) > 1 else True)
    if nm == "Clingo::Number":
        return Sym("number", num=A[0] if not (isinstance(A[0], Poly) and A[0].is_const()) else int(A[0].const_value()))
    if nm == "Clingo::String":
        return Sym("string", name=cstr(I, A[0]))
    if nm == "std::to_string":
        return str(A[0]) if isinstance(A[0], int) else SymStr((("num", A[0]),))
    if short in ("abs", "labs", "llabs") and nm in (short, "std::" + short):
        if isinstance(A[0], int) and A[0] == -2**31 and n.get("rt") == "int":
            I.ub("absolute value of the smallest integer", n)
        return I.arith("-", 0, A[0], n) if I.less(A[0], 0) else A[0]
    if nm in ("std::gcd", "std::lcm") and all(isinstance(a, int) for a in A):
        return getattr(math, short)(*A)
    if short in ("isalnum", "isupper", "islower"):
        return int(getattr(chr(A[0]), short)()) if 0 <= A[0] < 128 else 0
    if short == "isxdigit":
        return int(0 <= A[0] < 128 and chr(A[0]) in "0123456789abcdefABCDEF")
    if short in ("strchr", "strrchr", "strstr") and nm in (short, "std::" + short):
        a = cstr(I, A[0])
        if not isinstance(a, str):
            raise Undecided("search in an abstract string")
        b = cstr(I, A[1]) if short == "strstr" else chr(A[1])
        k = len(a) if b == "\0" else a.rfind(b) if short == "strrchr" else a.find(b)
        return None if k < 0 else I.add(A[0], k)
    if short in ("atoi", "atol", "atoll") and nm in (short, "std::" + short):
        m = re.match(r"\s*([-+]?\d+)", cstr(I, A[0]))
        return int(m.group(1)) if m else 0
    if nm in ("std::stoi", "std::stol", "std::stoll", "std::stoul", "std::stoull") and len(A) == 1 and isinstance(cstr(I, A[0]), str):
        m = re.match(r"\s*([-+]?\d+)", cstr(I, A[0]))
        if not m:
            raise CxxThrow("std::invalid_argument", None, I.pos(n))
        lim = {"stoi": 31, "stol": 63, "stoll": 63, "stoul": 64, "stoull": 64}[short]
        if not -2**lim <= int(m.group(1)) < 2**lim:
            raise CxxThrow("std::out_of_range", None, I.pos(n))
        return int(m.group(1))
    if nm == "std::mismatch" and len(A) in (3, 4):
        k, cs = 0, list(rng(I, A[0], A[1]))
        m = len(list(rng(I, A[2], A[3]))) if len(A) == 4 else len(cs)
        while k < min(len(cs), m) and I.equal(cs[k], I.deref(I.add(A[2], k), n)):
            k += 1
        return Tup([Cell(I.add(A[0], k)), Cell(I.add(A[2], k))])
    if nm in ("std::lexicographical_compare", "std::includes"):
        xs, ys, p = list(rng(I, A[0], A[1])), list(rng(I, A[2], A[3])), A[4] if len(A) > 4 else None
        if short == "includes":
            for y in ys:
                while xs and order(I, p, xs[0], y):
                    xs.pop(0)
                if not xs or order(I, p, y, xs[0]):
                    return False
                xs.pop(0)
            return True
        for x, y in zip(xs, ys):
            if order(I, p, x, y):
                return True
            if order(I, p, y, x):
                return False
        return len(xs) < len(ys)
    if nm == "std::set_symmetric_difference":
        xs, ys, it = list(rng(I, A[0], A[1])), list(rng(I, A[2], A[3])), A[4]
        p = A[5] if len(A) > 5 else None
        while xs or ys:
            if not ys or (xs and order(I, p, xs[0], ys[0])):
                it = out_put(I, it, I.copy(xs.pop(0).v))
            elif not xs or order(I, p, ys[0], xs[0]):
                it = out_put(I, it, I.copy(ys.pop(0).v))
            else:
                xs.pop(0)
                ys.pop(0)
        return it
    if nm == "std::inner_product" and len(A) == 4:
        acc = A[3]
        for k, c in enumerate(rng(I, A[0], A[1])):
            acc = I.arith("+", acc, I.arith("*", I.rv(c), I.rv(I.deref(I.add(A[2], k), n)), n), n)
        return acc
    if nm == "std::partition_point":
        for k, c in enumerate(rng(I, A[0], A[1])):
            if not pred(I, A[2], c):
                return I.add(A[0], k)
        return A[1]
    if nm == "std::equal_range":
        p = A[3] if len(A) > 3 else None
        return Tup([Cell(bsearch(I, A[0], A[1], args[2], p)), Cell(bsearch(I, A[0], A[1], args[2], p, True))])
    if nm in ("std::generate", "std::generate_n"):
        cs = rng(I, A[0], A[1]) if short == "generate" else [I.deref(I.add(A[0], k), n) for k in range(count(A[1]))]
        for c in cs:
            I.assign_into(c, I.rv(I.call_clo(A[2], [])))
        return None if short == "generate" else I.add(A[0], len(cs))
    if nm == "std::for_each_n":
        for k in range(count(A[1])):
            I.call_clo(A[2], [I.deref(I.add(A[0], k), n)])
        return I.add(A[0], count(A[1]))
    if nm in ("std::copy_backward", "std::move_backward"):
        cs = list(rng(I, A[0], A[1]))
        for k, c in enumerate(reversed(cs)):
            I.assign_into(I.deref(I.add(A[2], -k - 1), n), I.move_out(c) if short == "move_backward" else I.copy(c.v))
        return I.add(A[2], -len(cs))
    if nm in ("std::remove_copy_if", "std::remove_copy", "std::reverse_copy"):
        cs, it = list(rng(I, A[0], A[1])), A[2]
        for c in reversed(cs) if short == "reverse_copy" else cs:
            if short == "reverse_copy" or not (I.equal(c, A[3]) if short == "remove_copy" else pred(I, A[3], c)):
                it = out_put(I, it, I.copy(c.v))
        return it
    raise Undecided("no summary for " + nm)


def swap_cells(I, a, b):
    va, vb = a.v, b.v
    if isinstance(va, Struct) and isinstance(vb, Struct):
        for k in va.f:
            swap_cells(I, va.f[k], vb.f[k])
        return
    if isinstance(va, Tup) and isinstance(vb, Tup):
        for x, y in zip(va.items, vb.items):
            swap_cells(I, x, y)
        return
    a.v, b.v = vb, va


# ---------------------------------------------------------------- methods

def method_call(I, n, o, fr):
    obj = I.rv(o)
    name = n["n"].split("::")[-1]
    args = I.args(n, fr)
    rvals = [is_rvalue(a) for a in n["args"]]
    if isinstance(obj, Native):
        return obj.call(I, name, args, n)
    return container_method(I, name, o, args, n, rvals)


def elem_make(I, et, args, n, rvals):
    if et is None:
        return I.copy(I.rv(args[0]))
    return make(I, et, args, n, rvals)


def container_method(I, name, o, args, n, rvals):
    obj = I.rv(o)
    A = [I.rv(a) for a in args]
    if name in ("swap",) and isinstance(obj, (Vec, MapObj, PQ, Opt, str, SymStr, UniquePtr, Tup)):
        swap_cells(I, o, args[0])
        return None
    if isinstance(obj, Vec):
        items = obj.items
        deque = "deque" in n.get("n", "")
        if name in ("emplace_back", "push_back"):
            c = Cell(elem_make(I, obj.et, args, n, rvals), obj.et)
            items.append(c)
            I.grown(obj, len(items) - 1, 1, deque)
            return c
        if name in ("emplace_front", "push_front"):
            c = Cell(elem_make(I, obj.et, args, n, rvals), obj.et)
            items.insert(0, c)
            I.grown(obj, 0, 1, deque)
            return c
        if name in ("begin", "cbegin", "data"):
            return Ptr(None, obj, 0)
        if name in ("end", "cend"):
            return Ptr(None, obj, len(items))
        if name in ("rbegin", "crbegin"):
            return Ptr(None, obj, len(items), True)
        if name in ("rend", "crend"):
            return Ptr(None, obj, 0, True)
        if name == "size":
            return len(items)
        if name == "empty":
            return not items
        if name in ("front", "back"):
            if not items:
                I.ub("%s() of an empty container" % name, n)
            c = items[0 if name == "front" else -1]
            while isinstance(c.v, Cell):
                c = c.v
            return c
        if name in ("pop_back", "pop_front"):
            if not items:
                I.ub("%s() of an empty container" % name, n)
            k = len(items) - 1 if name == "pop_back" else 0
            if deque and interp.MEMSAFE:
                I.kill(items[k])
            else:
                I.removed(obj, k, k + 1)
            items.pop(k)
            return None
        if name == "clear":
            I.removed(obj, 0, len(items))
            del items[:]
            return None
        if name in ("reserve", "shrink_to_fit"):
            if name == "reserve":
                I.reserve(obj, A[0])
            return None
        if name == "resize":
            k = A[0]
            if not isinstance(k, int):
                raise Undecided("resize to an abstract size")
            if k > 10000:
                I.ub("resize to a huge size", n)
            I.removed(obj, k, len(items))
            del items[k:]
            n0 = len(items)
            while len(items) < k:
                v = I.copy(A[1]) if len(A) > 1 else I.default(obj.et)
                items.append(Cell(v, obj.et))
            if k > n0:
                I.grown(obj, n0, k - n0, deque)
            return None
        if name == "at":
            if not 0 <= A[0] < len(items):
                raise CxxThrow("std::out_of_range", None, I.pos(n))
            return I.index(obj, A[0], n)
        if name in ("erase", "insert", "emplace"):
            for a in A:
                I.valid(a, n)
        if name == "erase":
            i = A[0].i
            j = A[1].i if len(A) > 1 else i + 1
            if j > len(items) or i > j:
                I.ub("erase outside of the container", n)
            I.removed(obj, i, j)
            del items[i:j]
            return Ptr(None, obj, i)
        if name == "insert":
            i = A[0].i
            if len(A) == 3 and isinstance(A[1], Ptr):
                new = [Cell(I.copy(c.v)) for c in rng(I, A[1], A[2])]
            elif len(A) == 2 and isinstance(A[1], Vec):
                new = [Cell(I.copy(c.v)) for c in A[1].items]
            elif len(A) == 2:
                new = [Cell(elem_make(I, obj.et, args[1:], n, rvals[1:]), obj.et)]
            else:
                raise Undecided("vector::insert")
            items[i:i] = new
            I.grown(obj, i, len(new), deque)
            return Ptr(None, obj, i)
        if name == "emplace":
            i = A[0].i
            items.insert(i, Cell(elem_make(I, obj.et, args[1:], n, rvals[1:]), obj.et))
            I.grown(obj, i, 1, deque)
            return Ptr(None, obj, i)
        if name == "assign":
            if len(A) == 1 or not isinstance(A[0], Ptr) or A[0].vec is not obj:
                I.replaced(obj)
            if len(A) == 2 and isinstance(A[0], Ptr):
                obj.items = [Cell(I.copy(c.v)) for c in rng(I, A[0], A[1])]
                return None
            if len(A) == 2 and isinstance(A[0], int):
                obj.items = [Cell(I.copy(A[1])) for _ in range(A[0])]
                return None
            if len(A) == 1 and isinstance(A[0], Vec):
                obj.items = [Cell(I.copy(c.v)) for c in A[0].items]
                return None
        if name == "operator[]":
            return I.index(obj, A[0], n)
    if isinstance(obj, MapObj):
        if name in ("begin", "cbegin"):
            ns = list(I.map_order(obj))
            return MapIt(obj, ns[0] if ns else None)
        if name in ("end", "cend"):
            return MapIt(obj, None)
        if name == "size":
            return len(obj.nodes)
        if name == "empty":
            return not obj.nodes
        if name == "clear":
            obj.nodes = []
            obj.stamp += 1
            return None
        if name == "reserve":
            if isinstance(A[0], int) and A[0] > obj.cap:
                obj.cap = A[0]
                obj.stamp += 1
            return None
        if name in ("find", "count", "contains", "equal_range", "at"):
            r = obj.find_all(I, A[0])
            if name == "find":
                return MapIt(obj, r[0] if r else None)
            if name == "count":
                return len(r)
            if name == "contains":
                return bool(r)
            if name == "at":
                if not r:
                    raise CxxThrow("std::out_of_range", None, I.pos(n))
                return r[0].v.items[1]
            if not r:
                return Tup([Cell(MapIt(obj, None)), Cell(MapIt(obj, None))])
            ns = list(I.map_order(obj))
            i = ns.index(r[-1]) + 1
            return Tup([Cell(MapIt(obj, r[0])), Cell(MapIt(obj, ns[i] if i < len(ns) else None))])
        if name in ("emplace", "insert", "try_emplace", "emplace_hint", "insert_or_assign"):
            if name in ("emplace", "insert") and len(args) == 1:
                t = A[0]
                kc, va, vr = t.items[0], [t.items[1]], [rvals[0]]
            elif A[0] == "piecewise_construct":
                kc, va, vr = I.rv(args[1]).items[0], I.rv(args[2]).items, [False] * 9
            else:
                kc, va, vr = args[0], args[1:], rvals[1:]
            k = I.copy(I.rv(kc))
            old = obj.find_all(I, k)
            multi = "multi" in obj.kind
            if old and not multi:
                if name == "insert_or_assign":
                    old[0].v.items[1].v = I.rv(va[0])
                return Tup([Cell(MapIt(obj, old[0])), Cell(False)])
            if obj.vt and obj.vt.endswith("&"):
                node = Cell(Tup([Cell(k), I.loc(va[0])], [1]))
            else:
                node = Cell(Tup([Cell(k), Cell(make(I, obj.vt, list(va), n, list(vr)))]))
            if old:
                i = obj.nodes.index(old[-1]) + 1
                obj.nodes.insert(i, node)
            else:
                obj.nodes.append(node)
            obj.inserted()
            return MapIt(obj, node) if multi else Tup([Cell(MapIt(obj, node)), Cell(True)])
        if name == "erase":
            if isinstance(A[0], MapIt):
                I.valid(A[0], n)
                ns = list(I.map_order(obj))
                i = ns.index(A[0].node)
                obj.nodes.remove(A[0].node)
                if interp.MEMSAFE:
                    I.kill(A[0].node)
                return MapIt(obj, ns[i + 1] if i + 1 < len(ns) else None)
            r = obj.find_all(I, A[0])
            for x in r:
                obj.nodes.remove(x)
                if interp.MEMSAFE:
                    I.kill(x)
            return len(r)
        if name == "operator[]":
            return map_index(I, obj, A[0])
    if isinstance(obj, PQ):
        if name in ("push", "emplace"):
            obj.items.append(A[0])
            return None
        if name == "empty":
            return not obj.items
        if name == "size":
            return len(obj.items)
        if name in ("top", "pop"):
            if not obj.items:
                I.ub("%s() of an empty queue" % name, n)
            best = 0
            for i in range(1, len(obj.items)):
                a, b = obj.items[best], obj.items[i]
                # element b has priority over a
                if "greater" in obj.cmp:
                    pri = I.less(b, a)
                elif "less" in obj.cmp:
                    pri = I.less(a, b)
                else:
                    raise Undecided("queue order " + obj.cmp)
                if pri:
                    best = i
            if name == "top":
                return Cell(obj.items[best])
            obj.items.pop(best)
            return None
    if isinstance(obj, Opt):
        if name in ("has_value", "operator bool"):
            return obj.c is not None
        if name == "value":
            if obj.c is None:
                raise CxxThrow("std::bad_optional_access", None, I.pos(n))
            return obj.c
        if name == "value_or":
            return I.copy(obj.c.v) if obj.c is not None else A[0]
        if name == "reset":
            obj.c = None
            return None
        if name == "emplace":
            et = strip_t(n.get("t") or "")
            if not et or et == "void":
                raise Undecided("optional::emplace")
            obj.c = Cell(elem_make(I, et, args, n, rvals), et)
            return obj.c
        if name in ("operator*", "operator->"):
            return I.deref(obj, n)
    if isinstance(obj, Variant):
        if name == "index":
            raise Undecided("variant::index")
    if isinstance(obj, UniquePtr):
        if name == "get":
            return obj.p
        if name == "operator bool":
            return obj.p is not None
        if name == "reset":
            if interp.MEMSAFE and isinstance(obj.p, Ptr) and obj.p.cell() is not None:
                I.destroy(obj.p.cell(), n)
            obj.p = A[0] if A else None
            return None
        if name == "release":
            p, obj.p = obj.p, None
            return p
    if isinstance(obj, (str, SymStr)):
        return string_method(I, name, o, args, n)
    if isinstance(obj, Sym):
        if name == "type":
            return SYMTYPE[obj.kind]
        if name == "number":
            if obj.kind != "number":
                raise CxxThrow("std::runtime_error", None, I.pos(n))
            return obj.num
        if name == "name":
            if obj.kind != "function":
                raise CxxThrow("std::runtime_error", None, I.pos(n))
            return StrPtr(obj.name, 0)
        if name == "string":
            if obj.kind != "string":
                raise CxxThrow("std::runtime_error", None, I.pos(n))
            return StrPtr(obj.name, 0)
        if name == "match":
            return obj.kind == "function" and obj.name == cstr(I, args[0]) and len(obj.args) == I.rv(args[1])
        if name == "arguments":
            if obj.kind != "function":
                raise CxxThrow("std::runtime_error", None, I.pos(n))
            return Vec([Cell(a) for a in obj.args], "Clingo::Symbol")
        if name in ("is_positive", "is_negative"):
            return obj.pos == (name == "is_positive")
        if name == "to_c":
            return ("csym", obj)
    if isinstance(obj, tuple) and obj and obj[0] == "exc" and name == "what":
        return StrPtr("error", 0)
    if isinstance(obj, (Clo, PyFn)) and name in ("operator()", "__invoke"):
        return I.call_clo(obj, args)
    raise Undecided("no summary for %s (%s)" % (n.get("n", name), type(obj).__name__))


def map_index(I, m, key):
    r = m.find_all(I, key)
    if r:
        return r[0].v.items[1]
    node = Cell(Tup([Cell(I.copy(key)), Cell(I.default(m.vt))]))
    m.nodes.append(node)
    m.inserted()
    return node.v.items[1]


def string_method(I, name, c, args, n):
    s = I.rv(c)
    A = [I.rv(a) for a in args]
    if name in ("c_str", "data"):
        return StrPtr(s, 0)
    own = c if isinstance(c, Cell) else None
    if isinstance(s, SymStr):
        if name == "empty":
            return False
        if name == "append" and len(A) == 1:
            c.v = I.join([s, cstr(I, A[0])])
            return c
        raise Undecided("string method %s on abstract text" % name)
    if name in ("size", "length"):
        return len(s)
    if name == "empty":
        return not s
    if name == "push_back":
        c.v = s + chr(A[0])
        return None
    if name == "pop_back":
        c.v = s[:-1]
        return None
    if name in ("front", "back"):
        if not s:
            I.ub("%s of an empty string" % name, n)
        k = 0 if name == "front" else len(s) - 1
        return interp.CharCell(own, k) if own is not None else Cell(ord(s[k]))
    if name == "clear":
        c.v = ""
        return None
    if name == "reserve":
        return None
    if name in ("append", "assign"):
        if len(A) == 1:
            x = cstr(I, A[0])
        else:
            x = make_string(I, args)
        c.v = I.join([s, x]) if name == "append" else x
        return c
    if name == "substr":
        if A[0] > len(s):
            raise CxxThrow("std::out_of_range", None, I.pos(n))
        return s[A[0]:A[0] + A[1]] if len(A) > 1 and A[1] < 2**32 else s[A[0]:]
    if name == "find":
        x = cstr(I, A[0]) if not isinstance(A[0], int) else chr(A[0])
        r = s.find(x)
        return r if r >= 0 else 2**64 - 1
    if name == "compare":
        x = cstr(I, A[0])
        return (s > x) - (s < x)
    if name in ("begin", "cbegin"):
        return StrPtr(s, 0, own)
    if name in ("end", "cend"):
        return StrPtr(s, len(s), own)
    if name in ("operator[]", "at"):
        if name == "at" and isinstance(A[0], int) and not 0 <= A[0] < len(s):
            raise CxxThrow("std::out_of_range", None, I.pos(n))
        if own is not None and isinstance(A[0], int) and 0 <= A[0] < len(s):
            return interp.CharCell(own, A[0])
        return I.index(s, A[0], n)
    if name in ("rfind", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of") and len(A) == 1:
        x = cstr(I, A[0]) if not isinstance(A[0], int) else chr(A[0])
        if name == "rfind":
            r = s.rfind(x)
        else:
            ix = [k for k, ch in enumerate(s) if (ch in x) == ("not" not in name)]
            r = (ix[0] if "first" in name else ix[-1]) if ix else -1
        return r if r >= 0 else 2**64 - 1
    if name in ("remove_prefix", "remove_suffix") and isinstance(A[0], int):
        if not 0 <= A[0] <= len(s):
            I.ub("%s exceeding the string" % name, n)
        c.v = s[A[0]:] if name == "remove_prefix" else s[:len(s) - A[0]]
        return None
    if name == "erase":
        if all(isinstance(a, int) for a in A):
            k = A[0] if A else 0
            if k > len(s):
                raise CxxThrow("std::out_of_range", None, I.pos(n))
            c.v = s[:k] + (s[k + A[1]:] if len(A) > 1 and A[1] < 2**32 else "")
            return c
        if all(isinstance(a, StrPtr) for a in A):
            k, e = A[0].i, A[1].i if len(A) > 1 else A[0].i + 1
            c.v = s[:k] + s[e:]
            return StrPtr(c.v, k, own)
    if name == "resize" and isinstance(A[0], int):
        c.v = (s + chr(A[1] if len(A) > 1 else 0) * max(0, A[0] - len(s)))[:A[0]]
        return None
    if name == "insert" and len(A) == 2 and isinstance(A[0], int) and isinstance(A[1], (str, StrPtr)):
        c.v = s[:A[0]] + cstr(I, A[1]) + s[A[0]:]
        return c
    raise Undecided("string method " + name)


# -------------------------------------------------------------- operators

def op_call(I, n, fr):
    op = n["op"]
    nm = n.get("n", "")
    args = [I.eval(a, fr) for a in n["args"]]
    A = [I.rv(a) for a in args]
    o = A[0]
    if isinstance(o, Native) and hasattr(o, "op_" + {"()": "call", "*": "deref", "->": "arrow", "++": "inc",
                                                      "[]": "index", "=": "assign", "==": "eq", "!=": "ne"}.get(op, op)):
        return getattr(o, "op_" + {"()": "call", "*": "deref", "->": "arrow", "++": "inc", "[]": "index", "=": "assign",
                                   "==": "eq", "!=": "ne"}[op])(I, *args[1:])
    if op == "[]":
        if isinstance(o, MapObj):
            return map_index(I, o, A[1])
        if isinstance(o, MatchObj):
            return Cell(o.groups[A[1]] if A[1] < len(o.groups) else SubMatch("", 0, 0, False))
        if isinstance(o, UniquePtr):
            return I.index(o.p, A[1], n)
        if isinstance(o, str) and isinstance(args[0], Cell) and isinstance(A[1], int) and 0 <= A[1] < len(o):
            return interp.CharCell(args[0], A[1])
        return I.index(o, A[1], n)
    if op == "*" and len(A) == 1:
        if isinstance(o, BackInserter):
            return args[0]
        return I.deref(o, n)
    if op == "->":
        I.valid(o, n)
        if isinstance(o, MapIt):
            if o.node is None:
                I.ub("end iterator dereferenced", n)
            return Ptr(o.node)
        if isinstance(o, Opt):
            if o.c is None:
                I.ub("empty optional dereferenced", n)
            return Ptr(o.c)
        if isinstance(o, UniquePtr):
            if o.p is None:
                I.ub("null pointer dereference", n)
            return o.p
        return o
    if op in ("++", "--"):
        c = args[0]
        if isinstance(o, BackInserter):
            return c
        old = o
        c.v = I.add(o, 1 if op == "++" else -1, n)
        return old if len(n["args"]) == 2 else c
    if op in ("+=", "-=") and isinstance(o, (Ptr, MapIt, StrPtr)):
        args[0].v = I.add(o, A[1] if op == "+=" else -A[1], n)
        return args[0]
    if op == "+=" and isinstance(o, (str, SymStr)):
        x = A[1]
        args[0].v = I.join([o, chr(x) if isinstance(x, int) else cstr(I, x)])
        return args[0]
    if op == "+" and (isinstance(o, (str, SymStr, StrPtr)) and isinstance(A[1], (str, SymStr, StrPtr)) or
                      isinstance(o, (str, SymStr))):
        x = A[1]
        return I.join([cstr(I, o), chr(x) if isinstance(x, int) else cstr(I, x)])
    if op == "=":
        return assign(I, args, n, is_rvalue(n["args"][1]))
    if op == "()":
        if isinstance(o, Struct):
            fs = I.find_method(o.cls, "operator()", len(args) - 1)
            return I.call_function(I.overload(fs, args[1:]), I.loc(args[0]), args[1:])
        if o is None:
            raise CxxThrow("std::bad_function_call", None, I.pos(n))
        if nm.startswith(("std::less", "std::greater")):
            return I.less(A[1], A[2]) if "less" in nm else I.less(A[2], A[1])
        return I.call_clo(o, args[1:])
    if op == "<<":
        if isinstance(o, Stream):
            x = A[1]
            if isinstance(x, StrPtr):
                x = x.s[x.i:] if isinstance(x.s, str) else x.s
            if isinstance(x, (str, SymStr)):
                o.parts.append(x)
            elif isinstance(x, bool):
                o.parts.append(str(int(x)))
            elif isinstance(x, int):
                ty = strip_t((n.get("pt") or ["", ""])[-1])
                o.parts.append(chr(x) if ty == "char" else str(x))
            elif isinstance(x, Poly):
                o.parts.append(("num", x))
            elif isinstance(x, Sym):
                o.parts.append(("sym", x))
            elif isinstance(x, FnRef):
                o.parts.append("\n")
            else:
                raise Undecided("output of %s" % type(x).__name__)
            return args[0]
    if op in ("==", "!=") and any(isinstance(x, (StrPtr, str, SymStr)) for x in A):
        a, b = cstr(I, A[0]), cstr(I, A[1])
        if isinstance(a, SymStr) or isinstance(b, SymStr):
            if a != b:
                raise Undecided("comparison of abstract strings")
        return (a == b) == (op == "==")
    if op in ("==", "!=", "<", ">", "<=", ">=", "-", "+"):
        if op in ("==", "!=") and isinstance(o, Struct):
            raise Undecided("comparison of structs")
        return I.arith(op, A[0], A[1], n)
    raise Undecided("no summary for %s on %s" % (nm or op, type(o).__name__))


def assign(I, args, n, rval):
    c, x = args
    o, v = I.rv(c), I.rv(x)
    if isinstance(o, BackInserter):
        o.put(I, I.move_out(x) if rval and isinstance(x, Cell) else I.copy(v))
        return c
    if isinstance(o, Opt):
        if isinstance(v, NullOpt):
            o.c = None
        elif isinstance(v, Opt):
            if rval and isinstance(x, Cell):
                v = I.move_out(x)
            else:
                v = I.copy(v)
            o.c = v.c
        else:
            t = re.match(r"std::optional<(.*)>", strip_t(n["args"][0].get("t", "")))
            v = I.move_out(x) if rval and isinstance(x, Cell) else I.copy(v)
            if t:
                v = I.coerce(v, t.group(1))
            if o.c is None:
                o.c = Cell(v)
            else:
                o.c.v = v
        return c
    if isinstance(o, UniquePtr):
        if isinstance(v, UniquePtr):
            if interp.MEMSAFE and isinstance(o.p, Ptr) and v is not o and o.p.cell() is not None:
                I.destroy(o.p.cell(), n)
            o.p = v.p
            if isinstance(x, Cell) and v is not o:
                v.p = None
        elif v is None:
            o.p = None
        else:
            raise Undecided("assignment to unique_ptr")
        return c
    if isinstance(o, (str, SymStr)):
        c.v = chr(v) if isinstance(v, int) else cstr(I, v)
        return c
    if isinstance(o, Variant):
        if isinstance(v, Variant):
            c.v = I.copy(v)
        else:
            c.v = Variant(I.type_of(v), Cell(I.copy(v)))
        return c
    if isinstance(x, Cell):
        if x is c:
            return c
        v = I.move_out(x) if rval else I.copy(v)
    I.assign_into(c, v)
    return c
