"""Obligations for the number classes (C10, C11): each operation is compared with exact arithmetic."""
import flint
from interp import Cell, CxxThrow, NULLOPT, Opt, Ptr, Stream, StrPtr, Struct, SymStr, Tup, Undecided, Violation, strip_t
from poly import EPS, Poly, to_poly

CMP = {"operator<": lambda s: s < 0, "operator<=": lambda s: s <= 0, "operator>": lambda s: s > 0,
       "operator>=": lambda s: s >= 0, "operator==": lambda s: s == 0, "operator!=": lambda s: s != 0}
ARITH = "+-*/"


def make(I, t, name):
    """(cell, abstract value) of an arbitrary number of type t."""
    if t in ("long", "int"):
        p = Poly.sym(name)
        I.integers.add(p)
        return Cell(p), p
    if I.native(t):
        p = Poly.sym(name)
        return Cell(p), p
    if t == "RationalQ":
        s = I.new_struct(t)
        c, k = Poly.sym(name), Poly.sym(name + "k")
        s.set("c_", c)
        s.set("k_", k)
        return Cell(s), c + k * Poly.sym(EPS)
    s = I.construct(t, [])
    return Cell(s), flint.symbolic(I, s, name)


def read(I, x, what="result"):
    """Abstract value of a number."""
    v = I.rv(x)
    if isinstance(v, (int, Poly)) and not isinstance(v, bool):
        return to_poly(v)
    if isinstance(v, flint.Fmpz):
        return flint.zval(I, v)
    if isinstance(v, Struct):
        if v.cls == "RationalQ":
            return read(I, v.f["c_"]) + read(I, v.f["k_"]) * Poly.sym(EPS)
        if v.cls == "Integer":
            return flint.zval(I, v.f["num_"])
        if v.cls == "Rational":
            if not flint.canonical(I, flint.q(I, v.f["num_"])):
                raise Violation("the %s is not in canonical form" % what)
            return flint.qval(I, v.f["num_"])
    raise Undecided("number %s" % type(v).__name__)


def lexsign(I, d):
    if EPS not in d.symbols():
        return I.sign(d)
    d0, d1 = d.split(EPS)
    return I.sign(d0) or I.sign(d1)


def same(I, x, want, what):
    got = read(I, x, what)
    d = got - want
    d0, d1 = d.split(EPS) if EPS in d.symbols() else (d, Poly.const(0))
    if not I.is_zero(d0) or not I.is_zero(d1):
        raise Violation("the %s is %s instead of %s" % (what, got, want))


def operations(prog, types):
    """Free functions over numbers of the given types: (function, parameter types)."""
    out = []
    for f in sorted(prog.functions.values(), key=lambda f: f["id"]):
        if f.get("cls") or f.get("body") is None:
            continue
        pts = [p["t"] for p in f["params"]]
        st = [strip_t(t) for t in pts]
        if not any(t in types for t in st) or any(t not in types | {"Integer", "Rational", "long", "int"} and
                                                  not t.startswith("std::basic_ostream") for t in st):
            continue
        out.append((f, pts, st))
    return out


def rule(f, pts, st, alias):
    name = f["name"]

    def g(I):
        if name == "operator<<":
            out = Cell(Stream())
            a, va = make(I, st[1], "a")
            try:
                r = I.call_function(f, None, [out, a])
            except CxxThrow as e:
                if "bad_alloc" not in e.tname:
                    raise
                return
            check_print(I, out.v.parts, va, st[1])
            same(I, a, va, "printed number")
            return
        args, vals = [], []
        for k, t in enumerate(st):
            if alias and k:
                args.append(args[0])
                vals.append(vals[0])
                continue
            c, v = make(I, t, "abc"[k])
            args.append(c if pts[k].endswith("&") else c.v)
            vals.append(v)
        a, b = vals[0], vals[1] if len(vals) > 1 else None
        op = name[len("operator"):].strip() if name.startswith("operator") else name
        want = None
        if op.rstrip("=") == "/" and b is not None:
            if b.is_const() and b.const_value() == 0 or not b.is_const() and I.is_zero(b):
                return
        if name == "gcd_div" and I.is_zero(a) and I.is_zero(b):
            return
        r = I.call_function(f, None, args)
        if name in CMP:
            want = CMP[name](lexsign(I, a - b))
            if bool(I.rv(r)) != want:
                raise Violation("%s yields %s for numbers with %s" % (name, bool(I.rv(r)), "a %s b" % "=<>"[lexsign(I, a - b)]))
        elif name == "compare":
            s, w = I.rv(r), lexsign(I, a - b)
            s = s.const_value() if isinstance(s, Poly) else int(s)
            if (s > 0) - (s < 0) != w:
                raise Violation("compare yields %s for numbers with a %s b" % (s, "=<>"[w]))
        elif name in ("gcd", "gcd_div"):
            w = flint.gcd(I, a, b)
            if name == "gcd":
                same(I, r, w, "greatest common divisor")
            else:
                t = I.rv(r)
                for x, v, wh in zip(t.items, (w, a / w, b / w), ("greatest common divisor", "first quotient", "second quotient")):
                    same(I, x, v, wh)
        elif op == "-" and b is None:
            same(I, r, -a, "negation")
        elif op in ("+", "-", "*", "/") or op in ("+=", "-=", "*=", "/="):
            o = op[0]
            want = a + b if o == "+" else a - b if o == "-" else a * b if o == "*" else a / b
            same(I, r, want, "result of %s" % name)
            if op.endswith("="):
                if I.loc(r) is not args[0]:
                    raise Violation("%s does not return its left argument" % name)
        else:
            raise Undecided("no specification for %s" % f["id"])
        for k, (x, v) in enumerate(zip(args, vals)):
            if pts[k].startswith("const") and not (alias and any(not p.startswith("const") for p in pts)):
                same(I, x, v, "constant argument of %s" % name)
            elif pts[k].endswith("&&"):
                read(I, x, "argument moved from")
    return g


def check_print(I, parts, v, t):
    if t != "RationalQ":
        if parts != [SymStr([("num", v)])] and parts != [("num", v)]:
            nums = [p.parts[0][1] if isinstance(p, SymStr) and len(p.parts) == 1 else
                    p[1] if isinstance(p, tuple) and p[0] == "num" else None for p in parts]
            if len(parts) == 3 and parts[1] == "/" and nums[0] is not None and nums[2] is not None:
                # numerator and denominator, which is omitted if it is one
                if not I.is_zero(nums[0] - v * nums[2]) or I.is_zero(nums[2] - Poly.const(1)):
                    raise Violation("a number is printed as %s" % (parts,))
                return
            if len(parts) != 1 or nums[0] is None or not I.is_zero(nums[0] - v):
                raise Violation("a number is printed as %s" % (parts,))
        return
    # value of the printed expression
    c, k = v.split(EPS)
    total, last, txt = Poly.const(0), None, []
    for p in parts:
        if isinstance(p, tuple) and p[0] == "num":
            txt.append(p[1])
        elif isinstance(p, str):
            txt.extend(p)
        else:
            raise Undecided("printed %s" % (p,))
    # grammar: term ("+" term)*, term: num | num "*" "e" | "e"
    terms, cur = [], []
    for x in txt:
        if x == "+":
            terms.append(cur)
            cur = []
        else:
            cur.append(x)
    terms.append(cur)
    for tm in terms:
        if len(tm) == 1 and isinstance(tm[0], Poly):
            total = total + tm[0]
        elif tm == ["e"]:
            total = total + Poly.sym(EPS)
        elif len(tm) == 3 and isinstance(tm[0], Poly) and tm[1:] == ["*", "e"]:
            total = total + tm[0] * Poly.sym(EPS)
        else:
            raise Violation("a number is printed in a form that is no sum of a number and a multiple of e: %s" % (txt,))
    d = total - v
    d0, d1 = d.split(EPS) if EPS in d.symbols() else (d, Poly.const(0))
    if not I.is_zero(d0) or not I.is_zero(d1):
        raise Violation("a number is printed as %s instead of %s" % (total, v))


def add_operations(ctx, prog, types, native):
    n = 0
    for f, pts, st in operations(prog, types):
        if not any(t in types for t in st):
            continue
        nm = short(f["id"])
        ctx.explore(nm, prog, rule(f, pts, st, False), native_numbers=native)
        n += 1
        if len(st) == 2 and st[0] == st[1] and f["name"] != "operator<<":
            ctx.explore(nm + " applied to itself", prog, rule(f, pts, st, True), native_numbers=native)
    return n


def short(i):
    return i.replace("std::basic_ostream<char, std::char_traits<char>>", "std::ostream").replace(
        "std::basic_string<char, std::char_traits<char>, std::allocator<char>>", "std::string")
