"""C23: the registered grammar admits exactly the documented theory language."""
import re

from absstate import *  # noqa: F401,F403
from interp import Cell, Ptr, Undecided, Violation
from props.c15 import func, new
from props.c25 import Reg

TOKEN = re.compile(r"\s+|%[^\n]*|(#theory|[A-Za-z_][A-Za-z_0-9']*|&|\d+|[/!<=>+\-*\\?&@|:;~^.]+|[(){},])")


def tokens(text):
    out, i = [], 0
    while i < len(text):
        m = TOKEN.match(text, i)
        if not m:
            raise Undecided("character %r in a theory definition" % text[i])
        i = m.end()
        if m.group(1):
            t = m.group(1)
            if t[0] in ":;/&." and len(t) > 1 and t not in ("..",) and set(t) <= set(":;./&"):
                out.extend(t)
            elif t.endswith(".") and t != ".." and len(t) > 1:
                raise Undecided("token " + t)
            else:
                out.append(t)
    return out


class Grammar:
    """A theory definition: terms {name: {(op, arity): (priority, associativity)}}, atoms {(name, arity): (term, ops, guard, type)}."""

    def __init__(self, text):
        self.t, self.i = tokens(text), 0
        self.terms, self.atoms, self.names = {}, {}, []
        while self.i < len(self.t):
            self.theory()

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def eat(self, x=None):
        t = self.peek()
        if t is None or x is not None and t != x:
            raise Undecided("theory definition: expected %s but got %s" % (x, t))
        self.i += 1
        return t

    def theory(self):
        self.eat("#theory")
        self.names.append(self.eat())
        self.eat("{")
        while self.peek() != "}":
            if self.peek() == "&":
                self.atom()
            else:
                self.term()
            if self.peek() != "}":
                self.eat(";")
        self.eat("}")
        self.eat(".")

    def term(self):
        name = self.eat()
        self.eat("{")
        ops = {}
        while self.peek() != "}":
            op = self.eat()
            self.eat(":")
            prio = int(self.eat())
            self.eat(",")
            ar = self.eat()
            assoc = None
            if ar == "binary":
                self.eat(",")
                assoc = self.eat()
            if (op, ar) in ops:
                raise Undecided("operator defined twice")
            ops[op, ar] = (prio, assoc)
            if self.peek() != "}":
                self.eat(";")
        self.eat("}")
        if name in self.terms:
            raise Undecided("term defined twice")
        self.terms[name] = ops

    def atom(self):
        self.eat("&")
        name = self.eat()
        self.eat("/")
        ar = int(self.eat())
        self.eat(":")
        term = self.eat()
        self.eat(",")
        ops, guard = (), None
        if self.peek() == "{":
            self.eat()
            ops = []
            while self.peek() != "}":
                ops.append(self.eat())
                if self.peek() == ",":
                    self.eat()
            self.eat("}")
            self.eat(",")
            guard = self.eat()
            self.eat(",")
        typ = self.eat()
        if (name, ar) in self.atoms:
            raise Undecided("atom defined twice")
        self.atoms[name, ar] = (term, tuple(ops), guard, typ)


ARITH = {("+", "binary"), ("-", "binary"), ("*", "binary"), ("/", "binary"), ("-", "unary")}


def check_term(what, ops, interval):
    want = ARITH | ({("..", "binary")} if interval else set())
    for o in sorted(want - set(ops)):
        raise Violation("%s: operator %s (%s) of the documented language is not admitted" % (what, *o))
    for o in sorted(set(ops) - want):
        raise Violation("%s: operator %s (%s), which has no meaning in the theory, is admitted" % (what, *o))
    p = {o: v[0] for o, v in ops.items()}
    add, mul = p["+", "binary"], p["*", "binary"]
    if p["-", "binary"] != add or p["/", "binary"] != mul:
        raise Violation("%s: %s do not bind equally strong" % (what, "+ and -" if p["-", "binary"] != add else "* and /"))
    if not add < mul:
        raise Violation("%s: * and / do not bind stronger than + and -" % what)
    if not add < p["-", "unary"]:
        raise Violation("%s: the unary minus does not bind stronger than + and -" % what)
    if interval and not p["..", "binary"] < add:
        raise Violation("%s: arithmetic operators do not bind stronger than .." % what)
    for o in ("+", "-", "*", "/"):
        if ops[o, "binary"][1] != "left":
            raise Violation("%s: operator %s is not left associative" % (what, o))


def run(ctx):
    prog = ctx.prog("clingo-lpx", "solving", "problem")
    ctx.rule("clingolpx_register is interpreted in both modes; the theory definitions added to the control object are parsed. "
             "Atoms, places, guards, relations, operators, relative priorities and associativity have to be those of the "
             "documented language, with strict relations in strict mode only.")
    ctx.assume("theory definitions have the syntax and meaning described in the manual of gringo: higher priorities bind stronger")

    def mode(strict, aspect):
        def f(I):
            api = Reg(I)
            th, p = new(I)
            th.set("strict", strict)
            r = I.rv(I.call_function(func(prog, "clingolpx_register"), None, [p, Ptr(Cell("control"))]))
            if r is not True:
                raise Violation("registering the theory fails")
            text = "\n".join(x[5] for x in api.log if x[0] == "add")
            g = Grammar(text)
            aspect(g, strict)
        return f

    def atoms(g, strict):
        rel = {"<=", "=", ">="} | ({"<", ">"} if strict else set())
        want = {("minimize", 0): (None, "directive"), ("maximize", 0): (None, "directive"), ("sum", 0): (rel, "head"),
                ("diff", 0): (rel, "head"), ("dom", 0): ({"="}, "head")}
        for a in want:
            if a not in g.atoms:
                raise Violation("&%s/%d is not admitted" % a)
        for a in g.atoms:
            if a not in want:
                raise Violation("&%s/%d, which has no meaning in the theory, is admitted" % a)
            term, ops, guard, typ = g.atoms[a]
            r, place = want[a]
            if typ != place:
                raise Violation("&%s is admitted as %s although it only has a meaning as %s" % (a[0], typ, place))
            if r is None:
                if guard is not None:
                    raise Violation("a guard, which has no meaning, is admitted for objective &%s" % a[0])
                continue
            if guard is None:
                raise Violation("&%s has no guard" % a[0])
            for o in sorted(r - set(ops)):
                raise Violation("relation %s is not admitted for &%s in %s mode" % (o, a[0], "strict" if strict else "standard"))
            for o in sorted(set(ops) - r):
                raise Violation("relation %s is admitted for &%s in %s mode" % (o, a[0], "strict" if strict else "standard"))

    def terms(g, strict):
        for (a, _), (term, ops, guard, typ) in g.atoms.items():
            if a not in ("sum", "diff", "dom", "minimize", "maximize"):
                continue
            for w, t in (("elements", term), ("guard", guard)):
                if t is None:
                    continue
                if t not in g.terms:
                    raise Violation("term %s of &%s is not defined" % (t, a))
                # intervals are rejected when evaluating other terms, so they only need to be admitted in the elements of domains
                iv = (("..", "binary") in g.terms[t]) if a == "dom" and w == "guard" else a == "dom"
                check_term("&%s, %s" % (a, w), g.terms[t], iv)
    for strict in (False, True):
        m = "strict" if strict else "standard"
        ctx.explore("atoms, guards and places (%s mode)" % m, prog, mode(strict, atoms))
        ctx.explore("operators and priorities (%s mode)" % m, prog, mode(strict, terms))
