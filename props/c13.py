"""C13: ill-formed theory atoms are rejected."""
from props.theory import scenarios


def run(ctx):
    ctx.rule("evaluate_theory is interpreted for theory atoms whose terms are chosen lazily; each atom without a meaning as a "
             "linear constraint (products of variables, division by zero, missing guards, intervals outside domains, "
             "ill-formed differences, sets, constants in objectives, ...) has to be rejected with an error.")
    ctx.assume("theory terms are nested at most two operators deep; deeper terms are composed by the same recursion")
    scenarios(ctx, ctx.prog("parsing", "problem"), True)
