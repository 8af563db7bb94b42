"""C12: theory atoms are turned into equivalent linear constraints."""
from props.theory import scenarios


def run(ctx):
    ctx.rule("evaluate_theory is interpreted for theory atoms whose terms are chosen lazily (all shapes up to the given depth, "
             "symbolic numbers). For all values of the conditions of elements, the resulting inequalities (after eliminating "
             "auxiliary variables) and objective have to be identical as linear forms to the meaning of the atoms.")
    ctx.assume("theory terms are nested at most two operators deep; deeper terms are composed by the same recursion")
    scenarios(ctx, ctx.prog("parsing", "problem"), False)
