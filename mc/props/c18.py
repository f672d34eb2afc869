"""C18: a parsed expression can be queried any number of times; its printed form means the same."""
from itertools import product

from .. import gen, impl, lang, ref, session
from ..core import Violation
from ..gen import CD, D, FATE, I, KD

ID = "C18"
BOUNDS = {
    "quick": "43 parsed expressions (every node kind, with and without variables, assignments): all sequences of 3 steps out of 7 queries and 2 reassignments of the variables by "
    "others, every answer of the random source, two expressions parsed together interleaved in 4 steps; printed form and contained variables of all expressions with <= 2 "
    "operators over 8 leaves (3 of them variables) and of all unparenthesised chains of 3 operators over 2 operand lists; 67 unusual spellings (spacing, leading zeros, large numbers, long chains, deep nesting) in 9 contexts; every expression as part of 8 kinds of larger ones",
    "thorough": "sequences of 4 steps; printed forms over 14 leaves, chains of 4 operators",
}
ASSUMPTIONS = ["the state given to parse() is the one the interpreter uses", "AND of values other than 0 and 1 is left to C04 (KF-AND)"]
CHUNK = 1

TEXTS = [
    "5", "-3", "True", "d4", "2d2", "dF", "d[1,5*2]", "3d2k2", "3d2d1", "2d2k5", "2d2d2", "2d2k0", "a", "(a)", "a + b", "a - d2", "b * a", "b // a", "a // (b - b + 2)", "a == b", "a < d2", "a OR d2",
    "!a", "!(a - 2)", "ABS(a - b)", "MAX(a, d2)", "MIN(a, b)", "a - a", "MAX(a, b) - MIN(a, b)", "VAR c = a + d2", "VAR a = d2", "VAR a = a + 1", "VAR b = a", "zz", "a + zz", "a // (d2 - 1)",
    "(VAR a = d2)", "MAX((VAR a = d2), 3)", "!(VAR c = a)", "1 + (VAR a = dF)", "ABS(VAR a = dF)", "a + (VAR c = b)", "((VAR b = a + d2))",
]
QUERIES = ["roll", "dists", "max", "min", "cost", "text", "names"]
OUTSIDE = [("set", "VAR a = d2"), ("set", "VAR b = a * 2"), ("rolled", "VAR a = 3")]
STEPS = QUERIES + OUTSIDE[:2]
METHODS = {"roll": "roll", "dists": "get_probability_distribution", "max": "max", "min": "min", "cost": "estimated_cost"}
LEAVES = [("var", "a"), D(None, 3), ("var", "b"), I(-3), ("var", "long_name"), KD(2, ("n", 3), "k", 1), FATE, ("bool", True)]
MORE = [CD(None, (1, 3, 2), (-7, None, 2)), I(0), D(2, 2), ("var", "a_b"), KD(3, ("F",), "d", 1), CD(2, -1, 4)]
# spellings: spaces inside brackets, leading zeros, zero dice, long lists, large numbers, unusual spacing, deep nesting, long chains
WRITTEN = [
    "d[ 1 , 2 ]", "2d[1,\t-3*2 ,]", "0d6", "1d6", "d006", "003d02", "0d[5]", "03d[01,-02*03]k02", "3d[ 1-3, 7 ]d1", "d[3-1]", "d[-1--4*2]", "2d4k2", "2d4k9", "2d4d0", "2d4d2", "2d4k0", "d%", "2dF", "1dFk1",
    "d[%s]" % ",".join(map(str, range(40))), "d[1*1000000]", "123456789012345678901234567890", "-007", "True", "False", "a\t+\tb", "a\n-b", "( ( (a) ) )", "!!a", "! ! !a",
    "ABS(ABS(a))", "MAX(MIN(a,b),MAX(b,MIN(a,3)))", "a - b - a - b", "a - (b - (a - b))", "(((a - b) - a) - b)", "a == b == a", "a == (b == a)", "!(a == b) + 1", "!a + 1", "(!a) + 1", "a * -2", "a - -2",
    " + ".join(["a"] * 12), " - ".join(["b", "1"] * 8), " * ".join(["2"] * 30), "(" * 30 + "a" + ")" * 30, "!" * 21 + "a", "ABS(" * 12 + "a - b" + ")" * 12,
    "MAX(d6, d6)", "MIN(a, a)", "a - a", "MAX(1, 1)", "d2 == d2", "dF OR dF", "a // 2 * 2", "a * (2 // 2)", "(a * 2) // 2", "a_b + long_name", "a AND b", "long_name",
]
CHAIN = [("a", "d2", "b", "3", "dF"), ("2", "b", "a", "d3", "b")]
OPS = ["+", "-", "*", "//", "==", "!=", "<=", "<", ">=", ">", "AND", "OR"]


def setup(tier):
    impl.parser()


def cases(tier):
    big = tier == "thorough"
    for i in range(len(TEXTS)):
        yield ("again", i, 2)
    for i in range(len(TEXTS)):
        for first in range(len(STEPS)):
            yield ("steps", i, first, 4 if big else 3)
    for i, j in product(range(12, len(TEXTS)), repeat=2):
        yield ("two", i, j)
    for i in range(len(TEXTS)):
        yield ("compose", i)
    for i in range(len(WRITTEN)):
        yield ("written", i)
    for e in gen.trees(0, LEAVES + MORE):
        yield ("print", e)
    for e in gen.trees(1, LEAVES + MORE):
        yield ("print", e)
    for lists in range(2):
        for ops in product(range(len(OPS)), repeat=2):
            yield ("chains", lists, ops, 4 if big else 3)
    leaves = LEAVES + (MORE if big else [])
    for e in gen.trees(1, leaves, gen.OPS, gen.UN):
        yield ("over", e, big)


def start():
    """A state in which a and b are assigned for every kind of query, with the interpreter's and the model's view of it."""
    state = impl.parser().parse("0")[1]
    interp = impl.Interpreter(impl.parser(), starting_state=state)
    model = session.Model()
    for kind, lines in (("max", ("VAR a = d[1,3]",)), ("max", ("VAR b = a + 1",))):
        got = session.call(interp, kind, list(lines))[1]
        want = session.step(model, kind, lines, got)
        if got != want:
            raise Violation("preparing: %s%r gives %r, should give %r" % (kind, lines, got, want))
    return state, interp, model


def check(case, ctx):
    mode = case[0]
    if mode == "again":
        for q in QUERIES:
            run(TEXTS[case[1]], (q,) * 3, ctx)
            if q != "roll":
                for other in QUERIES[1:] + OUTSIDE:
                    run(TEXTS[case[1]], (q, other) * 12, ctx)
    elif mode == "steps":
        _, i, first, depth = case
        for rest in product(STEPS, repeat=depth - 1):
            run(TEXTS[i], (STEPS[first],) + rest, ctx)
    elif mode == "two":
        if hidden(TEXTS[case[1]]):
            return
        for order in product(((0, "roll"), (0, "dists"), (0, "max"), (1, "roll"), (1, "dists"), (1, "cost")), repeat=2):
            run_two(TEXTS[case[1]], TEXTS[case[2]], order, ctx)
    elif mode == "compose":
        compose(TEXTS[case[1]], ctx)
    elif mode == "chains":
        _, lists, ops, n = case
        for rest in product(range(len(OPS)), repeat=n - 2):
            operators = [OPS[i] for i in tuple(ops) + rest]
            text = CHAIN[lists][0]
            for o, x in zip(operators, CHAIN[lists][1:]):
                text += " %s %s" % (o, x)
            printed(text, ctx)
    elif mode == "written":
        text = WRITTEN[case[1]]
        for shape in ("%s", "(%s)", "MAX(%s, 2)", "MIN(a,%s)", "! %s", "3 + %s", "%s - a", "ABS( %s )", "(%s)*(%s)"):
            printed(shape.replace("%s", text), ctx)
    elif mode == "print":
        both(case[1], ctx)
    else:
        inner = case[1]
        for u in gen.UN:
            both((u, inner), ctx)
        others = LEAVES if case[2] else LEAVES[:4]
        for op in gen.OPS:
            for leaf in others:
                both(gen.binary(op, inner, leaf), ctx)
                both(gen.binary(op, leaf, inner), ctx)
    ctx.sample({"case": case}, 301)


def both(e, ctx):
    for (text,) in ref.forms([e]):
        printed(text, ctx)


def reads(e):
    """The names an expression reads; an assignment, also as a part, counts as reading none."""
    if e[0] == "var":
        return {e[1]}
    out = set()
    if e[0] in ("bin", "not", "abs", "mm", "par"):
        for x in e[1:]:
            if isinstance(x, tuple) and x and isinstance(x[0], str):
                out |= reads(x)
    return out


def ask(expr, query):
    if query == "text":
        return ("ok", str(expr))
    if query == "names":
        return ("ok", set(expr.get_contained_variables()))
    out = impl.outcome(getattr(expr, METHODS[query]))
    if query == "dists" and out[0] == "ok":
        return ("ok", out[1].get_result_map())
    return out


def expected(model, text, query, got, interp):
    """The model's answer to a query on the expression; advances the model where the expression assigns."""
    if query in ("text", "names"):
        return None
    if query == "roll":
        read = interp.roll(["0"])
        tree = lang.parse(text)
        full = ("ok", dict({k: v for k, v in read.items() if k != "stdout"}, stdout=got[1])) if got[0] == "ok" else got
        want = session.step(model, "roll", (text,), full, read)
        return ("ok", want[1]["stdout"]) if want[0] == "ok" else either(model, tree, got, want)
    want = session.step(model, query, (text,), got)
    if want[0] == "err":
        return either(model, lang.parse(text), got, want)
    if query == "cost":
        return want
    return ("ok", want[1]["stdout"])


def either(model, tree, got, want):
    both = {"KeyError", "ZeroDivisionError"}
    if got[0] == "err" and {got[1], want[1]} == both and gen.uses_op(tree, "//"):
        return got
    return want


def same(query, got, want):
    if query == "dists" and got[0] == "ok" and want[0] == "ok":
        return ref.same_law(got[1], want[1])
    return got == want


def outside(interp, model, step):
    kind = "max" if step[0] == "set" else "roll"
    got = session.call(interp, kind, [step[1]])[1]
    want = session.step(model, kind, (step[1],), got)
    if not session.agree(kind, got, want):
        raise Violation("%s(%r) gives %r, should give %r" % (kind, step[1], got, want))


def hidden(text):
    return "VAR" in text and not text.startswith(("VAR", "(", "MAX"))


def run(text, steps, ctx):
    if hidden(text) and ("max" in steps or "min" in steps):
        return  # where a min or max inside a larger expression leaves a nested assignment is not documented

    def once():
        state, interp, model = start()
        expr = impl.parser().parse(text, state=state)[0]
        names = None
        shown = None
        for q in steps:
            if isinstance(q, tuple):
                outside(interp, model, q)
                continue
            got = ask(expr, q)
            where = "%s queried %r: %s" % (text, list(steps), q)
            if q == "text":
                shown = shown or got
                if got != shown:
                    raise Violation("%s is %r, was %r" % (where, got, shown), text=text)
            elif q == "names":
                names = names or got
                want = reads(lang.parse(text))
                if got[1] != want:
                    raise Violation("%s are %r, should be %r" % (where, got[1], want), text=text)
            else:
                want = expected(model, text, q, got, interp)
                if not same(q, got, want):
                    raise Violation("%s is %r, should be %r" % (where, got, want), text=text)
            ctx.step()
            ctx.state(text, model.key())
            ctx.outcome(repr(got)[:200])
        remembered(interp, model, "%s queried %r" % (text, list(steps)))

    ctx.trace(session.explore(once, 300))


def builders():
    """Expressions built around parsed ones, through the constructors."""
    from python_dice.src.expression.abs_expression import AbsExpression
    from python_dice.src.expression.add_expression import AddExpression
    from python_dice.src.expression.binary_operator_expression import BinaryOperatorExpression
    from python_dice.src.expression.integer_division_expression import IntegerDivisionExpression
    from python_dice.src.expression.minmax_expression import MinMaxExpression
    from python_dice.src.expression.multiply_expression import MultiplyExpression
    from python_dice.src.expression.not_expression import NotExpression
    from python_dice.src.expression.subtract_expression import SubtractExpression

    return [
        AddExpression, SubtractExpression, MultiplyExpression, IntegerDivisionExpression, lambda x, y: BinaryOperatorExpression("<", x, y),
        lambda x, y: BinaryOperatorExpression("AND", x, y), lambda x, y: MinMaxExpression("MAX", x, y), lambda x, y: AddExpression(AbsExpression(x), NotExpression(y)),
    ]


def compose(text, ctx):
    """Asking an expression never changes its parts: a part answers as before."""
    for build in builders():
        for other in ("b", "a", "d2 - a", "MAX(a, b)", "3"):
            for turned in (False, True):
                for question in ("names", "text", "cost", "dists", "max"):
                    state, _, _ = start()
                    part, mate = impl.parser().parse(text, state=state)[0], impl.parser().parse(other, state=state)[0]
                    ask(build(mate, part) if turned else build(part, mate), question)
                    for expr, shown in ((part, text), (mate, other)):
                        want = reads(lang.parse(shown))
                        fresh = impl.parser().parse(shown, state=state)[0]
                        if ask(expr, "names") != ("ok", want) or ask(expr, "text") != ask(fresh, "text"):
                            raise Violation("%s, part of an expression asked for its %s, now contains %r and prints as %s" % (
                                shown, question, ask(expr, "names")[1], ask(expr, "text")[1]), text=text)
                        if "VAR" not in shown and not same("dists", ask(expr, "dists"), ask(fresh, "dists")):
                            raise Violation("%s, part of an expression asked for its %s, has another distribution" % (shown, question), text=text)
                    ctx.step()
    ctx.trace()
    ctx.state("compose", text)


def remembered(interp, model, where):
    got = interp.roll(["0"])
    want = dict(model.scalars, stdout=0)
    if got != want:
        raise Violation("%s leaves the variables %r, should be %r" % (where, got, want))
    got = {n: d.get_result_map() for n, d in interp.get_probability_distributions(["0"]).items()}
    want = dict(model.laws(), stdout={0: 1})
    if set(got) != set(want) or not all(ref.same_law(got[n], want[n]) for n in want):
        raise Violation("%s leaves the distributions %r, should be %r" % (where, got, want))


def run_two(one, two, order, ctx):
    """Two expressions parsed one after the other from the same state, queried alternately (each query twice)."""

    def once():
        state, interp, model = start()
        exprs = [impl.parser().parse(t, state=state)[0] for t in (one, two)]
        texts = (one, two)
        for which, q in order + order[:1]:
            got = ask(exprs[which], q)
            want = expected(model, texts[which], q, got, interp)
            if not same(q, got, want):
                raise Violation("%r and %r queried %r: %s of %r is %r, should be %r" % (one, two, order, q, texts[which], got, want))
            ctx.step()
        remembered(interp, model, "%r and %r queried %r" % (one, two, order))

    ctx.trace(session.explore(once, 60))
    ctx.state(one, two, order)


_STATE = []


def printed(text, ctx):
    if not _STATE:
        state = impl.parser().parse("0")[1]
        interp = impl.Interpreter(impl.parser(), starting_state=state)
        interp.max(["VAR a = d[1,3]", "VAR b = dF", "VAR long_name = 4 - a", "VAR a_b = d2"])
        _STATE.append(state)
    tree = lang.parse(text)
    parse = impl.parser().parse
    expr = parse(text, state=_STATE[0])[0]
    names = set(expr.get_contained_variables())
    if names != reads(tree):
        raise Violation("the contained variables of %s are %r, should be %r" % (text, sorted(names), sorted(reads(tree))), text=text)
    shown = str(expr)
    back = impl.outcome(parse, shown, _STATE[0])
    if back[0] != "ok":
        raise Violation("%s prints as %r, which is not accepted" % (text, shown), text=text)
    again = back[1][0]
    one = ask(expr, "dists")
    two = ask(again, "dists")
    if not same("dists", one, two):
        raise Violation("%s prints as %r: distribution %r, of the printed form %r" % (text, shown, one, two), text=text)
    if str(expr) != shown or set(again.get_contained_variables()) != names:
        raise Violation("%s prints as %r, then as %r; variables of the printed form %r" % (text, shown, str(expr), again.get_contained_variables()), text=text)
    ctx.step(4)
    ctx.trace()
    ctx.state("printed", text)
    ctx.outcome(shown)
