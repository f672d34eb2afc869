"""C14: the estimated cost follows its rule and evaluates nothing."""
from itertools import product

from .. import gen, impl, lang, ref, rng, session
from ..core import Violation
from ..gen import CD, D, FATE, I, KD, PCT

ID = "C14"
BOUNDS = {
    "quick": "all expressions with <= 2 operators over 8 leaves (5 for three operators' worth of nesting); all keep/drop terms with <= 6 dice, numbers 0..7, 5 kinds of die; ! over "
    "every operand cost 0..1200 (custom dice of up to 100 faces with gaps, repeats and overlaps) and around twelve sizes to 10^400 and deep nesting; all programs of <= 3 lines over 14 lines, and of 4 lines over 7; 40 programs with up to 10^30 dice",
    "thorough": "all expressions with <= 2 operators over 16 leaves, 3 operators over 3; keep/drop to 10 dice; programs of 4 lines over 14",
}
ASSUMPTIONS = ["promptly: within 20 s (the answers take milliseconds; evaluating these programs would take years)", "dice with at most 10^5 faces"]

LEAVES = [I(5), D(None, 6), KD(4, ("n", 6), "k", 3), ("bool", True), KD(3, ("n", 4), "d", 1), CD(None, (1, 3, 2), 2, 9), D(3, 2), FATE]
MORE = [PCT, I(-3), D(0, 6), KD(2, ("n", 6), "k", 2), KD(2, ("n", 6), "d", 2), KD(2, ("n", 6), "k", 0), CD(2, -1, (-1, None, 3), (4, None, 0)), ("bool", False)]
SIDES = [("n", 6), ("F",), ("%",), ("c", ((1, 3, 2), (2, None, None))), ("c", ((5, None, 4),))]
LINES = [
    "VAR a = d6", "a", "VAR b = a + a", "VAR a = 4d6k3 * a", "b * d4", "VAR c = !b", "VAR a = 3", "MAX(a, b)", "VAR b = VAR a = d4", "1 // 0", "!(a == b)", "ABS(c)", "VAR a = a",
    "(VAR b = 2) + 3",
]
HUGE = [
    "99999999d6", "1000000d%", "50000d%k25000", "999999999999d[1-9*5,3]", "10000000d20 * 10000000d20", "9999999d6 // 0", "VAR a = 99999999d6", "!99999999d6",
    "ABS(88888888dF)", "MAX(9999999d6, 8888888d8)", "777777d6d5", "100000000000000000000000000000d2", "1d100000", "3000d3000 == 4000d4000", "(5000000d6) - 1", "9999999d6k9999998",
    "9999999d6k9999999", "9999999d6d9999999", "9999999d6k0", "d[1*99999999]", "99d99 * 99d99 * 99d99 * 99d99 * 99d99", "20000d6 AND 20000d6", "1000000d6 OR 1", "MIN(1000000d6k500000, 1)",
]

# one line repeated, or some lines in turn
LONG = [
    ("d1",), ("1",), ("d6",), ("0d6",), ("VAR a = d1", "a"), ("VAR a = 2", "VAR a = a + a", "VAR a = 1", "d1"), ("d1", "d6", "2d6k1", "!d1"), ("True", "d1", "MAX(d1, d2)", "0d6", "1000d6"),
    ("VAR a = d6", "VAR b = a", "a * b"), ("d[1*0,2]", "d[5]", "3d[5]k2", "(d1)", "ABS(d1)"), ("4d6k3", "4d6d4", "4d6k0", "4d6k9"),
]


def cases(tier):
    big = tier == "thorough"
    for e in LEAVES + MORE:
        yield ("expr", e)
    for t in HUGE:
        yield ("huge", (t,))
    for i in range(0, len(HUGE) - 1, 2):
        yield ("huge", (HUGE[i], "VAR x = " + HUGE[i + 1] if "VAR" not in HUGE[i + 1] else HUGE[i + 1], "5"))
    yield ("huge", ("VAR x = 99999999d6", "x * x", "VAR y = x + x", "y // x"))
    for n, m in product(range(0, 11 if big else 7), range(0, 12 if big else 8)):
        for s in SIDES:
            for k in "kd":
                yield ("expr", KD(n, s, k, m))
                yield ("expr", ("not", KD(n, s, k, m)))
            yield ("expr", ("dice", n, s))
    for c in range(0, 1201):
        yield ("expr", ("not", D(c, 1)))
    for c in (10 ** 4, 10 ** 6 + 1, 10 ** 9, 10 ** 12, 10 ** 15, 2 ** 53, 10 ** 16, 2 ** 64, 10 ** 20, 10 ** 30, 10 ** 100, 10 ** 400):
        for delta in range(-12, 13):
            yield ("expr", ("not", D(c + delta, 1)))
        for op in gen.OPS:
            yield ("expr", gen.binary(op, D(c - 1, 6), D(c + 1, 4)))
            yield ("expr", ("not", gen.binary(op, D(c - 1, 6), D(c + 1, 4))))
        yield ("expr", KD(c, ("n", 6), "k", c - 1))
        yield ("expr", ("not", KD(c, ("n", 6), "d", 3)))
        yield ("expr", ("let", "a", ("not", ("not", D(c + 7, 6)))))
    for n in (1, 2, 3, 5, 8, 12, 13, 16, 20, 33, 64, 65, 100):
        for step in (1, 2, 7, -3):
            for weight in (None, 2):
                faces = [(v * step - 4, None, weight if v % 2 else None) for v in range(n)]
                for count in (None, 2, 7):
                    yield ("expr", ("dice", count, ("c", tuple(faces))))
                    yield ("expr", ("not", ("dice", count, ("c", tuple(faces)))))
                for kind in "kd":
                    yield ("expr", KD(5, ("c", tuple(faces)), kind, 2))
        yield ("expr", ("dice", 3, ("c", ((1, n, None), (2 * n, 3 * n, 2), (-n, None, None)))))
        yield ("expr", ("dice", 3, ("c", ((1, n, None), (1, n, 2), (n // 2 + 1, 2 * n, None)))))
    for depth in (2, 3, 10, 40):
        for kind in ("not", "abs", "par"):
            for leaf in (I(1), D(7, 1), D(3, 6)):
                yield ("expr", gen.deep(kind, depth, leaf))
    for n in (5, 7, 8, 9, 12, 16, 17, 32, 33, 50, 64, 65, 100, 101, 128, 200, 257, 500) + ((1000, 2000) if big else ()):
        for step in range(len(LONG)):
            yield ("long", n, step)
    for n in range(1, 4):
        for first in range(len(LINES)):
            yield ("programs", n, (first,), 14)
    for first in range(14 if big else 7):
        for second in range(14 if big else 7):
            yield ("programs", 4, (first, second), 14 if big else 7)
    yield from (("expr", e) for e in gen.trees(1, LEAVES + MORE))
    yield from (("expr", e) for e in gen.trees(2, LEAVES + (MORE if big else [])))
    if big:
        yield from (("expr", e) for e in gen.trees(3, LEAVES[:3], gen.OPS, gen.UN))


def watched(call, what):
    """Runs a cost query; any draw from the random source is a violation."""
    before = rng.CONTROL.draws
    rng.CONTROL.start([])
    try:
        out = impl.outcome(call)
    finally:
        rng.CONTROL.stop()
    if rng.CONTROL.draws != before:
        raise Violation("%s rolls dice" % what)
    return out


def check(case, ctx):
    if case[0] == "expr":
        want = ref.cost(case[1], {})
        for texts in ref.forms([case[1]]):
            one(tuple(texts), ("ok", want), ctx)
    elif case[0] == "huge":
        lines = case[1]
        want = session.step(session.Model(), "cost", lines, None)
        interp = impl.session()
        got = impl.bounded(lambda: interp.get_estimated_cost(list(lines)), 20)
        if got is None:
            raise Violation("the estimated cost of %r is not answered within 20 s" % (list(lines),), program=lines)
        compare(got, want, lines, ctx)
    elif case[0] == "long":
        _, n, which = case
        long(tuple(LONG[which][i % len(LONG[which])] for i in range(n)), ctx)
    else:
        _, n, head, width = case
        for rest in product(LINES[:width], repeat=n - len(head)):
            if n < len(head):
                break
            lines = tuple(LINES[i] for i in head) + rest
            program(lines, ctx)
    ctx.sample({"case": case}, 5003)


def long(lines, ctx):
    total = session.step(session.Model(), "cost", lines, None)
    together, apart = impl.session(), impl.session()
    compare(watched(lambda: together.get_estimated_cost(list(lines)), "the cost of %r" % (list(lines),)), total, lines, ctx)
    model = session.Model()
    for t in lines:
        compare(watched(lambda: apart.get_estimated_cost([t]), "the cost of %r" % t), session.step(model, "cost", (t,), None), (t,), ctx)


def compare(got, want, lines, ctx):
    if got != want or (got[0] == "ok" and not isinstance(got[1], int)):
        raise Violation("the estimated cost of %r is %r, should be %r" % (list(lines), got, want), program=lines)
    ctx.step(len(lines))
    ctx.trace()
    ctx.state(lines)
    ctx.outcome(want)


def one(lines, want, ctx):
    interp = impl.session()
    got = watched(lambda: interp.get_estimated_cost(list(lines)), "the cost of %r" % (list(lines),))
    compare(got, want, lines, ctx)
    again = watched(lambda: interp.get_estimated_cost(list(lines)), "the cost of %r" % (list(lines),))
    compare(again, want, lines, ctx)


def program(lines, ctx):
    model = session.Model()
    want = session.step(model, "cost", lines, None)
    interp = impl.session()
    # distributions assigned before stay as they are
    interp.get_probability_distributions(["VAR a = dF", "VAR b = a * 2"])
    held = {n: d.get_result_map() for n, d in interp.get_probability_distributions(["0"]).items()}
    got = watched(lambda: interp.get_estimated_cost(list(lines)), "the cost of %r" % (list(lines),))
    compare(got, want, lines, ctx)
    now = {n: d.get_result_map() for n, d in interp.get_probability_distributions(["0"]).items()}
    if now != held:
        raise Violation("the cost of %r changes the distributions from %r to %r" % (list(lines), held, now), program=lines)
    # the same lines one per call
    apart = impl.session()
    total, err = 0, None
    for t in lines:
        r = watched(lambda: apart.get_estimated_cost([t]), "the cost of %r" % t)
        if r[0] == "err":
            err = r
            break
        total += r[1]
    if (err or ("ok", total)) != want:
        raise Violation("the costs of %r asked line by line give %r, should give %r" % (list(lines), err or total, want), program=lines)


_ = lang
