"""C07: ZeroDivisionError exactly when some (for a roll: this) outcome divides by zero."""
from .. import gen, impl, ref, rng
from ..core import Violation
from ..gen import CD, D, FATE, I, KD

ID = "C07"
BOUNDS = {
    "quick": "all expression trees with <= 2 operators, at least one of them //, over 9 leaves, and 3 operators over 2 leaves; programs "
    "dividing by variables (correlated and not); assignments nested in all expressions of <= 2 operators; wide divisor ranges with and without 0; programs of up to 5 lines with the division in every position asked for everything incl. all charts; each asked for distribution, dictionary, average, "
    "min, max, charts (selected) and rolled over all answers of the random source",
    "thorough": "as quick with 11 leaves for <= 2 operators and 4 leaves for 3 operators",
}
ASSUMPTIONS = []

LEAVES = [I(0), I(2), FATE, D(None, 3), CD(None, -2, 3), CD(None, (0, 0), 4), I(-1), ("bool", False), D(0, 6)]
MORE = [CD(None, -1, 0, (1, 3)), KD(2, ("F",), "k", 1)]
A, B = ("var", "a"), ("var", "b")
DIV = ["//"]


def with_division(size, leaves):
    for t in gen.trees(size, leaves):
        if gen.uses_op(t, "//"):
            yield t


def cases(tier):
    big = tier == "thorough"
    leaves = LEAVES + (MORE if big else [])
    for t in with_division(1, leaves):
        yield ((t,), True)
    for first in (FATE, D(None, 3), CD(None, -1, 1), CD(None, 0, 2), I(0), ("bin", "-", D(None, 2), D(None, 2))):
        a = ("let", "a", first)
        divisors = [
            A, ("bin", "+", A, ("bin", "==", A, I(0))), ("bin", "-", A, A), ("bin", "*", A, A), ("bin", "-", A, I(1)), ("not", A),
            ("mm", "MAX", A, I(1)), ("bin", "-", A, D(None, 2)), ("bin", "+", ("bin", "*", A, A), I(1)), ("abs", A),
            ("bin", "!=", A, A), ("bin", "==", A, A), ("mm", "MIN", A, ("bin", "-", I(0), A)),
        ]
        for d in divisors:
            for top in (I(1), A, D(None, 2), I(0), ("bin", "-", A, A)):
                q = ("bin", "//", top, d)
                yield ((a, q), True)
                yield ((a, ("let", "b", d), ("bin", "//", top, B)), False)
                yield ((a, ("let", "a", q), A), False)
                yield ((a, ("bin", "*", q, I(0))), False)
                yield ((a, ("mm", "MIN", q, I(0))), False)
                yield ((a, ("bin", "OR", I(1), ("par", q))), False)
    # every question, with the division in each line of a program
    for q in (("bin", "//", I(1), FATE), ("bin", "//", I(1), I(0)), ("bin", "//", I(1), CD(None, 1, -2)), ("bin", "+", I(1), ("par", ("bin", "//", A, ("bin", "-", A, A)))),
              ("mm", "MIN", I(0), ("bin", "//", D(None, 2), A)), ("let", "c", ("bin", "//", A, D(None, 2))), ("let", "c", ("bin", "//", A, D(0, 2)))):
        for rest in ((), (I(3),), (D(None, 2), ("let", "b", D(None, 2))), (A, I(1), ("bin", "+", A, D(None, 2)))):
            for i in range(len(rest) + 1):
                yield ((("let", "a", D(None, 2)),) + rest[:i] + (q,) + rest[i:], "every")
    for low, high in ((-9, 9), (1, 40), (-40, -1), (0, 30), (-30, 0)):
        for m in (None, 3):
            wide = CD(None, (low, high, m))
            yield ((("bin", "//", I(7), wide),), True)
            yield ((("bin", "//", wide, wide),), False)
            yield ((("bin", "//", I(7), ("bin", "-", wide, wide)),), False)
            yield ((("bin", "//", I(7), ("bin", "*", wide, I(2))),), False)
    for n in range(0, 30):
        yield ((("bin", "//", I(100), D(n, 2)),), False)
        yield ((("bin", "//", I(100), ("bin", "-", D(n, 2), I(n))),), False)
        yield ((("bin", "//", I(100), ("bin", "-", D(n, 2), I(n - 1))),), False)
        yield ((("bin", "//", I(100), ("dice", n, ("F",))),), False)
        yield ((("bin", "//", I(100), KD(n, ("n", 2), "k", 0)),), False)
        yield ((("bin", "//", I(100), KD(n, ("n", 2), "d", 5)),), False)
    for x in (9, 16, 18, 20, 25):
        for v in (10 ** x + 1, 1 - 10 ** x):
            for top in (I(v), D(None, 2), CD(None, v, 1)):
                for d in (I(v), ("bin", "-", I(v), I(v)), ("bin", "-", I(v), I(v - 1)), CD(None, v, -v), CD(None, v, 0), ("bin", "*", I(v), FATE),
                          ("bin", "-", CD(None, v, v + 1), I(v + 2)), ("bin", "-", CD(None, v, v + 1), I(v + 1)), ("bin", "//", I(v), I(v + 1))):
                    yield ((("bin", "//", top, d),), True)
    for n in range(2, 20):
        yield ((gen.chain("//", [I(100)] + [D(None, 2)] * n),), False)
        yield ((gen.chain("//", [I(100)] + [D(None, 2)] * n + [FATE]),), False)
        yield ((gen.chain("+", [D(None, 2)] * n + [("bin", "//", I(1), ("bin", "-", D(None, 2), I(1)))]),), False)
        yield ((gen.chain("*", [I(0)] * n + [("bin", "//", I(1), FATE)]),), False)
    # assignments inside the line (a dividend is evaluated before its divisor)
    for size in (1, 2):
        nested = [A, I(2), I(0), ("let", "a", I(2)), ("let", "a", I(0)), ("let", "a", ("bin", "+", A, I(1))), B, ("let", "b", ("bin", "-", A, I(1)))]
        for t in gen.trees(size, nested, ("//", "-", "==") if size == 2 else ("//",)):
            if gen.uses_op(t, "//") and not gen.order_matters(t):
                for first in (0, 1) if size == 1 or big else (1,):
                    yield ((("let", "a", I(first)), ("let", "b", I(1)), t), size == 1)
    for t in with_division(2, leaves):
        yield ((t,), False)
    for t in with_division(3, [FATE, CD(None, -2, 3)] + ([D(None, 2), I(0)] if big else [])):
        yield ((t,), False)


KINDS = ("get_probability_distributions", "get_probability_distributions_dict", "get_average", "min", "max")
CHARTS = ("get_histogram", "get_at_least_histogram", "get_at_most_histogram")


def check(case, ctx):
    lines, full = case
    joint = ref.program_law(lines)
    for texts in ref.forms(lines):
        judge(lines, texts, joint, full, ctx)


def judge(lines, texts, joint, full, ctx):
    bad = ref.ERR in joint
    ctx.state(tuple(texts))
    ctx.outcome((bad, len(joint)))
    ctx.count("programs that can divide by zero" if bad else "programs that cannot")
    kinds = KINDS + (CHARTS[:1] if full and bad else ())
    if not full:
        kinds = (KINDS[0], "max", "min")
    if full == "every":
        kinds = KINDS + CHARTS
    for kind in kinds:
        got = impl.outcome(getattr(impl.session(), kind), texts)
        ctx.step(len(texts))
        ctx.trace()
        if bad and got != ("err", "ZeroDivisionError"):
            raise Violation("%s of %r: a division by zero is possible, but got %r" % (kind, texts, got), program=texts)
        if not bad and got[0] == "err":
            raise Violation("%s of %r: no division by zero is possible, but got %r" % (kind, texts, got), program=texts)
    if sum(joint.values()) > 400:
        return
    # rolls: the error on exactly the worlds that divide by zero
    has_and = any(gen.uses_op(x, "AND") for x in lines)
    want = ref.program_law(lines, has_and)

    def run():
        got = impl.outcome(impl.session().roll, texts)
        return got[1]["stdout"] if got[0] == "ok" else got[1]

    odds = {}
    rng.CONTROL.raw = False
    before = rng.CONTROL.draws
    try:
        for weight, out in rng.explore(run):
            odds[out] = odds.get(out, 0) + weight
            ctx.step()
            ctx.trace()
    except rng.TooWide:
        return
    except rng.Diverged as e:
        raise Violation("rolling %r: %s" % (texts, e), program=texts)
    if rng.CONTROL.raw or (before == rng.CONTROL.draws and len(want) > 1):
        ctx.count("uncontrolled random source")
        return
    p = odds.get("ZeroDivisionError", 0)
    laws = [want] if not has_and else [want, joint]
    if not any(p * sum(w.values()) == w.get(ref.ERR, 0) for w in laws):
        raise Violation("rolling %r raises ZeroDivisionError with probability %s, should be %s of %s" % (
            texts, p, want.get(ref.ERR, 0), sum(want.values())), program=texts)
    other = [k for k in odds if isinstance(k, str) and k != "ZeroDivisionError"]
    if other:
        raise Violation("rolling %r raises %s" % (texts, other), program=texts)
    ctx.sample({"program": texts, "can divide by zero": bad, "probability of the error in a roll": str(p)}, 9001)
