"""C01: distributions of variable-free expressions are exact."""
from .. import gen, impl, ref
from ..core import Violation
from ..gen import CD, D, FATE, I, KD

ID = "C01"
BOUNDS = {
    "quick": "all expression trees with <= 2 operators over 8 leaves and all with 3 operators over 2 leaves (14 "
    "two-operand operators, !, ABS); axis sweeps: number of dice 0..120 and to 520, faces 1..300, weights to 10^310, chains of 2..40 terms per "
    "operator, nesting to 60, integers to 10^30, operands of 1 to 130 outcomes under every operator, of up to 1030 outcomes of unequal weight with short ones",
    "thorough": "all expression trees with <= 2 operators over 12 leaves and all with 3 operators over 4 leaves; axis "
    "sweeps: number of dice 0..400, faces 1..1500, chains to 80 terms, nesting to 150, integers to 10^60",
}
ASSUMPTIONS = [
    "expressions are rendered both with every compound operand in parentheses and with as few parentheses as the grouping rule of C08 needs",
    "the reference semantics in mc/ref.py is the meaning the README gives",
]

LEAVES = [I(2), D(None, 3), FATE, I(-3), CD(None, -2, (5, 3)), I(0), D(2, 2), ("bool", True)]
MORE = [CD(None, (-4, -3, None), (2, None, 2)), I(10), KD(2, ("n", 3), "k", 1), ("bool", False)]
FEW = [FATE, CD(None, -2, (3, 2))]
FOUR = FEW + [I(2), D(None, 2)]


def sweeps(tier):
    big = tier == "thorough"
    for n in range(0, 401 if big else 121):
        yield D(n, 2)
        if n <= (200 if big else 100):
            yield D(n, 6)
        if n <= (200 if big else 60):
            yield CD(n, -3, (1, 2), 10)
            yield ("dice", n, ("F",))
    for s in range(1, 1501 if big else 301):
        yield D(None, s)
    for s in range(1, 120 if big else 40):
        yield D(2, s)
        yield D(3, min(s, 40))
    for s in (400, 500, 512, 1000, 1024, 2000):
        yield D(None, s)
    for leaf in (D(300, 2), D(400, 2), D(130, 6), D(150, 6), D(64, 20), D(520, 2)):
        yield leaf
    for m in (2 ** 31, 2 ** 53 + 1, 2 ** 63, 10 ** 20 + 1, 10 ** 60 + 1, 10 ** 160, 10 ** 310):
        for n in (1, 2, 3, 5, 8):
            yield CD(n, (1, m), 2)
            yield CD(n, (-1, m), (0, m - 1), (4, m + 1))
        for op in gen.OPS:
            yield gen.binary(op, CD(None, (1, m), 2), CD(None, (-2, m + 1), (3, 2)))
    for leaf in (D(3, 100), ("dice", 2, ("%",)), ("dice", 10, ("%",)), D(5, 50), D(250, 2), D(1000, 1), D(2, 256)):
        yield leaf
    for n in range(2, 81 if big else 41):
        yield gen.chain("+", [D(None, 2)] * n)
        yield gen.chain("-", [D(None, 3)] * n)
        if n <= 20:
            for op in gen.OPS:
                yield gen.chain(op, [D(None, 2)] * n)
                yield gen.chain(op, [CD(None, -2, (3, 2))] * min(n, 8))
            yield gen.chain("*", [CD(None, -1, 2)] * n)
    for depth in (1, 2, 3, 10, 30, 60, 150)[: 7 if big else 6]:
        for kind in ("par", "abs", "not"):
            for leaf in (I(-7), FATE, D(None, 4)):
                yield gen.deep(kind, depth, leaf)
    exponents = (3, 9, 15, 16, 17, 18, 19, 20, 30) + ((60,) if big else ())
    for x in exponents:
        for delta in (-1, 0, 1):
            v = 10 ** x + delta
            for s in (v, -v):
                for op in gen.OPS:
                    for other in (D(None, 7), I(-3), CD(None, s, -s - 1), I(s)):
                        if op == "//" and 0 in ref.leaf_law(other) if other[0] == "dice" else False:
                            continue
                        yield gen.binary(op, I(s), other)
                        yield gen.binary(op, other, I(s))
    # operands of very different sizes
    sized = [I(2), CD(None, -1, (3, 5)), FATE, D(None, 9), D(3, 6), D(None, 17), D(None, 20), CD(None, -7, (-3, 4, 2), 30), D(None, 33), CD(None, (-30, 30, None)), gen.PCT, D(None, 130)]
    for op in gen.OPS:
        for l in sized:
            for r in sized:
                yield gen.binary(op, l, r)
                if big:
                    yield ("not", gen.binary(op, ("abs", l), r))
    # many outcomes with unequal counts
    for n in (20, 70, 130, 260, 401, 520, 1030) + ((2050,) if big else ()):
        for die in (CD(None, (1, n, 2), n + 1), CD(None, 0, (1, n, 2)), CD(None, (-n, -1, 3), (5, 6)), CD(None, (1, n, 10 ** 9), (n + 5, 10 ** 9 + 1))):
            for op in gen.OPS:
                for other in (I(0), I(1), I(-2), CD(None, (3, 2), -1)):
                    if not (op == "//" and other == I(0)):
                        yield gen.binary(op, die, other)
                    if op != "//":
                        yield gen.binary(op, other, die)
            yield ("abs", die)
            yield ("not", die)
    # two large independent parts, and counts that overflow a double
    for op in gen.OPS:
        yield gen.binary(op, D(2, 20), D(2, 12))
        yield gen.binary(op, D(20, 4), D(20, 2))
        yield gen.binary(op, CD(None, (-10, 10, None)), D(None, 12))
        yield gen.binary(op, CD(None, (-6, 6, None)), CD(None, -4, -3, (1, 9), 2))


def cases(tier):
    leaves = LEAVES + (MORE if tier == "thorough" else [])
    yield from gen.trees(0, leaves)
    yield from gen.trees(1, leaves)
    yield from sweeps(tier)
    yield from gen.trees(2, leaves)
    yield from gen.trees(3, FOUR if tier == "thorough" else FEW)


def check(case, ctx):
    expected = ref.law(case, {})
    if ref.ERR in expected:
        ctx.count("skipped: divides by zero (C07)")
        return
    for (text,) in ref.forms([case]):
        judge(case, text, expected, ctx)


def judge(case, text, expected, ctx):
    got = impl.counts(text)
    ctx.state(text)
    ctx.step(gen.nodes(case))
    ctx.trace()
    ctx.outcome(tuple(sorted(expected.items())))
    if not all(isinstance(v, int) for v in got):
        raise Violation("%s: an outcome is not an integer: %r" % (text, list(got)[:20]))
    if not ref.same_law(got, expected):
        raise Violation("distribution of %s is %s, should be %s" % (text, ref.show_any(got), ref.show(expected)), program=[text])
    ctx.sample({"expression": text, "distribution": ref.show(expected)[:300]}, 20011)
