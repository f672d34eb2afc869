"""C05: min and max are the attainable extremes (of the line and of every variable)."""
from .. import gen, impl, ref
from ..core import Violation
from ..gen import CD, D, FATE, I, KD

ID = "C05"
BOUNDS = {
    "quick": "all expression trees with <= 2 operators over 7 leaves and 3 operators over 2 leaves; all programs of 1-2 assignments "
    "(menus of 10 x 28, including reassignment) followed by 20 expressions over the two variables; integers to 10^25, operands of up to 60 values, values to 10^20 times rarer than others, chains of 24 "
    "terms and 11 variables; each queried for min and max",
    "thorough": "trees with <= 2 operators over 10 leaves and 3 operators over 3; programs with 3 assignments",
}
ASSUMPTIONS = ["min/max are asked from the start of the program (the scalar store shared with roll and cost is C10's subject)"]

LEAVES = [D(None, 3), FATE, I(-3), CD(None, -2, (5, 3)), I(0), I(2), KD(2, ("n", 3), "d", 1)]
MORE = [CD(None, (-4, -3, None)), ("bool", True), KD(3, ("c", ((-10, None, None), (2, None, None))), "k", 2)]
A, B = ("var", "a"), ("var", "b")
FIRST = [
    FATE, D(None, 3), CD(None, -1, 1), CD(None, -2, (3, 2)), I(-4), ("bin", "-", D(None, 2), D(None, 3)), KD(3, ("F",), "d", 1),
    ("bin", "*", FATE, D(None, 2)), ("abs", FATE), ("mm", "MIN", D(None, 3), I(2)),
]


def over(x, others):
    out = [x, ("not", x), ("abs", x), ("par", x)]
    for o in others:
        for op in gen.OPS:
            out.append(gen.binary(op, x, o))
            out.append(gen.binary(op, o, x))
    return out


SECOND = over(A, [D(None, 2)])[:26] + [("bin", "-", I(0), A), ("bin", "*", A, A)]
THIRD = (
    [("bin", op, A, B) for op in ("+", "-", "*", "==", "<", "AND", "OR", "//")]
    + [("mm", m, A, B) for m in gen.MM]
    + [("mm", m, A, ("bin", "-", I(0), B)) for m in gen.MM]
    + [("mm", m, ("bin", "-", I(0), A), A) for m in gen.MM]
    + [("abs", ("bin", "-", A, B)), ("not", ("bin", "-", A, B)), B, ("let", "a", ("bin", "-", I(0), B)), ("let", "b", A),
       ("bin", "-", ("mm", "MAX", A, B), B)]
)


def scale(big):
    """Huge integers, wide operands, long chains of operators and of variables."""
    for x in (4, 9, 16, 18, 19, 20, 25) + ((60, 300) if big else ()):
        for v in (10 ** x + 1, 1 - 10 ** x):
            for op in gen.OPS:
                for other in (I(7), D(None, 2), CD(None, -v, 3)):
                    yield (gen.binary(op, I(v), other),)
                    yield (gen.binary(op, other, I(v)),)
            yield (("let", "a", ("bin", "+", I(v), FATE)), ("bin", "-", A, I(v)))
            yield (CD(2, v, -v, v + 1),)
            yield (KD(2, ("c", ((v, None, None), (v + 1, None, None))), "k", 1),)
    wide = [D(3, 6), CD(None, (-15, 15, None)), D(12, 2), CD(2, -20, (3, 2), 11), D(None, 40), KD(4, ("n", 6), "d", 1), CD(None, -9, (0, 10 ** 9), 9), CD(2, (1, 10 ** 12), -3), CD(None, (7, 10 ** 20), 3, 11)]
    for op in gen.OPS:
        for l in wide:
            for r in wide:
                yield (gen.binary(op, l, r),)
                yield (("abs", gen.binary(op, l, r)),)
        for n in range(2, 25):
            yield (gen.chain(op, [D(None, 2)] * n),)
            yield (gen.chain(op, [CD(None, -2, (3, 2))] * min(n, 8)),)
            yield (gen.chain(op, [CD(None, 5, (4, 10 ** 7), 3)] * min(n, 6)),)
    for d in wide:
        for e in (("bin", "-", A, A), ("bin", "*", A, A), ("mm", "MAX", A, I(3)), ("bin", "//", A, I(-7)), ("bin", "-", ("abs", A), A)):
            yield (("let", "a", d), e)
            yield (("let", "a", d), ("let", "b", e), ("bin", "-", B, A))
    for n in (1, 2, 5, 13, 30):
        yield (CD(n, -9, (0, 10 ** 9), 9),)
        yield (KD(min(n, 6), ("c", ((0, None, 10 ** 9), (9, None, None), (-9, None, None))), "k", 2),)
        yield (KD(min(n, 6), ("c", ((0, None, 10 ** 9), (9, None, None), (-9, None, None))), "d", 1),)
    for n in range(2, 12):
        names = "abcdefghijkl"[:n]
        lines = [("let", "a", FATE)]
        for i in range(1, n):
            lines.append(("let", names[i], ("bin", "-", I(i), ("var", names[i - 1]))))
        yield tuple(lines) + (gen.chain("-", [("var", x) for x in names]),)
        yield tuple(lines) + (("bin", "+", ("var", names[-1]), ("var", names[-2])),)
        yield tuple(("let", x, FATE) for x in names[:7]) + (gen.chain("-", [("var", x) for x in names[:7]]),)
        yield tuple([("let", "a", FATE)] + [("let", "a", ("bin", "-", I(1), A))] * n) + (A,)
        yield tuple([("let", "a", FATE), ("let", "b", A)] + [("let", "a", D(None, 2))] * n) + (("bin", "-", A, B),)


def cases(tier):
    big = tier == "thorough"
    leaves = LEAVES + (MORE if big else [])
    for size in (0, 1):
        for t in gen.trees(size, leaves):
            yield (t,)
    for n in range(0, 130):
        for s in (2, 6):
            yield (D(n, s),)
        yield (CD(n, -7, (2, 3)),)
        for m in (0, 1, n // 2, n - 1, n, n + 1):
            if m >= 0:
                yield (KD(n, ("n", 2), "k", m),) if n < 40 else (D(n, 3),)
                yield (KD(n, ("c", ((-5, None, None), (3, None, None))), "d", m),) if n < 40 else (D(n, 5),)
    for s in list(range(1, 301)) + [1000]:
        yield (D(None, s),)
    yield from scale(big)
    for f in FIRST:
        yield (("let", "a", f),)
        for e in over(A, [A, FATE]):
            yield (("let", "a", f), e)
        for s in SECOND:
            for t in THIRD:
                yield (("let", "a", f), ("let", "b", s), t)
            yield (("let", "a", f), ("let", "a", s), A)
            yield (("let", "a", f), ("let", "a", s), ("bin", "-", A, D(None, 2)))
    for t in gen.trees(2, leaves):
        yield (t,)
    if big:
        c = ("var", "c")
        for f in FIRST[:6]:
            for s in SECOND[:20]:
                for t in (("bin", "-", A, B), ("mm", "MAX", A, B), ("bin", "*", A, D(None, 2)), B):
                    for e in (("bin", "-", c, A), ("mm", "MIN", c, A), ("bin", "*", c, B), ("abs", ("bin", "-", c, B)), c):
                        yield (("let", "a", f), ("let", "b", s), ("let", "c", t), e)
    yield from ((t,) for t in gen.trees(3, [FATE, CD(None, -2, (3, 2))] + ([D(None, 2)] if big else [])))


def check(case, ctx):
    joint = ref.program_law(case)
    if ref.ERR in joint:
        ctx.count("skipped: divides by zero (C07)")
        return
    for texts in ref.forms(case):
        judge(case, texts, joint, ctx)


def judge(case, texts, joint, ctx):
    values = {}
    for key in joint:
        for name, v in key:
            values.setdefault(name, set()).add(v)
    ctx.state(tuple(texts))
    ctx.trace()
    for mode, pick in (("min", min), ("max", max)):
        s = impl.session()
        got = getattr(s, mode)(texts)
        ctx.step(len(texts))
        want = {n: pick(v) for n, v in values.items()}
        ctx.outcome(tuple(sorted(want.items())))
        if not all(isinstance(v, int) for v in got.values()):
            raise Violation("%s of %r is not an integer: %r" % (mode, texts, got), program=texts)
        if got != want:
            known = component(case, mode)
            if known is not None and got == known and ctx.finding("KF-MINMAX", "%s of %s" % (mode, " ; ".join(texts))):
                continue
            raise Violation("%s of %r is %r, should be %r" % (mode, texts, got, want), program=texts)
    ctx.sample({"program": texts, "min": {n: min(v) for n, v in values.items()}}, 20011)


def component(case, mode):
    """What KF-MINMAX predicts: MIN/MAX nodes reached from the root through parentheses, MIN and MAX combine their operands' bounds."""
    scalars = {}
    out = None
    for i, line in enumerate(case):
        name, e = (line[1], line[2]) if line[0] == "let" else (None, line)
        prefix = case[:i]

        def support(x):
            return {k[-1][1] for k in ref.program_law(prefix + (x,))}

        out = ref.component_bound(e, scalars, support, mode)
        if name:
            scalars[name] = out
    result = dict(scalars)
    result["stdout"] = out
    return result
