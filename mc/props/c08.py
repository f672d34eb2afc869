"""C08: one fixed precedence.  Operator chains without parentheses against the reference precedence parser."""
from itertools import combinations, product

from .. import gen, impl, lang, ref, rng
from ..core import Violation

ID = "C08"
BOUNDS = {
    "quick": "all chains of 2-4 operands over the 12 infix operators with ! before every subset of operands (3 operand lists), every placement "
    "of one pair of parentheses or ABS in chains of <= 4, all chains of 5 operands without !, MIN/MAX arguments, periodic chains to 12 "
    "operands, assignments; distributions for all, roll/min/max for chains of <= 3 and assignments",
    "thorough": "as quick with chains of 5 operands and every subset of !, chains of 6 over 6 operators, two pairs of parentheses",
}
ASSUMPTIONS = ["rolls of AND may be bitwise (known finding KF-AND of C04)"]
OPS = gen.BIN
LISTS = [
    ("7", "2", "3", "-1", "5", "4"),
    ("dF", "2", "d[-2,3]", "1", "d2", "3"),
    ("-3", "d3", "2", "4", "0", "9"),
]


def join(operands, ops):
    out = operands[0]
    for op, x in zip(ops, operands[1:]):
        out += " " + op + " " + x
    return out


def cases(tier):
    big = tier == "thorough"
    for n in (2, 3, 4):
        for ops in product(OPS, repeat=n - 1):
            for operands in LISTS:
                for k in range(0, n + 1):
                    for where in combinations(range(n), k):
                        yield (join([("!" if i in where else "") + operands[i] for i in range(n)], ops), n <= 3)
    for n in (2, 3, 4):
        for ops in product(OPS, repeat=n - 1):
            for operands in LISTS[:2]:
                for i in range(n):
                    for j in range(i, n):
                        for opening in ("(", "!(", "ABS("):
                            xs = list(operands[:n])
                            xs[i] = opening + xs[i]
                            xs[j] = xs[j] + ")"
                            yield (join(xs, ops), n <= 3 and opening == "(")
                            if big and opening == "(":
                                for k in range(n):
                                    for m in range(k, n):
                                        if (k, m) > (i, j) and not (i < k <= j < m) and not (k < i <= m < j):
                                            ys = list(xs)
                                            ys[k] = "(" + ys[k]
                                            ys[m] = ys[m] + ")"
                                            yield (join(ys, ops), False)
    for ops in product(OPS, repeat=3):
        a, b, c = ops
        yield ("MIN(7 %s 2, 3 %s dF) %s 2" % ops, False)
        yield ("2 %s MAX(d2 %s !3, 1) %s 5" % ops, False)
        yield ("VAR x = 3 %s d2 %s 2 %s 1" % ops, True)
        yield ("!VAR x = 3 %s d2 %s 2 %s 1" % ops, False)
        yield ("5 %s VAR x = 3 %s d2 %s 2" % ops, False)
        yield ("VAR x = !3 %s VAR y = d2 %s 2 %s 1" % ops, False)
        for length in (6, 9, 12):
            operands = [LISTS[0][i % 6] for i in range(length)]
            yield (join(operands, [ops[i % 3] for i in range(length - 1)]), False)
    for ops in product(OPS, repeat=4):
        yield (join(LISTS[1][:5], ops), False)
        yield (join(LISTS[0][:5], ops), False)
        if big:
            for k in range(1, 6):
                for where in combinations(range(5), k):
                    yield (join([("!" if i in where else "") + LISTS[0][i] for i in range(5)], ops), False)
    if big:
        for ops in product(("+", "-", "*", "//", "<", "OR"), repeat=5):
            yield (join(LISTS[0][:6], ops), False)
            yield (join(LISTS[1][:6], ops), False)


def check(case, ctx):
    text, full = case
    tree = lang.parse(text)
    assert tree is not None, text
    joint = ref.program_law((tree,))
    bad = ref.ERR in joint
    ctx.state(text)
    ctx.step(text.count(" ") // 2 + 1)
    ctx.trace()
    got = impl.outcome(impl.counts, text)
    want = stdout(joint)
    ctx.outcome(tuple(sorted(want.items(), key=str)))
    if bad:
        if got != ("err", "ZeroDivisionError"):
            raise Violation("%s means %s, which can divide by zero; its distribution is %r" % (text, ref.text(tree), got), program=[text])
    elif got[0] == "err" or not ref.same_law(got[1], want):
        raise Violation("%s means %s: distribution should be %s, is %s" % (
            text, ref.text(tree), ref.show(want), ref.show_any(got[1]) if got[0] == "ok" else got), program=[text])
    if not full:
        return
    for kind, pick in (("min", min), ("max", max)):
        out = impl.outcome(getattr(impl.session(), kind), [text])
        ok = out == ("err", "ZeroDivisionError") if bad else out[0] == "ok" and out[1]["stdout"] == pick(want)
        if not ok:
            raise Violation("%s means %s: %s is %r, should be %s" % (text, ref.text(tree), kind, out, ref.ERR if bad else pick(want)), program=[text])
    values = set(want)
    if gen.uses_op(tree, "AND"):
        values |= set(stdout(ref.program_law((tree,), True)))
    try:
        outs = [out for _, out in rng.explore(lambda: impl.outcome(impl.session().roll, [text]), 5000)]
    except (rng.TooWide, rng.Diverged):
        outs = []
    ctx.trace(len(outs))
    for out in outs:
        value = out[1]["stdout"] if out[0] == "ok" else ref.ERR if out[1] == "ZeroDivisionError" else out
        if value not in values:
            raise Violation("%s means %s: rolled %r, possible are %r" % (text, ref.text(tree), value, sorted(values, key=str)), program=[text])
    ctx.sample({"text": text, "grouped as": ref.text(tree), "law": ref.show(want) if not bad else ref.ERR}, 3001)


def stdout(joint):
    out = {}
    for key, w in joint.items():
        v = ref.ERR if key == ref.ERR else key[-1][1]
        out[v] = out.get(v, 0) + w
    return out
