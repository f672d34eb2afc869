"""C04: rolls, over every answer of the random source, follow the exact law (jointly for all variables)."""
import os
import subprocess
import sys
from itertools import product

from .. import gen, impl, ref, rng
from ..core import Violation
from ..gen import CD, D, FATE, I, KD

ID = "C04"
BOUNDS = {
    "quick": "single terms of 6..1000 dice along every constant path of draws and all paths with 1-2 deviations from it; huge integers (to "
    "10^25) under every operator; generators seeded with one value repeat their answers, and two processes do not; all answers of the random source for: dice terms (n <= 5, faces <= 6, custom, weighted with weights to 10^6; single dice to d200), "
    "keep/drop terms with n <= 5 and all m, all expression trees with <= 2 operators over 6 leaves, all two- and three-line programs "
    "over 2 variables from a menu, pairs of rolls of one text in one session; 3 to 257 rolls one after the other (of a text, of a parsed expression, by assignments) along every constant path of draws and, up to 17 rolls, all paths with one deviation; assignments nested in all expressions of <= 2 operators over 5 operands",
    "thorough": "as quick with n <= 7, trees with <= 2 operators over 9 leaves and 3 operators over 2 leaves, larger menus",
}
ASSUMPTIONS = ["dice are drawn through Python's random module (any of its functions); a source the harness does not control "
               "is only checked for support"]

LEAVES = [FATE, D(None, 2), CD(None, -2, (3, 2)), I(2), KD(2, ("n", 2), "k", 1), I(-1)]
MORE = [D(2, 2), CD(None, 0, 4), I(0)]
A, B = ("var", "a"), ("var", "b")
FIRST = [FATE, D(2, 2), CD(None, -2, (3, 2)), KD(3, ("n", 2), "d", 1), ("bin", "*", D(None, 2), D(None, 3)), ("let", "b", D(None, 3))]
SECOND = [
    A, ("bin", "+", A, A), ("bin", "-", A, D(None, 2)), ("bin", "//", D(None, 3), A), ("bin", "==", A, A), ("not", A), ("abs", A),
    ("mm", "MAX", A, I(1)), ("bin", "OR", A, FATE), ("bin", ">", A, FATE), D(None, 3), ("bin", "*", A, A),
]
THIRD = [("bin", "-", A, B), ("bin", "+", ("bin", "*", A, I(10)), B), ("mm", "MIN", A, B), B, ("let", "a", B), ("let", "b", ("bin", "+", B, D(None, 2)))]


def dice_terms(big):
    for n in range(0, 8 if big else 6):
        for s in range(1, 7):
            if s ** n <= (20000 if big else 1300):
                yield D(n, s)
        for leaf in (CD(n, -3, (2, 3), 10), CD(n, (1, 0), 4, 4), CD(n, (3, -1, 2), 0), ("dice", n, ("F",))):
            yield leaf
    for s in list(range(1, 31)) + [100, 200]:
        yield D(None, s)
    yield gen.PCT
    yield D(2, 20)
    yield D(2, 13)
    faces = [("n", 2), ("n", 3), ("n", 4), ("F",), ("c", ((-10, None, None), (2, None, None), (11, None, 2))), ("c", ((9, None, 2), (10, None, None)))]
    for s in list(range(5, 25)) + [30, 60, 100]:
        for n in (2, 3):
            if s ** n <= (14000 if big else 3400):
                for m in range(1, n):
                    yield KD(n, ("n", s), "k", m)
                    yield KD(n, ("n", s), "d", m)
    for n in [None] + list(range(0, 7 if big else 6)):
        for f in faces:
            if len(ref.sides_map(f)) ** (n or 1) > (5000 if big else 1100):
                continue
            for m in range(0, (n or 1) + 3):
                for kind in "kd":
                    yield KD(n, f, kind, m)


def huge(big):
    """Integers beyond what a double or a machine word holds."""
    for x in (4, 9, 15, 16, 18, 19, 20, 25) + ((60, 300, 400) if big else ()):
        for v in (10 ** x + 1, -(10 ** x) + 1, 2 ** (3 * x) + 1):
            for op in gen.OPS:
                for other in (I(7), D(None, 2), I(v - 1), CD(None, -v, 3)):
                    yield (gen.binary(op, I(v), other),)
                    yield (gen.binary(op, other, I(v)),)
            yield (("let", "a", I(v)), ("bin", "-", ("abs", A), D(None, 2)))
            yield (("let", "a", ("bin", "+", I(v), D(None, 2))), ("bin", "-", A, I(v)))
            yield (CD(2, v, -v, v + 1),)
            yield (KD(2, ("c", ((v, None, None), (v + 1, None, None))), "k", 1),)


def many(big):
    """Numbers of dice whose tree of draws cannot be exhausted."""
    for n in list(range(6, 33)) + [40, 50, 51, 64, 65, 100, 101, 128, 129, 200, 256, 257, 300, 500, 1000] + ([2000, 5000] if big else []):
        for leaf in (D(n, 2), D(n, 6), ("dice", n, ("F",)), CD(n, -3, (4, 5), 10)):
            if len(ref.sides_map(leaf[2])) * n <= 3100 or big:
                yield leaf
        if n <= 40:
            for m in (1, 2, n // 2, n - 1, n, n + 1):
                yield KD(n, ("n", 2), "k", m)
                yield KD(n, ("c", ((-1, None, None), (12, None, 2))), "d", m)


def cases(tier):
    big = tier == "thorough"
    for text in ("d1000", "d[1-999, 5000]", "100d100", "3d1000k2", "3d1000d1"):
        yield ("process", text)
    for t in dice_terms(big):
        yield ("law", (t,))
    leaves = LEAVES + (MORE if big else [])
    for size in (0, 1):
        for t in gen.trees(size, leaves):
            yield ("law", (t,))
    for t in list(dice_terms(False))[::7] + list(gen.trees(1, LEAVES[:3])):
        yield ("twice", (t,))
    for lines in huge(big):
        yield ("law", lines)
    # faces of very different weights
    for m in (7, 10, 99, 100, 255, 256, 1000, 1023, 4096, 4097, 10 ** 4, 65535, 65536, 65537, 10 ** 5, 10 ** 6):
        for t in (CD(None, (1, m), 2), CD(None, 5, (-3, m), (4, m - 1)), CD(2, (1, m), 2, (0, 3)), CD(3, (-1, 2), (6, m)), KD(2, ("c", ((1, None, m), (2, None, None))), "k", 1),
                  KD(3, ("c", ((-2, None, None), (4, None, m))), "d", 1)):
            yield ("law", (t,))
    for t in many(big):
        yield ("slice", (t,))
    for t in (D(None, 2), D(None, 6), D(2, 3), FATE, CD(None, -2, (3, 2)), KD(3, ("n", 4), "k", 2), KD(3, ("n", 3), "d", 1)):
        for n in (3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 20, 21, 25, 32, 33, 50, 64, 65, 100, 101, 128, 129, 256, 257) + ((500, 1000, 1025) if big else ()):
            for how in ("often", "object", "line"):
                yield ("rolls", (t,), n, how)
    for f in FIRST:
        yield ("law", (("let", "a", f),))
        yield ("law", (("let", "a", f), A))
        for s in SECOND:
            yield ("law", (("let", "a", f), s))
            yield ("calls", (("let", "a", f), s, A))
            yield ("law", (("let", "a", f), ("let", "b", s), A))
            for t in THIRD:
                yield ("law", (("let", "a", f), ("let", "b", s), t))
                yield ("calls", (("let", "a", f), ("let", "b", s), t))
            for s2 in SECOND[:6] if not big else SECOND:
                yield ("law", (("let", "a", f), ("let", "a", s), s2))
    # assignments inside expressions (a dividend is evaluated before its divisor)
    nested = [A, I(2), ("let", "a", D(None, 2)), ("let", "a", ("bin", "+", A, I(1))), ("let", "b", A), B]
    ops = ("+", "-", "*", "//", "<", "OR", "MAX")
    for size in (1, 2):
        for t in gen.trees(size, nested if size == 1 or big else nested[:5], ops if big or size == 1 else ops[1:4:2] + ops[4:]):
            if gen.order_matters(t):
                continue
            if size == 1:
                yield ("law", (("let", "a", FATE), ("let", "b", I(3)), t))
            yield ("law", (("let", "a", CD(None, -1, 4)), ("let", "b", I(3)), t))
    for t in gen.trees(2, leaves):
        yield ("law", (t,))
    if big:
        for t in gen.trees(3, [FATE, CD(None, -2, (3, 2))]):
            yield ("law", (t,))


def normal(result):
    return tuple(sorted((k, v) for k, v in result.items() if k != "stdout")) + (("stdout", result["stdout"]),)


FRESH = """
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, %r)
from python_dice import PythonDiceInterpreter
p = PythonDiceInterpreter()
print([p.roll([%r])["stdout"] for _ in range(20)])
"""


def process(text, ctx):
    """Two processes, from scratch, with the real random source: 20 rolls of a die with 1000 or more results each."""
    seen = []
    for _ in range(2):
        run = subprocess.run([sys.executable, "-c", FRESH % (impl.REPO, text)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, PYTHONHASHSEED="0"))
        if run.returncode:
            raise Violation("rolling %r in a new process fails: %s" % (text, run.stderr[-500:]), program=[text])
        seen.append(run.stdout.decode().strip())
        if len(set(seen[-1].strip("[]").split(", "))) == 1:
            raise Violation("rolling %r 20 times only ever returned %s" % (text, seen[-1]), program=[text])
        ctx.trace()
    ctx.state("process", text)
    ctx.step(40)
    if seen[0] == seen[1]:
        raise Violation("every process rolls the same: %r gives %s" % (text, seen[0]), program=[text])


def observe(mode, texts):
    """One run of the implementation from scratch."""
    s = impl.session()
    try:
        if mode == "law":
            return normal(s.roll(texts))
        if mode == "twice":
            return (s.roll(texts)["stdout"], s.roll(texts)["stdout"])
        for t in texts:
            out = s.roll([t])
        return normal(out)
    except ZeroDivisionError:
        return ref.ERR


def reference(mode, lines, bitwise):
    if mode == "twice":
        one = ref.program_law(lines, bitwise)
        out = {}
        for k, c in one.items():
            for k2, c2 in one.items():
                key = ref.ERR if ref.ERR in (k, k2) else (k[-1][1], k2[-1][1])
                out[key] = out.get(key, 0) + c * c2
        return out
    return ref.program_law(lines, bitwise)


def part(mode, texts, lines, ctx):
    """The paths of a slice of the tree cannot together be more likely than their result is, whatever the program draws."""
    one = ref.leaf_law(lines[0])
    total = sum(one.values())
    if mode == "twice":
        total *= total

    def ways(value):
        return one.get(value, 0) if mode == "law" else one.get(value[0], 0) * one.get(value[1], 0)

    weight_of = {}
    faces = len(ref.sides_map(lines[0][2]))
    before = rng.CONTROL.draws
    rng.CONTROL.raw = False
    n = lines[0][1]
    for weight, out in rng.around(lambda: observe(mode, texts), min(faces, 7), 0 if mode == "twice" else 2 if n <= 12 else 1 if n <= 130 else 0):
        value = out[-1][1] if mode == "law" else out
        weight_of[value] = weight_of.get(value, 0) + weight
        ctx.trace()
        if not ways(value):
            raise Violation("rolling %r can give %r, which has probability 0" % (texts, value), program=texts)
    ctx.state("slice", mode, tuple(texts))
    ctx.step(rng.CONTROL.draws - before)
    if rng.CONTROL.raw:
        ctx.count("uncontrolled random source")
        return
    for value, weight in weight_of.items():
        ctx.outcome((value,))
        if weight * total > ways(value):
            raise Violation("rolling %r gives %r with probability at least %s, but it is %s/%s" % (texts, value, weight, ways(value), total), program=texts)


def rolls(case, ctx):
    """Many rolls one after the other, along the constant paths of draws and those with one deviation (as in part)."""
    _, lines, n, how = case
    one = ref.leaf_law(lines[0])
    total = sum(one.values()) ** n
    text = ref.forms(lines)[0][0]

    def observe_all():
        s = impl.session()
        if how == "object":
            expr = impl.parser().parse(text)[0]
            return tuple(expr.roll() for _ in range(n))
        if how == "line":
            out = [s.roll(["VAR a = " + text, "a + a", "VAR b = a"] if i % 2 else ["VAR b = " + text])["b"] for i in range(n)]
            return tuple(out)
        return tuple(s.roll([text])["stdout"] for _ in range(n))

    def ways(values):
        count = 1
        for v in values:
            count *= one.get(v, 0)
        return count

    weight_of = {}
    before = rng.CONTROL.draws
    rng.CONTROL.raw = False
    for weight, out in rng.around(observe_all, min(len(one), 6), 1 if n <= 17 else 0):
        weight_of[out] = weight_of.get(out, 0) + weight
        ctx.trace()
        if not ways(out):
            raise Violation("rolling %r %d times can give %r, which has probability 0" % (text, n, out), program=[text] * n)
    ctx.state("rolls", text, n, how)
    ctx.step(rng.CONTROL.draws - before)
    if rng.CONTROL.raw:
        ctx.count("uncontrolled random source")
        return
    for out, weight in weight_of.items():
        if weight * total > ways(out):
            raise Violation("rolling %r %d times (%s) gives %r with probability at least %s, but it is %s/%s: the rolls are not independent" % (text, n, how, out, weight, ways(out), total), program=[text] * n)


def check(case, ctx):
    if case[0] == "rolls":
        return rolls(case, ctx)
    mode, lines = case
    if mode == "process":
        return process(lines, ctx)
    if mode == "slice":
        for texts in ref.forms(lines):
            part("law", texts, lines, ctx)
            part("twice", texts, lines, ctx)
        return
    want = reference(mode, lines, False)
    for texts in ref.forms(lines):
        judge(mode, lines, texts, want, ctx)


def judge(mode, lines, texts, want, ctx):
    rng.CONTROL.raw = False
    before = rng.CONTROL.draws
    got = {}
    paths = 0
    try:
        for weight, out in rng.explore(lambda: observe(mode, texts)):
            got[out] = got.get(out, 0) + weight
            paths += 1
    except rng.Diverged as e:
        raise Violation("rolling %r: with the same dice, %s: rolls depend on earlier rolls" % (texts, e), program=texts)
    except rng.TooWide:
        got = None
    ctx.state(mode, tuple(texts))
    ctx.step(rng.CONTROL.draws - before)
    ctx.trace(paths)
    if got is None or rng.CONTROL.raw or (rng.CONTROL.draws == before and len(want) > 1):
        return uncontrolled(mode, texts, lines, want, ctx)
    for out in got:
        ctx.outcome(out)
        if out != ref.ERR and not all(isinstance(x[1] if isinstance(x, tuple) else x, int) for x in out):
            raise Violation("rolling %r returned something that is not an integer: %r" % (texts, out), program=texts)
    if not same(got, want):
        if any(gen.uses_op(x, "AND") for x in lines):
            alt = reference(mode, lines, True)
            if same(got, alt) and ctx.finding("KF-AND", " ; ".join(texts)):
                return
        raise Violation("rolling %r gives %s over all dice, should give %s" % (texts, ref.show_any(got), ref.show_any(want)), program=texts)
    ctx.sample({"program": texts, "paths": paths, "law": ref.show(want)[:300]}, 4001)


def same(got, want):
    total = sum(want.values())
    return {k: v * total for k, v in got.items()} == want


def uncontrolled(mode, texts, lines, want, ctx):
    """The random source is not under the harness' control: only support can be judged."""
    ctx.count("uncontrolled random source")
    allowed = set(want)
    if any(gen.uses_op(x, "AND") for x in lines):
        allowed |= set(reference(mode, lines, True))
    seen = set()
    for _ in range(300):
        out = observe(mode, texts)
        seen.add(out)
        if out not in allowed:
            raise Violation("rolling %r returned %r, which has probability 0" % (texts, out), program=texts)
    if len(seen) == 1 and max(want.values()) * 2 <= sum(want.values()):
        raise Violation("rolling %r 300 times only ever returned %r" % (texts, seen), program=texts)


_ = product
