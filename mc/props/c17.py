"""C17: a failing line changes nothing."""
from itertools import product

from .. import charts, impl, ref, session
from ..core import Violation
from . import c10

ID = "C17"
BOUNDS = {
    "quick": "all sessions of 1 good call, 1 failing call and 1 good call over 6 query kinds x 5 good lines x 6 kinds x 21 failing lines; all sessions of 2 good "
    "calls and a failing one (reduced menus); all calls of 2 and 3 lines with failing lines in any position over 9 query kinds; failing lines after up to 101 lines and variables, up to 17 failing calls in a row; every answer of the random source",
    "thorough": "as quick with 2 good calls before and 1 after, and calls of 4 lines",
}
ASSUMPTIONS = ["assignments nested inside other expressions are not claimed (their effect precedes the failure)"]
CHUNK = 1

GOOD = ["VAR a = d2", "VAR a = 5", "VAR b = a + 1", "a", "VAR b = d2 * 3"]
FAILING = [
    "zz", "VAR a = zz", "VAR a = 1 // 0", "VAR b = d2 // (d2 - 1)", "VAR a = (", "VAR a = a // (a - a)", "", "VAR zz = zz + 1", "VAR a = MAX(a, zz)",
    "VAR a = $", "VAR b = 3 // !a", "a a", "VAR a", "VAR b = ABS(zz)", "VAR a = (a // 0) * 0", "VAR a = MIN(a // 0, 1)", "VAR c = 1 // (a * 0)", "1 // 0", "VAR a = 2 3",
    "VAR a = !(1 // 0)", "VAR a = a == (1 // 0)",
]
KINDS = ["roll", "dists", "max", "min", "avg", "cost"]
ALL = ["roll", "dists", "max", "min", "avg", "cost", "dict", "hist", "most"]


def setup(tier):
    charts.RECORDER.install()
    impl.parser()


def cases(tier):
    big = tier == "thorough"
    for kind in ALL:
        for bad in FAILING:
            yield ("one", kind, bad)
    for kind in ALL:
        for bad in FAILING:
            yield ("lines", kind, bad, 2)
            if kind not in ("hist", "most"):
                yield ("lines", kind, bad, 3)
                if big:
                    yield ("lines", kind, bad, 4)
    for kind in KINDS + ["dict"]:
        for n in (5, 9, 16, 17, 33, 65, 101) + ((200, 400) if big else ()):
            yield ("long", kind, n)
    for kind in KINDS:
        for bad in FAILING:
            for k1 in KINDS:
                for g1 in GOOD:
                    yield ("mid", (k1, g1), kind, bad, big)
    for k1, g1 in product(KINDS[:3], GOOD):
        for k2, g2 in product(KINDS[:3], GOOD):
            yield ("two", (k1, g1), (k2, g2))


def check(case, ctx):
    mode = case[0]
    if mode == "one":
        run(((case[1], (case[2],)),), ctx)
    elif mode == "lines":
        _, kind, bad, n = case
        goods = GOOD if n < 4 else GOOD[:3]
        for pos in range(n):
            for rest in product(goods, repeat=n - 1):
                lines = rest[:pos] + (bad,) + rest[pos:]
                run((("max", ("VAR a = 3", "VAR b = 4")), (kind, lines)), ctx)
                if n == 2:
                    run(((kind, lines),), ctx)
    elif mode == "long":
        _, kind, n = case
        names = [c10.name_of(i) for i in range(n)]
        fill = tuple("VAR %s = %d" % (x, i) for i, x in enumerate(names))
        for bad in FAILING:
            # the failing line comes last, in the middle, or in a call of its own; with many variables or with few
            run(((kind, fill + (bad,)), (kind, ("a",))), ctx)
            run((("max", fill), (kind, (bad,)), (kind, ("VAR a = b",))), ctx)
            run(((kind, ("VAR a = 2", "VAR b = a + 1") * (n // 2) + (bad,) + ("VAR a = 9", "VAR b = a")), (kind, ("a",))), ctx)
            if n < 20:
                run((("max", ("VAR a = 2", "VAR b = 3")),) + ((kind, (bad,)),) * n + ((kind, ("VAR a = b",)),), ctx)
    elif mode == "mid":
        _, (k1, g1), kind, bad, big = case
        afters = [(k, g) for k in KINDS[:4] for g in GOOD[:4]]
        for k3, g3 in afters:
            run(((k1, (g1,)), (kind, (bad,)), (k3, (g3,))), ctx)
            if big:
                run((("max", ("VAR b = d2",)), (k1, (g1,)), (kind, (bad,)), (k3, (g3,))), ctx)
    else:
        _, (k1, g1), (k2, g2) = case
        for kind in KINDS:
            for bad in FAILING:
                run(((k1, (g1,)), (k2, (g2,)), (kind, (bad,))), ctx)
    ctx.sample({"case": case}, 211)


def run(seq, ctx):
    def once():
        interp, model = impl.session(), session.Model()
        for kind, lines in seq:
            _, got = session.call(interp, kind, list(lines))
            peek = interp.roll(["0"]) if got[0] == "err" else None
            want = session.step(model, kind, lines, got, peek)
            if not session.agree(kind, got, want) and not either(model, lines, got, want):
                raise Violation("in %r: %s(%r) gives %r, should give %r" % (list(seq), kind, list(lines), got, want), calls=seq)
            ctx.step()
            ctx.state(model.key())
            ctx.outcome(repr(want)[:200])
            if want[0] == "err":
                ctx.count("failing calls: " + want[1])
                c10.read_back(interp, model, seq)
        c10.read_back(interp, model, seq)

    ctx.trace(session.explore(once))


def either(model, lines, got, want):
    """A line that both reads an unassigned variable and divides may report either error."""
    both = {"KeyError", "ZeroDivisionError"}
    if got[0] != "err" or want[0] != "err" or {got[1], want[1]} != both:
        return False
    for text in lines:
        e = session.lang.parse(text)
        if e is not None and "//" in text and any(n not in model.scalars or n not in model.dists.vars for n in ref.variables(e)):
            return True
    return False
