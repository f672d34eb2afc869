"""C12: all statistics of a distribution agree with each other."""
from fractions import Fraction
from itertools import product

from .. import gen, impl, ref
from ..core import Violation
from ..gen import CD, D, FATE, I, KD

ID = "C12"
BOUNDS = {
    "quick": "all count maps over the values -3..2 and over {-7,-1,0,1,4,9} with counts out of {absent,1,2,5} in 3 insertion orders; two- and three-valued maps with "
    "counts to 10^30 and values to 10^4 apart, selected ones to 140000 apart; distributions of all expressions with <= 1 operator over 12 leaves, of 3-line programs with variables, and of "
    "derived objects (every operator applied to constrained distributions); sweeps of dice numbers and faces; every interpreter query form on the same program",
    "thorough": "count maps over 7 values with counts {absent,1,2,5,9}; all expressions with <= 2 operators over 9 leaves; longer sweeps",
}
ASSUMPTIONS = ["probabilities are floating point numbers: equality is up to 1e-9", "distributions without outcomes or with zero counts are outside the domain"]
CHUNK = 8

COUNTS = (0, 1, 2, 5)
VALUES = ((-3, -2, -1, 0, 1, 2), (-7, -1, 0, 1, 4, 9))
LEAVES = [
    I(0), I(7), I(-3), D(None, 3), FATE, CD(None, -2, (5, 3)), D(2, 2), ("bool", True), CD(None, (-4, -3, None), (2, None, 2)), KD(3, ("n", 3), "k", 2),
    D(3, 6), CD(None, 0, 7, (20, 4)),
]
FIRST = ["VAR a = d3", "VAR a = dF", "VAR a = d[0,4*3]", "VAR a = 2d2"]
SECOND = ["VAR b = a * a", "VAR b = a - d2", "VAR b = d2", "VAR b = a == 1", "VAR b = MAX(a, 1)"]
THIRD = ["a + b", "a - b", "b * a", "a > b", "!b", "ABS(b - a)", "MIN(a, b)", "b AND a", "VAR a = b", "0", "VAR c = a + b + d2"]


def orders(items):
    items = list(items)
    yield items
    if len(items) > 1:
        yield items[::-1]
    if len(items) > 2:
        k = len(items) // 2
        yield items[k:] + items[:k]


def cases(tier):
    big = tier == "thorough"
    for n in (1, 2, 3, 10, 50, 200):
        for s in (1, 2, 3, 6, 20, 100, 300):
            if n * s <= (2000 if big else 700):
                yield ("expr", D(n, s))
    for e in gen.trees(0, LEAVES):
        yield ("expr", e)
    for n, s in ((1100, 2), (650, 3)) + (((400, 6),) if big else ()):
        yield ("sum", n, s)
    for m in (10 ** 17, 10 ** 40, 10 ** 100, 10 ** 160):
        for n in (1, 2, 3, 7):
            for other in (2, 5, -3):
                yield ("expr", CD(n, (1, m), (other, m - 1)))
                yield ("expr", CD(n, (-4, m + 1), (other, 2 * m), (0, m)))
    for a, b, c in product(FIRST, SECOND, THIRD):
        yield ("program", (a, b, c))
    for e in gen.trees(1, LEAVES):
        yield ("expr", e)
    for values in VALUES:
        for first in product(COUNTS, repeat=2):
            yield ("maps", values, first, COUNTS)
    for gap in (1, 2, 3, 9, 100, 10000):
        for low in (-gap, -1, 0, 1, -10 ** 4):
            yield ("gap", low, gap)
    for gap in (19999, 33000, 66000, 140000) + ((500000,) if big else ()):
        for low in (-gap // 3, 7):
            yield ("wide", low, gap)
    for op in range(len(OPERATORS)):
        yield ("derived", op)
    if big:
        for first in product((0, 1, 2, 5, 9), repeat=3):
            yield ("maps", (-2, -1, 0, 1, 2, 3, 6), first, (0, 1, 2, 5, 9))
        for e in gen.trees(2, LEAVES[:9]):
            yield ("expr", e)


OPERATORS = [
    ("+", lambda d, o: d + o), ("-", lambda d, o: d - o), ("*", lambda d, o: d * o), ("//", lambda d, o: d // o), ("<", lambda d, o: d < o),
    ("<=", lambda d, o: d <= o), (">", lambda d, o: d > o), (">=", lambda d, o: d >= o), ("&", lambda d, o: d & o), ("|", lambda d, o: d | o),
    ("not", lambda d, o: d.not_operator()), ("abs", lambda d, o: abs(d)), ("max", lambda d, o: d.max_operator(o)), ("min", lambda d, o: d.min_operator(o)),
    ("eq", lambda d, o: d.__equal__(o)), ("ne", lambda d, o: d.__not_equal__(o)),
]


def check(case, ctx):
    kind = case[0]
    if kind == "maps":
        _, values, first, counts = case
        for rest in product(counts, repeat=len(values) - len(first)):
            full = [(v, c) for v, c in zip(values, tuple(first) + rest) if c]
            if not full:
                continue
            for items in orders(full):
                built(dict(items), ctx)
    elif kind == "gap":
        _, low, gap = case
        for c1, c2 in product((1, 3, 10 ** 6, 10 ** 15, 10 ** 30, 10 ** 170, 10 ** 320), repeat=2):
            if max(c1, c2) > 10 ** 30 and abs(len(str(c1)) - len(str(c2))) > 200:
                continue  # a probability below what a float holds
            built({low: c1, low + gap: c2}, ctx)
            built({low + gap: c1, low: c2}, ctx)
            if gap > 1:
                built({low + gap: 2, low + gap // 2: c1, low: c2}, ctx)
    elif kind == "wide":
        _, low, gap = case
        built({low + gap: 3, low: 2, low + 5: 7}, ctx)
    elif kind == "sum":
        huge(case[1], case[2], ctx)
    elif kind == "expr":
        e = case[1]
        law = ref.law(e, {})
        if ref.ERR in law:
            return
        for texts in ref.forms([e]):
            program(tuple(texts), ctx, law)
    elif kind == "program":
        program(case[1], ctx)
    else:
        derived(case[1], ctx)
    ctx.sample({"case": case}, 1009)


def huge(n, s, ctx):
    """More equally likely rolls than a float counts; rare outcomes have probabilities a float cannot hold, so not all of statistics() applies."""
    text = "%dd%d" % (n, s)
    d = impl.session().get_probability_distributions([text])["stdout"]
    counts = d.get_result_map()
    t = s ** n
    mean = n * (s + 1) / 2
    if sum(counts.values()) != t or (d.min(), d.max()) != (n, n * s):
        raise Violation("%s: counts sum to %d, range %d..%d" % (text, sum(counts.values()), d.min(), d.max()))
    form, least, most = d.get_dict_form(), d.at_least(), d.at_most()
    below = 0
    for v in range(n, n * s + 1):
        if not ref.close(form[v], counts[v] / t) or not ref.close(least[v], (t - below) / t):
            raise Violation("%s: probability of %d is %r, of at least that %r" % (text, v, form[v], least[v]))
        below += counts[v]
        if not ref.close(most[v], below / t):
            raise Violation("%s: probability of at most %d is %r, should be %r" % (text, v, most[v], below / t))
    if not ref.close(d.average(), mean) or not ref.close(impl.session().get_average([text])["stdout"], mean):
        raise Violation("the average of %s is %r, should be %r" % (text, d.average(), mean))
    ctx.state(text)
    ctx.step(6)
    ctx.trace()


def built(m, ctx):
    d = impl.factory().create(dict(m))
    statistics(d, m, "the distribution with counts %r" % (m,), ctx)


def derived(index, ctx):
    """Statistics of distributions whose outcomes are split by constraints."""
    name, f = OPERATORS[index]
    s = impl.session()
    for a, b in product(FIRST, SECOND):
        ds = s.get_probability_distributions([a, b])
        for one, two in product(("a", "b"), repeat=2):
            if name == "//" and 0 in ds[two].get_result_map():
                continue
            d = f(ds[one], ds[two])
            statistics(d, d.get_result_map(), "%s applied to %s, %s of %r" % (name, one, two, [a, b]), ctx)
            e = f(f(ds[one], ds[two]), impl.factory().create({1: 2, 3: 1}))
            statistics(e, e.get_result_map(), "%s twice of %s, %s of %r" % (name, one, two, [a, b]), ctx)


def statistics(d, counts, what, ctx):
    t = sum(counts.values())
    low, high = min(counts), max(counts)
    where = what

    def bad(name, got, want):
        raise Violation("%s of %s is %s, should be %s" % (name, where, str(got)[:600], str(want)[:600]))

    if d.get_result_map() != counts:
        bad("result map", d.get_result_map(), counts)
    form = d.get_dict_form()
    if set(form) != set(counts):
        bad("dictionary", form, "over %r" % sorted(counts))
    for v, p in form.items():
        if not (p > 0 and abs(p - counts[v] / t) <= 1e-9 * (counts[v] / t)):
            bad("probability of %d" % v, p, counts[v] / t)
    if not ref.close(sum(form.values()), 1.0):
        bad("sum of probabilities", sum(form.values()), 1)
    if (d.min(), d.max()) != (low, high):
        bad("min, max", (d.min(), d.max()), (low, high))
    if bool(d.contains_zero()) != (0 in counts):
        bad("contains_zero", d.contains_zero(), 0 in counts)
    mean = float(Fraction(sum(v * c for v, c in counts.items()), t))
    if not ref.close(d.average(), mean):
        bad("average", d.average(), mean)
    least, most = d.at_least(), d.at_most()
    span = range(low, high + 1)
    if sorted(least) != list(span):
        bad("at_least keys", sorted(least), "%d..%d" % (low, high))
    if sorted(most) != list(span):
        bad("at_most keys", sorted(most), "%d..%d" % (low, high))
    below = 0
    for v in span:
        if not ref.close(least[v], 1 - below / t):
            bad("at_least(%d)" % v, least[v], 1 - below / t)
        below += counts.get(v, 0)
        if not ref.close(most[v], below / t):
            bad("at_most(%d)" % v, most[v], below / t)
    ctx.state(tuple(sorted(counts.items())))
    ctx.step(8)
    ctx.trace()
    ctx.outcome((low, high, round(mean, 6)))


def program(lines, ctx, law=None):
    lines = list(lines)
    sessions = [impl.session() for _ in range(4)]
    dists = sessions[0].get_probability_distributions(lines)
    for name, d in dists.items():
        counts = d.get_result_map()
        statistics(d, counts, "%s in %r" % (name, lines), ctx)
    if law is not None and not ref.same_law(dists["stdout"].get_result_map(), law):
        raise Violation("the distribution of %r is %s, should be %s" % (lines, ref.show_any(dists["stdout"].get_result_map()), ref.show(law)))
    # every query form, in a session of its own and all of them in one session, describes the same distribution
    same = impl.session()
    for which in (0, 1):
        a, b, c = (sessions[1], sessions[2], sessions[3]) if which == 0 else (same, same, same)
        form, avg, again = a.get_probability_distributions_dict(lines), b.get_average(lines), c.get_probability_distributions(lines)
        if not (set(form) == set(avg) == set(again) == set(dists)):
            raise Violation("%r: the query forms report different names: %r %r %r %r" % (lines, sorted(form), sorted(avg), sorted(again), sorted(dists)))
        for name, d in dists.items():
            if which == 1 and reads_itself(lines):
                continue
            counts = d.get_result_map()
            t = sum(counts.values())
            if set(form[name]) != set(counts) or not all(ref.close(p, counts[v] / t) for v, p in form[name].items()):
                raise Violation("%r: dictionary of %s is %r, its distribution %r" % (lines, name, form[name], counts))
            if not ref.close(avg[name], float(Fraction(sum(v * x for v, x in counts.items()), t))):
                raise Violation("%r: average of %s is %r, its distribution %r" % (lines, name, avg[name], counts))
            if not ref.same_law(again[name].get_result_map(), counts):
                raise Violation("%r: distribution of %s is %r, was %r" % (lines, name, again[name].get_result_map(), counts))
        ctx.step(3)
    # the chart queries use the same distribution as the others (compared in C13); min and max of a line are its extremes
    return dists


def reads_itself(lines):
    return any(t.startswith("VAR a = ") and "a" in t[8:] for t in lines)
