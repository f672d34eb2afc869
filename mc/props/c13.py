"""C13: charts show the data they are asked for, and nothing else."""
from fractions import Fraction
from itertools import product

from matplotlib import pyplot, rcParams

from .. import charts, impl, ref
from ..core import Violation

ID = "C13"
BOUNDS = {
    "quick": "the 3 charts of all count maps over -2..2 with counts {absent,1,3}, of wide (to 1031 values), gapped and large maps, and of 60 programs through the interpreter; the 4 comparison "
    "charts of all ordered pairs of 26 maps, of 9 maps of very different ranges, and of 12 names; all sequences of 3 chart calls out of 7 with and without a figure of the caller, also with a failing write "
    "in the middle; 7 real renderings re-read after later charts",
    "thorough": "maps over -3..3, pairs of 60 maps, sequences of 4 chart calls",
}
ASSUMPTIONS = [
    "the figure is inspected where it is written to the image (matplotlib's canvas); bars are its rectangles, curves its lines",
    "a bar of height 0 may be left out",
    "names that matplotlib itself does not print in a legend (empty, with a leading underscore) or typesets as formulas ($) are outside the domain",
]
CHUNK = 1

SINGLE = ("get_histogram", "get_at_least_histogram", "get_at_most_histogram")
PAIR = ("get_compare", "get_compare_at_least", "get_compare_at_most", "get_compare_histogram")
WIDE = [
    {0: 1}, {7: 3}, {-5: 2}, {0: 1, 40: 1}, {-30: 5, 12: 1}, {100: 1, 101: 2, 140: 7}, {v: 1 for v in range(-20, 21)}, {v: v * v + 1 for v in range(1, 120)},
    {5: 1, 3: 2, 9: 4}, {9: 1, -9: 1, 0: 1}, {1: 10 ** 20, 2: 1}, {1000: 1, 1003: 1}, {-2: 1, -1: 1}, {3: 1, 1: 1, 2: 2},
    {v: 2 ** v for v in range(36)}, {v: 2 ** (35 - v) for v in range(36)}, {0: 1, 1: 10 ** 10, 2: 7}, {-3: 10 ** 11, 0: 3, 3: 10 ** 11 - 5},
]
FAR = [
    {1: 1, 2: 1}, {0: 1, 1: 2}, {v: 1 for v in range(1, 31)}, {v: 31 - v for v in range(1, 31)}, {100: 1, 103: 1}, {-300: 1, -298: 2}, {1: 5, 150: 1}, {-150: 1, 2: 1}, {-1: 1, 1: 1, 60: 1},
]
NAMES = ["a", "b", "This distribution", "other distribution", "d6 + 3", "Zed 9", "same", "same", "x" * 30, "A", "100%", "-1"]
PROGRAMS = [
    ("d6",), ("2d6",), ("3",), ("dF - d2",), ("VAR a = d4", "a * a"), ("VAR a = d4",), ("VAR a = d4", "VAR b = a + d2", "b - a"), ("d6 == 1",), ("VAR a = d6", "7"),
    ("VAR a = 2d4", "VAR a = dF", "a"), ("10d6",), ("d[3,9,20*4]",), ("VAR stdout = d6", "d3"), ("d6 + 1", "VAR a = d2"), ("4d6k3",), ("ABS(dF)",), ("MAX(d4, d8)",),
    ("d6", "d20"), ("0d6",), ("VAR a = d2 - 1", "a AND a"), ("13d6",), ("40d2",), ("12d6k3",),
]


def setup(tier):
    charts.RECORDER.install()
    impl.parser()
    del _SETTINGS[:]
    _SETTINGS.append(settings())


def maps(values, counts):
    for cs in product(counts, repeat=len(values)):
        m = {v: c for v, c in zip(values, cs) if c}
        if m:
            yield m


def pool(n):
    out = [{1: 1}, {0: 1}, {2: 5}, {1: 1, 2: 1}, {0: 1, 3: 1}, {-1: 2, 0: 1}, {2: 1, 1: 3}, {5: 1, 6: 1, 9: 2}, {-3: 1, 3: 1}, {1: 1, 2: 2, 3: 1}, {3: 1, 4: 1, 5: 4}]
    for m in maps((-2, -1, 0, 1, 4), (0, 1, 2)):
        if len(out) >= n:
            break
        if sum(m.values()) % 3 == 1 and m not in out:
            out.append(m)
    return out


def items(m):
    return tuple(m.items())


def cases(tier):
    big = tier == "thorough"
    for kind in range(7):
        yield ("real", kind)
    for m in WIDE:
        for k in SINGLE:
            yield ("one", k, items(m))
    for p in PROGRAMS:
        for k in SINGLE:
            yield ("program", k, p)
    for m in ({0: 1, 1030: 3}, {v: 1 + v % 7 for v in range(-40, 990)}):
        for k in SINGLE:
            yield ("one", k, items(m))
        yield ("pair", items(m), items({1: 1, 2: 3}), None)
    few = pool(60 if big else 26)
    for m in few:
        for n in few:
            yield ("pair", items(m), items(n), None)
    for a, b in product(NAMES, repeat=2):
        yield ("pair", ((1, 1), (2, 2)), ((2, 1), (3, 1)), (a, b))
    for m, n in product(WIDE[:12], [WIDE[0], WIDE[4], WIDE[6]]):
        yield ("pair", items(m), items(n), None)
    for m, n in product(FAR, repeat=2):
        yield ("pair", items(m), items(n), None)
    for first in range(7):
        for second in range(7):
            yield ("seq", (first, second), 2 if big else 1)
    for m in maps((-2, -1, 0, 1, 2), (0, 1, 3)):
        for k in SINGLE:
            yield ("one", k, items(m))
    if big:
        for m in maps((-3, -2, -1, 0, 1, 2, 3), (0, 1, 2)):
            for k in SINGLE:
                yield ("one", k, items(m))


def check(case, ctx):
    mode = case[0]
    if mode == "one":
        m = dict(case[2])
        chart(case[1], impl.factory().create(dict(m)), m, None, None, None, ctx, "%s of counts %r" % (case[1], m))
    elif mode == "program":
        program(case[1], case[2], ctx)
    elif mode == "pair":
        m, n = dict(case[1]), dict(case[2])
        d, o = impl.factory().create(dict(m)), impl.factory().create(dict(n))
        for k in PAIR:
            chart(k, d, m, o, n, case[3], ctx, "%s of counts %r and %r" % (k, m, n))
    elif mode == "seq":
        from itertools import product as p

        for rest in p(range(7), repeat=case[2]):
            for own in (False, True):
                for fault in (None, 0, 1):
                    sequence(tuple(case[1]) + rest, own, fault, ctx)
    else:
        real(case[1], ctx)
    ctx.sample({"case": case}, 503)


# ------------------------------------------------------------------------------------------------ one chart
def settings():
    return {k: repr(rcParams[k]) for k in rcParams if not k.startswith(("backend", "keymap"))}


_SETTINGS = []


def shots(call, what):
    numbers = pyplot.get_fignums()
    current = pyplot.gcf().number if numbers else None
    axis = pyplot.gca() if numbers else None
    before = {n: repr(charts.describe(fig(n))) for n in numbers}
    charts.RECORDER.shots = []
    image = call()
    if not (hasattr(image, "size") and hasattr(image, "getpixel")):
        raise Violation("%s returned %r, not an image" % (what, image))
    image.getpixel((0, 0))
    if pyplot.get_fignums() != numbers:
        raise Violation("%s leaves open figures %r, before it there were %r" % (what, pyplot.get_fignums(), numbers))
    if numbers:
        for n in numbers:
            if repr(charts.describe(fig(n))) != before[n]:
                raise Violation("%s changed the caller's figure %d: %s, was %s" % (what, n, charts.describe(fig(n)), before[n]))
        if pyplot.gcf().number != current:
            raise Violation("%s makes figure %r the current one, was %r" % (what, pyplot.gcf().number, current))
        if pyplot.gca() is not axis:
            raise Violation("%s changes the caller's current axes" % what)
    if settings() != _SETTINGS[0]:
        now = settings()
        raise Violation("%s changed drawing settings: %r" % (what, {k: (v, now.get(k)) for k, v in _SETTINGS[0].items() if now.get(k) != v}))
    got = charts.RECORDER.shots
    if not got:
        raise Violation("%s wrote no figure" % what)
    return got[-1]


def fig(n):
    from matplotlib._pylab_helpers import Gcf

    return Gcf.figs[n].canvas.figure


def chart(kind, d, m, o, n, names, ctx, what):
    if o is None:
        shot = shots(lambda: getattr(d, kind)(), what)
    elif names is None or kind == "get_compare_histogram":
        shot = shots(lambda: getattr(d, kind)(o), what)
    else:
        shot = shots(lambda: getattr(d, kind)(o, names[0], names[1]), what)
    judge(kind, shot, m, n, names, ctx, what)
    ctx.state(kind, items(m), items(n) if n else None, names)
    ctx.step()
    ctx.trace()
    ctx.outcome(repr(shot)[:400])


def exact(m):
    t = sum(m.values())
    return {v: float(Fraction(m.get(v, 0), t)) for v in range(min(m), max(m) + 1)}


def least(m):
    t = sum(m.values())
    return {v: float(Fraction(sum(c for w, c in m.items() if w >= v), t)) for v in range(min(m), max(m) + 1)}


def most(m):
    t = sum(m.values())
    return {v: float(Fraction(sum(c for w, c in m.items() if w <= v), t)) for v in range(min(m), max(m) + 1)}


DATA = {
    "get_histogram": exact, "get_at_least_histogram": least, "get_at_most_histogram": most,
    "get_compare": exact, "get_compare_at_least": least, "get_compare_at_most": most,
}


def judge(kind, shot, m, n, names, ctx, what):
    if len(shot["axes"]) != 1:
        raise Violation("%s: %d plots in one figure" % (what, len(shot["axes"])))
    ax = shot["axes"][0]
    inside(ax, what)
    if not ax["shown"] or ax["scales"] != ("linear", "linear"):
        raise Violation("%s: the plot is hidden or its axes are not linear: %r" % (what, ax["scales"]))
    if n is None:
        match_bars(ax["bars"], DATA[kind](m), what)
        mean = float(Fraction(sum(v * c for v, c in m.items()), sum(m.values())))
        if len(ax["lines"]) != 1:
            raise Violation("%s: %d marker lines: %r" % (what, len(ax["lines"]), ax["lines"]))
        xs, ys = ax["lines"][0][:2]
        if not xs or not all(ref.close(x, mean) for x in xs) or max(ys) <= min(ys):
            raise Violation("%s: the marker line is at %r (height %r), should be at the average %r" % (what, xs, ys, mean))
    elif kind == "get_compare_histogram":
        if ax["lines"]:
            raise Violation("%s: unexpected lines %r" % (what, ax["lines"]))
        p, q = exact(m), exact(n)
        span = range(min(min(p), min(q)), max(max(p), max(q)) + 1)
        plain = {v: p.get(v, 0) - q.get(v, 0) for v in span}
        doubled = {v: (2 if v in p and v in q else 1) * y for v, y in plain.items()}
        try:
            match_bars(ax["bars"], plain, what)
        except Violation as v:
            try:
                match_bars(ax["bars"], doubled, what)
            except Violation:
                raise v
            if not ctx.finding("KF-COMPARE", "%r against %r" % (m, n)):
                raise v
    else:
        if ax["bars"]:
            raise Violation("%s: unexpected bars %r" % (what, ax["bars"]))
        want = names or ("This distribution", "other distribution")
        if len(ax["lines"]) != 2:
            raise Violation("%s: %d lines" % (what, len(ax["lines"])))
        expected = [(want[0], sorted(DATA[kind](m).items())), (want[1], sorted(DATA[kind](n).items()))]
        rest = list(ax["lines"])
        if rest[0][3] is not None and rest[0][3] == rest[1][3] and rest[0][:2] != rest[1][:2]:
            raise Violation("%s: both lines are drawn alike: %r" % (what, rest[0][3]))
        for name, points in expected:
            for ln in rest:
                xs, ys, label, style = ln
                if names_of(ax, label, style, name) and len(xs) == len(points) and all(ref.close(x, v) and near(y, p) for x, y, (v, p) in zip(xs, ys, points)):
                    rest.remove(ln)
                    break
            else:
                raise Violation("%s: no line named %r through %s; lines: %s" % (what, name, points, ax["lines"]))
        if ax["legend"] is None or sorted(ax["legend"]) != sorted(want):
            raise Violation("%s: the legend shows %r, should show %r" % (what, ax["legend"], want))


def names_of(ax, label, style, name):
    """The line is the one that the legend calls `name`: by the sample beside the name, where lines differ in style; else by the line's own label."""
    if ax["keys"] and len({ln[3] for ln in ax["lines"]}) == len(ax["lines"]) and None not in {ln[3] for ln in ax["lines"]}:
        return (name, style) in ax["keys"]
    return label == name


def near(got, want):
    """Heights are floats that may come from a running sum (rounding far below any probability checked here)."""
    return abs(got - want) <= 1e-12


def inside(ax, what):
    """Everything that is drawn lies in the visible part of the plot."""
    (x0, x1), (y0, y1) = ax["xlim"], ax["ylim"]
    points = [(x + w / 2, y + h) for x, w, y, h in ax["bars"] if h] + [
        (x, y if len(set(xs)) > 1 else (y0 + y1) / 2) for xs, ys, _, _ in ax["lines"] for x, y in zip(xs, ys)]  # a vertical marker may span any height
    ex, ey = 1e-6 * (1 + abs(x1 - x0)), 1e-6 * (1 + abs(y1 - y0))
    for x, y in points:
        if not (x0 - ex <= x <= x1 + ex and y0 - ey <= y <= y1 + ey):
            raise Violation("%s: (%r, %r) lies outside the visible plot %r x %r" % (what, x, y, ax["xlim"], ax["ylim"]))


def match_bars(bars, want, what):
    got = {}
    for x, width, y, height in bars:
        if height == 0 or width == 0:
            if height:
                raise Violation("%s: a bar of height %r without width at %r" % (what, height, x))
            continue
        if y != 0:
            raise Violation("%s: a bar at %r does not start at 0 but at %r" % (what, x, y))
        centre = x + width / 2
        v = int(round(centre))
        if abs(centre - v) > 1e-6 or width > 1 + 1e-6:
            raise Violation("%s: a bar covers %r to %r" % (what, x, x + width))
        if v in got and got[v] != height:  # an identical bar drawn on top shows the same
            raise Violation("%s: two bars at %d" % (what, v))
        got[v] = height
    for v, h in got.items():
        if v not in want:
            raise Violation("%s: there is a bar at %d" % (what, v))
    for v, h in want.items():
        if not near(got.get(v, 0.0), h):
            raise Violation("%s: the bar at %d has height %r, should be %r (bars %r)" % (what, v, got.get(v, 0.0), h, got))


# ------------------------------------------------------------------------------------------------ through the interpreter
def program(kind, lines, ctx):
    want = impl.session().get_probability_distributions(list(lines))["stdout"].get_result_map()
    s = impl.session()
    what = "%s(%r)" % (kind, list(lines))
    for _ in range(2):
        shot = shots(lambda: getattr(s, kind)(list(lines)), what)
        judge(kind, shot, want, None, None, ctx, what)
        ctx.step()
    ctx.state(kind, lines)
    ctx.trace()


# ------------------------------------------------------------------------------------------------ sequences of charts
def calls():
    f = impl.factory()
    m, n = {1: 1, 2: 2, 4: 1}, {-1: 3, 2: 1}
    out = []
    for i, k in enumerate(SINGLE + PAIR):
        a, b = (m, n) if i % 2 else (n, m)
        out.append((k, f.create(dict(a)), a, f.create(dict(b)) if k in PAIR else None, b if k in PAIR else None))
    return out


def sequence(order, own, fault, ctx):
    menu = calls()
    pyplot.close("all")
    what = "%s%r%s" % ("with a figure of the caller, " if own else "", [(SINGLE + PAIR)[i] for i in order], "" if fault is None else ", write %d failing" % fault)
    mine = None
    if own:
        mine, axis = pyplot.subplots()
        axis.plot([1, 2, 3], [3, 1, 2], label="mine")
        axis.set_title("mine")
    for at, i in enumerate(order):
        k, d, m, o, n = menu[i]
        if at == fault:
            charts.RECORDER.fail = OSError("no space left on device")
            try:
                getattr(d, k)(*([o] if o is not None else []))
            except OSError:
                pass
            charts.RECORDER.fail = None
            ctx.step()
            continue
        chart(k, d, m, o, n, None, ctx, what + " call %d" % (at + 1))
    if mine is not None:
        shown = charts.describe(mine)["axes"]
        if len(shown) != 1 or shown[0]["title"] != "mine" or len(shown[0]["lines"]) != 1 or shown[0]["bars"] or shown[0]["xlabel"]:
            raise Violation("%s: the caller's figure now shows %r" % (what, shown))
    pyplot.close("all")
    ctx.state(order, own, fault)


# ------------------------------------------------------------------------------------------------ real rendering
def real(kind, ctx):
    menu = calls()
    charts.RECORDER.on = False
    try:
        k, d, m, o, n = menu[kind]

        def draw():
            return getattr(d, k)(*([o] if o is not None else []))

        first, untouched = draw(), draw()
        if pyplot.get_fignums():
            raise Violation("%s leaves figures open" % k)
        shown = pixels(first)
        if len(set(shown[1][i:i + 3] for i in range(0, len(shown[1]), 3))) < 4:
            raise Violation("%s: the picture is blank" % k)
        other = menu[(kind + 1) % 7]
        later = getattr(other[1], other[0])(*([other[3]] if other[3] is not None else []))
        if pixels(untouched) != shown or pixels(first) != shown:
            raise Violation("%s: the picture changes after a later chart" % k)
        if pixels(draw()) != shown:
            raise Violation("%s: the same chart drawn again shows something else" % k)
        if pixels(later) == shown:
            raise Violation("%s and %s show the same picture" % (k, other[0]))
        ctx.step(4)
        ctx.trace()
        ctx.state("real", k)
    finally:
        charts.RECORDER.on = True


def pixels(image):
    rgb = image.convert("RGB")
    return (rgb.size, rgb.tobytes())
