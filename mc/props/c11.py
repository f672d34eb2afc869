"""C11: interpreters are isolated from one another, one after the other and on concurrent threads."""
from itertools import combinations, product

from .. import charts, impl, ref, rng, sched, session
from ..core import Violation
from . import c10

ID = "C11"
BOUNDS = {
    "quick": "two interpreters with one parser sending the same texts (all pairs of 24 texts x 6 query kinds) compared with the same calls on parsers of their own; all interleavings of two scripts of 2 calls over 8 x 8 calls each on 2 interpreters (shared parser, own parsers, all-default, explicit separate states, one state factory and one distribution factory, one shared state), "
    "3 interpreters with 2 calls each; up to 257 interpreters together or one after the other; two threads sharing one parser: 11 x 7 concurrent calls, preempted once at every source line of python_dice (every answer and the "
    "sessions afterwards compared), and 5 x 5 short calls preempted once each at every pair of function calls",
    "thorough": "scripts of 3 calls; all 11 x 7 concurrent calls with both threads preempted once at every pair of function calls, short calls at every pair of lines",
}
ASSUMPTIONS = [
    "threads switch at source lines of python_dice (not inside rply, matplotlib or a single line)",
    "concurrent use of one interpreter, or of a shared starting state, from several threads is not claimed",
]
CHUNK = 1

CALLS = [
    ("roll", ("VAR a = d2",)), ("roll", ("a",)), ("dists", ("VAR a = d2 + 4",)), ("dists", ("a",)), ("max", ("VAR b = 9",)), ("min", ("b",)), ("cost", ("VAR a = 3d6",)), ("avg", ("VAR b = a",)),
]
SHARINGS = ["parser", "nothing", "default", "states", "factories", "state"]

FIRST = [
    ("roll", ("VAR a = 5", "a + 1")), ("roll", ("a * b",)), ("max", ("VAR c = a",)), ("min", ("b - 3",)), ("dists", ("VAR a = a + b", "a - b")), ("dict", ("VAR b = d2",)), ("avg", ("MAX(a, b)",)),
    ("cost", ("VAR a = !(d6 + 3d6k2)", "a")), ("hist", ("b",)), ("roll", ("a +",)), ("roll", ("zz",)),
]
SECOND = [
    ("roll", ("VAR a = 100",)), ("dists", ("VAR a = 50", "a - b")), ("max", ("VAR b = 33", "VAR zz = 1")), ("cost", ("VAR b = 2d4",)), ("roll", ("((",)), ("hist", ("a",)), ("avg", ("2d2k1",)),
]
SHORT = [("roll", ("VAR a = 5",)), ("roll", ("a",)), ("dists", ("a",)), ("max", ("b",)), ("cost", ("VAR b = a",))]
TEXTS = [
    "VAR a = 5", " VAR a = 5", "VAR a=5", "(VAR a = 5)", "!VAR a = 5", "1 + VAR a = 5", "MAX(VAR a = 5, 2)", "ABS(VAR a = 5)", "VAR a = d3", "\tVAR a = d3", "VAR b = VAR a = 5", "VAR b = a",
    "(VAR b = a)", "a", " a", "(a)", "a + 1", "ABS(a)", "MIN(a, 3)", "!a", "2d3k1", "5", "VAR b = d3 + 1", "d3",
]
STRIDE = 4
_PARSERS = []


def setup(tier):
    charts.RECORDER.install()
    impl.parser()
    del _PARSERS[:]
    _PARSERS.extend(impl.Parser() for _ in range(3))


def cases(tier):
    big = tier == "thorough"
    for sharing in SHARINGS:
        yield ("fresh", sharing)
    for sharing in SHARINGS[:-1]:
        for n in (4, 5, 8, 9, 10, 16, 17, 33, 65, 101, 129, 257):
            if sharing != "default" or n <= 9:
                for keep in (True, False):
                    yield ("crowd", sharing, n, keep)
    for kind in ("roll", "dists", "max", "min", "avg", "cost"):
        for i in range(len(TEXTS)):
            yield ("text", kind, i)
    for i, j in product(range(len(SHORT)), repeat=2):
        yield ("pairs", SHORT[i], SHORT[j], "call", 0, 1)
        if big:
            for part in range(4):
                yield ("pairs", SHORT[i], SHORT[j], "line", part, 4)
    for a in FIRST:
        for b in SECOND:
            for part in range(STRIDE):
                yield ("threads", a, b, part, False)
    for a in SECOND[:4]:
        for b in FIRST[:5]:
            for part in range(STRIDE):
                yield ("threads", a, b, part, False)
    for sharing in SHARINGS:
        for one in product(range(len(CALLS)), repeat=2):
            if sharing == "default" and one[0] not in (0, 2, 4):
                continue
            yield ("order", sharing, one, 3 if big and sharing in ("parser", "state") else 2)
    for sharing in ("parser", "states", "factories"):
        for one in range(len(CALLS)):
            yield ("three", sharing, one)
    if big:
        for a in FIRST:
            for b in SECOND:
                if "hist" in (a[0], b[0]):
                    continue
                for part in range(32):
                    yield ("pairs", a, b, "call", part, 32)


def interpreters(sharing, n):
    """n interpreters and their models (shared state: one model)."""
    parser = _PARSERS[0]
    if sharing == "parser":
        return [impl.Interpreter(parser) for _ in range(n)], [session.Model() for _ in range(n)]
    if sharing == "nothing":
        return [impl.Interpreter(_PARSERS[i % 3]) for i in range(n)], [session.Model() for _ in range(n)]
    if sharing == "default":
        return [impl.Interpreter() for _ in range(n)], [session.Model() for _ in range(n)]
    if sharing == "states":
        states = [parser.parse("0")[1] for _ in range(n)]
        return [impl.Interpreter(parser, starting_state=s) for s in states], [session.Model() for _ in range(n)]
    if sharing == "factories":
        states, dists = impl.state_factory(), impl.factory()
        return [
            impl.Interpreter(_PARSERS[0], probability_distribution_state_factory=states, probability_distribution_factory=dists) for _ in range(n)
        ], [session.Model() for _ in range(n)]
    state = parser.parse("0")[1]
    model = session.Model()
    return [impl.Interpreter(_PARSERS[i % 2], starting_state=state) for i in range(n)], [model] * n


def check(case, ctx):
    mode = case[0]
    if mode == "fresh":
        fresh(case[1], ctx)
    elif mode == "crowd":
        crowd(case, ctx)
    elif mode == "text":
        same_text(case, ctx)
    elif mode == "order":
        _, sharing, one, n = case
        for rest in product(range(len(CALLS)), repeat=2 * n - 2) if n == 2 else three_each():
            script = tuple(one) + rest
            scripts = (script[:n], script[n:])
            for turns in combinations(range(2 * n), n):
                order = [0 if t in turns else 1 for t in range(2 * n)]
                run(sharing, scripts, order, ctx)
    elif mode == "three":
        for two, three in product(range(len(CALLS)), repeat=2):
            for order in ((0, 1, 2, 0, 1, 2), (0, 1, 2, 2, 1, 0), (0, 0, 1, 2, 1, 2), (1, 2, 0, 1, 0, 2)):
                run(case[1], ((case[2], 3), (two, 1), (three, 5)), order, ctx)
    elif mode == "threads":
        threads(case, ctx)
    else:
        pairs(case, ctx)
    ctx.sample({"case": case}, 97)


def same_text(case, ctx):
    """Two interpreters that share a parser send the same texts; each answers as it would with a parser of its own."""
    _, kind, i = case
    one = TEXTS[i]
    for two in TEXTS:
        shared = [impl.Interpreter(_PARSERS[0]), impl.Interpreter(_PARSERS[0])]
        alone = [impl.Interpreter(_PARSERS[1]), impl.Interpreter(_PARSERS[2])]
        for group in (shared, alone):
            group[0].max(["VAR a = 2", "VAR b = 3"])
            group[1].max(["VAR a = 20", "VAR b = 30"])
        rng.CONTROL.start([])
        try:
            for who, text in ((0, one), (0, two), (1, one), (1, two), (0, one), (1, "VAR a = 7"), (0, two), (1, one)):
                a, b = (session.call(g[who], kind, [text])[1] for g in (shared, alone))
                if a != b:
                    raise Violation("two interpreters share a parser and send %r and %r: %s(%r) on interpreter %d gives %r, alone %r" % (one, two, kind, text, who, a, b))
                ctx.step()
            for who in (0, 1):
                a, b = (g[who].roll(["0"]) for g in (shared, alone))
                c, d = (session.call(g[who], "dists", ["0"])[1] for g in (shared, alone))
                if (a, c) != (b, d):
                    raise Violation("two interpreters share a parser and send %r and %r (%s): afterwards interpreter %d has %r, alone %r" % (one, two, kind, who, (a, c), (b, d)))
        finally:
            rng.CONTROL.stop()
        ctx.trace()
        ctx.state("text", kind, one, two)


def crowd(case, ctx):
    """Many interpreters, alive together or one after the other, each with values of its own."""
    _, sharing, n, keep = case
    makers = interpreters(sharing, n)[0] if keep else [None] * n
    live = []

    def visit(i, it):
        want = {"a": i, "b": i + 1}
        got = it.roll(["0"])
        laws = {k: d.get_result_map() for k, d in it.get_probability_distributions(["0"]).items()}
        if got != dict(want, stdout=0) or set(laws) != {"a", "b", "stdout"} or set(laws["a"]) != {i} or set(laws["b"]) != {i, i + 1}:
            raise Violation("interpreter %d of %d (%s) has a = %d, b = a or a + 1 rolled as a + 1; it answers %r and %r" % (i, n, sharing, i, got, laws))
        ctx.step(2)

    for i, it in enumerate(makers):
        if it is None:
            it = interpreters(sharing, 1)[0][0]
        first = (it.roll(["0"]), sorted(it.get_probability_distributions(["0"])), impl.outcome(it.roll, ["a"]), impl.outcome(it.get_average, ["b"]))
        if first != ({"stdout": 0}, ["stdout"], ("err", "KeyError"), ("err", "KeyError")):
            raise Violation("interpreter %d of %d (%s) should start without variables, it answers %r" % (i, n, sharing, first))
        it.max(["VAR a = %d" % i, "VAR b = d[0,1] + a"])
        visit(i, it)
        if keep:
            live.append(it)
        ctx.step(5)
    for i, it in enumerate(live):
        visit(i, it)
    for i, it in reversed(list(enumerate(live))):
        visit(i, it)
    ctx.trace()
    ctx.state("crowd", sharing, n, keep)


def three_each():
    for a, b, c, d in product((0, 3, 5, 7), (0, 2, 4, 7), (1, 2, 6), (1, 3, 5, 7)):
        yield (a, b, c, d)


def fresh(sharing, ctx):
    """Whatever was done on others, a new interpreter has no variables."""
    for kind, lines in CALLS + FIRST + SECOND:
        (old, new), _ = interpreters(sharing, 2)
        for _ in range(2):
            impl.outcome(getattr(old, session.METHOD["max"]), ["VAR a = 2", "VAR b = d2"])
            impl.outcome(getattr(old, session.METHOD[kind]), list(lines))
        if sharing == "state":
            continue
        late = interpreters(sharing, 1)[0][0]
        for it in (new, late):
            got = (it.roll(["0"]), sorted(it.get_probability_distributions(["0"])), impl.outcome(it.roll, ["a"]), impl.outcome(it.get_average, ["b"]), impl.outcome(it.max, ["b"]))
            want = ({"stdout": 0}, ["stdout"], ("err", "KeyError"), ("err", "KeyError"), ("err", "KeyError"))
            if got != want:
                raise Violation("after %s(%r) on another interpreter (%s), a new one answers %r, should answer %r" % (kind, lines, sharing, got, want))
        ctx.step(4)
        ctx.state("fresh", sharing, kind, lines)
        ctx.trace()


def run(sharing, scripts, order, ctx):
    """One interleaving; rolls take their first answer (the model accepts any possible one)."""
    interps, models = interpreters(sharing, len(scripts))
    at = [0] * len(scripts)
    rng.CONTROL.start([])
    try:
        for who in order:
            kind, lines = CALLS[scripts[who][at[who]]]
            at[who] += 1
            got = session.call(interps[who], kind, list(lines))[1]
            want = session.step(models[who], kind, lines, got)
            if not session.agree(kind, got, want):
                raise Violation("interpreters sharing %s, scripts %r, turns %r: %s(%r) on interpreter %d gives %r, should give %r" % (
                    sharing, [[CALLS[c] for c in s] for s in scripts], order, kind, list(lines), who, got, want))
            ctx.step()
        for i, m in zip(interps, models):
            c10.read_back(i, m, "interpreters sharing %s, scripts %r, turns %r" % (sharing, [[CALLS[c] for c in s] for s in scripts], order))
    finally:
        rng.CONTROL.stop()
    ctx.trace()
    ctx.state(sharing, tuple(m.key() for m in models))


# ------------------------------------------------------------------------------------------------ threads
def prepared():
    one, two = impl.Interpreter(_PARSERS[0]), impl.Interpreter(_PARSERS[0])
    models = session.Model(), session.Model()
    for interp, model, lines in ((one, models[0], ("VAR a = 2", "VAR b = 7")), (two, models[1], ("VAR a = 11", "VAR b = d[20,30]"))):
        got = session.call(interp, "max", list(lines))[1]
        session.step(model, "max", lines, got)
    return one, two, models


def attempt(a, b, k1, k2, points, ctx):
    one, two, models = prepared()
    charts.RECORDER.shots = []
    calls = []
    for interp, (kind, lines) in ((one, a), (two, b)):
        calls.append((lambda i, k, l: lambda: getattr(i, session.METHOD[k])(list(l)))(interp, kind, lines))
    first, second, n1, n2, hit1, hit2 = sched.run(calls[0], calls[1], k1, k2, points)
    where = "%s(%r) preempted at point %d (%s) by %s(%r)%s" % (a[0], list(a[1]), k1, points, b[0], list(b[1]), "" if k2 is None else " preempted at point %d" % k2)
    # alternately on purpose: each session must be what it would be alone
    for interp, model, (kind, lines), raw in ((one, models[0], a, first), (two, models[1], b, second)):
        if raw[0] == "crash":
            raise Violation("%s: %s(%r) fails with %s" % (where, kind, lines, raw[1]))
        got = session.plain(kind, raw)
        peek = interp.roll(["0"]) if got[0] == "err" else None
        want = session.step(model, kind, lines, got, peek)
        if not session.agree(kind, got, want):
            raise Violation("%s: %s(%r) answers %r, alone it answers %r" % (where, kind, list(lines), got, want))
        c10.read_back(interp, model, where)
    drawn = [x for x in ((a, models[0]), (b, models[1])) if x[0][0] == "hist"]
    if drawn:
        expected = sorted(bars(ref.AsIs.flat(m.dists.dist(m.parse(c[1][-1])))) for c, m in drawn)
        shown = sorted(sorted((round(x + w / 2, 6), round(h, 6)) for x, w, _, h in s["axes"][0]["bars"] if h) for s in charts.RECORDER.shots)
        if shown != expected:
            raise Violation("%s: the charts show %r, should show %r" % (where, shown, expected))
    ctx.step(2)
    ctx.trace()
    ctx.state(a, b, k1, k2, points)
    ctx.outcome((a, b, models[0].key(), models[1].key()))
    return n1, n2, hit1, hit2


def bars(law):
    t = sum(law.values())
    return sorted((round(float(v), 6), round(c / t, 6)) for v, c in law.items())


def threads(case, ctx):
    """The first call is preempted once, at each of its source lines, by the whole second call."""
    _, a, b, part, _ = case
    k = 1 + part
    while True:
        _, _, hit, _ = attempt(a, b, k, None, "line", ctx)
        if not hit:
            break
        k += STRIDE
    ctx.count("line-level sweeps")


def pairs(case, ctx):
    """Both calls are preempted once, at every pair of points."""
    _, a, b, points, part, parts = case
    k1 = 1 + part
    while True:
        k2 = 1
        while True:
            _, _, hit1, hit2 = attempt(a, b, k1, k2, points, ctx)
            if not hit1 or not hit2:
                break
            k2 += 1
        if not hit1:
            break
        k1 += parts
    ctx.count("pairwise sweeps")
