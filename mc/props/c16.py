"""C16: results are snapshots; returned dictionaries are the caller's."""
from .. import charts, impl, ref, rng, session
from ..core import Violation
from . import c10

ID = "C16"
BOUNDS = {
    "quick": "all sequences of 3 calls over 6 query kinds x 7 lines: after every call all earlier results are read again (plain values, statistics, operators); the same "
    "sequences with every returned dictionary overwritten by the caller; all sequences of 2 queries out of 24 (statistics, operators, charts) on 6 distributions; 9 distributions whose source dictionary the caller goes on changing; each query twice on 9 wide, skewed or gapped distributions; all sequences of 3 charts (7 kinds, 2 data sets; third out of 4) whose images are looked at last; 70 charts of each kind looked at after the last one; results of 150 calls read again after the last one",
    "thorough": "sequences of 3 calls over 8 kinds x 9 lines, of 4 calls over 4 kinds x 5 lines; sequences of 3 queries",
}
ASSUMPTIONS = ["the constraint map of a distribution (get_constraint_result_map) is an internal view and is not handed to the caller here"]
CHUNK = 1

LINES = ["VAR a = d2", "a", "VAR b = a + d2", "VAR a = 5", "b - a", "VAR a = a + 1", "VAR b = MAX(a, b)"]
KINDS = ["roll", "dists", "max", "dict", "avg", "cost"]


def setup(tier):
    charts.RECORDER.install()
    impl.parser()


def ops(kinds, lines):
    return [(k, (t,)) for k in kinds for t in lines]


def cases(tier):
    big = tier == "thorough"
    main = ops(KINDS + (["min", "hist"] if big else []), LINES + (["VAR c = b", "VAR stdout = a"] if big else []))
    for one in main:
        yield ("keep", (one,), 1)
        yield ("mutate", (one,), 1)
    for i in range(len(QUERIES)):
        yield ("query", i, 3 if big else 2)
    for kind in ("hist", "least", "most") + PAIRS:
        yield ("gallery", kind, 70)
    for kind in ("roll", "max", "min", "dists", "dict", "avg"):
        yield ("archive", kind, 150)
    for w in range(len(WIDE)):
        yield ("given", w)
    for w in range(len(WIDE)):
        for i in range(len(QUERIES)):
            yield ("wide", w, i)
    for one in range(len(PICTURES)):
        for two in range(len(PICTURES)):
            yield ("images", one, two, len(PICTURES) if big else 4)
    for one in main:
        for two in main:
            yield ("keep", (one, two), 1)
            yield ("mutate", (one, two), 1)
    if big:
        small = ops(KINDS[:4], LINES[:5])
        for one in small:
            for two in small:
                for three in small:
                    yield ("keep", (one, two, three), 1)


def tails(tier_ops):
    return tier_ops


TAIL = ops(["roll", "dists", "min", "dict"], LINES[:6])


def check(case, ctx):
    if case[0] == "query":
        return queries(case, ctx)
    if case[0] == "gallery":
        return gallery(case, ctx)
    if case[0] == "archive":
        return archive(case, ctx)
    if case[0] == "given":
        return given(case, ctx)
    if case[0] == "wide":
        return wide(case, ctx)
    if case[0] == "images":
        return images(case, ctx)
    for tail in TAIL:
        run(tuple(case[1]) + (tail,), case[0] == "mutate", ctx)
    ctx.sample({"calls": case[1], "mode": case[0]}, 211)


def run(seq, mutate, ctx):
    def once():
        interp, model = impl.session(), session.Model()
        held = []
        for kind, lines in seq:
            raw, got = session.call(interp, kind, list(lines))
            want = session.step(model, kind, lines, got)
            if not session.agree(kind, got, want):
                raise Violation("%s%r: %s(%r) gives %r, should give %r" % (
                    "with returned dictionaries overwritten by the caller, " if mutate else "", list(seq), kind, list(lines), got, want), calls=seq)
            ctx.step()
            ctx.state(mutate, model.key(), len(held))
            for k, l, r, snapshot in held:
                now = session.plain(k, r)
                if now != snapshot:
                    raise Violation("%r: the result of %s(%r) was %r and is now %r" % (list(seq), k, list(l), snapshot, now), calls=seq)
            if mutate:
                scribble(kind, raw)
            else:
                held.append((kind, lines, raw, got))
        for at, (k, l, r, _) in enumerate(held):  # no two results share anything the caller can change
            scribble(k, r)
            for k2, l2, r2, snapshot in held[at + 1:]:
                if session.plain(k2, r2) != snapshot:
                    raise Violation("%r: overwriting the result of %s(%r) changes that of %s(%r) from %r to %r" % (
                        list(seq), k, list(l), k2, list(l2), snapshot, session.plain(k2, r2)), calls=seq)
        c10.read_back(interp, model, seq)

    ctx.trace(session.explore(once))


# ------------------------------------------------------------------------------------------------ images
PAIRS = ("get_compare", "get_compare_at_least", "get_compare_at_most", "get_compare_histogram")
PICTURES = [(kind, which) for which in (0, 1) for kind in ("hist", "least", "most") + PAIRS]
SHOWN = [("VAR a = d3", "a * a"), ("VAR a = 2d4", "a - 1")]
_EXPECTED = {}


def draw(kind, which, interp):
    if kind in PAIRS:
        ds = interp.get_probability_distributions(list(SHOWN[which]))
        return getattr(ds["stdout"], kind)(ds["a"])
    return getattr(interp, session.METHOD[kind])(list(SHOWN[which]))


def images(case, ctx):
    """Images of a sequence of charts, looked at only after the last of them; then one of them is painted over and drawn again."""
    _, one, two, thirds = case
    for third in range(thirds):
        order = [PICTURES[i] for i in (one, two, third)]
        for what in order:
            if what not in _EXPECTED:
                _EXPECTED[what] = charts.pixels(draw(what[0], what[1], impl.session()))
        shared = impl.session()
        held = [draw(k, w, shared) for k, w in order]
        for at, image in enumerate(held):
            if charts.pixels(image) != _EXPECTED[order[at]]:
                raise Violation("the image of %r, looked at after %r were drawn, shows something else" % (order[at], order), charts=order)
        held[0].paste((1, 2, 3), (0, 0) + held[0].size)
        if charts.pixels(held[1]) != _EXPECTED[order[1]] or charts.pixels(draw(order[0][0], order[0][1], shared)) != _EXPECTED[order[0]]:
            raise Violation("painting over the image of %r changes another one (%r)" % (order[0], order), charts=order)
        ctx.step(4)
        ctx.trace()
        ctx.state("images", tuple(order))


def gallery(case, ctx):
    """Many charts of different data, all looked at only after the last one."""
    _, kind, n = case
    interp = impl.session()
    name = {"hist": "get_histogram", "least": "get_at_least_histogram", "most": "get_at_most_histogram"}.get(kind, kind)
    other = impl.factory().create({1: 1, 2: 3})

    def picture(i):
        if kind in PAIRS:
            return getattr(impl.factory().create({0: 1, 1: i + 1}), name)(other)
        return getattr(interp, name)(["d[0, 1*%d]" % (i + 1)])

    seen = [charts.pixels(picture(i)) for i in range(n)]
    if len(set(seen)) != n:
        raise Violation("%s shows the same for different data" % name)
    held = [picture(i) for i in range(n)]
    ctx.step(2 * n)
    for i, image in enumerate(held):
        if charts.pixels(image) != seen[i]:
            raise Violation("chart %d of %d (%s), looked at after the last, shows something else" % (i, n, name))
        ctx.state("gallery", kind, i)
    ctx.trace()


def archive(case, ctx):
    """The results of many calls, read again after the last one."""
    _, kind, n = case
    interp, model, held = impl.session(), session.Model(), []
    lines = ["VAR a = %d", "VAR b = a + %d", "a * %d", "VAR a = d2 + %d", "VAR b = %d - a", "%d"]
    rng.CONTROL.start([])
    try:
        for i in range(n):
            call = (lines[i % len(lines)] % i,)
            raw, got = session.call(interp, kind, list(call))
            want = session.step(model, kind, call, got)
            if not session.agree(kind, got, want):
                raise Violation("call %d of a session, %s%r, gives %r, should give %r" % (i, kind, call, got, want))
            held.append((call, raw, got))
    finally:
        rng.CONTROL.stop()
    for i, (call, raw, got) in enumerate(held):
        if session.plain(kind, raw) != got:
            raise Violation("the result of call %d of %d, %s%r, was %r and is now %r" % (i, n, kind, call, got, session.plain(kind, raw)))
        ctx.state("archive", kind, i)
    ctx.step(2 * n)
    ctx.trace()


def scribble(kind, raw):
    if raw[0] != "ok" or not isinstance(raw[1], dict):
        return
    result = raw[1]
    for name, value in list(result.items()):
        if kind == "dict":
            value.clear()
            value[77] = 1.0
        if kind == "dists":
            for d in (value.get_result_map(), value.get_dict_form(), value.at_least(), value.at_most()):
                d.clear()
                d[99] = 1
        result[name] = 4242
    result["a"] = 4242
    result["zz"] = 4242
    result.pop("b", None)


# ------------------------------------------------------------------------------------------------ queries on distributions
def _chart(name):
    return lambda d, o: getattr(d, name)()


def _cmp(name):
    return lambda d, o: getattr(d, name)(o)


QUERIES = [
    ("average", lambda d, o: d.average()),
    ("at_least", lambda d, o: d.at_least()),
    ("at_most", lambda d, o: d.at_most()),
    ("dict", lambda d, o: d.get_dict_form()),
    ("map", lambda d, o: d.get_result_map()),
    ("min/max", lambda d, o: (d.min(), d.max(), d.contains_zero())),
    ("+", lambda d, o: d + o), ("-", lambda d, o: d - o), ("*", lambda d, o: d * o),
    ("//", lambda d, o: d // o), ("<", lambda d, o: d < o), ("<=", lambda d, o: d <= o), (">", lambda d, o: d > o), (">=", lambda d, o: d >= o),
    ("&", lambda d, o: d & o), ("|", lambda d, o: d | o), ("not", lambda d, o: d.not_operator()), ("abs", lambda d, o: abs(d)),
    ("max", lambda d, o: d.max_operator(o)), ("min", lambda d, o: d.min_operator(o)),
    ("eq", lambda d, o: d.__equal__(o)), ("ne", lambda d, o: d.__not_equal__(o)),
    ("self+", lambda d, o: d + d), ("str", lambda d, o: len(str(d))),
    ("hist", _chart("get_histogram")), ("least", _chart("get_at_least_histogram")), ("most", _chart("get_at_most_histogram")),
    ("cmp", _cmp("get_compare")), ("cmp_least", _cmp("get_compare_at_least")), ("cmp_most", _cmp("get_compare_at_most")), ("cmp_hist", _cmp("get_compare_histogram")),
]


def value_of(x):
    if hasattr(x, "get_result_map"):
        return facts(x)
    if hasattr(x, "getpixel"):
        return "image"
    return dict(x) if isinstance(x, dict) else x


def facts(d):
    m = d.get_result_map()
    return (sorted(m.items()), d.get_dict_form(), d.average(), d.at_least(), d.at_most(), d.min(), d.max(), d.contains_zero(),
            sorted((o.value, c, o.constraint_set.is_possible()) for o, c in d.get_constraint_result_map().items()))


def subjects():
    f = impl.factory()
    s = impl.session()
    named = s.get_probability_distributions(["VAR a = dF", "VAR b = a * d2", "a + d3"])
    return [
        (f.create({1: 1, 4: 2, -3: 5}), f.create({2: 3, 5: 1})),
        (named["a"], named["b"] + f.create({5: 1})),
        (named["stdout"], f.create({3: 1, -1: 1})),
        (named["b"], named["b"] + f.create({4: 2})),
    ]


def queries(case, ctx):
    _, first, depth = case
    from itertools import product

    for tail in product(range(len(QUERIES)), repeat=depth - 1):
        order = (first,) + tail
        if sum(1 for q in order if q >= 24) > 1:
            continue
        for index, (d, o) in enumerate(subjects()):
            if any(q >= 24 for q in order) and index > 1:
                continue
            before = (facts(d), facts(o))
            answers = {}
            for q in order + (first,):
                name, f = QUERIES[q]
                raw = f(d, o)
                answer = value_of(raw)
                if q in answers and answers[q] != answer:
                    raise Violation("query %s answered %r, after %r it answers %r" % (name, answers[q], [QUERIES[x][0] for x in order], answer), queries=order)
                answers[q] = answer
                ctx.step()
                if isinstance(raw, dict):
                    raw.clear()
                    raw[99] = 1
                if (facts(d), facts(o)) != before:
                    raise Violation("query %s (after %r) changed a distribution from %r to %r" % (
                        name, [QUERIES[x][0] for x in order], before, (facts(d), facts(o))), queries=order)
            ctx.state("q", order, index)
            ctx.trace()
            ctx.outcome(repr(answers)[:300])


# distributions with many, rare, far apart or very common outcomes
WIDE = [
    lambda f: f.create({v: 6 - abs(v - 7) for v in range(2, 13)}),
    lambda f: f.create({v: 1 for v in range(1, 101)}),
    lambda f: f.create({v: 2 ** abs(v) for v in range(-40, 41)}),
    lambda f: f.create({0: 1, 300: 1, 7: 10 ** 9}),
    lambda f: f.create({1: 10 ** 18, 2: 1, 3: 10 ** 30, -200: 1}),
    lambda f: impl.session().get_probability_distributions(["9d6"])["stdout"],
    lambda f: impl.session().get_probability_distributions(["VAR a = d30", "VAR b = a - d[1*1000,2]", "b"])["b"],
    lambda f: impl.session().get_probability_distributions(["5d10k2"])["stdout"],
    lambda f: f.create({-5: 1}),
]


def given(case, ctx):
    """A distribution keeps its value when the caller goes on using what it was built from."""
    f = impl.factory()
    source = WIDE[case[1]](f)
    for form in ("counts", "outcomes", "both"):
        table = {}
        if form != "outcomes":
            table.update(source.get_result_map())
        if form != "counts":
            table.update(source.get_constraint_result_map())
        held = [f.create(table), f.create(table)]
        before = [facts(d) for d in held] + [facts(source)]
        first = next(iter(table))
        table[first] += 5
        for change in (lambda: table.update({first: 1}), lambda: table.update({424242: 9}), table.clear):
            change()
            if [facts(d) for d in held] + [facts(source)] != before:
                raise Violation("changing the dictionary a distribution was built from (%s) changes the distribution from %s to %s" % (
                    form, str(before[0])[:600], str([facts(d) for d in held])[:600]), form=form)
            ctx.step()
        ctx.trace()
    ctx.state("given", case[1])


def wide(case, ctx):
    """One query on a wide distribution, then every cheap query again."""
    _, w, q = case
    f = impl.factory()
    name, query = QUERIES[q]
    d, o = WIDE[w](f), f.create({2: 3, 5: 1})
    for subject, other in ((d, o), (o, d)):
        if name == "//" and other.contains_zero():
            continue
        before = (facts(d), facts(o))
        cheap = [x[1](d, o) for x in QUERIES[:6]]
        first = value_of(query(subject, other))
        for again in (1, 2):
            if (facts(d), facts(o)) != before or [x[1](d, o) for x in QUERIES[:6]] != cheap:
                raise Violation("query %s changed a distribution from %s to %s" % (name, str(before)[:800], str((facts(d), facts(o)))[:800]), queries=(q,))
            if again == 1 and value_of(query(subject, other)) != first:
                raise Violation("query %s of %s, asked again, answers differently" % (name, str(before)[:800]), queries=(q,))
        ctx.step(4)
        ctx.trace()
    ctx.state("wide", w, q)


_ = ref
