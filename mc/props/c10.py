"""C10: session semantics, all call sequences up to a depth against the session model."""
from itertools import product

from .. import charts, impl, session
from ..core import Violation

ID = "C10"
BOUNDS = {
    "quick": "all sequences of 3 calls over 6 query kinds x 9 lines, of 2 calls over 10 query kinds x 17 lines, all single calls with 2-3 lines over 8 kinds "
    "x 8 lines against the same lines one per call, 3 kinds of charts of 2-3 lines over 4 lines likewise, two assignments of one variable, 11 x 11 laws (negative, zero, large, certain, truth values) in 6 x 6 kinds of call; the same question before and after reassignment for all ordered pairs of 15 similar laws, alternations of any two calls up to 24 calls; up to 260 variables and calls, 1030 lines in a call and reassignments; every answer of the random source; after "
    "each sequence the whole store is read back",
    "thorough": "sequences of 4 calls over 5 kinds x 7 lines, of 3 calls over 6 kinds x 17 lines, single calls with up to 4 lines",
}
ASSUMPTIONS = ["roll, min, max and cost share one scalar per variable: the last one to assign it is read by all of them (as in the code)"]
CHUNK = 1

LINES = ["VAR a = d2", "a", "VAR a = 5", "VAR b = a", "VAR a = a + 1", "b - a", "VAR b = d2", "VAR a = MAX(a, b)", "a * 2"]
MORE = LINES + ["VAR c = b * 10 + a", "VAR stdout = 7", "d2", "VAR a = !a", "3d2k2", "VAR a = -3", "VAR b = a - 9", "VAR a = 0"]
KINDS = ["roll", "dists", "max", "min", "avg", "cost"]
ALL = ["roll", "dists", "max", "min", "avg", "cost", "dict", "hist", "least", "most"]


CHART_LINES = ["VAR a = d2", "VAR b = a", "VAR a = 5", "b - a"]


def ops(kinds, lines):
    return [(k, (t,)) for k in kinds for t in lines]


def cases(tier):
    """A case is (mode, head, alphabet name, free): head calls followed by every combination of `free` calls of the alphabet."""
    big = tier == "thorough"
    for op in ops(ALL, MORE):
        yield ("seq", (op,), "", 0)
    for op in ops(ALL, MORE):
        yield ("seq", (op,), "all", 1)
    for k in ("roll", "dists", "max", "min", "avg", "cost", "dict", "hist"):
        for n in (2, 3) + ((4,) if big else ()):
            pool = LINES[:8] if k != "hist" else LINES[:5]
            if k == "hist" and n > 2:
                continue
            for first in pool:
                yield ("split", (k, n, first), "", 0)
    for k in ("hist", "least", "most"):
        for n in (2, 3) + ((4,) if big else ()):
            for first in CHART_LINES:
                yield ("split", (k, n, first), "chart", 0)
    for one in range(len(LAWS)):
        yield ("same", (one,), "", 0)
    for n in (9, 17, 33, 65, 101, 129, 260) + ((300, 513, 700) if big else ()):
        for kind in ("roll", "dists", "max", "min", "avg", "cost"):
            for shape in ("many", "lines", "calls", "again"):
                yield ("scale", (n, kind, shape), "", 0)
    for n in (513, 1030):
        for kind in ("roll", "dists", "max", "cost"):
            for shape in ("lines", "again"):
                yield ("scale", (n, kind, shape), "", 0)
    for k1 in KINDS:
        for k2 in KINDS:
            for one in range(len(VALUES)):
                yield ("cross", (k1, k2, one), "", 0)
    for one in ops(["roll", "dists", "max", "cost"], LINES[:8]):
        yield ("alt", (one,), "", 0)
    for op in ops(KINDS, LINES):
        for op2 in ops(KINDS, LINES):
            yield ("seq", (op, op2), "main", 1)
    if big:
        for op in ops(KINDS, MORE):
            for op2 in ops(KINDS, MORE):
                yield ("seq", (op, op2), "more", 1)
        for op in ops(KINDS[:5], LINES[:7]):
            for op2 in ops(KINDS[:5], LINES[:7]):
                yield ("seq", (op, op2), "five", 2)


# laws that agree in one or more statistics (mean, extremes, number of outcomes, counts, cost) but not in all
LAWS = ["d3", "2", "d[1,3]", "d[1,2*2,3]", "d[1,2*3,3]", "d[2,2]", "1d3", "d[1-3*2]", "d[0,4]", "d[1,3,2]", "2d2 - 1", "d[0,3]", "3", "d[-1,5]", "MAX(d3, 0)"]
VALUES = ["2", "-3", "0", "d2", "dF", "100000000000000000000", "d[-5,7]", "True", "d2 == 1", "2d2k1", "0 - d2"]
READS = ["a", "a + 1", "b - a", "!a", "MAX(a, b)", "d2 + a"]


def same_question(one, ctx):
    """The same question before and after reassigning what it reads."""
    for two in range(len(LAWS)):
        if one == two:
            continue
        for text in READS:
            for kinds in (("dists", "dists"), ("dict", "dict"), ("avg", "avg"), ("max", "max"), ("min", "min"), ("max", "dists"), ("dists", "avg"), ("roll", "roll"), ("cost", "cost")):
                assign, ask = kinds
                if kinds[0] == "roll" and (one % 3 or two % 3):
                    continue
                run_sequence(
                    ((assign, ("VAR b = 7",)), (assign, ("VAR a = " + LAWS[one],)), (ask, (text,)), (assign, ("VAR a = " + LAWS[two],)), (ask, (text,)),
                     (assign, ("VAR b = " + LAWS[one],)), (ask, (text,))), ctx)


ALPHA = {"": [], "all": ops(ALL, MORE), "main": ops(KINDS, LINES), "more": ops(KINDS, MORE), "five": ops(KINDS[:5], LINES[:7])}


def setup(tier):
    charts.RECORDER.install()
    impl.parser()


def run_sequence(seq, ctx, make=impl.session):
    def once():
        interp, model = make(), session.Model()
        for kind, lines in seq:
            argument = list(lines)
            _, got = session.call(interp, kind, argument)
            want = session.step(model, kind, lines, got)
            if not session.agree(kind, got, want):
                raise Violation("after %r: %s(%r) gives %r, should give %r" % (describe(seq, kind, lines), kind, list(lines), got, want), calls=seq)
            if argument != list(lines):
                raise Violation("%s changed the list of lines it was given: %r" % (kind, argument), calls=seq)
            ctx.step()
            ctx.state(model.key())
            ctx.outcome(repr(want))
        read_back(interp, model, seq)

    ctx.trace(session.explore(once))


def read_back(interp, model, seq):
    got = interp.roll(["0"])
    want = dict(model.scalars)
    want["stdout"] = 0
    if got != want:
        raise Violation("after %r the rolled variables are %r, should be %r" % (list(seq), got, want), calls=seq)
    got = {n: d.get_result_map() for n, d in interp.get_probability_distributions(["0"]).items()}
    want = model.laws()
    want["stdout"] = {0: 1}
    if not session.agree("dists", ("ok", got), ("ok", want)):
        raise Violation("after %r the distributions are %r, should be %r" % (list(seq), got, want), calls=seq)


def describe(seq, kind, lines):
    return [s for s in seq]


def check(case, ctx):
    mode = case[0]
    if mode == "seq":
        _, head, alpha, free = case
        for tail in product(ALPHA[alpha], repeat=free):
            run_sequence(tuple(head) + tail, ctx)
    elif mode == "same":
        same_question(case[1][0], ctx)
    elif mode == "cross":
        k1, k2, one = case[1]
        for two in VALUES:
            run_sequence(((k1, ("VAR a = " + VALUES[one],)), ("dists", ("VAR b = 4",)), (k2, ("VAR a = " + two,))), ctx)
            run_sequence(((k1, ("VAR a = " + VALUES[one],)), (k2, ("VAR b = " + two,))), ctx)
    elif mode == "scale":
        scale(case[1], ctx)
    elif mode == "alt":
        one = case[1][0]
        for two in ops(["roll", "dists", "min", "avg"], LINES[:8]):
            run_long((one, two) * 12, ctx)
    else:
        split(case[1], ctx, case[2])
    ctx.sample({"calls": case[1]}, 97)


def name_of(i):
    """The i-th variable name: a..z, aa, ab, .."""
    out = ""
    i += 1
    while i:
        i, r = divmod(i - 1, 26)
        out = "abcdefghijklmnopqrstuvwxyz"[r] + out
    return out


def scale(spec, ctx):
    """Many variables, many lines in a call, many calls, many reassignments: the last assignment of each variable is what every later call reports."""
    from .. import rng

    n, kind, shape = spec
    steps = []  # (line, name, law of that name after it)
    for i in range(n):
        name = "a" if shape == "again" else name_of(i)
        if i % 5 == 2:
            steps.append(("VAR %s = d2 + %d" % (name, i), name, {i + 1: 1, i + 2: 1}))
        else:
            steps.append(("VAR %s = %d" % (name, 1000 + i), name, {1000 + i: 1}))
    laws = {name: law for _, name, law in steps}
    last = "a" if shape == "again" else name_of(n - 1)
    queries = [("0", {0: 1}), ("a", laws["a"]), ("a + 1", {v + 1: c for v, c in laws["a"].items()}), (last, laws[last])]
    if shape != "again":
        queries += [(name_of(i), laws[name_of(i)]) for i in (1, n // 2, n - 2)]
    rng.CONTROL.start([])
    try:
        interp = impl.session()
        known = {}
        batch = [[t for t, _, _ in steps]] if shape == "lines" else [[t] for t, _, _ in steps]
        for k, lines in enumerate(batch):
            got = session.call(interp, kind, lines)[1]
            for _, name, law in steps if shape == "lines" else [steps[k]]:
                known[name] = law
            if shape == "calls":
                got = session.call(interp, kind, ["a + 1"])[1]
            if k + 1 == len(batch) or k % 16 == 15:
                expect(kind, got, known, {v + 1: c for v, c in known["a"].items()} if shape == "calls" else law, spec, "call %d" % (k + 1), len(lines))
            ctx.step()
        for text, law in queries:
            expect(kind, session.call(interp, kind, [text])[1], known, law, spec, text, 1)
            ctx.step()
    finally:
        rng.CONTROL.stop()
    ctx.state(spec)
    ctx.trace()


def expect(kind, got, known, law, spec, where, lines):
    if got[0] != "ok":
        raise Violation("%s with %d variables (%s): %s raises %s" % (kind, len(known), spec[2], where, got[1]), scale=spec)
    want = dict(known, stdout=law)
    if kind == "cost":
        if not (isinstance(got[1], int) and got[1] >= lines):
            raise Violation("the cost of %s with %d variables is %r" % (where, len(known), got[1]), scale=spec)
        return
    if set(got[1]) != set(want):
        raise Violation("%s after %d assignments (%s), at %s, reports %d names, should report %d; differing: %s"
                        % (kind, spec[0], spec[2], where, len(got[1]), len(want), sorted(set(got[1]) ^ set(want))[:5]), scale=spec)
    for name, w in want.items():
        g = got[1][name]
        if kind == "roll":
            ok = g in w
        elif kind in ("min", "max"):
            ok = g == (min if kind == "min" else max)(w)
        else:
            ok = session.agree(kind, ("ok", {name: g}), ("ok", {name: w}))
        if not ok:
            raise Violation("%s after %d assignments (%s), at %s, reports %r for %s, should be %r" % (kind, spec[0], spec[2], where, g, name, w), scale=spec)


def run_long(seq, ctx):
    """Long alternations: one answer of the random source is enough here (rolls take their first answer)."""
    from .. import rng

    interp, model = impl.session(), session.Model()
    rng.CONTROL.start([])
    try:
        for kind, lines in seq:
            if any(c > 200 for c in model.scalars.values()) or any(len(d) > 60 for d in model.dists.vars.values()):
                break
            _, got = session.call(interp, kind, list(lines))
            want = session.step(model, kind, lines, got)
            if not session.agree(kind, got, want):
                raise Violation("during the alternation of %r: %s(%r) gives %r, should give %r" % (seq[:2], kind, lines, got, want), calls=seq)
            ctx.step()
            ctx.state(model.key())
        read_back(interp, model, seq[:2])
    finally:
        rng.CONTROL.stop()
    ctx.trace()


def split(spec, ctx, alphabet=""):
    """One call with n lines answers like n calls with one line each (and leaves the same session)."""
    kind, n, first = spec
    pool = CHART_LINES if alphabet else LINES[:8] if kind != "hist" else LINES[:5]
    for rest in product(pool, repeat=n - 1):
        lines = (first,) + rest

        def once():
            together, apart = impl.session(), impl.session()
            prepared = ["VAR a = 2", "VAR b = 3"]
            for s in (together, apart):
                s.max(prepared)
            a = session.call(together, kind, list(lines))[1]
            from .. import rng

            points = list(rng.CONTROL.points)
            # the same dice for the split run: replay the answers drawn by the first one
            rng.CONTROL.start([(len(o), i) for o, i in points])
            total = 0
            b = None
            for t in lines:
                b = session.call(apart, kind, [t])[1]
                if b[0] == "err":
                    break
                if kind == "cost":
                    total += b[1]
            if kind == "cost" and b[0] == "ok":
                b = ("ok", total)
            if a != b:
                raise Violation("%s(%r) gives %r, line by line it gives %r" % (kind, list(lines), a, b), lines=lines)
            x = (together.roll(["0"]), {k: d.get_result_map() for k, d in together.get_probability_distributions(["0"]).items()})
            y = (apart.roll(["0"]), {k: d.get_result_map() for k, d in apart.get_probability_distributions(["0"]).items()})
            if x != y:
                raise Violation("%s(%r) leaves %r, line by line it leaves %r" % (kind, list(lines), x, y), lines=lines)

        ctx.trace(session.explore(once, 200))
        ctx.step(n + 1)
        ctx.state(kind, lines)
