"""Model of one interpreter session, run side by side with the real interpreter.

The model keeps what the interpreter promises to remember: `scalars` (the last value a roll, min, max or cost query gave each
variable) and the distributions.  Rolls are nondeterministic in the model: the value the implementation returns must be possible,
and becomes the model's value (all answers of the random source are enumerated around it).
"""
from . import impl, lang, ref, rng
from .core import Violation

SCALAR = ("roll", "min", "max")
DIST = ("dists", "dict", "avg")
CHART = ("hist", "least", "most")
METHOD = {
    "roll": "roll", "min": "min", "max": "max", "dists": "get_probability_distributions", "dict": "get_probability_distributions_dict",
    "avg": "get_average", "hist": "get_histogram", "least": "get_at_least_histogram", "most": "get_at_most_histogram", "cost": "get_estimated_cost",
}


class Fail(Exception):
    """The model says this line raises; args[0] is the exception's name."""


class Dists(ref.AsIs):
    def dist(self, e):
        if e[0] == "var" and e[1] not in self.vars:
            raise Fail("KeyError")
        if e[0] == "bin" and e[1] == "//":
            left, right = self.dist(e[2]), self.dist(e[3])
            if any(v == 0 for v, _ in right):
                raise Fail("ZeroDivisionError")
            return self._combine(left, right, "//")
        return ref.AsIs.dist(self, e)


class Model:
    def __init__(self):
        self.scalars = {}
        self.dists = Dists()
        self.cache = {}

    def parse(self, text):
        if text not in _PARSED:
            _PARSED[text] = lang.parse(text)
        if _PARSED[text] is None:
            raise Fail("ValueError")
        return _PARSED[text]

    # ---- min / max
    def bound(self, e, pick):
        k = e[0]
        if k == "var":
            if e[1] not in self.scalars:
                raise Fail("KeyError")
            return self.scalars[e[1]]
        if k == "par":
            return self.bound(e[1], pick)
        if k == "mm":
            return ref.apply(e[1], self.bound(e[2], pick), self.bound(e[3], pick))
        if k == "let":
            v = self.bound(e[2], pick)
            d = self.dists.dist(e[2])
            self.scalars[e[1]] = v
            self.dists.assign(e[1], d)
            return v
        return pick(v for v, _ in self.dists.dist(e))

    # ---- roll
    def roll_support(self, e):
        if e[0] == "let":
            return self.roll_support(e[2])
        try:
            return set(ref.law(e, self.scalars))
        except ref.Unknown:
            raise Fail("KeyError")

    def rolls(self, e, scalars):
        """All outcomes of rolling e: {(value or ERR, scalars as sorted items)}; operands are evaluated left to right."""
        if not has_let(e):
            self.scalars = scalars
            return {(v, tuple(sorted(scalars.items()))) for v in self.roll_support(e)}
        k = e[0]
        if k in ("let", "par", "not", "abs"):
            out = set()
            for v, s in self.rolls(e[-1], scalars):
                if v != ref.ERR:
                    if k == "let":
                        s = tuple(sorted(dict(s, **{e[1]: v}).items()))
                    elif k == "not":
                        v = 0 if v > 0 else 1
                    elif k == "abs":
                        v = abs(v)
                out.add((v, s))
            return out
        out = set()
        for x, s in self.rolls(e[2], scalars):
            if x == ref.ERR:
                out.add((x, s))
                continue
            for y, t in self.rolls(e[3], dict(s)):
                out.add((y if y == ref.ERR else ref.apply(e[1], x, y), t))
        return out

    def cost(self, e):
        try:
            return ref.cost(e, self.scalars)
        except ref.Unknown:
            raise Fail("KeyError")

    def laws(self):
        return {n: ref.AsIs.flat(d) for n, d in self.dists.vars.items()}

    def key(self):
        return (tuple(sorted(self.scalars.items())), tuple(sorted((n, tuple(sorted(d.items()))) for n, d in self.laws().items())))


_PARSED = {}


def has_let(e):
    return e[0] == "let" or (e[0] in ("bin", "not", "abs", "mm", "par") and any(has_let(x) for x in e[1:] if isinstance(x, tuple)))


def call(interp, kind, lines):
    """The implementation's answer, reduced to plain values."""
    raw = impl.outcome(getattr(interp, METHOD[kind]), lines)
    return raw, plain(kind, raw)


def plain(kind, raw):
    if raw[0] == "err":
        return raw
    value = raw[1]
    if kind == "dists":
        return ("ok", {n: d.get_result_map() for n, d in value.items()})
    if kind in CHART:
        return ("ok", "image" if hasattr(value, "size") and hasattr(value, "getpixel") else repr(value))
    if kind in ("cost",):
        return ("ok", value)
    return ("ok", {n: (dict(v) if isinstance(v, dict) else v) for n, v in value.items()})


def agree(kind, got, want):
    """got, want: ('ok', value) | ('err', name)"""
    if got[0] == "err" or want[0] == "err":
        return got == want
    g, w = got[1], want[1]
    if kind in ("dists", "dict", "avg"):
        if set(g) != set(w):
            return False
        if kind == "dists":
            return all(ref.same_law(g[n], w[n]) for n in w)
        if kind == "dict":
            return all(
                set(g[n]) == set(w[n]) and all(ref.close(p, w[n][v] / sum(w[n].values())) for v, p in g[n].items()) for n in w
            )
        return all(ref.close(g[n], mean(w[n])) for n in w)
    return g == w and all(isinstance(v, int) for v in (g.values() if isinstance(g, dict) else [g]) if not isinstance(v, str))


def mean(law):
    return float(sum(ref.Fraction(v) * c for v, c in law.items()) / sum(law.values()))


def step(model, kind, lines, got, peek=None):
    """Advances the model over one call and returns the answer it should have given.

    A roll is nondeterministic: all the model's runs of the call are followed, and the one that matches `got` (and, for a call
    that failed, the variables `peek` read back after it) becomes the model's state."""
    if kind == "roll":
        return step_roll(model, lines, got, peek)
    result = None
    total = 0
    try:
        for text in lines:
            e = model.parse(text)
            if kind in ("min", "max"):
                v = model.bound(e, min if kind == "min" else max)
                result = dict(model.scalars)
                result["stdout"] = v
            elif kind == "cost":
                total += model.cost(e)
            else:
                d = model.dists.dist(e)
                result = model.laws()
                result["stdout"] = ref.AsIs.flat(d)
    except Fail as f:
        return ("err", f.args[0])
    if kind in CHART:
        return ("ok", "image")
    if kind == "cost":
        return ("ok", total)
    return ("ok", result if result is not None else {})


def step_roll(model, lines, got, peek):
    live = [(model.scalars, None)]
    failed = []
    for text in lines:
        after = {}
        for scalars, _ in live:
            model.scalars = scalars
            try:
                e = model.parse(text)
                outcomes = model.rolls(e, scalars)
            except Fail as f:
                failed.append((f.args[0], scalars))
                continue
            for v, s in sorted(outcomes, key=repr):
                if v == ref.ERR:
                    failed.append(("ZeroDivisionError", dict(s)))
                    continue
                after[s, v] = (dict(s), v)
        live = list(after.values())
        if not live:
            break
    start = model.scalars
    if got[0] == "ok":
        for scalars, v in live:
            want = dict(scalars)
            want["stdout"] = v
            if got[1] == want:
                model.scalars = scalars
                return got
        if not live and failed:
            return ("err", failed[0][0])
        raise Violation("roll(%r) returned %r, which no roll of these lines gives (from %r)" % (list(lines), got[1], start))
    for same_name in (True, False):
        for name, scalars in failed:
            if same_name and name != got[1]:
                continue
            if peek is None or {n: v for n, v in peek.items() if n != "stdout"} == scalars:
                model.scalars = scalars
                return ("err", name)
    if failed:
        model.scalars = failed[0][1]
        return ("err", failed[0][0])
    return ("ok", dict(live[0][0], stdout=live[0][1]))


def explore(run, limit=4000):
    """All answers of the random source around run(); returns the number of runs."""
    n = 0
    try:
        for _ in rng.explore(run, limit):
            n += 1
    except rng.TooWide:
        pass
    except rng.Diverged as e:
        raise Violation("the same session with the same dice behaves differently: %s" % e)
    return n
