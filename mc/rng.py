"""The random source as an environment whose every answer is enumerated.

`install()` runs before python_dice is imported and puts a choice point behind every draw of Python's `random`
module.  While an exploration is active, a run is a path in the tree of draws: `explore` replays a prefix, takes the
first answer at every later draw, and backtracks until the tree is exhausted (stateless search).  Outside an
exploration the original functions run.
"""
import random as _random
from fractions import Fraction


class Diverged(Exception):
    """The same program with the same answers so far asked the random source something else."""


class TooWide(Exception):
    """A draw with more answers than can be enumerated."""


class Controller:
    def __init__(self):
        self.active = False
        self.raw = False
        self.draws = 0
        self.plan = None

    def start(self, prefix):
        self.active, self.prefix, self.points, self.pos = True, prefix, [], 0
        self.streams, self.told = {}, {}

    def seeded(self, source, seed):
        """A generator seeded with a value is a stream: the n-th draw after seeding with one value is one answer."""
        self.streams[id(source)] = None if seed is None else [source, repr(seed), 0]

    def draw(self, source, weights):
        stream = self.streams.get(id(source))
        if stream is None:
            return self.pick(weights)
        key = (stream[1], stream[2], tuple(weights))
        stream[2] += 1
        if key not in self.told:
            self.told[key] = self.pick(weights)
        return self.told[key]

    def stop(self):
        self.active = False

    def pick(self, weights):
        """weights: list of Fractions > 0 (one per answer). Returns the index of the answer."""
        if self.plan is not None:
            index = self.plan[1].get(self.pos, self.plan[0])
            index = min(index, len(weights) - 1)
        elif self.pos < len(self.prefix):
            width, index = self.prefix[self.pos]
            if width != len(weights):
                self.active = False
                raise Diverged("draw %d has %d answers, had %d before" % (self.pos, len(weights), width))
        else:
            index = 0
        self.points.append((weights, index))
        self.pos += 1
        self.draws += 1
        return index


CONTROL = Controller()
MAX_WIDTH = 4000


def _choices(source, population, weights, cum_weights, k):
    population = list(population)
    if cum_weights is not None:
        if weights is not None:
            raise TypeError("Cannot specify both weights and cumulative weights")
        cum = list(cum_weights)
        weights = [b - a for a, b in zip([0] + cum[:-1], cum)]
    elif weights is None:
        weights = [1] * len(population)
    else:
        weights = list(weights)
    if len(weights) != len(population):
        raise ValueError("The number of weights does not match the population")
    if not population:
        raise IndexError("Cannot choose from an empty population")
    total = Fraction(sum(Fraction(w) for w in weights))
    if total <= 0:
        raise ValueError("Total of weights must be greater than zero")
    live = [(i, Fraction(w) / total) for i, w in enumerate(weights) if w > 0]
    if len(live) > MAX_WIDTH:
        raise TooWide()
    odds = [w for _, w in live]
    return [population[live[CONTROL.draw(source, odds)][0]] for _ in range(k)]


def _randbelow(source, n):
    if n > MAX_WIDTH:
        raise TooWide()
    return CONTROL.draw(source, [Fraction(1, n)] * n)


def _raw(source):
    CONTROL.raw = True
    return (CONTROL.draw(source, [Fraction(1, 60)] * 60) + 0.5) / 60


def _patch(cls, seeds):
    orig = {name: getattr(cls, name) for name in ("_randbelow", "random", "choices", "getrandbits", "seed", "setstate")}

    def below(self, n):
        return _randbelow(self, n) if CONTROL.active and n > 0 else orig["_randbelow"](self, n)

    def rnd(self):
        return _raw(self) if CONTROL.active else orig["random"](self)

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        if CONTROL.active:
            return _choices(self, population, weights, cum_weights, k)
        return orig["choices"](self, population, weights, cum_weights=cum_weights, k=k)

    def bits(self, k):
        return _randbelow(self, 1 << k) if CONTROL.active else orig["getrandbits"](self, k)

    def seed(self, a=None, *args, **kw):
        if CONTROL.active:
            CONTROL.seeded(self, a)
        return orig["seed"](self, a, *args, **kw)

    def setstate(self, state):
        if CONTROL.active:
            CONTROL.seeded(self, state)
        return orig["setstate"](self, state)

    cls._randbelow, cls.random, cls.choices, cls.getrandbits = below, rnd, choices, bits
    if seeds:
        cls.seed, cls.setstate = seed, setstate


def install():
    _patch(_random.Random, True)
    _patch(_random.SystemRandom, False)
    inst = _random._inst
    for name in ("choices", "random", "getrandbits", "seed", "setstate"):
        setattr(_random, name, getattr(inst, name))


def around(run, faces, deviations):
    """A slice of the tree too large to exhaust: every path that gives the same answer `i` at all draws (i < faces), with at
    most `deviations` draws answered otherwise.  Yields (probability, outcome) of distinct paths."""
    from itertools import combinations, product

    seen = set()
    for base in range(faces):
        width = None
        for k in range(deviations + 1):
            if width is None:
                plans = [{}]
            else:
                plans = [dict(zip(at, alt)) for at in combinations(range(len(width)), k) for alt in product(range(min(faces, 3)), repeat=k)]
            for plan in plans:
                CONTROL.start([])
                CONTROL.plan = (base, plan)
                try:
                    outcome = run()
                finally:
                    CONTROL.stop()
                    CONTROL.plan = None
                if width is None:
                    width = CONTROL.points
                path = tuple(i for _, i in CONTROL.points)
                if path in seen:
                    continue
                seen.add(path)
                weight = Fraction(1)
                for odds, index in CONTROL.points:
                    weight *= odds[index]
                yield weight, outcome


def explore(run, limit=200000):
    """Yields (probability, outcome of run()) for every path of the tree of draws; run() must start from scratch."""
    prefix = []
    count = 0
    while True:
        CONTROL.start(prefix)
        try:
            outcome = run()
        finally:
            CONTROL.stop()
        points = CONTROL.points
        if CONTROL.pos < len(prefix):
            raise Diverged("only %d draws, had %d before" % (CONTROL.pos, len(prefix)))
        weight = Fraction(1)
        for odds, index in points:
            weight *= odds[index]
        yield weight, outcome
        count += 1
        if count >= limit:
            raise TooWide()
        depth = len(points) - 1
        while depth >= 0 and points[depth][1] + 1 >= len(points[depth][0]):
            depth -= 1
        if depth < 0:
            return
        prefix = [(len(o), i) for o, i in points[:depth]] + [(len(points[depth][0]), points[depth][1] + 1)]
