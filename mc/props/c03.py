"""C03: keep and drop."""
from itertools import combinations, product

from .. import impl, ref
from ..core import Violation

ID = "C03"
BOUNDS = {
    "quick": "n in {none,0..6}, m in 0..n+3, k and d, 14 kinds of faces (two-digit, negative, weighted, repeated, fate); "
    "n in 2..5 with faces 5 to 10^40 times as likely as others; n in 2..4 over every set of 2 or 3 of 11 face values in both orders; "
    "sweeps n to 40 for d2, to 16 for d3, to 9 for dF/d6 with every m, to 101 for d3 and d6, to 33 for d20 where at most 5 dice count, faces to 60 for n <= 3 (d100 for n = 2)",
    "thorough": "n to 8 for all kinds of faces; sweeps n to 90 for d2, to 30 for d3, to 12 for dF, faces to 150 for n <= 3",
}
ASSUMPTIONS = []


def c(*entries):
    return ("c", tuple(e if isinstance(e, tuple) else (e, None, None) for e in entries))


FACES = [
    ("n", 2), ("n", 3), ("n", 4), ("F",), c(-10, 2, 11), c((1, None, 3), 5), c(9, 10, 100), c(0, -1), c(-3), c((-1, 1, 2), 0),
    c(2, -2, 2), c((5, None, 0), 4, -9), c(0, (10, 12, None)), ("n", 1),
]


def cases(tier):
    big = tier == "thorough"
    for n in [None] + list(range(0, 9 if big else 7)):
        for faces in FACES:
            limit = 1 if n is None else n
            for m in list(range(0, limit + 4)) + [20]:
                for kind in "kd":
                    yield ("kd", n, faces, kind, m)
    pool = (-12, -2, -1, 0, 1, 2, 9, 10, 12, 21, 100)
    for size in (2, 3, 4) if big else (2, 3):
        for values in combinations(pool, size):
            for order in (values, values[::-1]):
                for n in (2, 3, 4) if size == 2 or big else (2, 3):
                    for m in range(1, n):
                        for kind in "kd":
                            yield ("kd", n, c(*order), kind, m)
                            if size == 2:
                                yield ("kd", n, c((order[0], None, 2), order[1]), kind, m)
    for heavy in (5, 40, 99, 1000, 2001, 10 ** 6, 10 ** 9 + 7, 10 ** 18, 10 ** 40):
        for rare, common in product((1, 2), ((5, 1), (1, 5), (-3, 4), (0, -7))):
            for n in (2, 3, 4, 5):
                for kind in "kd":
                    for m in range(1, n):
                        yield ("kd", n, c((common[0], None, heavy), (common[1], None, rare)), kind, m)
                        if n < 4:
                            yield ("kd", n, c((common[0], None, heavy), (common[1], None, rare), 2, (11, 12, heavy), 20), kind, m)
    for n in range(7, 91 if big else 41):
        for kind in "kd":
            ms = range(0, n + 2) if n <= 20 else (1, 2, n // 2, n - 1, n, n + 1)
            for m in ms:
                yield ("kd", n, ("n", 2), kind, m)
                yield ("kd", n, c(-10, (9, None, 2)), kind, m)
                if n <= (30 if big else 16):
                    yield ("kd", n, ("n", 3), kind, m)
                if n <= (12 if big else 9):
                    yield ("kd", n, ("F",), kind, m)
                    yield ("kd", n, ("n", 6), kind, m)
    # many dice of which few count
    for n in list(range(10, 34)) + [40, 50, 51, 64, 65, 100, 101] + ([128, 129, 200, 256, 257] if big else []):
        for faces, counts, most in (
            (("n", 3), (1, 2, 3, 5), 257), (("F",), (1, 2, 4), 65), (("n", 6), (1, 2, 3), 129), (c(-10, (3, None, 2), 21, 4), (1, 2, 3), 65), (("n", 20), (1, 2), 33), (("%",), (1,), 20),
            (c((1, None, 10 ** 6), 9, (-12, None, 3)), (1, 2, 4), 101),
        ):
            for few in counts:
                if n <= most:
                    yield ("kd", n, faces, "k", few)
                    yield ("kd", n, faces, "d", n - few)
    for s in range(5, 151 if big else 61):
        for n in (2, 3) if s <= 20 else (2,):
            for kind in "kd":
                for m in (1, n - 1):
                    yield ("kd", n, ("n", s), kind, m)
    for n in (1, 2):
        for kind in "kd":
            for m in (0, 1, 2, 3):
                yield ("kd", n, ("%",), kind, m)
                yield ("kd", n, ("n", 20), kind, m)
    for kind in "kd":
        for m in (1, 2, 3, 4):
            yield ("kd", 4, ("n", 6), kind, m)
            yield ("kd", 5, ("n", 10), kind, m)


def setup(tier):
    """The two reference laws agree wherever both are cheap."""
    for n, faces, m in product(range(0, 6), FACES, range(0, 7)):
        single = ref.sides_map(faces)
        for keep in (True, False):
            if ref.kd_law(n, single, keep, m) != ref.kd_law_by_face(n, single, keep, m):
                raise AssertionError("reference laws disagree: %r" % ((n, faces, keep, m),))


def check(case, ctx):
    text = ref.text(case)
    want = ref.leaf_law(case)
    s = impl.session()
    got = impl.counts(text, s)
    ctx.state(text)
    ctx.step(3)
    ctx.trace()
    ctx.outcome(tuple(sorted(want.items())))
    if not ref.same_law(got, want):
        raise Violation("distribution of %s is %s, should be %s" % (text, ref.show_any(got), ref.show(want)[:1500]), program=[text])
    lo, hi = s.min([text])["stdout"], s.max([text])["stdout"]
    if (lo, hi) != (min(want), max(want)):
        raise Violation("min, max of %s are %r, %r, should be %r, %r" % (text, lo, hi, min(want), max(want)), program=[text])
    ctx.sample({"term": text, "distribution": ref.show(want)[:200]}, 301)
