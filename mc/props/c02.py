"""C02: dice notation.  A case spells a dice term from text parts; the meaning is computed from the parts."""
from itertools import product

from .. import impl, ref
from ..core import Violation

ID = "C02"
BOUNDS = {
    "quick": "counts {none,0,1,2,3,03,5,12}; faces 0..60 by number, %, F; all bracket lists of 1 entry (10 x 11 values and "
    "ranges x 6 multipliers), of 2 entries over 28, of 3 entries over 9; trailing comma or not; every combination of "
    "spacing at the five places inside the brackets for selected lists; lists of up to 40 entries; up to 300 dice, 10001 faces, ranges of 6001 values, multipliers and values of 32 digits; 6 surrounding contexts",
    "thorough": "as quick with lists of 2 entries over 120, of 3 entries over 20, of 4 over 6, faces to 400",
}
ASSUMPTIONS = ["dice without any face (d0, all multipliers 0) are outside the property"]

VALUES = ("1", "0", "-1", "3", "-2", "10", "-12", "7", "-0", "007")
MULTS = (None, "2", "1", "0", "10", "02")
PLAIN = ("", "", "", "", "")  # after '[', before ',', after ',', before ']', after trailing comma


def entry_text(e):
    lo, hi, mult = e
    return lo + ("" if hi is None else "-" + hi) + ("" if mult is None else "*" + mult)


def render(case):
    count, sides, _ = case
    if sides[0] == "t":
        return count + "d" + sides[1]
    _, entries, trailing, style = sides
    a, b, c, d, e = style
    body = (b + "," + c).join(entry_text(x) for x in entries)
    if trailing:
        body += d + "," + e
        return count + "d[" + a + body + "]"
    return count + "d[" + a + body + d + "]"


def meaning(case):
    count, sides, _ = case
    n = 1 if count == "" else int(count)
    if sides[0] == "t":
        t = sides[1]
        model = ("%",) if t == "%" else ("F",) if t == "F" else ("n", int(t))
    else:
        model = ("c", tuple((int(lo), None if hi is None else int(hi), None if m is None else int(m)) for lo, hi, m in sides[1]))
    return ("dice", n, model)


def all_entries(values, highs, mults):
    return [(lo, hi, m) for m in mults for lo in values for hi in (None,) + tuple(highs)]


CONTEXTS = ("%s", "(%s)", "MAX(%s,%s)", "%s+%s", "%s*2", "%s//1", " %s ", "VAR x = %s")


def expected(context, leaf):
    law = ref.leaf_law(leaf)
    if context == "MAX(%s,%s)":
        return ref.law(("mm", "MAX", leaf, leaf), {})
    if context == "%s+%s":
        return ref.law(("bin", "+", leaf, leaf), {})
    if context == "%s*2":
        return {v * 2: c for v, c in law.items()}
    return law


def cases(tier):
    big = tier == "thorough"
    counts = ("", "1", "2", "0", "3", "03", "5", "12")
    for n in range(1, 401 if big else 61):
        for count in counts if n < 13 else ("", "2"):
            yield (count, ("t", str(n)), 0)
    for t in ("%", "F", "06", "010"):
        for count in counts:
            if not (t == "%" and count == "12"):
                yield (count, ("t", t), 0)
    for ctx in range(len(CONTEXTS)):
        for t in ("%", "F", "6", "2"):
            yield ("", ("t", t), ctx)
            yield ("2", ("t", t), ctx)
    singles = all_entries(VALUES, VALUES, MULTS)
    for e in singles:
        for trailing in (False, True):
            for count in ("", "2"):
                yield (count, ("c", (e,), trailing, PLAIN), 0)
    spaces = ("", " ", "\t", "\n ")
    for style in product(spaces, repeat=5):
        if sum(1 for s in style if s in ("\t", "\n ")) > 1:
            continue
        for entries in ((("1", None, None), ("-2", "3", "2"), ("-4", None, "3")), (("5", None, None),), (("3", "-1", None), ("-2", "-3", None))):
            for trailing in (False, True):
                yield ("2", ("c", entries, trailing, style), 0)
    few = all_entries(("1", "-2", "10", "0"), ("-2", "3"), (None, "2")) + [("1", None, "0"), ("-2", "3", "0"), ("3", "3", None), ("-1", "-1", "3")]
    wide = all_entries(("1", "-2", "10", "0", "-12", "3"), ("-2", "3", "-12", "0"), (None, "2", "0", "1"))
    for pair in product(wide if big else few, repeat=2):
        for trailing in (False, True):
            yield ("", ("c", pair, trailing, PLAIN), 0)
    tiny = [("1", None, None), ("-2", None, "2"), ("0", "2", None), ("2", "0", "3"), ("-3", "-1", None), ("-1", "-3", "2"), ("1", None, "0"), ("12", None, None), ("-1", "1", "0")]
    for triple in product((few[:20] if big else tiny), repeat=3):
        yield ("", ("c", triple, False, PLAIN), 0)
    if big:
        for four in product(tiny[:6], repeat=4):
            yield ("", ("c", four, True, PLAIN), 0)
    for ctx in range(len(CONTEXTS)):
        for entries in ((("1", None, None), ("-2", "3", "2")), (("0", "5", None),), (("4", None, "2"), ("4", None, None), ("-4", None, None))):
            for trailing in (False, True):
                for count in ("", "2", "0"):
                    yield (count, ("c", entries, trailing, PLAIN), ctx)
    for length in (5, 10, 20, 40):
        yield ("", ("c", tuple((str((7 * i) % 23 - 11), None, None) for i in range(length)), False, PLAIN), 0)
        yield ("", ("c", tuple((str(-i), str(i), str(i)) for i in range(length)), True, PLAIN), 0)
        yield ("2", ("c", tuple((str(10 ** (i % 12)), None, str(i + 1)) for i in range(length)), False, PLAIN), 0)
    for lo, hi in (("1", "100"), ("100", "1"), ("-100", "100"), ("-500", "-400"), ("-400", "-500"), ("1000000", "1000003"), ("1", "1001"), ("5000", "1"), ("-3000", "3000"), ("0", "257")):
        for m in MULTS + ("1000",):
            yield ("", ("c", ((lo, hi, m),), False, PLAIN), 0)
    for n in (99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 1024, 4096, 5000, 10001):
        yield ("", ("t", str(n)), 0)
    for m in ("99", "100", "101", "999", "1000", "3000", "12345", "65537", "1000000", "9007199254740993", "10000000000000000000000000000007", "000123"):
        for count in ("", "2"):
            yield (count, ("c", (("1", None, m), ("2", None, "3"), ("-7", None, None)), False, PLAIN), 0)
            yield (count, ("c", (("-1", "2", m), ("2", "-3", "7")), True, PLAIN), 0)
    for v in ("99", "128", "1000", "65536", "123456789", "9007199254740993", "12345678901234567890"):
        for count in ("", "2", "3"):
            yield (count, ("c", ((v, None, None), ("-" + v, None, "2")), False, PLAIN), 0)
    for count in ("63", "65", "96", "99", "101", "127", "128", "129", "200", "255", "256", "257", "300"):
        yield (count, ("t", "2"), 0)
        yield (count, ("c", (("0", None, None), ("3", None, "2")), False, PLAIN), 0)
    for length in (6, 10, 14):
        yield ("", ("c", tuple((str(i), None, None) for i in range(length)), False, ("", "", " ", "", "")), 0)
    yield ("", ("c", tuple((str(i), None, None) for i in range(32)), False, ("", "", " ", "", "")), -1)
    for count in ("7", "8", "9", "10", "11", "15", "20", "25", "30", "40", "64", "100"):
        for entries in ((("1", None, None), ("-2", None, "2")), (("0", "3", None),), (("-1", "1", None), ("1", None, "2"))):
            yield (count, ("c", entries, False, PLAIN), 0)
        yield (count, ("t", "4"), 0)
        yield (count, ("t", "F"), 0)


def check(case, ctx):
    leaf = meaning(case)
    if not ref.sides_map(leaf[2]):
        return
    term = render(case)
    if case[2] == -1:
        return slow(term, ref.leaf_law(leaf), ctx)
    context = CONTEXTS[case[2]]
    text = context.replace("%s", term)
    want = expected(context, leaf)
    got = impl.counts(text)
    ctx.state(text)
    ctx.step()
    ctx.trace()
    ctx.outcome(tuple(sorted(want.items())))
    if not ref.same_law(got, want):
        raise Violation("distribution of %r is %s, should be %s" % (text, ref.show_any(got), ref.show(want)[:1500]), program=[text])
    ctx.sample({"text": text, "distribution": ref.show(want)[:200]}, 1501)


def slow(term, want, ctx):
    got = impl.bounded(lambda: impl.counts(term), 4)
    if got is None:
        if ctx.finding("KF-BACKTRACK", term[:40] + ".. (32 entries) has not answered after 4 s"):
            return
        raise Violation("no answer for %r" % term, program=[term])
    if got[0] != "ok" or not ref.same_law(got[1], want):
        raise Violation("distribution of %r is %r" % (term, got), program=[term])
