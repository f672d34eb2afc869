"""C09: exactly the language is accepted, everything else is a ValueError that has no effect; spacing is irrelevant."""
from itertools import product

from .. import impl, lang, ref
from ..core import Violation

ID = "C09"
BOUNDS = {
    "quick": "all token strings of length <= 4 over 23 tokens (spaced and unspaced), of length 5 over 13, of length 6 over 8; all character strings of "
    "length <= 4 over 22 characters and of length 5 over 11; all bracket bodies of length <= 6 over '1-*, '; every text at edit distance 1 "
    "(insert/replace over 141 characters, delete, transpose) from 30 lines; every token of these lines written as in other notations; lines of up to 70000 characters with an error at the start, middle or end; every spacing (none, blank, tab, newline) of the gaps of 24 lines",
    "thorough": "token strings of length 5 over 18, 6 over 11, 7 over 7; character strings of length 5 over 16, 6 over 9; bracket bodies of length 7",
}
ASSUMPTIONS = [
    "the language is the one of mc/lang.py: a minus sign directly before a digit belongs to the number (so 3-2 is two numbers and rejected)",
    "non-ASCII digits and non-ASCII white space are not enumerated",
]
CHUNK = 1

T23 = ("1", "d3", "a", "(", ")", "+", "!", "VAR", "=", ",", "MIN", "ABS", "-", "==", "-2", "2d[1,-1]", "AND", "*", "//", "3d2k2", "True", "dF", "xyz")
T18 = T23[:18]
T13 = ("1", "d3", "a", "(", ")", "+", "!", "VAR", "=", ",", "MIN", "-", "==")
T11 = ("1", "a", "(", ")", "+", "!", "VAR", "=", ",", "MAX", "ABS")
T8 = ("1", "(", ")", "+", "!", ",", "MIN", "<")
T7 = ("1", "(", ")", "*", "!", "ABS", "-")
C22 = "12d6k[],-*% Fa_()+=!</"
C16 = "12dk[],-*%Fa (!="
C11 = "12dk[],-*F "
C9 = "1dk[],-*a"

LINES = [
    "1d6", "VAR a_name = d6 + 10", "4d10", "1d%", "30dF", "2d[1,1,2,3,5,8]", "d[-5--2]", "d[1*7, 8]", "d[1-3*2,1,4,]", "2d20k1", "10d[-1,1]d5", "2dFd1",
    "VAR name = 1 + 2d3 - 3 * 4d2 // 5", "VAR out = 3 * ( 1 + 1d4 )", "VAR a = 1d4 == 1", "VAR b = 1d4 != 1", "VAR c = 1d4 <= 2", "1d4 < 3", "1d4 >= 2", "1d4 > 2",
    "VAR g = (1d4 >= 2) AND !(1d20 == 2)", "(1d4 >= 2) OR !(1d20 == 2)", "ABS( 1d6 - 1d6 )", "MAX(4d7, 2d10)", "MIN(50, d%)", "True", "False AND -12",
    "a", "VAR x = VAR y = 2", "!!1 - -1",
]
CHARS = "".join(chr(c) for c in range(32, 127)) + "\n\t"
# look-alikes and other signs that are neither digits nor white space
EXOTIC = "\u2212\u2013\u2014\u2010\u00d7\u2217\u00b7\u00f7\u2215\uff0b\uff0d\uff0a\uff0f\uff1d\uff08\uff09\uff0c\uff05\u2264\u2265\u2260\u00ac\u2227\u2228\u00b2\u00bd\u221e\u201c\u2019\u00e9\u00df\u0130\u212a\u017f\u0430\uff44\uff46\ufeff\u200b\u0000\u0007\u007f\u00ad\u20ac"
# ways other notations write the same
OTHERS = [
    ("VAR", ("var", "Var", "LET", "VAR VAR", "VARIABLE", "")), ("AND", ("and", "And", "&&", "&", "XOR", "NAND")), ("OR", ("or", "||", "|", "NOR")), ("==", ("=", "===", "=!", "=>", "IS", "= =")),
    ("!=", ("<>", "=!", "!==", "~=", "! =")), ("<=", ("=<", "<==", "< =")), (">=", ("=>", ">==", "> =")), ("<", ("<<", "LT")), (">", (">>", "->")), ("//", ("/", "///", "/ /", "DIV")), ("*", ("**", "x", "* *")),
    ("+", ("++", "+ +", "&")), ("-", ("--", "- -", "~")), ("MAX", ("max", "Max", "MAXIMUM", "MAX MAX")), ("MIN", ("min", "MINIMUM")), ("ABS", ("abs", "|", "ABS ABS")), ("True", ("true", "TRUE", "T")),
    ("False", ("false", "FALSE", "None")), ("d", ("D", "dd", "w", "")), ("F", ("f", "FF", "Fate")), ("%", ("%%", "00", "100%")), ("k", ("K", "kh", "kk", "h")), ("[", ("(", "{", "[[", "")), ("]", (")", "}", "]]", "")),
    (",", (";", ",,", ".", "|", ", ,")), ("(", ("((", "[", "")), (")", ("))", "]", "")), ("!", ("not ", "NOT ", "~", "! !")), ("=", (":=", "<-", "==", "+=", "=>")), ("1", ("1.0", "1e0", "0x1", "1_0", "one", "+1", "1L")),
]

SPACED = [
    ("1", "+", "2"), ("1", "-", "2"), ("(", "d2", ")", "*", "3"), ("VAR", "x", "=", "d3"), ("MIN", "(", "1", ",", "d2", ")"), ("ABS", "(", "-3", ")"), ("!", "d2"),
    ("1", "==", "d2"), ("True", "AND", "d2"), ("(", "d2", ")", "OR", "(", "0", ")"), ("3d2k1", "//", "2"), ("2d[1,3]", "<=", "dF"), ("a", "!=", "1"),
    ("VAR", "x", "=", "!", "a"), ("!", "(", "a", ")"), ("d%", ">=", "50"), ("1", "<", "2"), ("a", "+", "a"), ("d2", "-", "-1"), ("dF", "*", "dF"), ("MAX", "(", "a", ",", "a", ")"),
    ("VAR", "x", "=", "VAR", "y", "=", "1"), ("a", "//", "2"), ("2", ">", "a"),
]
LONG = (3, 10, 25, 49, 50, 51, 60, 99, 100, 101, 130)
PADS = ("", " ", "\t", "\n", "\r\n ")


def groups(tag, alphabet, length, free):
    free = min(free, length)
    for prefix in product(range(len(alphabet)), repeat=length - free):
        yield (tag, prefix, free)


SETS = {"t23": (T23, " "), "j23": (T23, ""), "t18": (T18, " "), "t13": (T13, " "), "t11": (T11, " "), "t8": (T8, " "), "t7": (T7, " "), "c22": (C22, ""), "c16": (C16, ""), "c11": (C11, ""), "c9": (C9, ""),
        "br": ("1-*, ", "")}


def cases(tier):
    big = tier == "thorough"
    for n in range(0, 5):
        yield from groups("t23", T23, n, 2)
        yield from groups("j23", T23, n, 2)
        yield from groups("c22", C22, n, 2)
    for n in range(0, 8 if big else 7):
        yield from groups("br", "1-*, ", n, 4)
    for i in range(len(LINES)):
        for pos in range(len(LINES[i]) + 1):
            yield ("edit", i, pos)
    for i in range(len(SPACED)):
        yield ("space", i, 0)
    for i in range(len(LINES)):
        yield ("junk", i, 0)
    for i in range(len(LINES)):
        yield ("other", i, 0)
    for i in range(len(LONG)):
        yield ("long", i, 0)
    for n in (2000, 4100, 20000, 70000):
        yield ("vast", n, 0)
    yield ("slow", 0, 0)
    yield from groups("c11", C11, 5, 3)
    yield from groups("t13", T13, 5, 3)
    yield from groups("t8", T8, 6, 4)
    if big:
        yield from groups("t18", T18, 5, 3)
        yield from groups("t11", T11, 6, 4)
        yield from groups("t7", T7, 7, 4)
        yield from groups("c16", C16, 5, 3)
        yield from groups("c9", C9, 6, 4)


def cheap(e):
    k = e[0]
    if k in ("dice", "kd"):
        n = 1 if e[1] is None else e[1]
        entries = e[2][1] if e[2][0] == "c" else ()
        if any(hi is not None and abs(hi - lo) > 2000 for lo, hi, _ in entries):
            return False
        if e[2][0] == "n" and e[2][1] > 2000:
            return False
        sides = len(ref.sides_map(e[2]))
        if sides == 0:
            return False
        if k == "dice":
            return n * sides <= 400
        return n <= 4 and sides <= 6 or n * sides <= 12
    return all(cheap(x) for x in e[1:] if isinstance(x, tuple))


def texts_of(case):
    tag = case[0]
    if tag in SETS:
        alphabet, joiner = SETS[tag]
        head = [alphabet[i] for i in case[1]]
        for tail in product(alphabet, repeat=case[2]):
            s = joiner.join(head + list(tail))
            yield "d[" + s + "]" if tag == "br" else s
    elif tag == "edit":
        line, pos = LINES[case[1]], case[2]
        if pos == 0:
            yield line
        for ch in CHARS + EXOTIC:
            yield line[:pos] + ch + line[pos:]
            if pos < len(line):
                yield line[:pos] + ch + line[pos + 1:]
        yield line[:pos]
        yield line[pos:]
        yield line[:pos] + line[pos + 1:]
        if pos + 1 < len(line):
            yield line[:pos] + line[pos + 1] + line[pos] + line[pos + 2:]
    elif tag == "other":
        line = LINES[case[1]]
        for word, ways in OTHERS:
            at = line.find(word)
            while at >= 0:
                for way in ways:
                    yield line[:at] + way + line[at + len(word):]
                    yield line.replace(word, way)
                at = line.find(word, at + 1)
    elif tag == "long":
        n = LONG[case[1]]
        for good in ("1 + " * n + "1", "(" * n + "d2" + ")" * n, "1" * n, " " * n + "1" + "\n" * n, "VAR " + "x" * n + " = 1", "d[" + "1," * n + "2]", "d[" + "2," * n + "]", "! " * n + "1", "ABS(" * n + "a" + ")" * n):
            yield good
            for broken in (good + "$", good + " )", good + " 1", "( " + good, "$" + good, good[: len(good) // 2] + "@" + good[len(good) // 2:], good + "\n" + good, good + "\n" * n + "?", good.replace("1", "", 1), good + " + "):
                yield broken
    elif tag == "vast":
        n = case[1]
        for good in ("1 + " * 99 + "1" + " " * n, " " * n + "1" + "\n" * n, "VAR " + "x" * n + " = 1", "2" + " " * n + "- 1", ("1" + " " * (n // 60) + "+\t") * 60 + "1"):
            yield good
            for broken in (good + "$", good + " )", good + " 1", "( " + good, "$" + good, good + "\n" * n + "?", good + " + "):
                yield broken
    elif tag == "space":
        toks = SPACED[case[1]]
        gaps = len(toks) + 1
        pads = PADS if gaps <= 5 else PADS[:3] if gaps <= 7 else PADS[:2]
        for pad in product(pads, repeat=gaps):
            yield pad[0] + "".join(t + p for t, p in zip(toks, pad[1:]))
    elif tag == "junk":
        line = LINES[case[1]]
        for junk in ("é", "×", "−", "$", "@", ";", "#", "'", '"', "\\", "{", "}", "~", "`", "?", ":", ".", "&", "|", "^", "0x1", "1.5", "MINIMUM", "VARIABLE", "true", "D6", "AND", ")", "(", ",", "1"):
            for t in (junk + line, line + junk, junk + " " + line, line + " " + junk, line + "\n" + junk, line + "\n" + line, junk + "\n" + line, line + "\n\n" + junk * 60,
                      " " * 70 + line + junk + " " * 70, junk):
                yield t


KINDS = ("roll", "min", "max", "get_probability_distributions", "get_probability_distributions_dict", "get_average", "get_histogram", "get_at_least_histogram",
         "get_at_most_histogram", "get_estimated_cost")


def check(case, ctx):
    if case[0] == "slow":
        return slow(ctx)
    parse = impl.parser().parse
    full = case[0] in ("edit", "junk", "other", "long", "vast")
    n = 0
    for text in texts_of(case):
        n += 1
        tree = lang.parse(text)
        if tree is not None and not safe_size(tree):
            continue
        ctx.step()
        try:
            parse(text)
            accepted = True
        except ValueError:
            accepted = False
        except Exception as e:
            raise Violation("%r raises %s instead of %s" % (text, type(e).__name__, "being accepted" if tree else "ValueError"), program=[text])
        if accepted != (tree is not None):
            raise Violation("%r is %s, but it is %s the language" % (text, "accepted" if accepted else "rejected", "in" if tree else "not in"), program=[text])
        ctx.state(text)
        if accepted:
            ctx.count("accepted")
            meaning(text, tree, ctx)
        elif full and n % 5 == 0:
            rejected(text, n // 5, ctx)
    ctx.trace(n)
    ctx.sample({"group": case, "texts": n}, 211)


def safe_size(e):
    """Texts whose dice are too large to build here are left out."""
    k = e[0]
    if k in ("dice", "kd"):
        if e[2][0] == "n" and e[2][1] > 300000:
            return False
        if e[2][0] == "c" and any(hi is not None and abs(hi - lo) > 300000 for lo, hi, _ in e[2][1]):
            return False
        return True
    return all(safe_size(x) for x in e[1:] if isinstance(x, tuple))


def nested(e, top=True):
    if e[0] == "let" and not top:
        return True
    return any(nested(x, False) for x in e[1:] if isinstance(x, tuple) and e[0] in ("bin", "not", "abs", "mm", "par", "let"))


def meaning(text, tree, ctx):
    if not cheap(tree) or nested(tree):
        return
    s = impl.session()
    s.get_probability_distributions(["VAR a = d2"])
    try:
        joint = ref.program_law((("let", "a", ("dice", None, ("n", 2))), tree))
        want = {}
        for key, w in joint.items():
            v = ref.ERR if key == ref.ERR else key[-1][1]
            want[v] = want.get(v, 0) + w
    except ref.Unknown:
        want = None
    got = impl.outcome(impl.counts, text, s)
    if want is None:
        ok = got in (("err", "KeyError"), ("err", "ZeroDivisionError"))
    elif ref.ERR in want:
        ok = got == ("err", "ZeroDivisionError")
    else:
        ok = got[0] == "ok" and ref.same_law(got[1], want)
        if ok:
            ctx.outcome(tuple(sorted(want.items())))
    if not ok:
        raise Violation("%r means %s, distribution should be %s, got %r" % (
            text, ref.text(tree), "KeyError" if want is None else ref.show_any(want), got), program=[text])


def rejected(text, n, ctx):
    """A rejected line has no effect, whatever is asked."""
    kind = KINDS[n % len(KINDS)]
    s = impl.session()
    s.max(["VAR a = d2"])
    for t in (text, "VAR a = " + text):
        if lang.parse(t) is not None:
            continue
        got = impl.outcome(getattr(s, kind), [t])
        if got != ("err", "ValueError"):
            raise Violation("%s(%r) gives %r, should be ValueError" % (kind, [t], got), program=[t])
        got = (s.roll(["1"]), {k: d.get_result_map() for k, d in s.get_probability_distributions(["1"]).items()})
        if got != ({"a": 2, "stdout": 1}, {"a": {1: 1, 2: 1}, "stdout": {1: 1}}):
            raise Violation("after the rejected %s(%r) the variables are %r" % (kind, [t], got), program=[t])
        ctx.count("rejected lines checked for effects")


def slow(ctx):
    text = "d[" + "1, " * 32 + "x"
    got = impl.bounded(lambda: impl.session().get_estimated_cost([text]), 4)
    if got is None:
        if ctx.finding("KF-BACKTRACK", text[:20] + ".. (32 entries and an x) has not answered after 4 s"):
            return
        raise Violation("no answer for %r" % text, program=[text])
    if got != ("err", "ValueError"):
        raise Violation("%r gives %r" % (text, got), program=[text])
