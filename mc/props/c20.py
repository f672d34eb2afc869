"""C20: an error says where the text is wrong, or which variable is missing."""
import re
from itertools import product

from .. import charts, impl, lang
from ..core import Violation
from . import c09

ID = "C20"
BOUNDS = {
    "quick": "all token strings of length <= 4 over 23 tokens (spaced, unspaced, and one per line), all character strings of length <= 4 over 22 characters and of length <= 4 over 12 "
    "with line breaks; every text at edit distance 1 from 30 lines; an unknown character at every column of lines of 0..130 characters, alone and inside several lines; "
    "every misplaced token at every place of 24 lines; all programs of <= 3 lines over 17 lines with unassigned variables; each of 26 names missing while any other one is assigned, in 6 places, by every query; every kind of query for 60 texts",
    "thorough": "as quick with token strings of length 5 over 13, character strings of length 5 over 11 and over 8 with line breaks; an unknown character at every column of lines to 300 characters",
}
ASSUMPTIONS = [
    "which of several unassigned variables of a line is named is not specified",
    "texts with letters or digits outside ASCII are left out",
    "a text that breaks off is reported without a position",
    "the excerpt shows between 40 and 60 characters on either side where the line has them",
]
CHUNK = 1

KINDS = (
    "roll", "max", "min", "get_probability_distributions", "get_average", "get_estimated_cost", "get_all_probability_distributions_dict", "get_histogram", "get_at_least_histogram", "get_at_most_histogram",
)
C12 = "1d(+a $\n=!,B"
C8 = "1(a$\n? +"
BAD = ("$", "?", "A", "[", "\u20ac", "/", "\"", "MAXX", "x1")
WRONG = (")", ",", "=", "==", "1", "VAR", "d6", "a", "ABS", "MAX", "*", "AND", "3d6k2", "True", "(", "!")
FILL = ("1 + ", "d6 * ", "(2) - ", "ab != ")
NAMES = ["VAR qx = 3", "VAR zz = d2", "qx", "zz", "qx + zz", "zz * qx", "(qx)", "!zz", "ABS(qx)", "MAX(qx, zz)", "MIN(3, zz)", "VAR qx = zz", "VAR zz = qx + 1", "qx == 2", "b_b", "b_b - qx", "2 * (zz - b_b)"]
# names that share their beginning or end, underscores anywhere, names that look like a token's beginning, long names
ODD = ["_", "__", "_a", "a_", "_a_", "a", "aa", "a_a", "ab", "abd", "d", "dk", "k", "e", "x" * 40, "x" * 70, "x" * 70 + "y", "max", "var", "true", "abs", "t_r_u_e", "and", "name", "var_named", "state"]
QUERIED = [
    "", " ", "1 +", "(1", "1)", "$", "1 $", "\n$", "1\n+\n?", "VAR", "VAR a", "VAR a =", "VAR 1 = 2", "VAR a = = 2", "1 2", "d6 d6", "3-2", "MAX(1)", "MAX(1,2,3)", "MIN 1, 2", "ABS 1", "ABS()", "1 + * 2", "1 = 2",
    "a b", "a = 1", "aB", "Var a = 1", "1 === 2", "d[1", "d[]", "d[1,,2]", "3d", "d6k", "1 / 2", "1.5", "1e5", "!", "! = 1", "(VAR a = 1", "()", "2 (3)", "-", "- 1", "1 -", "--1 1", "True False", "1 AND", "OR 1",
    "<", "1 < < 2", ",", "1, 2", "MAX(,)", "x" * 80 + "$", "1 + " * 40 + ")", "1\n\n\n)", "d6\t?", "qx $", "zz )",
]


def setup(tier):
    charts.RECORDER.install()
    impl.parser()


def cases(tier):
    big = tier == "thorough"
    for n in range(0, 5):
        for tag in ("t23", "j23", "n23", "c22"):
            yield from c09.groups(tag, SETS[tag][0], n, 2)
        yield from c09.groups("c12", C12, n, 2)
    for i in range(len(c09.LINES)):
        for pos in range(len(c09.LINES[i]) + 1):
            yield ("edit", i, pos)
    for n in range(0, 301 if big else 131):
        yield ("column", n, 0)
    for i in range(len(c09.SPACED)):
        yield ("misplaced", i, 0)
    for i in range(len(QUERIED)):
        yield ("queried", i, 0)
    for n in (1, 2, 3):
        for first in range(len(NAMES)):
            yield ("names", n, first)
    for i in range(len(ODD)):
        yield ("odd", i, 0)
    if big:
        yield from c09.groups("t13", c09.T13, 5, 3)
        yield from c09.groups("c11", c09.C11, 5, 3)
        yield from c09.groups("c8", C8, 5, 3)


SETS = {"t23": (c09.T23, " "), "j23": (c09.T23, ""), "n23": (c09.T23, "\n"), "c22": (c09.C22, ""), "c12": (C12, ""), "t13": (c09.T13, " "), "c11": (c09.C11, ""), "c8": (C8, "")}


def texts_of(case):
    tag = case[0]
    if tag in SETS:
        alphabet, joiner = SETS[tag]
        head = [alphabet[i] for i in case[1]]
        for tail in product(alphabet, repeat=case[2]):
            yield joiner.join(head + list(tail))
    elif tag == "edit":
        yield from c09.texts_of(case)
    elif tag == "column":
        n = case[1]
        for filling in FILL:
            before = (filling * (n // len(filling) + 1))[:n]
            for after in (0, 1, 10, 48, 49, 50, 51, 52, 90):
                rest = (filling * (after // len(filling) + 1))[:after]
                for bad in BAD:
                    yield before + bad + rest
                    yield "1 + 2\n" + before + bad + rest
                    yield "\n\n" + before + " " + bad + rest + "\n+ 3"
                    yield "(4\n" + before + "\n" + bad + "\n" + rest
    elif tag == "misplaced":
        parts = c09.SPACED[case[1]]
        for at in range(len(parts) + 1):
            for wrong in WRONG:
                for joiner in (" ", "\n", "  \t"):
                    yield joiner.join(parts[:at] + (wrong,) + parts[at:])
                    if at < len(parts):
                        yield joiner.join(parts[:at] + (wrong,) + parts[at + 1:])
                yield "( 0 + 0 ) + " * 9 + " ".join(parts[:at] + (wrong,) + parts[at:])


def check(case, ctx):
    if case[0] == "names":
        names(case, ctx)
    elif case[0] == "odd":
        odd(ODD[case[1]], ctx)
    elif case[0] == "queried":
        queried(QUERIED[case[1]], ctx)
    else:
        for text in texts_of(case):
            judge(text, raised(lambda: impl.parser().parse(text)), ctx)
    ctx.sample({"case": case}, 1009)


def raised(call):
    """('ok', ...) or (class name, message)."""
    try:
        call()
    except (ValueError, KeyError, ZeroDivisionError, OverflowError) as e:
        return (type(e).__name__, str(e.args[0]) if e.args else "")
    return ("ok", "")


def judge(text, got, ctx):
    if any(ord(ch) > 127 and (ch.isalnum() or ch == "_") for ch in text):
        return  # foreign letters may count as parts of a word
    toks, bad = lang.scan(text)
    ctx.step(len(toks) + 1)
    if bad is not None:
        ctx.trace()
        ctx.state(text)
        if got[0] != "ValueError":
            raise Violation("%r has a character that starts no token, at %d; got %r" % (text, bad, got), program=[text])
        arrow(text, bad, got[1])
        ctx.outcome(("character", got[1][-1:]))
        return
    at = lang.stuck([t for t, _, _ in toks])
    if at is None:
        return
    ctx.trace()
    ctx.state(text)
    if got[0] != "ValueError":
        raise Violation("%r is not in the language; got %r" % (text, got), program=[text])
    message = got[1]
    if at == len(toks):
        ctx.outcome(("end", message))
        if re.search(r"\d", message) or not re.search("end", message):
            raise Violation("%r breaks off too early, the message is %r" % (text, message), program=[text])
        return
    _, start, end = toks[at]
    word = text[start:end]
    ctx.outcome(("token", word))
    rest = message.replace(word, " ", 1)
    if word not in message or str(start) not in re.findall(r"\d+", rest):
        raise Violation("%r goes wrong with %r at %d, the message is %r" % (text, word, start, message), program=[text])
    found = re.search(r"idx=(\d+)", rest)
    if found and int(found.group(1)) != start:
        raise Violation("%r goes wrong at %d, the message is %r" % (text, start, message), program=[text])


def arrow(text, bad, message):
    line_start = text.rfind("\n", 0, bad) + 1
    line = text[line_start:].split("\n")[0]
    column = bad - line_start
    shown = message.split("\n")
    if len(shown) < 2 or shown[-1].count("^") != 1 or not shown[-1].endswith("^"):
        raise Violation("%r: the message %r has no line of the text with an arrow below" % (text, message), program=[text])
    excerpt, at = shown[-2], shown[-1].index("^")
    begin = column - at
    if begin < 0 or at >= len(excerpt) or line[begin:begin + len(excerpt)] != excerpt:
        raise Violation("%r: the arrow should be under character %d (%r) of %r; the message is %r" % (text, column, line[column], line, message), program=[text])
    before, after = at, len(excerpt) - at - 1
    for have, there in ((before, column), (after, len(line) - column - 1)):
        if have < min(40, there) or have > 60:
            raise Violation("%r: the message shows %d of %d characters beside the wrong one: %r" % (text, have, there, message), program=[text])


def queried(text, ctx):
    """The same report whatever is asked, and whichever line of the program it is."""
    plain = raised(lambda: impl.parser().parse(text))
    judge(text, plain, ctx)
    for kind in KINDS:
        for lines in ([text], ["VAR ab = 2", text], ["d6", "VAR ab = d2", text, "ab"], [text, "$$$"]):
            s = impl.session()
            if not hasattr(s, kind):
                continue
            got = raised(lambda: getattr(s, kind)(lines))
            ctx.step()
            if plain[0] == "ValueError":
                if got != plain:
                    raise Violation("%s(%r) reports %r, for its wrong line alone it is %r" % (kind, lines, got, plain), program=lines)
            elif got[0] == "ok":
                raise Violation("%s(%r) is accepted" % (kind, lines), program=lines)


def names(case, ctx):
    _, n, first = case
    every = ("qx", "zz", "b_b")
    for rest in product(NAMES, repeat=n - 1):
        lines = [NAMES[first]] + list(rest)
        known, missing = set(), None
        for text in lines:
            tree = lang.parse(text)
            missing = {x for x in every if reads(tree, x)} - known
            if missing:
                break
            if tree[0] == "let":
                known.add(tree[1])
        ctx.state(tuple(lines))
        if not missing:
            continue
        for kind in KINDS[:6] if n < 3 else (KINDS[0], KINDS[3]):
            s = impl.session()
            got = raised(lambda: getattr(s, kind)(lines))
            ctx.step(len(lines))
            ctx.trace()
            ctx.outcome((kind, got))
            named = {x for x in every if re.search(r"(?<![a-z_])%s(?![a-z_])" % x, got[1])}
            if got[0] != "KeyError" or len(named) != 1 or not named <= missing:
                raise Violation("%s(%r): %s was never assigned, the error is %r" % (kind, lines, " or ".join(sorted(missing)), got), program=lines)


def odd(name, ctx):
    """Every name is reported in full, whatever else is assigned and whatever was reported before."""
    for other in ODD + [None]:
        if other == name:
            continue
        for text in ("%s", "2 + %s", "VAR z = %s", "MAX(%s, d4)", "!%s", "(%s) // 2"):
            s = impl.session()
            for kind in KINDS:
                if not hasattr(s, kind):
                    continue
                lines = ([] if other is None else ["VAR %s = 1" % other]) + [text % name]
                got = raised(lambda: getattr(s, kind)(lines))
                ctx.step(len(lines))
                ctx.trace()
                if other is None:
                    ctx.state((text, name, kind))
                ctx.outcome((kind, got[0]))
                if got[0] != "KeyError" or not re.search(r"(?<![A-Za-z_])%s(?![A-Za-z_])" % name, got[1]):
                    raise Violation("%s(%r): %s was never assigned, the error is %r" % (kind, lines, name, got), program=lines)


def reads(e, name):
    if e == ("var", name):
        return True
    return any(reads(x, name) for x in e[1:] if isinstance(x, tuple))
