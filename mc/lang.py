"""Reference recogniser of the dice language (hand written; shares nothing with the code under test).

tokens(text) -> list of tokens or None; parse(text) -> AST of ref.py or None when the text is not in the language.
Words (names, keywords) must not touch other word characters; a minus directly followed by a digit belongs to the number.
"""
DIGITS = "0123456789"
WORD = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_" + DIGITS)
SPACE = " \t\n\r\f\v"
LOWER = set("abcdefghijklmnopqrstuvwxyz_")


def _digits(s, i):
    j = i
    while j < len(s) and s[j] in DIGITS:
        j += 1
    return j


def _spaces(s, i):
    while i < len(s) and s[i] in SPACE:
        i += 1
    return i


def _signed(s, i):
    j = i + 1 if i < len(s) and s[i] == "-" else i
    k = _digits(s, j)
    return (k, int(s[i:k])) if k > j else (i, None)


def _entry(s, i):
    """value | value-value, each with optional *multiplier"""
    j, low = _signed(s, i)
    if low is None:
        return None
    high = None
    if j < len(s) and s[j] == "-":
        k, value = _signed(s, j + 1)
        if value is not None:
            j, high = k, value
    mult = None
    if j < len(s) and s[j] == "*":
        k = _digits(s, j + 1)
        if k > j + 1:
            mult = int(s[j + 1:k])
            j = k
    return j, (low, high, mult)


def _bracket(s, i):
    """s[i] == '['; returns (end, entries) or None"""
    i = _spaces(s, i + 1)
    entries = []
    while True:
        r = _entry(s, i)
        if r is None:
            return None
        i, e = r
        entries.append(e)
        i = _spaces(s, i)
        if i < len(s) and s[i] == ",":
            i = _spaces(s, i + 1)
            if i < len(s) and s[i] == "]":
                return i + 1, tuple(entries)
            continue
        if i < len(s) and s[i] == "]":
            return i + 1, tuple(entries)
        return None


def _dice(s, i):
    j = _digits(s, i)
    count = int(s[i:j]) if j > i else None
    if j >= len(s) or s[j] != "d":
        return None
    j += 1
    if j >= len(s):
        return None
    if s[j] == "%":
        sides, j = ("%",), j + 1
    elif s[j] == "F":
        sides, j = ("F",), j + 1
    elif s[j] == "[":
        r = _bracket(s, j)
        if r is None:
            return None
        j, entries = r
        sides = ("c", entries)
    else:
        k = _digits(s, j)
        if k == j:
            return None
        sides, j = ("n", int(s[j:k])), k
    if j < len(s) and s[j] in "kd":
        k = _digits(s, j + 1)
        if k > j + 1:
            return k, ("kd", count, sides, s[j], int(s[j + 1:k]))
    return j, ("dice", count, sides)


KEY = {"AND": ("op", "AND"), "OR": ("op", "OR"), "True": ("bool", True), "False": ("bool", False), "MIN": ("mm", "MIN"),
       "MAX": ("mm", "MAX"), "ABS": ("abs",), "VAR": ("VAR",)}
SYMBOLS = ("==", "!=", "<=", ">=", "//", "<", ">", "(", ")", ",", "!", "+", "-", "*", "=")


def tokens(s):
    found = scan(s)
    return None if found[1] is not None else [t for t, _, _ in found[0]]


def scan(s):
    """([(token, start, end)], index of the first character that starts no token, or None)."""
    out = []
    i = 0
    while True:
        i = _spaces(s, i)
        if i >= len(s):
            return out, None
        r = _token(s, i)
        if r is None:
            return out, i
        j, t = r
        out.append((t, i, j))
        i = j


def _token(s, i):
    r = _dice(s, i)
    if r is not None:
        return r
    ch = s[i]
    if ch in DIGITS or (ch == "-" and i + 1 < len(s) and s[i + 1] in DIGITS):
        j, v = _signed(s, i)
        return j, ("int", v)
    if ch in WORD:
        if i > 0 and s[i - 1] in WORD:
            return None
        j = i
        while j < len(s) and s[j] in WORD:
            j += 1
        word = s[i:j]
        if word in KEY:
            return j, KEY[word]
        return (j, ("var", word)) if set(word) <= LOWER else None
    for sym in SYMBOLS:
        if s.startswith(sym, i):
            if sym == "=" and i > 0 and s[i - 1] == "=":
                return None  # a sign that touches the one of a comparison
            return i + len(sym), ("op", sym)
    return None


LEVELS = {"+": 0, "-": 0, "*": 1, "//": 1}
for _o in ("==", "!=", "<=", "<", ">=", ">", "AND", "OR"):
    LEVELS[_o] = 2


class _No(Exception):
    """args[0]: index of the token that does not continue any text of the language."""


class _P:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def want(self, tok):
        if self.peek() != tok:
            raise _No(self.i)
        self.i += 1

    def expr(self, level=0):
        if level == 3:
            return self.operand()
        left = self.expr(level + 1)
        while True:
            t = self.peek()
            if t is None or t[0] != "op" or LEVELS.get(t[1]) != level:
                return left
            self.i += 1
            left = ("bin", t[1], left, self.expr(level + 1))

    def operand(self):
        t = self.peek()
        if t is None:
            raise _No(self.i)
        self.i += 1
        if t[0] in ("int", "bool", "dice", "kd", "var"):
            return t
        if t == ("op", "!"):
            return ("not", self.expr())
        if t == ("op", "("):
            e = self.expr()
            self.want(("op", ")"))
            return ("par", e)
        if t == ("abs",):
            self.want(("op", "("))
            e = self.expr()
            self.want(("op", ")"))
            return ("abs", e)
        if t[0] == "mm":
            self.want(("op", "("))
            one = self.expr()
            self.want(("op", ","))
            two = self.expr()
            self.want(("op", ")"))
            return ("mm", t[1], one, two)
        if t == ("VAR",):
            n = self.peek()
            if n is None or n[0] != "var":
                raise _No(self.i)
            self.i += 1
            self.want(("op", "="))
            return ("let", n[1], self.expr())
        raise _No(self.i - 1)


def stuck(toks):
    """Index of the first token at which toks stop being the beginning of any text of the language; None for a complete text."""
    p = _P(toks)
    try:
        p.expr()
    except _No as e:
        return e.args[0]
    return None if p.i == len(toks) else p.i


def parse_tokens(toks):
    p = _P(toks)
    try:
        e = p.expr()
    except _No:
        return None
    return e if p.i == len(toks) else None


def parse(s):
    toks = tokens(s)
    return None if toks is None else parse_tokens(toks)
