"""Reference semantics of the dice language: small, boring, independent of the code in /repo.

An expression is a tuple:
  ('int', n) ('bool', b) ('dice', count, sides) ('kd', count, sides, 'k'|'d', m) ('var', name)
  ('bin', op, l, r) ('not', e) ('abs', e) ('mm', 'MIN'|'MAX', l, r) ('par', e)
`count` is None or an int.  `sides` is ('n', k) | ('%',) | ('F',) | ('c', entries, style) where entries is a
tuple of (lo, hi or None, multiplier or None).  A program line is an expression or ('let', name, expression).

The meaning is by possible worlds: every dice leaf of a line is an independent draw; a variable has, in each
world, the one value it was assigned.
"""
import math
from fractions import Fraction
from itertools import combinations_with_replacement

ERR = "ZeroDivisionError"


# ------------------------------------------------------------------------------------------------- dice
def sides_map(sides):
    kind = sides[0]
    if kind == "n":
        return {v: 1 for v in range(1, sides[1] + 1)}
    if kind == "%":
        return {v: 1 for v in range(1, 101)}
    if kind == "F":
        return {-1: 1, 0: 1, 1: 1}
    out = {}
    for low, high, mult in sides[1]:
        mult = 1 if mult is None else mult
        high = low if high is None else high
        if mult == 0:
            continue
        value = min(low, high)
        while value <= max(low, high):
            out[value] = out.get(value, 0) + mult
            value += 1
    return out


def _poly_power(base, count):
    """Law of the sum of `count` independent draws, by repeated squaring."""
    result = {0: 1}
    square = dict(base)
    while count:
        if count & 1:
            result = _conv_add(result, square)
        count >>= 1
        if count:
            square = _conv_add(square, square)
    return result


def _conv_add(one, two):
    out = {}
    for a, ca in one.items():
        for b, cb in two.items():
            out[a + b] = out.get(a + b, 0) + ca * cb
    return out


def kd_law(count, single, keep, number):
    """Counts over multisets of faces: sum of the highest `number` (keep) or of what is left after removing the
    highest `number` (drop)."""
    if keep:
        kept_high = min(number, count)
    else:
        dropped = min(number, count)
    out = {}
    faces = sorted(single)
    fact = math.factorial
    for multi in combinations_with_replacement(faces, count):
        ways = fact(count)
        i = 0
        while i < count:
            j = i
            while j < count and multi[j] == multi[i]:
                j += 1
            ways //= fact(j - i)
            ways *= single[multi[i]] ** (j - i)
            i = j
        if keep:
            total = sum(multi[count - kept_high:])
        else:
            total = sum(multi[: count - dropped])
        out[total] = out.get(total, 0) + ways
    return out


def kd_law_by_face(count, single, keep, number):
    """The same face by face, from the highest: how many dice show it, and how many of these count.  For many dice."""
    number = min(number, count)
    table = {(0, 0): 1}  # (dice placed, sum of those that count) -> ways
    for face in sorted(single, reverse=True):
        new = {}
        for (placed, total), ways in table.items():
            for j in range(count - placed + 1):
                high = max(0, min(placed + j, number) - placed)
                key = (placed + j, total + face * (high if keep else j - high))
                new[key] = new.get(key, 0) + ways * math.comb(count - placed, j) * single[face] ** j
        table = new
    return {total: ways for (placed, total), ways in table.items() if placed == count}


_LEAF = {}


def leaf_law(leaf):
    law = _LEAF.get(leaf)
    if law is None:
        count = 1 if leaf[1] is None else leaf[1]
        single = sides_map(leaf[2])
        if leaf[0] == "dice":
            law = _poly_power(single, count)
        else:
            size = math.comb(count + max(len(single), 1) - 1, count)
            law = (kd_law if size <= 20000 else kd_law_by_face)(count, single, leaf[3] == "k", leaf[4])
        if len(_LEAF) > 20000:
            _LEAF.clear()
        _LEAF[leaf] = law
    return law


# ------------------------------------------------------------------------------------------------- scalars
def apply(op, x, y, bitwise_and=False):
    if op == "+":
        return x + y
    if op == "-":
        return x - y
    if op == "*":
        return x * y
    if op == "//":
        if y == 0:
            return ERR
        return x // y
    if op == "==":
        return 1 if x == y else 0
    if op == "!=":
        return 1 if x != y else 0
    if op == "<=":
        return 1 if x <= y else 0
    if op == "<":
        return 1 if x < y else 0
    if op == ">=":
        return 1 if x >= y else 0
    if op == ">":
        return 1 if x > y else 0
    if op == "AND":
        if bitwise_and:
            return 1 if (x & y) else 0
        return 1 if x > 0 and y > 0 else 0
    if op == "OR":
        return 1 if x > 0 or y > 0 else 0
    if op == "MAX":
        return x if x >= y else y
    if op == "MIN":
        return x if x <= y else y
    raise AssertionError(op)


class Unknown(Exception):
    """An unassigned variable is read."""


def law(e, env, bitwise_and=False):
    """Law of e given the variables' values: {value or ERR: weight}."""
    k = e[0]
    if k == "int":
        return {e[1]: 1}
    if k == "bool":
        return {1 if e[1] else 0: 1}
    if k in ("dice", "kd"):
        return leaf_law(e)
    if k == "var":
        if e[1] not in env:
            raise Unknown(e[1])
        return {env[e[1]]: 1}
    if k == "par":
        return law(e[1], env, bitwise_and)
    out = {}
    if k in ("not", "abs"):
        for v, c in law(e[1], env, bitwise_and).items():
            if v == ERR:
                w = ERR
            elif k == "abs":
                w = -v if v < 0 else v
            else:
                w = 0 if v > 0 else 1
            out[w] = out.get(w, 0) + c
        return out
    op, l, r = e[1], e[2], e[3]
    left = law(l, env, bitwise_and)
    right = law(r, env, bitwise_and)
    for x, cx in left.items():
        for y, cy in right.items():
            w = ERR if (x == ERR or y == ERR) else apply(op, x, y, bitwise_and)
            out[w] = out.get(w, 0) + cx * cy
    return out


def total(d):
    return sum(d.values())


# ------------------------------------------------------------------------------------------------- programs
class Exact:
    """Joint law of all variables, line by line (exact possible worlds)."""

    def __init__(self, bitwise_and=False):
        self.worlds = {(): 1}  # env (tuple of (name, value), ordered by first assignment) -> weight
        self.bitwise_and = bitwise_and

    def line(self, line):
        """Returns the law of the line; commits the assignment unless some world divides by zero."""
        name, e = (line[1], line[2]) if line[0] == "let" else (None, line)
        stdout = {}
        new = {}
        for env, weight in self.worlds.items():
            here = law(e, dict(env), self.bitwise_and)
            for v, c in here.items():
                stdout[v] = stdout.get(v, 0) + weight * c
                if name is not None:
                    d = dict(env)
                    d[name] = v
                    key = tuple(d.items())
                    new[key] = new.get(key, 0) + weight * c
                else:
                    new[env] = new.get(env, 0) + weight * c
        if ERR not in stdout and name is not None:
            self.worlds = new
        return stdout

    def var(self, name):
        out = {}
        for env, weight in self.worlds.items():
            v = dict(env)[name]
            out[v] = out.get(v, 0) + weight
        return out

    def names(self):
        for env in self.worlds:
            return [n for n, _ in env]
        return []


class AsIs:
    """The documented-in-tests behaviour behind known finding KF-REUSE: every *use* of a variable multiplies the
    weight of its value in again.  Only consulted when the exact law does not match."""

    def __init__(self):
        self.vars = {}
        self.version = {}

    def _combine(self, one, two, op):
        out = {}
        for (x, cx), wx in one.items():
            for (y, cy), wy in two.items():
                merged = dict(cx)
                ok = True
                for n, v in cy:
                    if merged.setdefault(n, v) != v:
                        ok = False
                        break
                if not ok:
                    continue
                key = (apply(op, x, y), tuple(sorted(merged.items())))
                out[key] = out.get(key, 0) + wx * wy
        return out

    def dist(self, e):
        k = e[0]
        if k in ("int", "bool", "dice", "kd"):
            return {(v, ()): c for v, c in law(e, {}).items()}
        if k == "var":
            return self.vars[e[1]]
        if k == "par":
            return self.dist(e[1])
        if k == "let":
            d = self.dist(e[2])
            self.assign(e[1], d)
            return d
        if k in ("not", "abs"):
            out = {}
            for (v, cons), c in self.dist(e[1]).items():
                w = abs(v) if k == "abs" else (0 if v > 0 else 1)
                out[(w, cons)] = out.get((w, cons), 0) + c
            return out
        return self._combine(self.dist(e[2]), self.dist(e[3]), e[1])

    @staticmethod
    def flat(d):
        out = {}
        for (v, _), c in d.items():
            out[v] = out.get(v, 0) + c
        return out

    def assign(self, name, d):
        ver = self.version.get(name, 0) + 1
        self.version[name] = ver
        new = {}
        for (v, cons), c in d.items():
            new[(v, tuple(sorted(cons + (((name, ver), v),))))] = c
        self.vars[name] = new

    def line(self, line):
        return self.flat(self.dist(line))


def component_bound(e, scalars, support, mode):
    """Known finding KF-MINMAX: MIN/MAX report the bound of their operands' bounds, a bare variable the stored
    bound; everything else the bound of its reachable values."""
    k = e[0]
    if k == "var":
        return scalars[e[1]]
    if k == "par":
        return component_bound(e[1], scalars, support, mode)
    if k == "mm":
        return apply(e[1], component_bound(e[2], scalars, support, mode), component_bound(e[3], scalars, support, mode))
    values = support(e)
    return max(values) if mode == "max" else min(values)


def has_minmax_root(e):
    while e[0] in ("par", "let"):
        e = e[-1]
    return e[0] in ("mm", "var")


def cost(e, costs):
    k = e[0]
    if k in ("int", "bool"):
        return 2
    if k == "dice":
        return (1 if e[1] is None else e[1]) * len(sides_map(e[2]))
    if k == "kd":
        n = 1 if e[1] is None else e[1]
        m, keep, s = e[4], e[3] == "k", len(sides_map(e[2]))
        if keep:
            if m >= n:
                return n * s
            if m == 0:
                return 2
            return n * m * s
        if m >= n:
            return 2
        if m == 0:
            return n * s
        return n * (n - m) * s
    if k == "var":
        if e[1] not in costs:
            raise Unknown(e[1])
        return costs[e[1]]
    if k in ("par", "abs"):
        return cost(e[1], costs)
    if k == "not":
        return cost(e[1], costs) * 11 // 10
    if k == "let":  # costs is updated: later reads in the same line see it
        costs[e[1]] = cost(e[2], costs)
        return 2 + costs[e[1]]
    return cost(e[2], costs) + cost(e[3], costs)


def variables(e):
    if e[0] == "var":
        return {e[1]}
    out = set()
    for x in e[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], str) and e[0] in ("bin", "not", "abs", "mm", "par", "let"):
            out |= variables(x)
    return out


# ------------------------------------------------------------------------------------------------- text
def sides_text(sides):
    k = sides[0]
    if k == "n":
        return str(sides[1])
    if k in ("%", "F"):
        return k
    style = sides[2] if len(sides) > 2 else ("", "", "", "")
    opening, before, after, closing = style  # text after '[', before ',', after ',', before ']'
    parts = []
    for low, high, mult in sides[1]:
        t = str(low)
        if high is not None:
            t += "-" + str(high)
        if mult is not None:
            t += "*" + str(mult)
        parts.append(t)
    return "[" + opening + (before + "," + after).join(parts) + closing + "]"


def text(e, top=True):
    """Text of e in which every compound operand is parenthesised, so that grouping rules play no part."""
    k = e[0]
    if k == "let":
        s = "VAR %s = %s" % (e[1], text(e[2]))
        return s if top else "(" + s + ")"
    if k == "int":
        return str(e[1])
    if k == "bool":
        return "True" if e[1] else "False"
    if k == "dice":
        return ("" if e[1] is None else str(e[1])) + "d" + sides_text(e[2])
    if k == "kd":
        return ("" if e[1] is None else str(e[1])) + "d" + sides_text(e[2]) + e[3] + str(e[4])
    if k == "var":
        return e[1]
    if k == "par":
        return "(" + text(e[1]) + ")"
    if k == "abs":
        return "ABS(" + text(e[1]) + ")"
    if k == "mm":
        return e[1] + "(" + text(e[2]) + ", " + text(e[3]) + ")"
    if k == "not":
        s = "!" + text(e[1], False)
    else:
        s = text(e[2], False) + " " + e[1] + " " + text(e[3], False)
    return s if top else "(" + s + ")"


_LEVEL = {"+": 0, "-": 0, "*": 1, "//": 1}


def bare(e, level=0, last=True):
    """Text of e with only the parentheses that the grouping rules of C08 make necessary: operators are direct operands of each other."""
    k = e[0]
    if k == "par":
        return "(" + bare(e[1]) + ")"
    if k == "abs":
        return "ABS(" + bare(e[1]) + ")"
    if k == "mm":
        return e[1] + "(" + bare(e[2]) + ", " + bare(e[3]) + ")"
    if k == "not":
        return "!" + bare(e[1]) if last else "(!" + bare(e[1]) + ")"
    if k == "let":
        s = "VAR %s = %s" % (e[1], bare(e[2]))
        return s if last else "(" + s + ")"
    if k != "bin":
        return text(e)
    mine = _LEVEL.get(e[1], 2)
    if mine < level:
        return "(" + bare(e) + ")"
    return bare(e[2], mine, False) + " " + e[1] + " " + bare(e[3], mine + 1, last)


def forms(lines):
    """The program with every compound operand in parentheses, and with as few parentheses as possible (where that differs)."""
    full, few = [text(x) for x in lines], [bare(x) for x in lines]
    return [full] if full == few else [full, few]


# ------------------------------------------------------------------------------------------------- compare
def same_law(counts, reference):
    """counts (the implementation's integers) and reference give every value the same probability."""
    try:
        if set(counts) != set(reference) or not all(isinstance(v, int) for v in counts):
            return False
        s, t = sum(counts.values()), sum(reference.values())
        if not s > 0:
            return False
        return all(Fraction(c) * t == Fraction(reference[v]) * s for v, c in counts.items())
    except (TypeError, ValueError, OverflowError):
        return False


def close(x, y, tol=1e-9):
    try:
        return abs(x - y) <= tol * max(1.0, abs(y))
    except (TypeError, OverflowError):
        return False


def probabilities(reference):
    t = sum(reference.values())
    return {v: Fraction(c, t) for v, c in reference.items()}


def show(d):
    t = sum(d.values())
    return "{" + ", ".join("%s: %s" % (v, Fraction(d[v], t)) for v in sorted(d, key=str)) + "}"


def show_any(d):
    try:
        return show(d)[:1500]
    except Exception:  # whatever the implementation returned
        return repr(d)[:1500]


# ------------------------------------------------------------------------------------------- one program, all worlds
def env_set(env, name, value):
    return tuple(sorted([kv for kv in env if kv[0] != name] + [(name, value)]))


def ev(e, env=(), bitwise_and=False):
    """{(value or ERR, environment afterwards): weight}; environment = sorted tuple of (name, value).  Evaluates from
    left to right, and an assignment anywhere takes effect for what is evaluated after it."""
    k = e[0]
    if k in ("int", "bool", "dice", "kd"):
        return {(v, env): c for v, c in law(e, {}).items()}
    if k == "var":
        for n, v in env:
            if n == e[1]:
                return {(v, env): 1}
        raise Unknown(e[1])
    if k == "par":
        return ev(e[1], env, bitwise_and)
    out = {}
    if k in ("not", "abs", "let"):
        for (v, en), c in ev(e[-1], env, bitwise_and).items():
            if v == ERR:
                w = ERR
            elif k == "abs":
                w = -v if v < 0 else v
            elif k == "not":
                w = 0 if v > 0 else 1
            else:
                w, en = v, env_set(en, e[1], v)
            out[(w, en)] = out.get((w, en), 0) + c
        return out
    right_cache = {}
    for (x, en), cx in ev(e[2], env, bitwise_and).items():
        if x == ERR:
            # weight of the worlds below does not matter for an aborted evaluation, but keep totals consistent
            scale = total_weight(e[3], env, bitwise_and)
            out[(ERR, en)] = out.get((ERR, en), 0) + cx * scale
            continue
        if en not in right_cache:
            right_cache[en] = ev(e[3], en, bitwise_and)
        for (y, en2), cy in right_cache[en].items():
            w = ERR if y == ERR else apply(e[1], x, y, bitwise_and)
            out[(w, en2)] = out.get((w, en2), 0) + cx * cy
    return out


def total_weight(e, env=(), bitwise_and=False):
    """Total weight of an expression: the product over its dice (independent of the environment)."""
    k = e[0]
    if k in ("dice", "kd"):
        return sum(leaf_law(e).values())
    if k in ("par", "not", "abs", "let"):
        return total_weight(e[-1])
    if k in ("bin", "mm"):
        return total_weight(e[2]) * total_weight(e[3])
    return 1


def program_law(lines, bitwise_and=False):
    """Joint law of one call with these lines: {(('a', 1), ..., ('stdout', 3)) or ERR: weight}."""
    worlds = {((), None): 1}
    for line in lines:
        new = {}
        for (env, _), weight in worlds.items():
            if env == ERR:
                key = (ERR, None)
                new[key] = new.get(key, 0) + weight * total_weight(line)
                continue
            for (v, en), c in ev(line, env, bitwise_and).items():
                key = (ERR, None) if v == ERR else (en, v)
                new[key] = new.get(key, 0) + weight * c
        worlds = new
    out = {}
    for (env, v), weight in worlds.items():
        key = ERR if env == ERR else env + (("stdout", v),)
        out[key] = out.get(key, 0) + weight
    return out
