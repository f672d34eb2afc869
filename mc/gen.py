"""Bounded-exhaustive generators of expressions and programs (AST tuples of ref.py), simplest first."""
from itertools import product

ARITH = ("+", "-", "*", "//")
COMPARE = ("==", "!=", "<=", "<", ">=", ">")
LOGIC = ("AND", "OR")
BIN = ARITH + COMPARE + LOGIC
MM = ("MIN", "MAX")
OPS = BIN + MM
UN = ("not", "abs")


def I(n):
    return ("int", n)


def D(count, n):
    return ("dice", count, ("n", n))


def CD(count, *entries):
    """Custom dice; an entry is a value, (value, multiplier) or (low, high, multiplier)."""
    full = []
    for e in entries:
        if isinstance(e, tuple):
            full.append((e[0], None, e[1]) if len(e) == 2 else e)
        else:
            full.append((e, None, None))
    return ("dice", count, ("c", tuple(full)))


def KD(count, sides, kind, m):
    return ("kd", count, sides, kind, m)


FATE = ("dice", None, ("F",))
PCT = ("dice", None, ("%",))


def binary(op, l, r):
    return ("mm", op, l, r) if op in MM else ("bin", op, l, r)


def trees(size, leaves, ops=OPS, unary=UN):
    """All trees with exactly `size` operator nodes."""
    if size == 0:
        for leaf in leaves:
            yield leaf
        return
    for u in unary:
        for t in trees(size - 1, leaves, ops, unary):
            yield (u, t)
    for split in range(size):
        lefts = list(trees(split, leaves, ops, unary))
        rights = list(trees(size - 1 - split, leaves, ops, unary))
        for op in ops:
            for l in lefts:
                for r in rights:
                    yield binary(op, l, r)


def nodes(e):
    if e[0] in ("bin", "mm"):
        return 1 + nodes(e[2]) + nodes(e[3])
    if e[0] in ("not", "abs", "par"):
        return 1 + nodes(e[1])
    return 1


def uses_op(e, op):
    if e[0] in ("bin", "mm"):
        return e[1] == op or uses_op(e[2], op) or uses_op(e[3], op)
    if e[0] in ("not", "abs", "par"):
        return uses_op(e[1], op)
    if e[0] == "let":
        return uses_op(e[2], op)
    return False


def touched(e):
    """Names read and names assigned in e."""
    if e[0] == "var":
        return {e[1]}, set()
    if e[0] == "let":
        r, w = touched(e[2])
        return r, w | {e[1]}
    r, w = set(), set()
    for x in e[1:]:
        if isinstance(x, tuple) and e[0] in ("bin", "mm", "not", "abs", "par"):
            a, b = touched(x)
            r, w = r | a, w | b
    return r, w


def order_matters(e, but=("//",)):
    """Some two operands of an operator (other than those in `but`) assign what the other reads or assigns: only the order of evaluation, which
    nothing documents, decides such a line."""
    if e[0] in ("bin", "mm"):
        (r1, w1), (r2, w2) = touched(e[2]), touched(e[3])
        if e[1] not in but and (w1 & (r2 | w2) or w2 & r1):
            return True
        return order_matters(e[2], but) or order_matters(e[3], but)
    return any(order_matters(x, but) for x in e[1:] if isinstance(x, tuple) and e[0] in ("not", "abs", "par", "let"))


def chain(op, terms):
    """Left-nested chain."""
    e = terms[0]
    for t in terms[1:]:
        e = binary(op, e, t)
    return e


def deep(kind, depth, leaf):
    e = leaf
    for _ in range(depth):
        e = (kind, e)
    return e


__all__ = [n for n in globals() if not n.startswith("_")]
_ = product
