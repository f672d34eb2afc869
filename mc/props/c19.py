"""C19: distribution objects combine exactly, linked only by the variables they share."""
from fractions import Fraction
from itertools import product

from .. import impl, lang, ref
from ..core import Violation

ID = "C19"
BOUNDS = {
    "quick": "16 operators on all ordered pairs of the 26 count maps over {-1,0,2} with counts {absent,1,2} and of 15 maps with values to 10^40, counts to 10^30 and up to 89 values; 7 sessions: all operators on all ordered pairs of the session objects and "
    "5 free ones (3 of them constants), and a second operator with every third object (both sides); two operators applied in turn with variables of the session for 12 steps; objects of two sessions together; all non-distribution operands of 12 kinds",
    "thorough": "count maps over 4 values, a third operator with 3 objects",
}
ASSUMPTIONS = [
    "AND/OR/not take values above 0 as true",
    "a result that is not a variable is linked only through the variables it was computed from: using it twice uses fresh dice for what is not a variable",
]
CHUNK = 1

BINARY = {
    "+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y, "//": lambda x, y: x // y, "<": lambda x, y: x < y, "<=": lambda x, y: x <= y,
    ">": lambda x, y: x > y, ">=": lambda x, y: x >= y, "==": lambda x, y: x.__equal__(y), "!=": lambda x, y: x.__not_equal__(y), "AND": lambda x, y: x & y,
    "OR": lambda x, y: x | y, "MAX": lambda x, y: x.max_operator(y), "MIN": lambda x, y: x.min_operator(y),
}
UNARY = {"not": lambda x: x.not_operator(), "abs": abs}
NAMES = list(BINARY) + list(UNARY)

# (lines, line whose result is the third object, line after which everything is read)
SESSIONS = [
    (("VAR a = d3", "VAR b = a + d2"), "b - d2"),
    (("VAR a = dF", "VAR b = a * a"), "a + b"),
    (("VAR a = d[-1,2]", "VAR b = a - d[0,3]", "VAR c = b * a"), "c + a"),
    (("VAR a = d2", "VAR b = a == 1", "VAR a = d3"), "a - b"),
    (("VAR a = 2d2", "VAR b = d[1,4*2]"), "a * b"),
    (("VAR a = d2", "VAR b = d2"), "0 - d2"),
    (("VAR a = d[-2,1]", "VAR b = 2", "VAR c = a + b"), "c - 1"),
]
FREE = [{-2: 1, 3: 2}, {0: 1, 1: 1}]
CONSTANT = [{0: 1}, {2: 1}, {-1: 3}]

LARGE = [
    {5: 1}, {0: 1}, {-1: 2, 1: 1}, {0: 1, 2 ** 32: 1}, {10 ** 20: 1, -(10 ** 20): 2}, {2 ** 53: 1, 2 ** 53 + 1: 3}, {2 ** 31: 1, -(2 ** 31): 1, 2 ** 31 - 1: 1}, {2 ** 64: 1, 2 ** 64 + 1: 1},
    {10 ** 40: 1, 10 ** 40 - 1: 1, 7: 1}, {v: 1 for v in range(-20, 21)}, {v: 1 + v % 3 for v in range(1, 90)}, {0: 10 ** 30, 1: 1}, {-(10 ** 9): 1, 255: 2, 256: 1, 257: 1, -256: 1},
    {-3: 10 ** 18 + 1, 4: 3}, {100: 1, -100: 1},
]


def cases(tier):
    big = tier == "thorough"
    yield ("types",)
    yield ("created",)
    for first in maps((-1, 0, 2) if not big else (-2, -1, 0, 3)):
        yield ("maps", tuple(first.items()), (-1, 0, 2) if not big else (-2, -1, 0, 3))
    for i in range(len(LARGE)):
        yield ("large", i)
    for s in range(len(SESSIONS)):
        for op in NAMES:
            yield ("session", s, op, 3 if big and s < 3 else 2)
    for s, t in product(range(4), repeat=2):
        yield ("across", s, t)
    for s in range(len(SESSIONS)):
        for op in NAMES:
            yield ("chain", s, op, 24 if big else 12)


def maps(values):
    for cs in product((0, 1, 2), repeat=len(values)):
        m = {v: c for v, c in zip(values, cs) if c}
        if m:
            yield m


class Obj:
    """A distribution object of the implementation with its two reference views: per world (exact), and by constraints (as it is)."""

    def __init__(self, real, worlds, given, asis, label):
        self.real, self.worlds, self.given, self.asis, self.label = real, worlds, given, asis, label

    def law(self):
        out = {}
        for index, (weight, _) in enumerate(self.worlds):
            for v, p in self.given(index).items():
                out[v] = out.get(v, 0) + weight * p
        return out


def opened(spec, tag=""):
    """Runs a session; returns worlds and the objects a, b, (c), out."""
    lines, last = spec
    interp = impl.session()
    worlds = [(Fraction(1), {})]
    model = ref.AsIs()
    for text in lines:
        tree = lang.parse(text)
        new = []
        for weight, env in worlds:
            law = ref.law(tree[2], env)
            t = sum(law.values())
            for v, c in law.items():
                e = dict(env)
                e[tree[1]] = v
                new.append((weight * Fraction(c, t), e))
        worlds = new
        model.dist(tree)
    answer = interp.get_probability_distributions(list(lines) + [last])
    tree = lang.parse(last)
    laws = []
    for _, env in worlds:
        law = ref.law(tree, env)
        t = sum(law.values())
        laws.append({v: Fraction(c, t) for v, c in law.items()})
    objs = []
    for name in sorted(model.vars):
        given = (lambda n: lambda i: {worlds[i][1][n]: 1})(name)
        objs.append(Obj(answer[name], worlds, given, model.vars[name], tag + name))
    objs.append(Obj(answer["stdout"], worlds, lambda i: laws[i], model.dist(tree), tag + "(" + last + ")"))
    return worlds, objs


def free(m, worlds):
    t = sum(m.values())
    law = {v: Fraction(c, t) for v, c in m.items()}
    return Obj(impl.factory().create(dict(m)), worlds, lambda i: law, {(v, ()): c for v, c in m.items()}, repr(m))


def combine(op, x, y):
    """Applies op to the objects; returns the new Obj (real may be the exception's name)."""
    if op in UNARY:
        real = impl.outcome(UNARY[op], x.real)
        f = abs if op == "abs" else (lambda v: 0 if v > 0 else 1)

        def given(i):
            out = {}
            for v, p in x.given(i).items():
                out[f(v)] = out.get(f(v), 0) + p
            return out

        asis = {}
        for (v, cons), c in x.asis.items():
            asis[(f(v), cons)] = asis.get((f(v), cons), 0) + c
        return Obj(real, x.worlds, given, asis, "%s(%s)" % (op, x.label))
    real = impl.outcome(BINARY[op], x.real, y.real)

    def both(i):
        out = {}
        for v, p in x.given(i).items():
            for w, q in y.given(i).items():
                z = ref.apply(op, v, w)
                out[z] = out.get(z, 0) + p * q
        return out

    zero = op == "//" and any(v == 0 for v, _ in y.asis)
    asis = None if zero else ref.AsIs()._combine(x.asis, y.asis, op)
    return Obj(real, x.worlds, both, asis, "(%s %s %s)" % (x.label, op, y.label))


def judge(o, zero, known, ctx, where):
    """Compares an operation's outcome (o.real = ('ok', distribution) or ('err', name)); returns the Obj with its distribution, or None."""
    what = "%s %s" % (where, o.label)
    ctx.step()
    if zero:
        if o.real != ("err", "ZeroDivisionError"):
            raise Violation("%s can divide by zero and gives %r" % (what, o.real))
        return None
    if o.real[0] != "ok":
        raise Violation("%s raises %s" % (what, o.real[1]))
    got = o.real[1].get_result_map()
    want = o.law()
    if not all(isinstance(v, int) for v in got):
        raise Violation("%s has outcomes that are not integers: %r" % (what, list(got)))
    if not ref.same_law(got, want):
        text = "%s is %s, should be %s" % (what, ref.show_any(got), {v: str(p) for v, p in sorted(want.items())})
        recorded = ref.AsIs.flat(o.asis)
        if known is None or not (ref.same_law(got, recorded) or not (got or recorded)) or not ctx.finding(known, o.label):
            raise Violation(text)
    ctx.trace()
    ctx.outcome(tuple(sorted(want.items())))
    o.real = o.real[1]
    return o


def apply_all(op, x, y, known, ctx, where):
    o = combine(op, x, y)
    zero = op == "//" and any(v == 0 for v, _ in y.asis)
    ctx.state(where, o.label)
    return judge(o, zero, known, ctx, where)


def check(case, ctx):
    mode = case[0]
    if mode == "maps":
        worlds = [(Fraction(1), {})]
        one = dict(case[1])
        for m in maps(case[2]):
            for op in NAMES:
                x, y = free(one, worlds), free(m, worlds)
                apply_all(op, x, y, None, ctx, "free")
                for o, given in ((x, one), (y, m)):
                    if o.real.get_result_map() != given:
                        raise Violation("%s changed its operand %r to %r" % (op, given, o.real.get_result_map()))
    elif mode == "large":
        worlds = [(Fraction(1), {})]
        for m in LARGE:
            for op in NAMES:
                apply_all(op, free(LARGE[case[1]], worlds), free(m, worlds), None, ctx, "free")
    elif mode == "session":
        session_case(case, ctx)
    elif mode == "across":
        across(case, ctx)
    elif mode == "chain":
        chain(case, ctx)
    elif mode == "types":
        types(ctx)
    else:
        created(ctx)
    ctx.sample({"case": case}, 41)


def session_case(case, ctx):
    _, s, op, depth = case
    worlds, objs = opened(SESSIONS[s])
    again = objs + [free(m, worlds) for m in FREE]
    everything = again + [free(m, worlds) for m in CONSTANT]
    known = "KF-REUSE"
    where = "in session %r:" % (SESSIONS[s],)
    for o in objs:
        judge(Obj(("ok", o.real), worlds, o.given, o.asis, o.label), False, known, ctx, where)
    before = [o.real.get_result_map() for o in everything]
    for x in everything:
        for y in everything if op in BINARY else everything[:1]:
            first = apply_all(op, x, y, known, ctx, where)
            if first is None:
                continue
            for op2 in NAMES:
                for z in again if op2 in BINARY else again[:1]:
                    second = apply_all(op2, first, z, known, ctx, where)
                    if op2 in BINARY and z is not x:
                        apply_all(op2, z, first, known, ctx, where)
                    if depth == 3 and second is not None and op2 in ("+", "-", "<", "MAX"):
                        for op3 in ("+", "-", "==", "AND", "MIN"):
                            for u in objs[:2]:
                                apply_all(op3, second, u, known, ctx, where)
    after = [o.real.get_result_map() for o in everything]
    if before != after:
        raise Violation("%s combining changed operands from %r to %r" % (where, before, after))


def chain(case, ctx):
    """Two operators applied in turn with variables of the session, again and again."""
    _, s, op, n = case
    worlds, objs = opened(SESSIONS[s])
    objs = objs[:-1]
    where = "in session %r:" % (SESSIONS[s],)
    for op2 in NAMES:
        for start, x, y in product(objs[:2], objs[:2], objs[-2:]):
            current = start
            for k in range(n):
                o = combine(op if k % 2 == 0 else op2, current, x if k % 2 == 0 else y)
                used = op if k % 2 == 0 else op2
                table = [o.given(i) for i in range(len(worlds))] if used != "//" or not any(v == 0 for v, _ in (x if k % 2 == 0 else y).asis) else None
                if table is not None:
                    o.given = table.__getitem__
                o.label = "(%s %s %s, then %s %s, in turn: %d steps)" % (start.label, op, x.label, op2, y.label, k + 1)
                if len(str(max(abs(v) for v in current.law()))) > 60:
                    break
                current = judge(o, table is None, "KF-REUSE", ctx, where)
                if current is None:
                    break
                ctx.state(where, o.label)


def across(case, ctx):
    """Operands of two sessions share no variables, whatever these are called."""
    _, s, t = case
    w1, o1 = opened(SESSIONS[s], "first ")
    w2, o2 = opened(SESSIONS[t], "second ")
    worlds = [(p * q, None) for p, _ in w1 for q, _ in w2]
    n = len(w2)
    left = [Obj(o.real, worlds, (lambda g: lambda i: g(i // n))(o.given), o.asis, o.label) for o in o1]
    right = [Obj(o.real, worlds, (lambda g: lambda i: g(i % n))(o.given), o.asis, o.label) for o in o2]
    where = "sessions %r and %r:" % (SESSIONS[s][0], SESSIONS[t][0])
    for op in BINARY:
        for x, y in product(left, right):
            apply_all(op, x, y, "KF-SESSIONS", ctx, where)


OTHERS = [1, 0, -3, 1.5, "d6", "", None, {1: 1}, [1], (1, 2), True, object()]


def types(ctx):
    worlds, objs = opened(SESSIONS[0])
    for o in [x.real for x in objs] + [impl.factory().create({1: 1, 2: 1})]:
        before = o.get_result_map()
        for name, f in BINARY.items():
            for other in OTHERS:
                got = impl.outcome(f, o, other)
                if got != ("err", "TypeError"):
                    raise Violation("%s between a distribution and %r gives %r, should raise TypeError" % (name, other, got))
                if name in ("+", "-", "*", "//", "<", "<=", ">", ">=", "AND", "OR"):
                    if name == "*" and isinstance(other, (str, list, tuple)):
                        continue
                    got = impl.outcome(f, other, o)
                    if got != ("err", "TypeError"):
                        raise Violation("%s between %r and a distribution gives %r, should raise TypeError" % (name, other, got))
                ctx.step(2)
                ctx.state(name, repr(type(other)), str(other)[:8])
        if o.get_result_map() != before:
            raise Violation("a rejected operand changed the distribution")
    ctx.trace()


def created(ctx):
    """Counts in, counts out; the given map stays the caller's; outcomes are accepted as keys too."""
    f = impl.factory()
    for values in ((-1, 0, 2), (5, 3, 9), (0,), (10 ** 20, -10 ** 20)):
        for counts in product((1, 2, 7, 10 ** 25), repeat=len(values)):
            given = dict(zip(values, counts))
            d = f.create(given)
            if given != dict(zip(values, counts)):
                raise Violation("create changed the counts it was given to %r" % given)
            if d.get_result_map() != given:
                raise Violation("counts %r are reported as %r" % (given, d.get_result_map()))
            again = f.create(d.get_constraint_result_map())
            if again.get_result_map() != given:
                raise Violation("outcomes %r are reported as %r" % (given, again.get_result_map()))
            want = dict(given)
            given.clear()
            given[77] = 1
            if d.get_result_map() != want:
                raise Violation("changing the given counts afterwards changes the distribution: %r" % d.get_result_map())
            ctx.step(3)
            ctx.state(tuple(want.items()))
            ctx.outcome(tuple(want.items()))
    ctx.trace()
