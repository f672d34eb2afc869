"""C15: a constraint set is the conjunction of its constraints, however it was built."""
import copy
from itertools import product

from .. import impl  # noqa: F401  (puts /repo on the path)
from ..core import Violation
from python_dice.src.constraint.constraint_factory import ConstraintFactory
from python_dice.src.constraint.constraint_merger import ConstraintMerger
from python_dice.src.constraint.constraint_set import ConstraintSet
from python_dice.src.constraint.constraint_set_factory import ConstraintSetFactory

ID = "C15"
BOUNDS = {
    "quick": "18 constraints (null, impossible, all value sets within {1,2,3} for a and b): all sequences of <= 3 additions to a fresh set, all sets of <= 3 constraints given at "
    "once, all combinations of two sets of <= 2 constraints each, all bracketings of combining 3; 9 constraints over 4 variables: all sequences of 4 and 5 additions, all "
    "interleavings of adding to two sets and combining them (6 steps); 25 to 256 assignments each; two more menus (negative values, wide and huge value sets, odd names): all sequences of <= 3; up to 80 variables, also in two combined sets; two sets extended and combined again (5 steps out of 8)",
    "thorough": "sequences of 4 additions over 18, combinations of 3 x 2 constraints, 6 additions over 9 constraints, 7 interleaved steps",
}
ASSUMPTIONS = ["complies is judged while the set is possible (an impossible set reports complies true for itself by design; is_possible tells)"]
CHUNK = 1

SUBSETS = [(), (1,), (2,), (3,), (1, 2), (1, 3), (2, 3), (1, 2, 3)]
SMALL = [("null",), ("impossible",)] + [("var", n, s) for n in "ab" for s in SUBSETS]
MIXED = [
    ("null",), ("var", "a", (1, 2)), ("var", "a", (2, 3)), ("var", "b", (1,)), ("var", "b", (1, 3)), ("var", "c", (2,)), ("var", "a_1", (1, 2, -7)), ("var", "c", (2, 10 ** 20)),
    ("impossible",),
]

NEGATIVE = [("null",), ("var", "a", ())] + [("var", "a", s) for s in ((-1,), (-2,), (0,), (-1, -2), (-1, 0), (-2, 5), (-2, -1, 0))] + [("var", "b", s) for s in ((0,), (-1,), (-1, 0), (0, 7))]
WIDE = [
    ("var", "a", tuple(range(-60, 61))), ("var", "a", tuple(range(0, 200, 2))), ("var", "a", tuple(range(1, 200, 2))), ("var", "a", (10 ** 20, -(10 ** 20), 2 ** 32)), ("var", "a", (10 ** 20 + 1, 2 ** 32)),
    ("var", "a", (0, 2 ** 64)), ("var", "a", (2 ** 64, 8)), ("var", "aa", (8,)), ("var", "a_1", (8, 0)), ("var", "a_11", (0,)), ("var", "", (1, 0)), ("var", "A", (3,)), ("var", "a b", (8,)),
]
MENUS = {"negative": NEGATIVE, "wide": WIDE}


def cases(tier):
    big = tier == "thorough"
    yield ("add", (), 0)
    for i in range(18):
        yield ("add", (i,), 0)
    for i, j in product(range(18), repeat=2):
        yield ("add", (i, j), 2 if big else 1)
        yield ("at_once", (i, j))
        yield ("combine", (i, j), 3 if big else 2)
        yield ("three", (i, j))
    for name, menu in MENUS.items():
        for i in range(len(menu)):
            yield ("menu", name, i, 3 if big else 2)
    for n in (4, 5, 6, 8, 12, 20, 40, 80):
        yield ("many", n)
    for i, j in product(range(9), repeat=2):
        yield ("mixed", (i, j), 4 if big else 3)
    for steps in product(range(8), repeat=2):
        yield ("steps", steps, 7 if big else 6)
    for first in product(range(8), repeat=2):
        yield ("again", first, 6 if big else 5)


def factory():
    return ConstraintFactory()


def build(f, spec, held):
    if spec[0] == "null":
        c = f.null_constraint
    elif spec[0] == "impossible":
        c = f.impossible_constraint
    else:
        values = set(spec[2])
        c = f.var_value_constraint(spec[1], values)
        held.append((c, spec, values))
        return c
    held.append((c, spec, None))
    return c


def fresh():
    return ConstraintSetFactory().create_constraint_set()


def meaning(specs):
    """Per variable the common values, or None when nothing satisfies the conjunction."""
    need = {}
    for s in specs:
        if s[0] == "impossible":
            return None
        if s[0] == "var":
            need[s[1]] = need[s[1]] & set(s[2]) if s[1] in need else set(s[2])
    return None if any(not v for v in need.values()) else need


def verify(cs, specs, how, ctx, options=None):
    want = meaning(specs)
    for _ in range(2):
        got = cs.is_possible()
        if bool(got) != (want is not None):
            raise Violation("%s: is_possible is %r for %r" % (how, got, specs))
    if want is not None:
        names = sorted({s[1] for s in specs if s[0] == "var"})
        if options is None:
            options = [[None, 1, 2, 3, 9] if len(names) < 3 else [None, 1, 2, 10 ** 20] for _ in names]
        else:
            options = [options(n, want[n]) for n in names]
        for values in product(*options):
            env = {n: v for n, v in zip(names, values) if v is not None}
            env["zz"] = 1
            ok = all(n not in env or env[n] in allowed for n, allowed in want.items())
            given = dict(env)
            got = cs.complies(given)
            if bool(got) != ok:
                raise Violation("%s: complies(%r) is %r for %r" % (how, env, got, specs))
            if given != env:
                raise Violation("%s: complies changed its argument to %r" % (how, given))
            ctx.step()
    view = cs.constraints
    if isinstance(view, set):
        view.clear()  # the caller's copy
    ctx.state(tuple(sorted(set(map(repr, specs)))))
    ctx.outcome(repr(want))


def untouched(held, how):
    for c, spec, values in held:
        if spec[0] == "var":
            if c.name != spec[1] or set(c.values) != set(spec[2]) or values != set(spec[2]):
                raise Violation("%s changed the constraint %r to name %r, values %r (given set: %r)" % (how, spec, c.name, c.values, values))
            if c.is_possible() != bool(spec[2]):
                raise Violation("%s: constraint %r now has is_possible %r" % (how, spec, c.is_possible()))
        elif c.is_possible() != (spec[0] == "null"):
            raise Violation("%s: constraint %r now has is_possible %r" % (how, spec, c.is_possible()))


def added(menu, indices, ctx, how="adding in order"):
    f, held, specs = factory(), [], []
    cs = fresh()
    for i in indices:
        cs.add_constraint(build(f, menu[i], held))
        specs.append(menu[i])
    verify(cs, specs, how, ctx)
    untouched(held, how)
    ctx.trace()
    return cs, specs, held


def check(case, ctx):
    mode = case[0]
    if mode == "add":
        for rest in product(range(18), repeat=case[2]):
            added(SMALL, tuple(case[1]) + rest, ctx)
    elif mode == "menu":
        menu(case, ctx)
    elif mode == "many":
        many(case[1], ctx)
    elif mode == "mixed":
        for n in (2, case[2]):
            for rest in product(range(9), repeat=n):
                added(MIXED, tuple(case[1]) + rest, ctx)
    elif mode == "at_once":
        for k in range(18):
            f, held = factory(), []
            specs = [SMALL[x] for x in tuple(case[1]) + (k,)]
            given = [build(f, s, held) for s in specs]
            for order in (given, given[::-1], given[1:] + given[:1]):
                collection = set()
                for c in order:
                    collection.add(c)
                size = len(collection)
                cs = ConstraintSet(collection, ConstraintMerger())
                verify(cs, specs, "given at once", ctx)
                if len(collection) != size:
                    raise Violation("building a set from %r changed the collection given" % (specs,))
                merged = ConstraintMerger().merge_constraints(set(collection))
                verify(ConstraintSet(merged, ConstraintMerger()), specs, "merged at once", ctx)
            untouched(held, "building from %r" % (specs,))
            ctx.trace()
    elif mode == "combine":
        left = tuple(case[1])
        for n in range(1, case[2] + 1):
            for right in product(range(18), repeat=n):
                if n == 3 and right[0] > right[1]:
                    continue
                combine(left[:1] if left[0] == left[1] and n == 1 else left, right, ctx)
    elif mode == "three":
        for k in range(18):
            i, j = case[1]
            parts = [added(SMALL, (x,), ctx) for x in (i, j, k)]
            (a, sa, _), (b, sb, _), (c, sc, _) = parts
            specs = sa + sb + sc
            for how, cs in (("(a+b)+c", a.combine_sets(b).combine_sets(c)), ("a+(b+c)", a.combine_sets(b.combine_sets(c))), ("(c+a)+b", c.combine_sets(a).combine_sets(b))):
                verify(cs, specs, how, ctx)
            for cs, s, held in parts:
                verify(cs, s, "combining three", ctx)
                untouched(held, "combining three")
            both = a.combine_sets(b)
            snapshot = copy.deepcopy(both)
            both.add_constraint(build(factory(), SMALL[k], []))
            verify(both, specs, "adding to a combined set", ctx)
            verify(snapshot, sa + sb, "a copy made before adding", ctx)
            verify(a, sa, "operand after adding to the combination", ctx)
            verify(b, sb, "operand after adding to the combination", ctx)
            ctx.trace()
    elif mode == "again":
        again(case, ctx)
    else:
        steps(case, ctx)
    ctx.sample({"case": case}, 89)


def menu(case, ctx):
    """Other kinds of values and names: added in order, given at once, merged, and combined."""
    _, name, first, depth = case
    specs_of = MENUS[name]

    def options(n, allowed):
        out = [None, -999]
        for s in specs_of:
            if s[0] == "var" and s[1] == n:
                out += [min(s[2]), max(s[2])] if s[2] else []
        return list(dict.fromkeys(out))

    for rest in (r for k in range(depth + 1) for r in product(range(len(specs_of)), repeat=k)):
        specs = [specs_of[i] for i in (first,) + rest]
        f, held = factory(), []
        given = [build(f, s, held) for s in specs]
        cs = fresh()
        for c in given:
            cs.add_constraint(c)
        verify(cs, specs, "adding in order", ctx, options)
        left, right = fresh(), fresh()
        for i, c in enumerate(given):
            (left if i % 2 else right).add_constraint(c)
        verify(left.combine_sets(right), specs, "combining", ctx, options)
        verify(right.combine_sets(left), specs, "combining the other way", ctx, options)
        collection = set(given)
        size = len(collection)
        verify(ConstraintSet(ConstraintMerger().merge_constraints(collection), ConstraintMerger()), specs, "merged at once", ctx, options)
        if len(collection) != size or any(c not in collection for c in given):
            raise Violation("merging changed the collection it was given: %r" % (specs,))
        untouched(held, "building from %r" % (specs,))
        ctx.trace()


def many(n, ctx):
    """n variables, each constrained twice; the merger leaves the set it is given alone."""
    f, held = factory(), []
    one = [("var", "v%d" % i, (i, i + 1, -i)) for i in range(n)]
    two = [("var", "v%d" % i, (i + 1, i + 2, -i)) for i in range(n)]
    given = [build(f, s, held) for s in one + two]

    def options(name, allowed):
        i = int(name[1:])
        return [None, i + 1, i + 2] if i < 4 else [i + 1] if i % 2 else [None]

    for order in (list(range(2 * n)), list(range(2 * n))[::-1], [i // 2 + n * (i % 2) for i in range(2 * n)]):
        cs, collection, size = fresh(), set(), 0
        for step, i in enumerate(order):
            cs.add_constraint(given[i])
            before = set(collection)
            after = ConstraintMerger().merge_new_constraints(collection, given[i])
            if collection != before:
                raise Violation("merging a new constraint changed the set it was given from %r to %r" % (before, collection))
            collection = set(after)
            ctx.step()
        specs = [(one + two)[i] for i in order]
        verify(cs, specs, "%d variables" % n, ctx, options)
        verify(ConstraintSet(collection, ConstraintMerger()), specs, "merging over %d variables" % n, ctx, options)
        last = ("var", "v%d" % (n - 1), (n - 1, n + 1))
        cs.add_constraint(build(f, last, held))
        if cs.is_possible():
            raise Violation("%d variables, the last of them without a common value, is_possible is true" % n)
        untouched(held, "%d variables" % n)
        ctx.trace()
    # two sets of many variables that share constraints, or of which one is much larger
    every = one + two
    for left, right in ((range(n), range(1, n)), (range(n), range(n, 2 * n)), (range(n), range(n)), (range(n), range(n // 2, n + n // 2)), (range(n), (0,)), (range(2 * n), (n - 1, n + 1)), (range(n), ())):
        a, b = fresh(), fresh()
        for i in left:
            a.add_constraint(given[i])
        for i in right:
            b.add_constraint(given[i])
        b.add_constraint(build(f, ("var", "x", (1, 2)), held))
        specs = [every[i] for i in left] + [every[i] for i in right] + [("var", "x", (1, 2))]

        def seen(name, allowed):
            if name == "x":
                return [1, 3]
            i = int(name[1:])
            return [i, i + 1, 77] if i == n // 2 else [i + 1, 78] if i in (1, n - 1) else [i + 1]

        verify(a.combine_sets(b), specs, "combining over %d variables" % n, ctx, seen)
        verify(b.combine_sets(a), specs, "combining over %d variables, the other way" % n, ctx, seen)
        untouched(held, "combining over %d variables" % n)
        ctx.trace()


def combine(left, right, ctx):
    f = factory()
    a, sa, ha = added(SMALL, left, ctx)
    held = []
    b = fresh()
    for i in right:
        b.add_constraint(build(f, SMALL[i], held))
    sb = [SMALL[i] for i in right]
    for cs, how in ((a.combine_sets(b), "combining"), (b.combine_sets(a), "combining the other way"), (a.combine_sets(b), "combining again")):
        verify(cs, sa + sb, how, ctx)
    verify(a, sa, "left operand after combining with %r" % (sb,), ctx)
    verify(b, sb, "right operand after combining with %r" % (sa,), ctx)
    verify(a.combine_sets(a), sa, "combining with itself", ctx)
    untouched(ha + held, "combining %r and %r" % (sa, sb))
    ctx.trace()


MOVES = [("add", 0, 1), ("add", 0, 2), ("add", 1, 3), ("add", 1, 4), ("merge", 0, 1), ("merge", 1, 0), ("add", 0, 5), ("add", 1, 1)]


def steps(case, ctx):
    """All interleavings of adding to two sets (that share constraint objects) and combining them into one another."""
    _, head, depth = case
    for tail in product(range(len(MOVES)), repeat=depth - 2 - 2):
        for end in product(range(len(MOVES)), repeat=2):
            order = tuple(head) + tail + end
            f, held = factory(), []
            shared = [build(f, s, held) for s in MIXED]
            sets = [fresh(), fresh()]
            specs = [[], []]
            old = []
            for move, i, j in (MOVES[o] for o in order):
                if move == "add":
                    sets[i].add_constraint(shared[j])
                    specs[i] = specs[i] + [MIXED[j]]
                else:
                    old.append((sets[i], specs[i]))
                    sets[i] = sets[i].combine_sets(sets[j])
                    specs[i] = specs[i] + specs[j]
            for i in (0, 1):
                verify(sets[i], specs[i], "after %r, set %d" % ([MOVES[o] for o in order], i), ctx)
            for cs, s in old:
                verify(cs, s, "a set combined earlier in %r" % ([MOVES[o] for o in order],), ctx)
            untouched(held, "%r" % ([MOVES[o] for o in order],))
            ctx.trace()


AGAIN = [("add", 0, 1), ("add", 0, 2), ("add", 1, 2), ("add", 1, 3), ("keep", 0, 1), ("keep", 1, 0), ("add", 0, 4), ("keep", 1, 1)]


def again(case, ctx):
    """The same two sets, extended and combined again and again; every combination means what its operands meant when it was made."""
    _, head, depth = case
    for tail in product(range(len(AGAIN)), repeat=depth - 2):
        order = tuple(head) + tail
        f, held = factory(), []
        shared = [build(f, s, held) for s in MIXED]
        sets, specs, made = [fresh(), fresh()], [[], []], []
        for move, i, j in (AGAIN[o] for o in order):
            if move == "add":
                sets[i].add_constraint(shared[j])
                specs[i] = specs[i] + [MIXED[j]]
            else:
                made.append((sets[i].combine_sets(sets[j]), specs[i] + specs[j]))
        how = "after %r" % ([AGAIN[o] for o in order],)
        for cs, s in made + list(zip(sets, specs)):
            verify(cs, s, how, ctx)
        if made:
            made[0][0].add_constraint(shared[5])
            verify(made[0][0], made[0][1] + [MIXED[5]], how + ", extending the first combination", ctx)
            for cs, s in made[1:] + list(zip(sets, specs)):
                verify(cs, s, how + " and extending the first combination", ctx)
        untouched(held, how)
        ctx.trace()
