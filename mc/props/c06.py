"""C06: a variable is one roll shared by all its uses; reassignment starts a new one."""
from .. import gen, impl, ref
from ..core import Violation
from ..gen import CD, D, FATE, I, KD

ID = "C06"
BOUNDS = {
    "quick": "all programs VAR a = (7 laws) ; VAR {a,b} = (all expressions with <= 1 operator over a, d2, 2 that use a) ; VAR {a,b,c} = "
    "(menu of 22 over a, b) ; one of 9 closing expressions (including an encoding of the joint law); all similar-name pairs; chains and "
    "diamonds of up to 9 variables, copies and constants in up to 40 variables, variables of up to 320 values, names of up to 256 letters, values up to 10^30 times rarer than others; up to 300 reassignments; nested assignments",
    "thorough": "as quick with 10 first laws, 40 third-line expressions, a fourth assignment line, chains to 14, 25 reassignments",
}
ASSUMPTIONS = [
    "where the exact law is not met, the observed law must be exactly that of known finding KF-REUSE / KF-NESTED (model AsIs in mc/ref.py)"
]

A, B, C = ("var", "a"), ("var", "b"), ("var", "c")
D2 = D(None, 2)
FIRST = [D(None, 3), FATE, CD(None, -1, 4), I(2), D(2, 2), CD(None, 0, (5, 2)), ("bin", "-", D2, D2)]
FIRST_BIG = [KD(2, ("n", 2), "k", 1), CD(None, (1, 4, None)), ("bin", ">", D(None, 3), I(1))]


def second():
    for u in ("not", "abs", "par"):
        yield (u, A)
    yield A
    yield D2
    yield I(7)
    for op in gen.OPS:
        for l, r in ((A, A), (A, D2), (D2, A), (A, I(2)), (I(2), A)):
            yield gen.binary(op, l, r)


def third(big):
    out = [
        A, B, D2, ("bin", "+", A, B), ("bin", "-", A, B), ("bin", "-", B, A), ("bin", "*", A, B), ("bin", "==", A, B), ("bin", "<", A, B),
        ("mm", "MAX", A, B), ("mm", "MIN", B, A), ("bin", "OR", A, B), ("bin", "+", A, D2), ("bin", "+", B, D2), ("bin", "+", A, I(1)),
        ("bin", "*", B, I(3)), ("not", B), ("abs", A), ("bin", "!=", A, B), ("bin", "+", ("bin", "-", A, B), D2), ("bin", "*", B, B),
        ("bin", "AND", B, A),
    ]
    if big:
        for op in gen.OPS:
            out.append(gen.binary(op, B, D2))
        out += [("bin", "-", ("bin", "+", A, B), ("bin", "*", A, B)), ("bin", ">=", B, I(1)), ("par", ("bin", "+", B, B)), ("abs", ("bin", "-", A, B))]
    return out


def encode(*names):
    e = ("var", names[0])
    for n in names[1:]:
        e = ("bin", "+", ("bin", "*", e, I(1000)), ("var", n))
    return e


CLOSING = [
    ("bin", "-", C, A), ("bin", "-", B, A), ("bin", "==", C, B), ("bin", "+", C, ("bin", "+", A, B)), ("mm", "MAX", C, A),
    ("bin", "-", ("bin", "*", A, C), ("bin", "*", C, A)), C, ("bin", "+", B, D2),
]


def usable(e, names):
    return ref.variables(e) <= set(names)


def broad():
    """Variables with many values: every pair of values meets when the variable meets itself."""
    for n in (17, 20, 33, 50, 64, 65, 100, 101, 128, 129, 200, 256, 257, 320):
        let = ("let", "a", D(None, n))
        yield (let, ("bin", "-", A, A))
        if n <= 129:
            yield (let, ("bin", "==", A, A))
            yield (let, ("bin", "-", ("bin", "+", A, D2), A))
            yield (let, ("bin", "-", ("bin", "*", A, A), A))
            yield (let, ("let", "b", ("bin", "-", I(n), A)), ("bin", "+", A, B))
            yield (let, ("let", "b", ("bin", "//", A, I(7))), ("bin", "-", A, ("bin", "*", B, I(7))))
    for n, m in ((8, 8), (16, 17), (10, 30), (32, 33)):
        lets = (("let", "a", D(None, n)), ("let", "b", D(None, m)))
        yield lets + (("bin", "-", ("bin", "+", A, B), A),)
        yield lets + (("let", "c", ("bin", "+", A, B)), ("bin", "-", C, B))
        if n * m < 700:
            yield lets + (("let", "c", ("bin", "*", A, B)), ("bin", "-", C, C))


def structured(big):
    chain = 14 if big else 9
    for first in (D(None, 3), FATE, CD(None, -1, 4)):
        # chains: v1 = dice, v(k+1) = vk + 1 / vk + d2 ; last - first
        for n in range(2, chain + 1):
            names = [chr(ord("a") + i) for i in range(n)]
            for link in (I(1), D2):
                if link == D2 and n > 6:
                    continue
                lines = [("let", names[0], first)]
                for i in range(1, n):
                    lines.append(("let", names[i], ("bin", "+", ("var", names[i - 1]), link)))
                yield tuple(lines) + (("bin", "-", ("var", names[-1]), ("var", names[0])),)
                yield tuple(lines) + (gen.chain("+", [("var", x) for x in names]),)
                yield tuple(lines) + (gen.chain("-", [("var", x) for x in names]),)
            # independent variables
            if n <= 6:
                lines = [("let", x, D2) for x in names]
                yield tuple(lines) + (gen.chain("+", [("var", x) for x in names]),)
                yield tuple(lines) + (gen.chain("-", [("var", x) for x in names + names]),)
        # reassignment: every earlier value is captured by another variable
        for n in list(range(1, 26 if big else 15)) + [15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300]:
            lines = [("let", "a", first), ("let", "b", A)]
            for _ in range(n):
                lines.append(("let", "a", D2))
            yield tuple(lines) + (("bin", "-", A, B),)
            yield tuple(lines) + (("bin", "-", B, B),)
            lines = [("let", "a", first)]
            for _ in range(n):
                lines.append(("let", "a", ("bin", "+", A, I(1))))
            yield tuple(lines) + (("bin", "-", A, A),)
            lines = [("let", "a", first)]
            names = []
            for i in range(min(n, 5)):
                name = "bcdefg"[i]
                names.append(name)
                lines.append(("let", name, A))
                lines.append(("let", "a", D2))
            yield tuple(lines) + (gen.chain("+", [("var", x) for x in names + ["a"]]),)
            if n >= 9:
                # versions 1 and 10, 1 and 11, ..: captured early and late
                lines = [("let", "a", D2), ("let", "b", A)]
                for i in range(n):
                    lines.append(("let", "a", D2))
                lines.append(("let", "c", A))
                yield tuple(lines) + (("bin", "+", ("bin", "*", B, I(10)), C),)
                yield tuple(lines) + (("bin", "==", B, C),)
    # similar names
    pool = ["a", "a_", "a__", "_", "__", "aa", "ab", "b", "ba", "stdout", "d", "k", "var", "min", "abs", "a_a", "x", "true", "and", "or", "not"]
    for one in pool:
        for two in pool:
            if one != two:
                v, w = ("var", one), ("var", two)
                yield (("let", one, D(None, 3)), ("let", two, D2), ("bin", "-", v, w))
                yield (("let", one, D(None, 3)), ("let", two, v), ("bin", "-", v, w))
                yield (("let", one, D(None, 3)), ("let", two, v), ("let", one, D2), ("bin", "-", v, w))
                yield (("let", two, D2), ("let", one, D(None, 3)), ("let", one, w), ("bin", "+", v, w))
    # many dice behind one variable, wide laws
    for d in (D(None, 20), gen.PCT, CD(None, (-15, 15, None)), D(3, 6), D(10, 2)):
        yield (("let", "a", d), ("bin", "-", A, A))
        yield (("let", "a", d), ("let", "b", ("bin", ">=", A, I(3))), ("bin", "*", A, B))
        yield (("let", "a", d), ("let", "b", ("bin", "//", A, I(2))), ("bin", "-", A, ("bin", "*", B, I(2))))
        yield (("let", "a", d), ("let", "b", D2), ("bin", "-", ("bin", "+", A, B), A))
    # rare values behind a variable
    for d in (CD(None, 0, (1, 10 ** 6)), CD(2, (-1, 10 ** 12), 3), CD(None, (5, 10 ** 30), -5, (0, 7))):
        yield (("let", "a", d), ("bin", "-", A, A))
        yield (("let", "a", d), ("let", "b", ("bin", "-", A, I(1))), ("bin", "*", B, I(2)))
        yield (("let", "a", d), ("let", "b", D2), ("bin", "+", ("bin", "*", B, I(100)), A))
        yield (("let", "a", d), ("let", "b", ("bin", "+", A, D2)), encode("b", "a"))
    # many variables: copies, constants in between, a late one against an early one
    for n in (12, 17, 20, 27, 33, 40) + ((65, 101) if big else ()):
        names = [("ab"[i % 2]) + "abcdefghijklmnopqrstuvwxyz"[i // 2 % 26] + "_" * (i // 52) for i in range(n)]
        for first in (D(None, 3), CD(None, -1, (4, 3))):
            lines = [("let", names[0], first)]
            for i in range(1, n):
                lines.append(("let", names[i], ("var", names[i - 1]) if i % 3 == 1 else I(i) if i % 3 == 2 else ("bin", "+", ("var", names[i - 3]), ("var", names[i - 1]))))
            for late in (n - 1, n - 2, n - 3):
                yield tuple(lines) + (("bin", "-", ("var", names[late]), ("var", names[0])),)
            lines = [("let", x, I(i)) for i, x in enumerate(names)]
            for k in (0, n // 2, n - 1):
                lines[k] = ("let", names[k], first)
            yield tuple(lines) + (("bin", "-", ("bin", "+", ("bin", "*", ("var", names[0]), I(100)), ("bin", "*", ("var", names[n // 2]), I(10))), ("var", names[n - 1])),)
    # long names that differ in one place only
    for n in (2, 3, 5, 8, 9, 12, 16, 17, 20, 24, 31, 32, 33, 40, 64, 65, 80, 128, 255, 256):
        for at in (0, n // 2, n - 1):
            one, two = "x" * n, "x" * at + "y" + "x" * (n - at - 1)
            v, w = ("var", one), ("var", two)
            yield (("let", one, D(None, 3)), ("let", two, D2), ("bin", "-", v, w))
            yield (("let", one, D(None, 3)), ("let", two, v), ("let", one, D2), ("bin", "-", v, w))
    # README program
    save, dmg, pas, half = ("var", "save_roll"), ("var", "burning_arch_damage"), ("var", "pass_save"), ("var", "damage_half_on_save")
    yield (("let", "save_roll", D(None, 20)), ("let", "burning_arch_damage", ("bin", "+", D(10, 6), I(10))),
           ("let", "pass_save", ("par", ("bin", ">=", save, I(10)))), ("let", "damage_half_on_save", ("bin", "//", dmg, ("par", ("bin", "+", pas, I(1))))), half)


def nested():
    b3 = ("let", "b", D(None, 3))
    for first in (D2, FATE):
        yield (("let", "a", b3), ("bin", "-", A, B))
        yield (("bin", "+", ("par", ("let", "a", first)), I(1)), A)
        yield (("let", "b", first), ("bin", "-", ("par", ("let", "a", D2)), B), A)
        yield (("let", "b", first), ("bin", "+", B, ("par", ("let", "a", B))), A)
        yield (("let", "a", first), ("let", "a", ("let", "b", A)), ("bin", "-", A, B))
        yield (("mm", "MAX", ("let", "a", first), ("let", "b", D2)), ("bin", "+", A, B))
        yield (("abs", ("let", "a", first)), A)
        yield (("not", ("let", "a", first)), A)


def cases(tier):
    big = tier == "thorough"
    firsts = FIRST + (FIRST_BIG if big else [])
    for f in firsts:
        for closing in (A, ("bin", "-", A, A), ("bin", "+", A, A), ("bin", "*", A, A), ("bin", "==", A, A), ("mm", "MAX", A, ("bin", "-", I(0), A)),
                        ("bin", "-", ("bin", "+", A, D2), A), ("bin", "+", ("bin", "*", A, I(100)), A)):
            yield (("let", "a", f), closing)
    yield from structured(big)
    yield from broad()
    yield from nested()
    for f in firsts:
        for s in second():
            for name in ("b", "a"):
                lines = (("let", "a", f), ("let", name, s))
                names = ["a", name]
                for closing in CLOSING + [encode(*sorted(set(names)))]:
                    if usable(closing, names):
                        yield lines + (closing,)
    thirds = third(big)
    for f in firsts:
        for s in second():
            for name in ("b", "a"):
                names = ["a", name]
                for t in thirds:
                    if not usable(t, names):
                        continue
                    for name3 in ("c", "a", "b"):
                        all_names = sorted(set(names + [name3]))
                        lines = (("let", "a", f), ("let", name, s), ("let", name3, t))
                        yield lines + (encode(*all_names),)
                        if name3 == "c" and name == "b":
                            yield lines + (CLOSING[(len(ref.text(t)) + len(ref.text(s))) % len(CLOSING)],)
                        if big and name3 == "a":
                            yield lines + (("let", "a", ("bin", "+", A, D2)), encode(*all_names))


def check(case, ctx):
    joint = ref.program_law(case)
    if ref.ERR in joint:
        ctx.count("skipped: divides by zero (C07)")
        return
    for texts in ref.forms(case):
        judge(case, texts, joint, ctx)


def judge(case, texts, joint, ctx):
    want = {}
    for key, w in joint.items():
        for i, (name, v) in enumerate(key):
            if name == "stdout" and i < len(key) - 1:
                continue  # a variable of that name is shadowed by the result of the line
            law = want.setdefault(name, {})
            law[v] = law.get(v, 0) + w
    got = impl.session().get_probability_distributions(texts)
    ctx.state(tuple(texts))
    ctx.step(len(texts))
    ctx.trace()
    ctx.outcome(tuple(sorted(joint.items())) if len(joint) < 30 else len(joint))
    if set(got) != set(want):
        raise Violation("%r reports %r, should report %r" % (texts, sorted(got), sorted(want)), program=texts)
    maps = {n: d.get_result_map() for n, d in got.items()}
    bad = [n for n in want if not ref.same_law(maps[n], want[n])]
    if not bad:
        ctx.count("exact")
        ctx.sample({"program": texts, "stdout": ref.show(want["stdout"])[:200]}, 20011)
        return
    # only the recorded behaviour is excused
    model = ref.AsIs()
    out = None
    for line in case:
        out = model.line(line)
    alt = {n: ref.AsIs.flat(d) for n, d in model.vars.items()}
    alt["stdout"] = out
    fid = "KF-NESTED" if has_nested(case) else "KF-REUSE"
    if all(ref.same_law(maps[n], alt[n]) for n in want) and ctx.finding(fid, " ; ".join(texts)):
        return
    n = bad[0]
    raise Violation("%r: %s has distribution %s, should be %s" % (texts, n, ref.show_any(maps[n]), ref.show(want[n])[:1500]), program=texts)


def has_nested(case):
    def inside(e):
        return any(isinstance(x, tuple) and x and (x[0] == "let" or inside(x)) for x in e[1:])

    return any(inside(x) for x in case)
