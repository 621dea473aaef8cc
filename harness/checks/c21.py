from gen import *
from core import Skip, Violation
from lips.symmetries import phase_weights_compatible_symmetries, inverse, identity, all_symmetries

ID = "C21"
RULE = ("a case is one weight vector (compatible) whose reported symmetries are compared with a direct test of every permutation and checked for closure under composition and inverse, one batch of permutations (inverse) "
        "or one point and one composition of symmetries acting on it (action); distinct = (kind, weights) or the permutation")
ASSUMPTIONS = ["up to 7 legs for weight vectors (8 on the thorough tier), up to 9 for permutations"]


def comp(p, q):
    """first q, then p, as maps on positions: (p.q)(i) = p(q(i))"""
    return "".join(p[int(c) - 1] for c in q)


def case_compatible(ctx):
    rng = ctx.rng
    n = rng.choice([1, 2, 3, 4, 4, 5, 5, 6, 6] + ([7] if rng.random() < .2 else []) + ([8] if ctx.tier == "thorough" and rng.random() < .05 else []))
    style = rng.choice(["zero", "pm", "pm", "small", "big", "pairs", "halves", "antisym"])
    if style == "zero":
        w = [0] * n
    elif style == "pm":
        w = [rng.choice([-1, 1]) for _ in range(n)]
    elif style == "small":
        w = [rng.choice([-1, 0, 1, 2]) for _ in range(n)]
    elif style == "big":
        w = [rng.randrange(-9, 10) for _ in range(n)]
    elif style == "pairs":
        w = [x for k in range((n + 1) // 2) for x in (lambda y: (y, -y))(rng.randrange(-3, 4))][:n]
    elif style == "antisym":
        w = [k + 1 for k in range(n // 2)] + [0] * (n % 2) + [-k - 1 for k in reversed(range(n // 2))]
    else:
        w = [Fraction(rng.choice([-3, -1, 1, 3]), 2) for _ in range(n)]
    arg = rng.choice([list, tuple, numpy.array])(w)
    ctx.key("compatible", tuple(w))
    got = phase_weights_compatible_symmetries(arg)
    ctx.check(list(arg) == w, f"weights {w}: the caller's weights were changed", key="mutation")
    ctx.check(all(isinstance(g, tuple) and len(g) == 2 and isinstance(g[0], str) and isinstance(g[1], bool) for g in got), f"weights {w}: malformed symmetries", key="form")
    exp = []
    for perm in itertools.permutations(range(n)):
        moved = [w[k] for k in perm]
        s = "".join(str(k + 1) for k in perm)
        if moved == w:
            exp.append((s, False))
        elif moved == [-x for x in w]:
            exp.append((s, True))
    ctx.check(len(got) == len(set(got)), f"weights {w}: repeated symmetries", key="repeat")
    ctx.check(set(got) == set(exp), f"weights {w}: {len(got)} symmetries, {len(exp)} preserve or flip the weights", key="set", diff=sorted(set(got) ^ set(exp))[:5])
    ctx.check(identity(n) in got, f"weights {w}: no identity", key="identity")
    S = set(got)
    zero = all(x == 0 for x in w)
    for g in (got if len(got) <= 200 else rng.sample(got, 200)):
        ctx.check(inverse(g) in S, f"weights {w}: inverse of {g} is missing", key="closed")
        h = rng.choice(got)
        gh = (comp(g[0], h[0]), g[1] != h[1])
        ctx.check(gh in S or (zero and (gh[0], False) in S), f"weights {w}: {g} composed with {h} is missing", key="closed")
    if zero:
        ctx.check(set(all_symmetries(n)) == S and len(all_symmetries(n)) == len(S), f"all symmetries of {n} legs", key="all")
    ctx.obs("weight vectors")
    ctx.obs("symmetries with parity", sum(1 for g in got if g[1]))
    ctx.obs("symmetries without parity", sum(1 for g in got if not g[1]))
    # the caller may change the list
    got.clear()
    ctx.check(set(phase_weights_compatible_symmetries(arg)) == set(exp), f"weights {w}: second call differs", key="twice")


def case_inverse(ctx):
    rng = ctx.rng
    if ctx.index == 0:
        full = all_symmetries(8)
        ctx.check(len(full) == len(set(full)) == 40320 and set(full) == {("".join(q), False) for q in itertools.permutations("12345678")}, "all symmetries of 8 legs", key="all")
        w = [rng.choice([-1, 1]) for _ in range(6)] + rng.choice([[2, -2], [0, 0], [3, 3]])
        rng.shuffle(w)
        exp = {("".join(str(k + 1) for k in q), False) for q in itertools.permutations(range(8)) if [w[k] for k in q] == w}
        exp |= {("".join(str(k + 1) for k in q), True) for q in itertools.permutations(range(8)) if [-w[k] for k in q] == w}
        got = phase_weights_compatible_symmetries(w)
        ctx.check(len(got) == len(exp) and set(got) == exp, f"weights {w}: symmetries", key="set")
    for _ in range(60):
        n = rng.randrange(1, 10)
        p = list(range(1, n + 1))
        rng.shuffle(p)
        s = "".join(map(str, p))
        ctx.key("inverse", s)
        i = inverse(s)
        e = "".join(map(str, range(1, n + 1)))
        ctx.check(isinstance(i, str) and sorted(i) == sorted(s), f"inverse({s}) = {i} is no permutation", key="form")
        ctx.check(comp(s, i) == e and comp(i, s) == e, f"{s} composed with its inverse {i} is not the identity", key="inverse")
        ctx.check(inverse(i) == s, f"the inverse of the inverse of {s} is {inverse(i)}", key="inverse")
        par = rng.random() < .5
        j = inverse((s, par))
        ctx.check(j == (i, par), f"inverse of {(s, par)} is {j}", key="inverse")
        ctx.check(identity(n) == (e, False), f"identity({n}) = {identity(n)}", key="identity")
        ctx.obs("inverses")
    for bad in (3, None, [1, 2], 2.5):
        ctx.raises(lambda: inverse(bad), f"inverse({bad!r}) does not raise", key="bad")


def case_action(ctx):
    """applied to points: a symmetry and its inverse undo each other"""
    rng = ctx.rng
    name = ("fp", "qp", "mpc", "fpi")[ctx.index % 4]
    n = rng.randrange(4, 10)
    ps = raw_point(ctx, n, name)
    p = list(range(1, n + 1))
    rng.shuffle(p)
    g = ("".join(map(str, p)), rng.random() < .5)
    ctx.key("action", name, g)
    a = ps.image(g).image(inverse(g))
    b = ps.image(inverse(g)).image(g)
    for q, w in ((a, "after"), (b, "before")):
        ctx.check(bool(q == ps), f"the inverse of {g} applied {w} it does not give the point back over {name}", key="action")
    ctx.check(bool(ps.image(identity(n)) == ps), "the identity moves the point", key="action")
    ctx.obs("round trips")


KINDS = [("compatible", case_compatible, 200, 3000), ("inverse", case_inverse, 40, 400), ("action", case_action, 80, 1500)]
