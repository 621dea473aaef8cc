from gen import *
from monitors import monitor_leg
from core import Skip

ID = "C03"
RULE = ("a case is one random expression tree (sums, differences, negation, scaling, division, built-in sum, in-place forms) over 2-5 massless or massive legs in one field; "
        "result and every intermediate are compared with the same expression on momentum matrices; operands are frozen before and after; distinct = (field, expression)")
ASSUMPTIONS = []
NAMES = [x for x in ALL if x not in ("q", "qi")]


def legs(ctx, name, k):
    f = field(name)
    out = []
    for _ in range(k):
        if ctx.rng.random() < .3:
            m = numpy.empty((2, 2), dtype=object)
            for i in range(2):
                for j in range(2):
                    m[i, j] = scalar(ctx.rng, name)
            out.append((Particle(kinematics=m, field=f), False))
        else:
            r, l = raw_spinors(ctx.rng, 1, name)[0]
            out.append((particle(f, r, l), True))
    return out


def refP(o):
    m = R.lift_arr(o.r2_sp, (2, 2))
    return [m[:2], m[2:]]


def scal(P, c):
    return [[x * c for x in q] for q in P]


def case_expr(ctx):
    rng = ctx.rng
    name = NAMES[ctx.index % len(NAMES)]
    f = field(name)
    ops = legs(ctx, name, rng.randrange(2, 6))
    frozen = [freeze_leg(o) for o, _ in ops]
    pool = [(o, refP(o), m, f"p{k}") for k, (o, m) in enumerate(ops)]
    for step in range(rng.randrange(2, 6)):
        op = rng.choice(["add", "add", "sub", "sub", "neg", "mul", "rmul", "div", "sum", "zero", "iadd"])
        a, Pa, ma, sa = rng.choice(pool)
        b, Pb, mb, sb = rng.choice(pool)
        fa, fb = freeze_leg(a), freeze_leg(b)
        c = scalar(rng, name) if rng.random() < .5 else rng.choice([-3, -1, 1, 2, 5, 7])
        lc = R.lift(c)
        massless = False
        if op == "add":
            res, P, s = a + b, R.madd(Pa, Pb), f"({sa}+{sb})"
        elif op == "iadd":
            x = a
            x += b
            res, P, s = x, R.madd(Pa, Pb), f"({sa}+={sb})"
        elif op == "sub":
            res, P, s = a - b, R.madd(Pa, Pb, -1), f"({sa}-{sb})"
        elif op == "neg":
            res, P, s, massless = -a, scal(Pa, -1), f"(-{sa})", ma
        elif op == "mul":
            res, P, s, massless = a * c, scal(Pa, lc), f"({sa}*c)", ma
        elif op == "rmul":
            if isinstance(c, int):
                res, P, s, massless = c * a, scal(Pa, lc), f"(c*{sa})", ma
            else:
                res, P, s, massless = a * c, scal(Pa, lc), f"({sa}*c)", ma
        elif op == "div":
            if f.name == 'mpc':
                P = scal(Pa, mpmath.mpc(1) / lc)
            else:
                P = [[x / lc for x in q] for q in Pa]
            res, s, massless = a / c, f"({sa}/c)", ma
        elif op == "sum":
            k = rng.randrange(1, 4)
            sel = [rng.choice(pool) for _ in range(k)]
            P = [[0, 0], [0, 0]]
            for q in sel:
                P = R.madd(P, q[1])
            res, s = sum([q[0] for q in sel]), "sum(" + ",".join(q[3] for q in sel) + ")"
        else:
            res, P, s, massless = rng.choice([lambda: a + 0, lambda: 0 + a, lambda: a - 0])(), Pa, f"({sa}±0)", ma
        sc = max([1] + [abs(x) for q in P for x in q if isinstance(x, mpmath.mpc)])
        ctx.obs(f"op:{op}")
        ctx.check(isinstance(res, Particle), f"{s}: result is not a particle", got=type(res))
        ctx.check(str(res.field) == str(f), f"{s}: field changed", got=res.field)
        ctx.eqm(P, res.r2_sp, f"{s} over {name}: momentum", scale=sc, key=f"momentum:{op}")
        monitor_leg(ctx, res, f, f"{s} over {name}", spinors='maybe' if massless else 'free')
        ctx.check(freeze_leg(a) == fa and freeze_leg(b) == fb, f"{s}: operand changed", key="operand")
        ctx.check(res is not a and res is not b, f"{s}: the result is the operand itself", key="alias")
        # the result must not share state with the operand: assigning to it leaves the operand alone
        if rng.random() < .3 and res is not a:
            cc = res + 0 if op != "zero" else res
            m = numpy.empty((2, 2), dtype=object)
            for i in range(2):
                for j in range(2):
                    m[i, j] = scalar(rng, name)
            cc.r2_sp = m
            ctx.check(freeze_leg(a) == fa and freeze_leg(b) == fb, f"{s}: assigning to the result changed an operand", key="alias")
            if op == "zero":
                continue
        if len(s) < 60:
            pool.append((res, P, massless, s))
        ctx.key(name, s)
    ctx.check([freeze_leg(o) for o, _ in ops] == frozen, "an operand changed by the end of the expression", key="operand")


def case_equality(ctx):
    rng = ctx.rng
    name = rng.choice(list(ALL))
    f = field(name)
    r, l = raw_spinors(rng, 1, name)[0]
    a = particle(f, r, l)
    b = particle(f, list(r), list(l))
    ctx.key("eq", name, ctx.index)
    ctx.check(a == b and not (a != b), "identical legs are not equal", key="eq")
    ctx.check(hash(a) == hash(b), "identical legs hash differently", key="hash")
    if f.name in ('finite field', 'rational', 'gaussian rational'):
        t = scalar(rng, name)
        c = particle(f, [x * t for x in r], [x / t for x in l])
        ctx.check(a == c and c == a, "equal momenta (rescaled spinors) are not equal", key="eq")
    for k in range(4):
        r2, l2 = list(r), list(l)
        (r2 if k < 2 else l2)[k % 2] = (r2 if k < 2 else l2)[k % 2] + f(1)
        d = particle(f, r2, l2)
        ctx.check(not (a == d) and a != d, f"legs with different momenta are equal (component {k})", key="eq")
    if f.name == 'mpc':
        eps = mpmath.mpf(10) ** -rng.choice([3, 20, 100, 200, 280])
        k = rng.randrange(4)
        w = [list(r), list(l)]
        w[k // 2][k % 2] = w[k // 2][k % 2] * (1 + eps)
        ctx.check(not (a == particle(f, *w)), f"legs whose momenta differ by {mpmath.nstr(eps, 2)} are equal", key="eq")
        ctx.obs("nearly equal legs")
    for o in (0, None, "x", 1.5, [1]):
        ctx.check(not (a == o), "a leg equals something that is not a leg", other=o, key="eq")
    if name not in ("q", "qi"):
        ctx.check(a + a == a * 2 and (a - a) + a == a and -(-a) == a, "simple identities of particle arithmetic", key="identity") if f.name == 'finite field' else None
    ctx.obs("equalities examined")


KINDS = [("expr", case_expr, 1400, 20000), ("equality", case_equality, 200, 2000)]
