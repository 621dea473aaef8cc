import re
import contextlib
import io
import types
from gen import *
from core import Skip, Violation
import monitors as Mo
import refstr
from checks import c13
from lips.invariants import Invariants

ID = "C14"
RULE = ("a case is one call of variety() with one to three invariants, a field and values or valuations, with or without the algebraic solver, on a conserving, non-conserving or previously modified point, with or without a fault "
        "injected into the first (built-in) attempt at a chosen call of a public operation; whenever variety() returns, every constraint, momentum conservation, masses and representations are recomputed independently; "
        "whenever it raises the case counts as refused; single spinor products and, over complex numbers, pairs with a built-in construction must succeed; distinct = (invariants, field, values, solver, fault)")
ASSUMPTIONS = ["points whose spinors left the base field are counted, not judged", "the external Singular binary is trusted as the environment"]
CPU_LIMIT = 600
WALL_LIMIT = 240
TIMEOUT_IS_SKIP = True
POOL = {}


class Injected(Exception):
    pass


def prepare(tier, seed):
    for n in (4, 5, 6, 7):
        POOL[n] = [s for s in Invariants(n, no_cached=True).full]
    c13.prepare(tier, seed)


def quiet(fn):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn()


def values(rng, name, k):
    f = field(name)
    if name == "mpc":
        return tuple(rng.choice([mpmath.mpf(10) ** -rng.randrange(10, 60), mpmath.mpf(10) ** -28, mpmath.mpc(1, 2) * mpmath.mpf(10) ** -rng.randrange(5, 40)]) for _ in range(k))
    if f.name == "finite field":
        return (0, ) * k
    return tuple(rng.randrange(1, f.digits - 1) for _ in range(k))


def judge(ctx, ps, inv, vals, name, what, n):
    f = field(name)
    try:
        P = Point.of(ps)
    except Inconclusive:
        ctx.obs("reached in a field extension (not judged)")
        return
    ctx.check(len(ps) == n, f"{what}: number of legs changed")
    Mo.monitor_point(ctx, ps, what, digits=200 if name == "mpc" else None)
    for s, w in zip(inv, vals):
        v = refstr.value(P, s)
        if name == "mpc":
            sc = P.scale() ** 4
            ctx.check(min(abs(v - w), abs(v + w)) <= mpmath.mpf(10) ** -150 * (1 + sc), f"{what}: {s}", key="value", got=v, want=w)
        elif f.name == "finite field":
            ctx.check(R.is_zero(v), f"{what}: {s} does not vanish", key="value", got=v)
        else:
            if v.N <= w:
                raise Skip("precision exhausted")
            ctx.check(v.v() == w, f"{what}: {s} has valuation {v.v()}, wanted {w}", key="value", got=v)
    for i in range(1, n + 1):
        Mo.monitor_leg(ctx, ps[i], f, f"{what}, leg {i}")
    ctx.obs("constraint sets met and judged")


SP = lambda n: [f"{o}{i}|{j}{c}" for o, c in ("⟨⟩", "[]") for i in range(1, n + 1) for j in range(1, n + 1) if i != j]


def draw(rng, n, k):
    while True:
        inv = tuple(rng.choice(SP(n)) if rng.random() < .4 else rng.choice(POOL[n]) for _ in range(k))
        if len(set(inv)) == k:
            return inv


def any_start(ctx, n, name):
    rng = ctx.rng
    c = rng.random()
    if c < .2:
        return raw_point(ctx, n, name)
    if c < .5:
        return Particles(n, field=field(name), seed=rng.randrange(1, 10 ** 6))
    ps = cons_point(ctx, n, name)
    if c > .85:   # previously modified
        i = rng.randrange(1, n + 1)
        r, l = raw_spinors(rng, 1, name)[0]
        ps[i].r_sp_d = col(*r)
    return ps


def massive_start(ctx, ps, n, name, inv):
    """give one leg (not named by the constraints if possible) a mass, by hand"""
    rng = ctx.rng
    free = [i for i in range(1, n + 1) if str(i) not in "".join(inv)] or list(range(1, n + 1))
    i = rng.choice(free)
    P = ps[i].r2_sp + 0 * ps[i].r2_sp
    P[rng.randrange(2), rng.randrange(2)] += field(name)(rng.randrange(1, 50))
    ps[i].r2_sp = P


def go(ctx, ps, inv, vals, name, solver, n, what, must=False):
    try:
        r = quiet(lambda: ps.variety(inv, vals, try_singular_variety_solver=solver))
    except Exception as e:
        ctx.obs("refused: " + type(e).__name__)
        if must:
            raise Violation(f"{what}: a reachable limit was refused: {type(e).__name__} {str(e)[:200]}", "refused")
        ctx.check(True, "refused")
        return False
    judge(ctx, ps, inv, vals, name, what, n)
    return True


def case_builtin(ctx):
    rng = ctx.rng
    n = rng.choice([4, 5, 6, 6, 7])
    name = ("mpc", "fp", "fpi", "fps", "qp", "qpi", "qps")[ctx.index % 7]
    k = rng.choice([1, 1, 2, 2, 3])
    inv = draw(rng, n, k)
    vals = values(rng, name, k)
    ctx.key(n, name, inv, vals, "builtin")
    ps = any_start(ctx, n, name)
    if rng.random() < .25:
        massive_start(ctx, ps, n, name, inv)
        ctx.obs("starting points with a massive leg")
    go(ctx, ps, inv, vals, name, False, n, f"variety{inv} at {vals} over {name}, n={n}, built-in only"[:300])


def case_spinor_product(ctx):
    """the simplest request of all is always met"""
    rng = ctx.rng
    n = rng.choice([4, 5, 6, 7])
    name = ("mpc", "fp", "fpi", "fps", "qp", "qpi", "qps")[ctx.index % 7]
    inv = (rng.choice(SP(n)), )
    vals = values(rng, name, 1)
    ctx.key(n, name, inv, vals, "product")
    ps = cons_point(ctx, n, name)
    kw = rng.random() < .5
    go(ctx, ps, inv, vals, name, kw, n, f"variety{inv} at {vals} over {name}, n={n}"[:300], must=True)
    ctx.obs("spinor products set")


def case_pair(ctx):
    """pairs with a built-in construction are met without the solver, each at its own value"""
    rng = ctx.rng
    fams = list(c13.PAIRS)
    n, f, g = fams[ctx.index % len(fams)]
    while True:
        a, b = rng.choice(c13.PAIRS[n, f, g])
        if c13.nested(a, b, n) is None and c13.nested(b, a, n) is None:
            break
    if rng.random() < .5:
        a, b = b, a
    solver = rng.random() < .2
    for attempt in range(3):
        e = rng.randrange(5, 40), rng.randrange(5, 40)
        vals = tuple(mpmath.mpc(rng.randrange(1, 9), rng.randrange(-9, 9)) * mpmath.mpf(10) ** -x for x in e)
        ctx.key(n, a, b, solver, e, "pair")
        ps = cons_point(ctx, n, "mpc") if rng.random() < .5 else Particles(n, seed=rng.randrange(10 ** 9))
        if go(ctx, ps, (a, b), vals, "mpc", solver and not attempt, n, f"variety {a}, {b} at {vals}, n={n}"[:300], must=attempt == 2):
            break
    ctx.obs("pairs with a construction reached")


def case_solver(ctx):
    rng = ctx.rng
    n = rng.choice([4, 5, 5, 6])
    name = ("fp", "qp", "fpi", "qpi", "mpc", "qps")[ctx.index % 6]
    if name == "mpc":
        n = max(n, 5)
    k = rng.choice([1, 2, 2, 3]) if name != "mpc" else rng.choice([1, 2])
    inv = draw(rng, n, k)
    vals = values(rng, name, k)
    ctx.key(n, name, inv, vals, "solver")
    ps = any_start(ctx, n, name)
    trio = name != "mpc" and rng.random() < .4     # three parallel spinors: no built-in construction, left to the solver
    if trio:
        i = rng.sample(range(1, n + 1), 3)
        o, c = rng.choice(["⟨⟩", "[]"])
        inv = tuple(f"{o}{a}|{b}{c}" for a, b in itertools.combinations(i, 2))
        vals = values(rng, name, 3) if name[0] == "f" else (1, 1, 1)
    must = (len(inv) == 1 or trio) and n >= 5
    if not go(ctx, ps, inv, vals, name, True, n, f"variety{inv} at {vals} over {name}, n={n}, with solver"[:300], must=must):
        ctx.obs("refused although the solver was allowed")


def case_many(ctx):
    """three to five spinor products at once, with different valuations: only the solver can do it, and it may be refused"""
    rng = ctx.rng
    n = rng.choice([5, 6, 6, 7])
    name = ("fp", "qp", "qpi", "fpi", "qps", "fps")[ctx.index % 6]
    f = field(name)
    k = rng.choice([3, 3, 4, 4, 5])
    if rng.random() < .6:
        inv = tuple(rng.sample(SP(n), k))
    else:              # products of few spinors, whose values are related
        o, c = rng.choice(["⟨⟩", "[]"])
        legs = rng.sample(range(1, n + 1), 4)
        inv = tuple(f"{o}{a}|{b}{c}" for a, b in rng.sample(list(itertools.combinations(legs, 2)), k))
    if len({x[0] + "".join(sorted(re.findall(r"\d", x))) for x in inv}) < k:
        raise Skip("the same product twice")
    vals = (0, ) * k if f.name == "finite field" else tuple(rng.choice([1, 1, 2, 2, 3][:max(1, 2 * f.digits - 4)]) for _ in range(k))
    ctx.key(n, name, inv, vals, "many")
    ps = any_start(ctx, n, name)
    if go(ctx, ps, inv, vals, name, True, n, f"variety{inv} at {vals} over {name}, n={n}, with solver"[:300]):
        ctx.obs("three or more constraints met")
    else:
        ctx.obs("three or more constraints refused")


def case_fault(ctx):
    """the built-in attempt dies part way (the k-th use of a public operation raises); the solver must start from the caller's point and the result still be right"""
    rng = ctx.rng
    n = rng.choice([4, 5, 5, 6])
    name = ("fp", "qp", "fpi", "mpc")[ctx.index % 4]
    if name == "mpc":
        n = 5
    k = rng.choice([1, 2])
    inv = tuple(rng.sample(SP(n), k)) if rng.random() < .6 else draw(rng, n, k)
    vals = values(rng, name, k)
    where = rng.choice(["fix_mom_cons", "compute", "momentum_conservation_check", "onshell_relation_check"])
    at = rng.choice([1, 1, 1, 2])
    late = rng.random() < .5
    ctx.key(n, name, inv, vals, "fault", where, at, late)
    ps = cons_point(ctx, n, name)
    before = Point.of(ps)
    count = [0]
    seen = []
    orig = getattr(type(ps), where)
    osolve = type(ps)._singular_variety

    def faulty(self, *a, **k_):
        count[0] += 1
        if count[0] == at and self is ps and not seen:
            if late:
                orig(self, *a, **k_)
            raise Injected(f"fault injected in {where}, use {at}")
        return orig(self, *a, **k_)

    def solve(self, *a, **k_):
        # the stage boundary: what the solver is handed
        P = None
        try:
            P = Point.of(self)
        except Inconclusive:
            pass
        seen.append((P, a))
        return osolve(self, *a, **k_)

    T = type("Instrumented", (type(ps), ), {where: faulty, "_singular_variety": solve})
    ps.__class__ = T
    what = f"variety{inv} at {vals} over {name}, n={n}, fault in {where} ({'after' if late else 'before'}, use {at})"[:300]
    try:
        quiet(lambda: ps.variety(inv, vals))
    except Injected:
        ctx.check(True, "raised")
        ctx.obs("injected fault propagated")
        return
    except Exception as e:
        ctx.obs("refused: " + type(e).__name__)
        if k == 1 and n >= 5 and count[0] >= at:     # the first attempt failed, what is left to the solver is reachable
            raise Violation(f"{what}: the solver did not take over: {type(e).__name__} {str(e)[:200]}", "refused")
        ctx.check(True, "raised")
        return
    finally:
        ps.__class__ = T.__mro__[1]
    if count[0] >= at:
        ctx.obs("faults injected")
    judge(ctx, ps, inv, vals, name, what, n)
    if seen:
        ctx.obs("solver entered after a failed attempt")
        P = seen[0][0]
        ctx.check(P is not None, f"{what}: the solver was handed a broken point")
        for i in range(n):
            for x, y in zip(P.legs[i].r + P.legs[i].l, before.legs[i].r + before.legs[i].l):
                ctx.check(x == y, f"{what}: the solver was not started from the caller's point (leg {i + 1})", key="restore", got=x, want=y)


def case_identity(ctx):
    """requests that cannot be met: raise, never return"""
    rng = ctx.rng
    n = rng.choice([4, 5, 6])
    name = ("mpc", "fp", "qp", "fpi")[ctx.index % 4]
    c = rng.choice(["mismatch", "impossible", "garbage", "unset"])
    ctx.key(n, name, c)
    ps = cons_point(ctx, n, name)
    what = f"variety over {name}, n={n}: {c}"
    if c == "mismatch":
        ctx.raises(lambda: quiet(lambda: ps.variety(("⟨1|2⟩", "⟨3|4⟩"), values(rng, name, 1))), what)
    elif c == "impossible":
        # by momentum conservation the same quantity twice, at different values
        if name == "mpc":
            inv, vals = ("⟨1|2⟩", "⟨2|1⟩"), (mpmath.mpf(10) ** -20, mpmath.mpf(10) ** -10)
        elif name == "qp":
            inv, vals = ("⟨1|2⟩", "⟨2|1⟩"), (1, 2)
        else:
            inv, vals = ("⟨1|2⟩", "1+0*⟨1|2⟩"), (0, 0)
        ctx.raises(lambda: quiet(lambda: ps.variety(inv, vals, try_singular_variety_solver=False)), what)
    elif c == "garbage":
        ctx.raises(lambda: quiet(lambda: ps.variety(("foo", ), values(rng, name, 1), try_singular_variety_solver=False)), what)
    else:
        # an expression without a built-in construction
        vals = values(rng, name, 1)
        ctx.raises(lambda: quiet(lambda: ps.variety(("⟨1|2⟩-⟨3|4⟩", ), vals, try_singular_variety_solver=False)), what)
    ctx.obs("impossible requests")


KINDS = [("builtin", case_builtin, 420, 8000), ("pair", case_pair, 17 * 12, 17 * 300), ("spinor_product", case_spinor_product, 140, 2000), ("solver", case_solver, 60, 1200), ("many", case_many, 72, 1500), ("fault", case_fault, 60, 900), ("impossible", case_identity, 60, 400)]
