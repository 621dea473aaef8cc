import contextlib
import io
from gen import *
from core import Skip, Violation
import monitors as Mo
import refstr
from lips.invariants import Invariants

ID = "C15"
RULE = ("a case is one call of the algebraic solver (as a method on a harness-built point, or as constructor) for a random set of listed invariants, a field and requested valuations; the resulting point is re-evaluated "
        "independently: momentum conservation and masses to the full precision, and each invariant's value; a refusal (exception) is counted and not judged except for a single spinor product; distinct = (invariants, field, valuations)")
ASSUMPTIONS = ["two invariants whose variety is reducible may come out with a higher valuation than asked (they are not independent on every branch): for them at least the requested valuation is required, exactly the "
               "requested one for a single invariant and for spinor products of disjoint legs", "the external Singular binary and the syngular package are trusted as the environment"]
CPU_LIMIT = 600
WALL_LIMIT = 240
TIMEOUT_IS_SKIP = True
POOL = {}


def prepare(tier, seed):
    for n in (4, 5, 6, 7):
        POOL[n] = [s for s in Invariants(n, no_cached=True).full if not s.startswith(("Ω", "Π")) and len(s) < 24]


def quiet(fn):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn()


def finish(ctx, ps, name, what, n):
    P = Point.of(ps)
    ctx.check(len(ps) == n, f"{what}: number of legs")
    Mo.monitor_point(ctx, ps, what, digits=100 if name == "mpc" else None)
    if field(name).name == "padic":
        for rrow in P.total():
            for x in rrow:
                ctx.check(x.N >= field(name).digits, f"{what}: momentum conservation known only to {x.N} digits", key="precision", total=x)
    for i in range(1, n + 1):
        Mo.monitor_leg(ctx, ps[i], field(name), f"{what}, leg {i}")
    return P


def generic(ctx, P, inv, n, name, what):
    """one vanishing spinor product at five or more points is a single irreducible surface: nothing else may degenerate with it"""
    if len(inv) != 1 or n < 5 or name == "fps" or name == "qps" or inv[0] not in [f"{o}{i}|{j}{c}" for o, c in ("⟨⟩", "[]") for i in range(1, n + 1) for j in range(1, n + 1)]:
        return
    for o, c in ("⟨⟩", "[]"):
        for i in range(1, n + 1):
            for j in range(i + 1, n + 1):
                t = f"{o}{i}|{j}{c}"
                if t == inv[0]:
                    continue
                v = refstr.value(P, t)
                bad = abs(v) < mpmath.mpf(10) ** -9 if name == "mpc" else (v.v() != 0 if isinstance(v, R.PA) else R.is_zero(v))
                ctx.check(not bad, f"{what}: {t} degenerates as well", key="degenerate", got=v)
    ctx.obs("genericity of the other spinor products examined")


def draw(rng, n, k):
    while True:
        inv = tuple(rng.sample(POOL[n], k))
        # spinor products dominate real use
        if rng.random() < .5:
            inv = tuple(s if len(s) < 6 or rng.random() < .5 else rng.choice(POOL[n][:2 * n]) for s in inv)
        if len(set(inv)) == k:
            return inv


def case_ff(ctx):
    rng = ctx.rng
    n = rng.choice([4, 5, 5, 6])
    name = ("fp", "fpi", "fps")[ctx.index % 3]
    inv = draw(rng, n, rng.choice([1, 1, 2, 3]))
    ctx.key(n, name, inv)
    what = f"solver {inv} over {name}, n={n}"
    cons = rng.random() < .4
    try:
        if cons:
            ps = quiet(lambda: Particles.from_singular_variety(n, field(name), inv, seed=rng.randrange(1, 10 ** 6)))
        else:
            ps = cons_point(ctx, n, name)
            quiet(lambda: ps._singular_variety(inv, (1, ) * len(inv), seed=rng.choice([None, rng.randrange(1, 10 ** 6)])))
    except Exception as e:
        ctx.obs("refused: " + type(e).__name__)
        raise Skip(f"refused: {type(e).__name__} {str(e)[:60]}")
    P = finish(ctx, ps, name, what, n)
    for s in inv:
        v = refstr.value(P, s)
        ctx.check(R.is_zero(v), f"{what}: {s} does not vanish", key="value", got=v)
    generic(ctx, P, inv, n, name, what)
    ctx.obs("points on varieties, finite field")


def case_padic(ctx):
    rng = ctx.rng
    n = rng.choice([5, 5, 6])
    name = ("qp", "qpi", "qps")[ctx.index % 3]
    k = rng.choice([1, 1, 2])
    inv = draw(rng, n, k)
    if n == 6 and rng.random() < .4:
        k = 2
        a, b, c, d = rng.sample(range(1, 7), 4)
        inv = (f"⟨{a}|{b}⟩", rng.choice([f"⟨{c}|{d}⟩", f"[{c}|{d}]"]))
    D = field(name).digits
    vals = tuple(rng.randrange(1, D - 1) for _ in inv)
    ctx.key(n, name, inv, vals)
    what = f"solver {inv} at valuations {vals} over {name}, n={n}"
    try:
        if rng.random() < .4:
            ps = quiet(lambda: Particles.from_singular_variety(n, field(name), inv, vals, seed=rng.randrange(1, 10 ** 6)))
        else:
            ps = cons_point(ctx, n, name)
            quiet(lambda: ps._singular_variety(inv, vals, seed=rng.choice([None, rng.randrange(1, 10 ** 6)])))
    except Exception as e:
        ctx.obs("refused: " + type(e).__name__)
        raise Skip(f"refused: {type(e).__name__} {str(e)[:60]}")
    P = finish(ctx, ps, name, what, n)
    for s, w in zip(inv, vals):
        v = refstr.value(P, s)
        if v.N <= w:
            raise Skip("precision exhausted")
        exact = k == 1 or (n >= 6 and all(len(t) == 5 for t in inv) and not set(inv[0][1::2]) & set(inv[1][1::2]))
        ctx.check(v.v() == w if exact else v.v() >= w, f"{what}: {s} has valuation {v.v()}", key="value", got=v)
    generic(ctx, P, inv, n, name, what)
    ctx.obs("points near varieties, p-adic")


def case_mpc(ctx):
    rng = ctx.rng
    n = rng.choice([5, 5, 6])
    k = rng.choice([1, 1, 2])
    inv = draw(rng, n, k)
    vals = tuple(mpmath.mpf(10) ** -rng.randrange(10, 60) for _ in inv)
    ctx.key(n, "mpc", inv, vals)
    what = f"solver {inv} at {[mpmath.nstr(v, 3) for v in vals]} over C, n={n}"
    ps = Particles(n, seed=rng.randrange(10 ** 6)) if rng.random() < .5 else cons_point(ctx, n, "mpc")
    try:
        quiet(lambda: ps._singular_variety(inv, vals, seed=rng.choice([None, rng.randrange(1, 10 ** 6)])))
    except Exception as e:
        ctx.obs("refused: " + type(e).__name__)
        raise Skip(f"refused: {type(e).__name__} {str(e)[:60]}")
    P = finish(ctx, ps, "mpc", what, n)
    for s, w in zip(inv, vals):
        v = refstr.value(P, s)
        ctx.check(abs(abs(v) - w) <= w * mpmath.mpf(10) ** -30, f"{what}: {s} has magnitude {mpmath.nstr(abs(v), 5)}", key="value", got=v)
    generic(ctx, P, inv, n, "mpc", what)
    ctx.obs("points near varieties, complex")


def case_branch(ctx):
    """a chosen irreducible component, given through its generators"""
    rng = ctx.rng
    comps = [(5, ("⟨1|2⟩", "⟨1|3⟩"), ("⟨1|2⟩", "⟨1|3⟩", "⟨2|3⟩", "[4|5]")), (5, ("⟨1|2⟩", "[1|2]"), ("⟨1|2⟩", "[1|2]")), (6, ("⟨1|2⟩", "⟨1|3⟩"), ("⟨1|2⟩", "⟨1|3⟩", "⟨2|3⟩")),
             (5, ("⟨2|3⟩", "⟨3|4⟩"), ("⟨2|3⟩", "⟨3|4⟩", "⟨2|4⟩", "[1|5]"))]
    n, inv, gens = comps[ctx.index % len(comps)]
    name = ("fp", "qp", "qpi", "fps")[(ctx.index // len(comps)) % 4]
    D = field(name).digits
    vals = (1, ) * len(inv)
    ctx.key(n, name, inv, gens)
    what = f"solver on component {gens} over {name}, n={n}"
    s_ = rng.randrange(1, 10 ** 6)
    try:
        ps = quiet(lambda: Particles.from_singular_variety(n, field(name), inv, vals, generators=gens, seed=s_))
    except Exception as e:
        raise Skip(f"refused: {type(e).__name__} {str(e)[:60]}")
    P = finish(ctx, ps, name, what, n)
    for s in gens:
        v = refstr.value(P, s)
        if field(name).name == "padic":
            ctx.check(v.v() >= 1, f"{what}: generator {s} has valuation {v.v()}", got=v)
        else:
            ctx.check(R.is_zero(v), f"{what}: generator {s} does not vanish", got=v)
    for s in inv:
        if field(name).name == "padic":
            v = refstr.value(P, s)
            ctx.check(v.v() == 1, f"{what}: {s} has valuation {v.v()}", got=v)
    ctx.obs("points on chosen components")


def case_seed(ctx):
    rng = ctx.rng
    n = 5
    name = ("fp", "qp", "fpi", "mpc")[ctx.index % 4]
    inv = draw(rng, n, 1)
    vals = (mpmath.mpf(10) ** -20, ) if name == "mpc" else (1, )
    s_ = rng.randrange(1, 10 ** 6)
    ctx.key(n, name, inv, "seed")
    pts = []
    for _ in range(2):
        try:
            pts.append(quiet(lambda: Particles.from_singular_variety(n, field(name), inv, vals, seed=s_)))
        except Exception as e:
            raise Skip(f"refused: {type(e).__name__}")
    P, Q = map(Point.of, pts)
    for i in range(n):
        for x, y in zip(P.legs[i].r + P.legs[i].l, Q.legs[i].r + Q.legs[i].l):
            ctx.check(x == y, f"solver {inv} over {name}: same seed, different point", got=(x, y))
    for s, w in zip(inv, vals):
        v = refstr.value(P, s)
        ok = abs(abs(v) - w) <= w * mpmath.mpf(10) ** -30 if name == "mpc" else (v.v() == 1 if isinstance(v, R.PA) else R.is_zero(v))
        ctx.check(ok, f"solver {inv} over {name}: value", got=v)
    ctx.obs("repeated solver calls compared")


KINDS = [("finite_field", case_ff, 60, 1200), ("padic", case_padic, 60, 1200), ("mpc", case_mpc, 24, 400, 3), ("component", case_branch, 16, 160), ("same_seed", case_seed, 16, 160)]
