import contextlib
import copy
import io
from gen import *
from core import Skip, Violation
import monitors as Mo
import refstr
from lips.invariants import Invariants

ID = "C12"
RULE = ("a case is one starting point (harness-built, conserving or not), one invariant string and one value (tiny, O(1), complex, zero, p-adic of given valuation); after the library returns, the invariant, "
        "momentum conservation, masses and every representation of each leg are recomputed independently; if it raises, the case counts as refused, which is a violation only for the library's own list over the "
        "complex numbers; distinct = (string, field, value class)")
ASSUMPTIONS = ["over finite fields and p-adics a square root may leave the field: such points are counted but not judged", "starting points are generic (random)", "variety() accepts a value up to sign"]

LISTED = []


def prepare(tier, seed):
    for n in (4, 5, 6, 7):
        for s in Invariants(n, no_cached=True).full:
            LISTED.append((n, s))


def value(rng, name):
    """-> class, library value, reference value"""
    f = field(name)
    if name == "mpc":
        c = rng.choice(["tiny", "tiny", "tinier", "one", "complex", "zero", "big", "int", "negative"])
        v = dict(tiny=mpmath.mpf(10) ** -28, tinier=mpmath.mpf(10) ** -rng.randrange(30, 60), one=mpmath.mpf(rng.randrange(1, 100)) / 37, zero=0, big=mpmath.mpf(rng.randrange(10 ** 3, 10 ** 6)),
                 int=rng.randrange(1, 20), negative=-mpmath.mpf(10) ** -20, complex=mpmath.mpc(rng.random(), rng.random() - .5) * mpmath.mpf(10) ** -rng.randrange(0, 20))[c]
        return c, v, mpmath.mpc(v)
    if f.name == "finite field":
        c = rng.choice(["zero", "zero", "unit"])
        v = 0 if c == "zero" else f(rng.randrange(1, f.characteristic))
        return c, v, R.M(0, f.characteristic) if c == "zero" else R.lift(v)
    k = rng.choice([0, 1, 1, 2])
    v = f(f.characteristic ** k * rng.randrange(1, f.characteristic))
    return f"val{k}", v, R.lift(v)


def judge(ctx, ps, s, want, what, name, frozen_n, upto_sign=False):
    try:
        P = Point.of(ps)
    except Inconclusive:
        ctx.obs("reached in a field extension (not judged)")
        return
    ctx.check(len(ps) == frozen_n, f"{what}: number of legs changed")
    Mo.monitor_point(ctx, ps, what, digits=255)
    v = refstr.value(P, s)
    if isinstance(v, R.PA):
        if v.N < 1 + (want.v() if isinstance(want, R.PA) and want.v() < 10 ** 8 else 0):
            raise Skip("p-adic precision exhausted")
    ctx.obs("limits reached and judged")
    sc = P.scale() ** 4 if name == "mpc" else 1
    if upto_sign and isinstance(want, mpmath.mpc) and abs(v + want) < abs(v - want):
        want = -want
    ctx.eq(v, Mo.unl(want, field(name)), f"{what}: value of the invariant", key="value", scale=sc)
    if isinstance(want, mpmath.mpc):
        ctx.check(abs(v - want) <= mpmath.mpf(10) ** -200 * (1 + sc), f"{what}: value of the invariant", key="value", got=v, want=want)
    for i in range(1, len(ps) + 1):
        Mo.monitor_leg(ctx, ps[i], field(name), f"{what}, leg {i}")


def run(ctx, ps, s, v, want, name, must, how, mode=1):
    n = len(ps)
    what = f"{how} {s} = {want} over {name}, n={n}"[:300]
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            if how == "variety":
                ps.variety((s, ), (v, ), try_singular_variety_solver=False)
            elif mode == 1:
                ps._set(s, v)
            else:
                ps._set(s, v, True, mode)
    except Exception as e:
        ctx.obs("limits refused with an error")
        if must:
            raise Violation(f"{what}: a listed invariant could not be set: {type(e).__name__} {str(e)[:200]}", "unreachable")
        ctx.check(True, "refused")
        return
    judge(ctx, ps, s, want, what, name, n, upto_sign=(how == "variety"))


def case_listed(ctx):
    n, s = LISTED[ctx.index % len(LISTED)]
    c, v, want = value(ctx.rng, "mpc")
    how = ctx.rng.choice(["_set", "_set", "variety"])
    must = True
    if c == "big":
        must = False
    ps = cons_point(ctx, n, "mpc") if ctx.rng.random() < .6 else (Particles(n, seed=ctx.rng.randrange(10 ** 9)) if ctx.rng.random() < .6 else raw_point(ctx, n, "mpc"))
    ctx.key(s, n, "mpc", c, how)
    run(ctx, ps, s, v, want, "mpc", must, how)


def case_listed_field(ctx):
    rng = ctx.rng
    n, s = LISTED[rng.randrange(len(LISTED))]
    name = ("fp", "fpi", "fps", "qp", "qpi", "qps")[ctx.index % 6]
    c, v, want = value(rng, name)
    ctx.key(s, n, name, c)
    ps = any_point(ctx, n, name)
    run(ctx, ps, s, v, want, name, False, "_set")


def rnd_string(rng, n):
    fam = rng.choice(["A2", "S2", "NB", "NB", "NB", "NB", "s", "D", "Dg", "O", "P", "tr5", "5B", "diff"])
    d = min(n, 9)
    if fam == "A2":
        i, j = rng.sample(range(1, n + 1), 2)
        return f"⟨{i}|{j}⟩"
    if fam == "S2":
        i, j = rng.sample(range(1, n + 1), 2)
        return f"[{i}|{j}]"
    if fam == "NB":
        k = rng.choice([1, 1, 2, 2, 3, 4])
        a, b = rng.randrange(1, d + 1), rng.randrange(1, d + 1)
        if rng.random() < .3:
            b = a
        o = rng.choice("⟨[")
        c = {("⟨", 1): "]", ("⟨", 0): "⟩", ("[", 1): "⟩", ("[", 0): "]"}[(o, k % 2)]
        mids = [sorted(rng.sample(range(1, d + 1), rng.randrange(2, 4))) for _ in range(k)]
        return f"{o}{a}|" + "|".join("(" + "+".join(map(str, m)) + ")" for m in mids) + f"|{b}{c}"
    if fam == "s":
        return "s_" + "".join(map(str, sorted(rng.sample(range(1, d + 1), rng.randrange(2, min(5, d) + 1)))))
    if fam == "D":
        return "Δ_" + "".join(map(str, sorted(rng.sample(range(1, d + 1), 3))))
    if fam == "Dg":
        legs = rng.sample(range(1, n + 1), n)
        a, b = sorted(rng.sample(range(1, n), 2))
        return "Δ_" + "|".join("".join(map(str, q)) for q in (legs[:a], legs[a:b], legs[b:]))
    if fam in ("O", "P"):
        st = sorted(rng.sample(range(1, d + 1), 3))
        r = rng.randrange(3)
        st = st[r:] + st[:r]
        if fam == "P" and len(refstr.nol(st, n)[0]) < 2:
            return "s_123"
        return ("Ω_" if fam == "O" else "Π_") + "".join(map(str, st))
    if fam == "tr5":
        return "tr5_" + "".join(map(str, rng.sample(range(1, d + 1), 4)))
    if n >= 6:
        a, b, c, e, f, g = rng.sample(range(1, 7), 6)
        return f"(⟨{a}|{b}|{c}+{e}|{f}|{a}]-⟨{b}|{g}|{c}+{e}|{f}|{b}])"
    return "⟨1|(2+3)|4]"


def case_arbitrary(ctx):
    rng = ctx.rng
    n = rng.choice([4, 5, 6, 7, 8, 9])
    name = rng.choice(["mpc", "mpc", "fp", "fpi", "qp", "qps"])
    s = rnd_string(rng, n)
    c, v, want = value(rng, name)
    ctx.key(s, n, name, c)
    ps = any_point(ctx, n, name)
    run(ctx, ps, s, v, want, name, False, rng.choice(["_set", "_set", "variety"] if name == "mpc" else ["_set"]), mode=rng.choice([1, 1, 1, 2]))


def case_reset(ctx):
    """several invariants set one after the other on the same point: each request is met when it returns"""
    rng = ctx.rng
    n = rng.choice([5, 6, 7])
    name = rng.choice(["mpc", "fp", "qp"])
    ps = any_point(ctx, n, name)
    pool = [s for m, s in LISTED if m == n]
    for _ in range(4):
        s = rng.choice(pool)
        c, v, want = value(rng, name)
        if c == "zero" or name == "fp":
            c, v, want = "unit", scalar(rng, name), None
            want = R.lift(v)
        ctx.key("seq", s, n, name, c)
        try:
            P = Point.of(ps)
        except Inconclusive:
            return
        run(ctx, ps, s, v, want, name, False, "_set")


def spoiled_point(ctx, n, name):
    """a point that does not conserve momentum, or has one massive leg, or both"""
    rng = ctx.rng
    how = rng.choice(["unbalanced", "massive", "both"])
    f = field(name)
    ps = raw_point(ctx, n, name) if how != "massive" else cons_point(ctx, n, name)
    if how != "unbalanced":
        legs = list(list.__iter__(ps))
        i, j = rng.sample(range(n), 2)
        m = numpy.empty((2, 2), dtype=object)
        for a in range(2):
            for b in range(2):
                m[a, b] = scalar(rng, name)
        Pi, Pj = legs[i].r2_sp, legs[j].r2_sp
        legs[i] = Particle(kinematics=m, field=f)
        if how == "massive":
            legs[j] = Particle(kinematics=Pi + Pj - m, field=f)
        ps = Particles(legs, field=f, fix_mom_cons=False)
    return how, ps


def judge_spoiled(ctx, ps, reqs, what, n):
    """nothing may be handed back as done that is not a massless, conserving point with the requested values (up to sign)"""
    P = Point.of(ps, set(range(1, n + 1)))
    s = P.scale()
    for r in P.total():
        for x in r:
            ctx.check(R.is_zero(x, s, 250), f"{what}: returned without momentum conservation", key="spoiled", total=x)
    for k, L in enumerate(P.legs):
        ctx.check(R.is_zero(R.det2(L.P), s * s, 250), f"{what}: returned with massive leg {k + 1}", key="spoiled", m2=R.det2(L.P))
    try:
        P = Point.of(ps)
    except Inconclusive:
        return
    for t, want in reqs:
        v = refstr.value(P, t)
        ctx.check(any(R.close(w, Mo.unl(want, ps.field), s ** 4 if isinstance(want, mpmath.mpc) else 1) for w in (v, -v)), f"{what}: value of {t}", key="value", got=v, want=want)


def case_spoiled(ctx):
    """requests whose value the point already has, from points that are no phase-space points"""
    rng = ctx.rng
    n = rng.choice([4, 4, 5, 6, 7, 8])
    name = rng.choice(["mpc", "mpc", "fp", "qp"])
    how, ps = spoiled_point(ctx, n, name)
    for _ in range(3):
        s = "s_" + "".join(map(str, sorted(rng.sample(range(1, n + 1), 2)))) if rng.random() < .7 else rnd_string(rng, n)
        qs = copy.deepcopy(ps)
        try:
            v = qs(s)
            want = R.lift(v)
        except Exception:
            continue
        ctx.key("spoiled", s, n, name, how)
        what = f"{s} at its present value over {name}, n={n}, from a point that is {how}"
        via = rng.choice(["_set", "_set", "variety"] if name == "mpc" else ["_set"])
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                qs.variety((s, ), (v, ), try_singular_variety_solver=False) if via == "variety" else qs._set(s, v)
        except Exception:
            ctx.obs("requests from spoiled points refused")
            ctx.check(True, "refused")
            continue
        ctx.obs("requests from spoiled points judged")
        judge_spoiled(ctx, qs, [(s, want)], what, n)


KINDS = [("spoiled", case_spoiled, 150, 3000), ("listed", case_listed, lambda: len(LISTED), lambda: 12 * len(LISTED)), ("listed_field", case_listed_field, 900, 15000), ("arbitrary", case_arbitrary, 700, 15000), ("sequence", case_reset, 150, 3000)]
