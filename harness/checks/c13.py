import contextlib
import copy
import io
import json
import os
import re
from gen import *
from core import Skip, Violation
import monitors as Mo
import refstr
from checks.c12 import value, spoiled_point, judge_spoiled, rnd_string
from lips.invariants import Invariants

ID = "C13"
RULE = ("a case is one starting point, an ordered pair of listed invariants and two independently drawn values; after the library returns, both invariants, momentum conservation, masses and every representation of "
        "each leg are recomputed independently; if it raises, the pair counts as refused, which is a violation only for pairs with a built-in construction (complex numbers, generic values, three fresh starts); "
        "distinct = (pair, field, value classes)")
ASSUMPTIONS = ["over finite fields and p-adics a square root may leave the field: such points are counted but not judged", "starting points are generic (random)",
               "pairs known to have no built-in construction at five and six points: harness/data/unreachable_pairs.json (computed once from the reviewed tree; 473 of about 17000)"]

FAMS = [(5, "invs_2", "invs_2"), (5, "invs_2", "invs_N"), (5, "invs_3", "invs_3"), (6, "invs_2", "invs_2"), (6, "invs_2", "invs_N"), (6, "invs_2", "invs_s"), (6, "invs_2", "invs_D"), (6, "invs_3", "invs_3"),
        (6, "invs_3", "invs_s"), (6, "invs_3", "invs_D"), (6, "invs_s", "invs_s"), (6, "invs_s", "invs_D"),
        (7, "invs_2", "invs_2"), (7, "invs_2", "invs_3"), (7, "invs_2", "invs_s"), (7, "invs_2", "invs_D"), (7, "invs_s", "invs_s")]
PAIRS = {}
ALLINV = {}


def prepare(tier, seed):
    bad = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "unreachable_pairs.json")))
    bad = {(int(n), a, b) for n, l in bad.items() for a, b in l}
    inv = {n: Invariants(n, no_cached=True) for n in (5, 6, 7)}
    for n in inv:
        ALLINV[n] = list(inv[n].full)
    for n, f, g in FAMS:
        PAIRS[n, f, g] = [(a, b) for a in getattr(inv[n], f) for b in getattr(inv[n], g) if a != b and (n, a, b) not in bad]


def nested(a, b, n):
    """s_ijk and ⟨i|(j+k)|i]: the library realises the chain through ⟨j|k⟩. Returns (string of the spinor product) or None."""
    m, q = re.fullmatch(r"s_(\d+)", a), re.fullmatch(r"⟨(\d)\|\((\d)\+(\d)\)\|(\d)\]", b)
    if not m or not q or q[1] != q[4]:
        return None
    S, T = set(m[1]), {q[1], q[2], q[3]}
    if T == S or T == set(map(str, range(1, n + 1))) - S:
        return f"⟨{q[2]}|{q[3]}⟩"
    return None


def judge(ctx, ps, a, wa, b, wb, what, name, n):
    try:
        P = Point.of(ps)
    except Inconclusive:
        ctx.obs("reached in a field extension (not judged)")
        return
    ctx.check(len(ps) == n, f"{what}: number of legs changed")
    Mo.monitor_point(ctx, ps, what, digits=250)
    ctx.obs("pair limits reached and judged")
    todo = [(a, wa), (b, wb)]
    for x, y in ((a, b), (b, a)):
        sp = nested(x, y, n)
        if sp is not None:
            ctx.obs("nested Mandelstam and chain, judged through the spinor product")
            todo = [(x, wa if x == a else wb), (sp, wa if y == a else wb)]
    for s, want in todo:
        v = refstr.value(P, s)
        if isinstance(v, R.PA) and v.N < 1 + (want.v() if want.v() < 10 ** 8 else 0):
            raise Skip("p-adic precision exhausted")
        sc = P.scale() ** 4 if name == "mpc" else 1
        if name == "mpc":
            d = min(abs(v - want), abs(v + want))
            ctx.check(d <= mpmath.mpf(10) ** -200 * (1 + sc), f"{what}: value of {s}", key="value", got=v, want=want)
        else:
            ok = R.close(v, Mo.unl(want, field(name)), 1) or R.close(-v, Mo.unl(want, field(name)), 1)
            ctx.check(ok, f"{what}: value of {s}", key="value", got=v, want=want)
    for i in range(1, len(ps) + 1):
        Mo.monitor_leg(ctx, ps[i], field(name), f"{what}, leg {i}")


def start(ctx, n, name):
    rng = ctx.rng
    if name == "mpc" and rng.random() < .5:
        return Particles(n, seed=rng.randrange(10 ** 9))
    return cons_point(ctx, n, name) if rng.random() < .7 else raw_point(ctx, n, name)


def run(ctx, n, a, b, name, must, how="_set_pair"):
    rng = ctx.rng
    err = None
    for attempt in range(3 if must else 1):
        ca, va, wa = value(rng, name)
        cb, vb, wb = value(rng, name)
        if name == "mpc" and attempt:
            va, vb = mpmath.mpf(10) ** -28, mpmath.mpf(10) ** -27
            wa, wb = mpmath.mpc(va), mpmath.mpc(vb)
        what = f"{how} {a} = {wa}, {b} = {wb} over {name}, n={n}"[:300]
        ctx.key(a, b, n, name, ca, cb)
        ps = start(ctx, n, name)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                if how == "variety":
                    ps.variety((a, b), (va, vb), try_singular_variety_solver=False)
                else:
                    ps._set_pair(a, va, b, vb)
        except Exception as e:
            ctx.obs("pairs refused with an error")
            err = e
            if name == "mpc" and "big" in (ca, cb) and not attempt:
                ctx.obs("large values refused once (precision)")
            continue
        judge(ctx, ps, a, wa, b, wb, what, name, n)
        return
    if must:
        raise Violation(f"{how} {a}, {b}, n={n}: a pair with a built-in construction could not be set from three fresh points: {type(err).__name__} {str(err)[:200]}", "unreachable")
    ctx.check(True, "refused")


def case_generic(ctx):
    """must be reached at the first attempt whatever the two (different, non-degenerate) values are"""
    rng = ctx.rng
    fams = list(PAIRS)
    n, f, g = fams[ctx.index % len(fams)]
    a, b = rng.choice(PAIRS[n, f, g])
    if rng.random() < .5:
        a, b = b, a
    err = None
    for attempt in range(3):
        k = rng.choice([0, 1, 2, 3])
        def v():
            return mpmath.mpc(rng.randrange(1, 100), rng.randrange(-99, 100)) / rng.randrange(20, 90) * mpmath.mpf(10) ** -(k * rng.randrange(0, 13))
        va, vb = v(), v()
        ps = start(ctx, n, "mpc")
        what = f"_set_pair {a} = {va}, {b} = {vb}, n={n}"[:300]
        ctx.key(a, b, n, k)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                ps._set_pair(a, va, b, vb)
        except Exception as e:
            err = e
            continue
        judge(ctx, ps, a, va, b, vb, what, "mpc", n)
        return
    raise Violation(f"{a}, {b}, n={n}: a pair with a built-in construction could not be set to different generic values from three fresh points: {type(err).__name__} {str(err)[:200]}", "unreachable")


def case_family(ctx):
    fams = list(PAIRS)
    n, f, g = fams[ctx.index % len(fams)]
    a, b = ctx.rng.choice(PAIRS[n, f, g])
    run(ctx, n, a, b, "mpc", True)


def case_field(ctx):
    rng = ctx.rng
    fams = list(PAIRS)
    n, f, g = fams[ctx.index % len(fams)]
    a, b = rng.choice(PAIRS[n, f, g])
    if rng.random() < .5:
        a, b = b, a
    run(ctx, n, a, b, ("fp", "fpi", "fps", "qp", "qpi", "qps")[rng.randrange(6)], False)


def case_any(ctx):
    rng = ctx.rng
    n = rng.choice([5, 6, 6, 7, 7])
    a, b = rng.sample(ALLINV[n], 2)
    run(ctx, n, a, b, rng.choice(["mpc", "mpc", "fp", "qp"]), False, "variety" if False else "_set_pair")


SPECIAL = [("⟨7|3+4|5+6|7⟩", "[7|3+4|5+6|7]"), ("⟨1|3+4|5+6|1⟩", "Δ_735"), ("⟨2|1+7|3+4|2⟩", "Δ_735"), ("⟨7|3+4|5+6|7⟩", "Δ_735"), ("⟨7|1+2|5+6|7⟩", "Δ_12|347|56"),
           ("[7|1+2|5+6|7]", "Δ_12|347|56"), ("⟨3|5+6|1+2|3⟩", "Δ_12|347|56"), ("⟨7|3+4|5+6|7⟩", "Δ_135")]


def case_special(ctx):
    """the seven-leg pairs that have a construction of their own"""
    a, b = SPECIAL[ctx.index % len(SPECIAL)]
    if ctx.rng.random() < .3 and "Δ" in b:
        a, b = b, a
    run(ctx, 7, a, b, "mpc", True)


def case_spoiled(ctx):
    """requests (some of them for what the point already has) from points that are no phase-space points"""
    rng = ctx.rng
    n = rng.choice([5, 6, 6, 7])
    name = rng.choice(["mpc", "mpc", "fp", "qp"])
    how, ps = spoiled_point(ctx, n, name) if rng.random() < .8 else ("sound", cons_point(ctx, n, name))
    for _ in range(3):
        nothing = ["tr5_1234", "Ω_135", "Π_135", "s_12", "s_34", "s_23"] if n == 6 else ["tr5_1234", "s_12", "s_34", "s_23"]
        a, b = rng.sample(nothing, 2)
        if rng.random() < .3:
            b = rnd_string(rng, n)
        if rng.random() < .3:
            a, b = b, a
        qs = copy.deepcopy(ps)
        try:
            va, vb = qs(a), qs(b)
            wa, wb = R.lift(va), R.lift(vb)
        except Exception:
            continue
        if rng.random() < .4:
            if rng.random() < .5:
                _, va, wa = value(rng, name)
            else:
                _, vb, wb = value(rng, name)
        ctx.key("spoiled", a, b, n, name, how)
        what = f"{a} and {b} over {name}, n={n}, from a point that is {how}"
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                qs._set_pair(a, va, b, vb)
        except Exception:
            ctx.obs("requests from spoiled points refused")
            ctx.check(True, "refused")
            continue
        ctx.obs("requests from spoiled points judged")
        judge_spoiled(ctx, qs, [(a, wa), (b, wb)] if not (nested(a, b, n) or nested(b, a, n)) else [], what, n)


KINDS = [("special", case_special, 40, 400), ("spoiled", case_spoiled, 120, 2400), ("generic", case_generic, 17 * 50, 17 * 1500), ("family", case_family, 17 * 20, 17 * 400), ("field", case_field, 500, 8000), ("any", case_any, 300, 6000)]
TIMEOUT_IS_SKIP = True
