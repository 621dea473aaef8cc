from gen import *
from monitors import monitor_leg, monitor_point
from core import Skip
import random

ID = "C04"
RULE = ("a case builds a massless point (conserving or not), freezes every spinor, repairs conservation with legs A,B (or unspecified), axis and mode, and examines which components moved and "
        "the total momentum with reference arithmetic; distinct = (field, n, A, B, axis, real)")
ASSUMPTIONS = ["generic points: [A|B] and <A|B> non-zero"]


def parts(o):
    return freeze(o.r_sp_d), freeze(o.l_sp_d), freeze_leg(o)


def case_complex(ctx):
    rng = ctx.rng
    name = ALL[ctx.index % len(ALL)]
    f = field(name)
    n = rng.choice([3, 4, 5, 6, 7, 9, 12])
    ps = raw_point(ctx, n, name) if rng.random() < .8 else cons_point(ctx, n, name)
    conserved = Point.of(ps).conserves()
    repeat = rng.randrange(1, 4)
    for _ in range(repeat):
        A, B = rng.sample(range(1, n + 1), 2)
        axis = rng.choice([1, 2])
        P0 = Point.of(ps)
        if R.is_zero(P0.sq(A, B) if axis == 1 else P0.ang(A, B), P0.scale(), 200):
            ctx.obs("degenerate pair left out")
            continue
        before = [parts(o) for o in list.__iter__(ps)]
        style = rng.randrange(3)
        if style == 0 and axis == 1:
            ps.fix_mom_cons(A, B)
        elif style == 1:
            ps.fix_mom_cons(A, B, False, axis)
        else:
            ps.fix_mom_cons(A=A, B=B, axis=axis)
        ctx.key(name, n, A, B, axis)
        ctx.obs(f"axis {axis}")
        what = f"fix_mom_cons({A}, {B}, axis={axis}) over {name}, n={n}"
        after = [parts(o) for o in list.__iter__(ps)]
        for k in range(n):
            if k + 1 not in (A, B):
                ctx.check(before[k] == after[k], f"{what}: leg {k + 1} moved", key="others")
            else:
                keep = 1 if axis == 1 else 0
                ctx.check(before[k][keep] == after[k][keep], f"{what}: the {'square' if keep else 'angle'} spinor of leg {k + 1} moved", key="chirality")
        monitor_point(ctx, ps, what)
        for k in (A, B):
            monitor_leg(ctx, ps[k], f, f"{what}: leg {k}")
    if conserved:
        ctx.obs("started conserving")


def case_default(ctx):
    rng = ctx.rng
    name = rng.choice(ALL)
    n = rng.choice([3, 4, 5, 6, 8, 11])
    ps = raw_point(ctx, n, name)
    P0 = Point.of(ps)
    if any(R.is_zero(b, 1, 200) for i in range(1, n) for j in range(i + 1, n + 1) for b in (P0.sq(i, j), P0.ang(i, j))):
        raise Skip("degenerate draw")
    axis = rng.choice([1, 2])
    before = [parts(o) for o in list.__iter__(ps)]
    ps.fix_mom_cons(axis=axis)
    after = [parts(o) for o in list.__iter__(ps)]
    ch = [k for k in range(n) if before[k] != after[k]]
    ctx.key("default", name, n, axis, ctx.index)
    ctx.check(len(ch) == 2, "default repair moved a number of legs other than two", moved=ch)
    for k in ch:
        keep = 1 if axis == 1 else 0
        ctx.check(before[k][keep] == after[k][keep], "default repair moved the other chirality", key="chirality")
    monitor_point(ctx, ps, f"fix_mom_cons(axis={axis}) over {name}")


def case_conserving(ctx):
    """on a conserving point the repair is the identity on momenta"""
    rng = ctx.rng
    name = rng.choice([x for x in ALL])
    n = rng.choice([4, 5, 6, 8])
    ps = cons_point(ctx, n, name)
    P0 = Point.of(ps)
    A, B = rng.sample(range(1, n + 1), 2)
    axis = rng.choice([1, 2])
    if R.is_zero(P0.sq(A, B) if axis == 1 else P0.ang(A, B), P0.scale(), 200):
        raise Skip("degenerate pair")
    ps.fix_mom_cons(A, B, axis=axis)
    ctx.key("idem", name, n, A, B, axis)
    sc = P0.scale()
    for k in range(1, n + 1):
        ctx.eqm([[x] for x in P0[k].r], ps[k].r_sp_d, f"repairing a conserving point moved the angle spinor of leg {k}", scale=sc)
        ctx.eqm([list(P0[k].l)], ps[k].l_sp_d, f"repairing a conserving point moved the square spinor of leg {k}", scale=sc)
    monitor_point(ctx, ps, "repair of a conserving point")


def case_real(ctx):
    rng = ctx.rng
    n = rng.choice([4, 5, 6, 8, 11])
    ps = Particles(n, seed=rng.randrange(10 ** 6), real_momenta=True, fix_mom_cons=False)
    A, B = rng.sample(range(1, n + 1), 2)
    axis = rng.choice([1, 2, 3])
    before = [parts(o) for o in list.__iter__(ps)]
    ps.fix_mom_cons(A, B, real_momenta=True, axis=axis)
    what = f"real fix_mom_cons({A}, {B}, axis={axis}), n={n}"
    after = [parts(o) for o in list.__iter__(ps)]
    ctx.key("real", n, A, B, axis, ctx.index)
    for k in range(n):
        if k + 1 not in (A, B):
            ctx.check(before[k] == after[k], f"{what}: leg {k + 1} moved", key="others")
    monitor_point(ctx, ps, what, digits=255)
    for k, o in enumerate(list.__iter__(ps)):
        monitor_leg(ctx, o, field('mpc'), f"{what}: leg {k + 1}")
        sc = max(abs(R.lift(x)) for x in o.four_mom)
        for x in o.four_mom:
            v = R.lift(x)
            ctx.check(not isinstance(v, mpmath.mpc) or abs(v.imag) <= mpmath.mpf(10) ** -280 * (1 + sc), f"{what}: leg {k + 1} is not real", got=x, key="real")


KINDS = [("complex", case_complex, 900, 15000), ("default", case_default, 100, 1500), ("conserving", case_conserving, 150, 2000), ("real", case_real, 150, 2000)]
