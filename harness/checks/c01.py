from gen import *
from monitors import monitor_leg, monitor_point, in_field
from core import Skip
import random
import core

ID = "C01"
RULE = ("a case generates one or more phase-space points through the public constructors (field, prime, precision, 3-12 legs, complex/real, seeds incl. 0) and examines "
        "every leg and the total momentum with reference arithmetic; distinct = (way of generating, field, n, seed)")
ASSUMPTIONS = ["generic draws: a division by zero in a field with a prime below 10^5 is taken as an unlucky draw"]


def some_field(rng):
    name = rng.choice(ALL)
    if name in ("fp", "fps") and rng.random() < .4:
        return Field('finite field', rng.choice([2 ** 31 - 1, 2 ** 31 - 19, 2147483587, 32003, 1000003, 10 ** 9 + 7]), 1)
    if name in ("qp", "qps") and rng.random() < .4:
        return Field('padic', rng.choice([2 ** 31 - 1, 10007, 1000003]), rng.choice([2, 3, 5, 9]))
    return field(name)


def examine(ctx, ps, f, n, what, real=False, digits=None):
    ctx.check(len(ps) == n and ps.multiplicity == n, f"{what}: wrong number of legs", got=len(ps))
    ctx.check(str(ps.field) == str(f), f"{what}: wrong field", got=ps.field)
    if f.name == 'padic':
        # small primes: precision may be lost in the solve, but the point must still be usable to most of its digits
        pass
    monitor_point(ctx, ps, what, digits=digits)
    for k, oP in enumerate(list.__iter__(ps)):
        monitor_leg(ctx, oP, f, f"{what}: leg {k + 1}")
        ctx.check(str(oP.field) == str(f), f"{what}: leg {k + 1} in another field")
        for s in (oP.r_sp_d, oP.r_sp_u, oP.l_sp_d, oP.l_sp_u):
            for x in s.flatten():
                ctx.check(in_field(x, f), f"{what}: component not in the field", got=type(x))
                if f.name == 'padic' and f.characteristic > 10 ** 6:
                    ctx.check(x.n + x.k >= f.digits and x.k >= 1, f"{what}: component generated with less than the requested precision", got=x)
        if real:
            sc = max(abs(R.lift(x)) for x in oP.four_mom)
            for x in oP.four_mom:
                ctx.check(abs(R.lift(x).imag if isinstance(R.lift(x), mpmath.mpc) else 0) <= mpmath.mpf(10) ** -280 * (1 + sc), f"{what}: leg {k + 1} not real", got=x)
    if f.name == 'mpc' and not real and n >= 4:
        ctx.check(any(abs(R.lift(x).imag) > 1e-200 for oP in list.__iter__(ps) for x in oP.four_mom), f"{what}: a real point although complex momenta were asked for")
    if n >= 4 and f.name != 'rational':
        ctx.check(any(not R.is_zero(x) for L in R.Point.of(ps).legs for r in L.P for x in r), f"{what}: trivial point")
    if n >= 4:
        fl = [freeze(oP.r2_sp) for oP in list.__iter__(ps)]
        ctx.check(len(set(fl)) == n, f"{what}: coinciding legs")


def guarded(f, fn):
    try:
        return fn()
    except ZeroDivisionError:
        if f.characteristic and f.characteristic < 10 ** 6:
            raise Skip("unlucky draw in a small field")
        raise


def case_fresh(ctx):
    rng = ctx.rng
    f = some_field(rng)
    n = rng.choice([3, 4, 4, 5, 5, 6, 7, 8, 10, 12])
    seed = rng.choice([0, 1, rng.randrange(10 ** 9), None])
    real = f.name == 'mpc' and rng.random() < .5 and n >= 4
    ctx.key("fresh", str(f), n, seed, real)
    ps = guarded(f, lambda: Particles(n, field=f, seed=seed, real_momenta=real))
    examine(ctx, ps, f, n, f"Particles({n}, field={f}, seed={seed}, real_momenta={real})", real)
    if seed is not None:
        random.random()
        qs = guarded(f, lambda: Particles(n, field=f, seed=seed, real_momenta=real))
        ctx.obs("same-seed pairs compared")
        ctx.check(freeze_point(ps)[0] == freeze_point(qs)[0], f"same seed {seed} gave two different points over {f}", key="seed")
        step = rng.choice([1 + rng.randrange(1000), 1 + rng.randrange(1000), 2 ** 31, 2 ** 32, 2 ** 64, 10 ** 6, 10 ** 9])
        other = guarded(f, lambda: Particles(n, field=f, seed=seed + step, real_momenta=real))
        ctx.check(freeze_point(ps)[0] != freeze_point(other)[0], "different seeds gave the same point", key="seed")


def case_defaults(ctx):
    """default field is the complex numbers; unseeded points are fresh each time"""
    rng = ctx.rng
    n = rng.randrange(4, 9)
    ps = Particles(n)
    examine(ctx, ps, field('mpc'), n, f"Particles({n})")
    qs = Particles(n)
    ctx.key("default", n, ctx.index)
    ctx.check(freeze_point(ps)[0] != freeze_point(qs)[0], "two unseeded points coincide")
    o = Particle()
    monitor_leg(ctx, o, field('mpc'), "Particle()")
    ctx.check(R.is_zero(R.det2(R.leg_from_lib(o, True).P), 10 ** 6), "Particle() not massless")
    o = Particle(real_momentum=True)
    monitor_leg(ctx, o, field('mpc'), "Particle(real)")
    ctx.check(all(x.imag == 0 for x in o.four_mom), "Particle(real_momentum=True) not real")
    f = some_field(rng)
    o = Particle(field=f)
    monitor_leg(ctx, o, f, f"Particle(field={f})")


def case_precision(ctx):
    """complex points at other working precisions"""
    rng = ctx.rng
    d = rng.choice([50, 100, 450, 800])
    f = Field('mpc', 0, d)
    try:
        n = rng.randrange(4, 8)
        real = rng.random() < .5
        ps = Particles(n, field=f, seed=rng.randrange(10 ** 6), real_momenta=real)
        ctx.key("precision", d, n, real)
        P = Point.of(ps)
        s = P.scale()
        for row_ in P.total():
            for x in row_:
                ctx.check(R.is_zero(x, s, int(0.88 * d)), f"total momentum not zero at {d} digits", total=x)
        for L in Point.of(ps, set(range(1, n + 1))).legs:
            ctx.check(R.is_zero(R.det2(L.P), s * s, int(0.88 * d)), f"leg not massless at {d} digits")
    finally:
        mpmath.mp.dps = 300


def case_randomise_all(ctx):
    rng = ctx.rng
    f = some_field(rng)
    n = rng.choice([4, 5, 6, 8, 11])
    real = f.name == 'mpc' and rng.random() < .5
    ps = guarded(f, lambda: Particles(n, field=f, seed=rng.randrange(10 ** 6)))
    for k in range(2):
        before = [freeze_leg(oP) for oP in list.__iter__(ps)]
        guarded(f, lambda: ps.randomise_all(real_momenta=real) if real or rng.random() < .5 else ps.randomise_all())
        ctx.key("randomise_all", str(f), n, real, ctx.index, k)
        examine(ctx, ps, f, n, f"randomise_all over {f}", real)
        after = [freeze_leg(oP) for oP in list.__iter__(ps)]
        ctx.check(all(a != b for a, b in zip(before, after)), "randomise_all left a leg as it was")


def case_user(ctx):
    """points from user-supplied legs"""
    rng = ctx.rng
    name = rng.choice([x for x in ALL if x != 'fps'])
    f = field(name)
    n = rng.choice([4, 5, 6, 7])
    mode = rng.choice(["conserved", "nofix", "fix", "nudged"])
    sp = conserving_spinors(rng, n, name) if mode in ("conserved", "nudged") else raw_spinors(rng, n, name)
    if mode == "nudged":       # off by a light-like momentum: one spinor of one leg is another one
        k, side = rng.randrange(n), rng.randrange(2)
        new = list(map(list, sp[k]))
        other = raw_spinors(rng, 1, name)[0][side]
        new[side] = list(other) if rng.random() < .5 else [other[0], new[side][1]]
        sp = list(sp)
        sp[k] = tuple(new)
    if mode in ("fix", "nudged") and any(R.is_zero(R.lift(sp[i][q][0]) * R.lift(sp[j][q][1]) - R.lift(sp[i][q][1]) * R.lift(sp[j][q][0]))
                                         for i in range(n) for j in range(i) for q in (0, 1)):
        raise Skip("parallel legs: the repair may pick them")
    legs = [particle(f, r, l) for r, l in sp]
    ctx.key("user", mode, name, n, ctx.index)
    before = [freeze_leg(o) for o in legs]
    ps = Particles(list(legs), field=f, fix_mom_cons=(mode != "nofix"), seed=rng.choice([None, 7]))
    after = [freeze_leg(o) for o in list.__iter__(ps)]
    ctx.obs(f"user legs: {mode}")
    if mode in ("conserved", "nofix"):
        ctx.check(before == after, f"user-supplied legs changed ({mode}, {name})", key="user")
    else:
        changed = [i for i in range(n) if before[i] != after[i]]
        ctx.check(len(changed) == 2 or mode == "nudged" and len(changed) == 1, "repair changed a number of legs other than two", changed=changed, key="user")
        monitor_point(ctx, ps, f"Particles(legs) over {name}")
    for k, o in enumerate(list.__iter__(ps)):
        monitor_leg(ctx, o, f, f"user leg {k + 1}")


def case_masses(ctx):
    """internal masses requested at construction"""
    rng = ctx.rng
    name = rng.choice(ALL)
    f = field(name)
    names = rng.sample(["m_t", "m_h", "M_W", "MZ", "m_b", "μ_1", "mu", "m"], rng.randrange(1, 4))
    form = rng.choice([list, tuple, set, "dict"])
    seed = rng.randrange(10 ** 6)
    vals = {k: scalar(rng, name) if rng.random() < .6 else f(rng.choice([0, 0, 1, -1])) for k in names}
    arg = vals if form == "dict" else form(names)
    ps = Particles(5, field=f, seed=seed, internal_masses=arg)
    ctx.key("masses", name, tuple(names), str(form))
    ctx.check(set(ps.internal_masses) == set(names), "internal masses not registered", got=ps.internal_masses)
    for k in names:
        v = getattr(ps, k)
        ctx.check(in_field(v, f), f"internal mass {k} not in the field", got=v)
        if form == "dict":
            ctx.check(freeze(v) == freeze(vals[k]), f"internal mass {k} is not the value given")
        ctx.eq(R.lift(v), ps(k), f"evaluating the name of internal mass {k}")
    ctx.check(set(ps.internal_masses_dict) == set(names), "internal masses table")


def case_twistor(ctx):
    rng = ctx.rng
    n = rng.randrange(4, 9)
    ps = Particles(n, seed=rng.randrange(10 ** 6))
    before = [freeze_leg(o) for o in list.__iter__(ps)]
    ps.randomise_twistor()
    ctx.key("twistor", n, ctx.index)
    monitor_point(ctx, ps, "randomise_twistor", digits=250)
    for k, o in enumerate(list.__iter__(ps)):
        monitor_leg(ctx, o, field('mpc'), f"twistor leg {k + 1}")
        ctx.check(freeze_leg(o) != before[k], "twistor leg unchanged")


KINDS = [("fresh", case_fresh, 500, 8000), ("defaults", case_defaults, 40, 400), ("precision", case_precision, 40, 400), ("randomise_all", case_randomise_all, 100, 1500),
         ("user", case_user, 150, 2000), ("masses", case_masses, 160, 1600), ("twistor", case_twistor, 24, 200)]
