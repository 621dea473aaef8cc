from gen import *
from core import Skip
import monitors as Mo
import lips
from lips.symmetries import inverse, identity
from checks.c05 import string_and_value

ID = "C09"
RULE = ("a case is one random point (field, 3-9 legs, sometimes with legs of equal momentum, massive scalars or massive fermions, internal masses) and a few permutations with or without parity; "
        "the legs of every image are compared with the relabelled/exchanged legs of the original, ~6 random strings evaluated at the image are compared with the relabelled definition, "
        "composition, inverse and identity are compared leg by leg, and original and image are mutated in turn while the other is watched; distinct = (field, n, permutation, parity, variant)")
ASSUMPTIONS = ["leg i of the point becomes leg σ(i) of the image (permutations are digit strings, so up to 9 legs)",
               "parity exchanges the two spinors of each leg, so ⟨ij⟩ ↔ [ji]; for massive fermions exchanging twice may flip the sign of both spinors of a leg, which leaves the momentum unchanged"]


def perm(rng, n):
    p = list(range(1, n + 1))
    rng.shuffle(p)
    if rng.random() < .15:
        p = list(range(1, n + 1))
        i, j = rng.sample(range(n), 2)
        p[i], p[j] = p[j], p[i]
    return p


def compose(tau, sigma):
    """first sigma, then tau"""
    return [tau[s - 1] for s in sigma]


def st(p):
    return "".join(map(str, p))


def variant_point(ctx, name, n):
    rng = ctx.rng
    variant = rng.choice(["cons", "raw", "twins", "masses"])
    kw = {}
    f = field(name)
    if variant == "masses" or rng.random() < .2:
        kw["internal_masses"] = {"m_t": scalar(rng, name), "mu2": "s_12"} if rng.random() < .5 else {"M": scalar(rng, name)}
    ps = cons_point(ctx, n, name, **kw) if variant in ("cons", "masses") else raw_point(ctx, n, name, **kw)
    if variant == "twins":
        # two or three legs with the same momentum but different spinors (little group), or identical legs
        k = rng.randrange(2, min(n, 3) + 1)
        ii = rng.sample(range(1, n + 1), k)
        r, l = ps[ii[0]].r_sp_d.flatten(), ps[ii[0]].l_sp_d.flatten()
        for q, i in enumerate(ii):
            z = {0: 1, 1: 2, 2: 4}[q] if name != "qi" else 1
            if name in ("q",):
                z = Fraction(z)
            rr, ll = ([r[0] * z, r[1] * z], [l[0] / z, l[1] / z]) if z != 1 else (list(r), list(l))
            ps[i] = particle(f, rr, ll)
    return ps, variant


def legs_ref(ps):
    """lower spinors (any shape) and momentum matrix of each leg in reference arithmetic"""
    out = []
    for oP in list.__iter__(ps):
        def la(a):
            a = numpy.asarray(a)
            return [[R.lift(x) for x in rw] for rw in a]
        out.append((None if oP.r_sp_d is None else la(oP.r_sp_d), None if oP.l_sp_d is None else la(oP.l_sp_d), la(oP.r2_sp), getattr(oP, "spin_index", None)))
    return out


def par(leg):
    r, l, P, sp = leg
    if r is None:
        return (None, None, R.mT(P), sp)
    r_, l_ = R.mT(l), R.mT(r)
    if sp is not None:
        if sp[0] == 'u':
            l_ = [[-x for x in rw] for rw in l_]
        else:
            r_ = [[-x for x in rw] for rw in r_]
    return (r_, l_, R.mT(P), sp)


def image_ref(legs, sigma, flip):
    new = [None] * len(legs)
    for i, L in enumerate(legs):
        new[sigma[i] - 1] = par(L) if flip else L
    return new


def compare(ctx, want, img, what, key, signs=False):
    ctx.check(len(img) == len(want), f"{what}: number of legs", key=key, got=len(img))
    for k, (w, oP) in enumerate(zip(want, list.__iter__(img))):
        r, l, P, sp = w
        sc = max([1] + [abs(x) for rw in P for x in rw if isinstance(x, mpmath.mpc)])
        ctx.eqm(P, oP.r2_sp, f"{what}: momentum of leg {k + 1}", key=key, scale=sc)
        if r is None:
            ctx.check(oP.r_sp_d is None and oP.l_sp_d is None, f"{what}: spinors of massive scalar leg {k + 1}", key=key)
            continue
        s = 1
        if signs and sp is not None:
            s = 1 if R.close(r[0][0], numpy.asarray(oP.r_sp_d)[0, 0], sc) else -1
        ctx.eqm([[s * x for x in rw] for rw in r], oP.r_sp_d, f"{what}: angle spinor of leg {k + 1}", key=key, scale=sc)
        ctx.eqm([[s * x for x in rw] for rw in l], oP.l_sp_d, f"{what}: square spinor of leg {k + 1}", key=key, scale=sc)
        # upper-index spinors follow
        ctx.eqm([[s * r[1][c], -s * r[0][c]] for c in range(len(r[0]))], oP.r_sp_u, f"{what}: upper angle spinor of leg {k + 1}", key=key, scale=sc)
        ctx.eqm(R.mT([[s * l[c][1], -s * l[c][0]] for c in range(len(l))]), oP.l_sp_u, f"{what}: upper square spinor of leg {k + 1}", key=key, scale=sc)
        ctx.check(sp == getattr(oP, "spin_index", None), f"{what}: spin index of leg {k + 1}", key=key)
    ctx.obs("legs of images compared", len(want))


def masses(ps):
    return freeze({k: getattr(ps, k) for k in ps.internal_masses})


def arrays(ps):
    out = []
    for oP in list.__iter__(ps):
        for a in ('r_sp_d', 'r_sp_u', 'l_sp_d', 'l_sp_u', 'r2_sp', 'r2_sp_b', 'four_mom', 'four_mom_d'):
            x = getattr(oP, a)
            if isinstance(x, numpy.ndarray):
                out.append(x)
    return out


def case_image(ctx):
    rng = ctx.rng
    name = ALL[ctx.index % len(ALL)]
    n = rng.choice([3, 4, 5, 6, 7, 8, 9])
    ps, variant = variant_point(ctx, name, n)
    legs = legs_ref(ps)
    before = freeze_point(ps)
    for _ in range(2):
        sigma, flip = perm(rng, n), rng.random() < .5
        rule = rng.choice([(st(sigma), flip), (st(sigma), flip), st(sigma) if not flip else (st(sigma), flip), (st(sigma), flip, '+')])
        ctx.key(name, n, rule, variant)
        img = ps.image(rule)
        what = f"image under {rule} ({name}, {variant})"
        ctx.check(type(img) is Particles and img is not ps, f"{what}: not a new point", key="type")
        compare(ctx, image_ref(legs, sigma, flip), img, what, key="image")
        ctx.check(str(img.field) == str(ps.field), f"{what}: field", key="field")
        ctx.check(masses(img) == masses(ps) and set(img.internal_masses) == set(ps.internal_masses), f"{what}: internal masses", key="masses", got=img.internal_masses_dict)
        ctx.check(freeze_point(ps) == before, f"{what}: the original point changed", key="original")
        if n >= 4 and not (variant == "twins" and name in ('qp', 'qpi', 'qps')):
            Q = Point([Leg(r=[x[0] for x in w[0]], l=list(w[1][0])) for w in image_ref(legs, sigma, flip)])
            sc = Q.scale() ** 8 if name == "mpc" else 1
            for _ in range(4):
                fam, s, v = string_and_value(rng, Q, set(range(1, n + 1)), n)
                ctx.obs("strings evaluated at images")
                ctx.eq(v, img(s), f"{s} at the {what}", scale=sc, key="string")
        if name not in ("q", "qi"):
            for i in range(1, n + 1):
                Mo.monitor_leg(ctx, img[i], field(name), what)


def case_group(ctx):
    rng = ctx.rng
    name = ALL[ctx.index % len(ALL)]
    n = rng.choice([3, 4, 5, 6, 7, 9])
    ps, variant = variant_point(ctx, name, n)
    legs = legs_ref(ps)
    before = freeze_point(ps)
    s1, s2, f1, f2 = perm(rng, n), perm(rng, n), rng.random() < .5, rng.random() < .5
    ctx.key(name, n, st(s1), st(s2), f1, f2, variant)
    a = ps.image((st(s1), f1)).image((st(s2), f2))
    compare(ctx, image_ref(legs, compose(s2, s1), f1 ^ f2), a, f"image {st(s1)},{f1} then {st(s2)},{f2}", key="compose")
    b = ps.image((st(compose(s2, s1)), f1 ^ f2))
    ctx.obs("compositions observed")
    ctx.check(a == b, "composition of images differs from the image of the composition", key="compose-eq")
    c = ps.image((st(s1), f1)).image(inverse((st(s1), f1)))
    compare(ctx, legs, c, f"image {st(s1)},{f1} undone", key="inverse")
    ctx.check(c == ps and ps == c, "image undone by its inverse does not compare equal to the original", key="inverse-eq")
    for d, w in ((ps.image(identity(n)), "identity image"), (ps.copy(), "copy")):
        compare(ctx, legs, d, w, key="identity")
        ctx.check(d == ps and ps == d, f"{w} does not compare equal", key="identity-eq")
        ctx.check(freeze_point(d) == before, f"{w} differs from the original in some representation", key="identity-state")
        ctx.obs("identities and copies observed")
    ctx.check(freeze_point(ps) == before, "the original point changed", key="original")
    # parity on the point itself, twice
    ps.angles_for_squares()
    compare(ctx, image_ref(legs, list(range(1, n + 1)), True), ps, "exchange in place", key="inplace")
    ps.angles_for_squares()
    compare(ctx, legs, ps, "exchange in place twice", key="inplace")


def mutate(ctx, ps, name):
    rng = ctx.rng
    f = field(name)
    i = rng.randrange(1, len(ps) + 1)
    how = rng.choice(["inplace_r", "inplace_l", "inplace_m", "setter", "randomise", "mass", "flip", "legs", "analytic"])
    if how == "inplace_r":
        ps[i].r_sp_d[0, 0] = scalar(rng, name)
        ps[i].r_sp_u[0, 1] = scalar(rng, name)
    elif how == "inplace_l":
        ps[i].l_sp_d[0, 0] = scalar(rng, name)
        ps[i].l_sp_u[1, 0] = scalar(rng, name)
    elif how == "inplace_m":
        ps[i].r2_sp[0, 1] = scalar(rng, name)
        ps[i].r2_sp_b[1, 1] = scalar(rng, name)
    elif how == "setter":
        ps[i].r_sp_d = col(scalar(rng, name), scalar(rng, name))
    elif how == "randomise":
        ps[i].randomise()
    elif how == "mass":
        ps.m_x = scalar(rng, name)
        for k in list(ps.internal_masses):
            setattr(ps, k, scalar(rng, name))
    elif how == "flip":
        ps.angles_for_squares()
    elif how == "legs":
        ps[i] = particle(f, [scalar(rng, name)] * 2, [scalar(rng, name)] * 2)
        del ps[1]
    elif how == "analytic":
        if name in ("fp", "fpi", "fps"):
            ps.make_analytical_d()
        else:
            ps[i].randomise()
    return how


def case_independent(ctx):
    rng = ctx.rng
    name = ALL[ctx.index % len(ALL)]
    n = rng.choice([3, 4, 5, 6])
    ps, variant = variant_point(ctx, name, n)
    sigma, flip = perm(rng, n), rng.random() < .4
    b = ps.copy() if rng.random() < .4 else ps.image((st(sigma), flip))
    for x in arrays(ps):
        for y in arrays(b):
            ctx.check(not numpy.shares_memory(x, y), "image or copy shares an array with the original", key="shares")
    first, second = (ps, b) if rng.random() < .5 else (b, ps)
    keep = freeze_point(second)
    how = [mutate(ctx, first, name) for _ in range(2)]
    ctx.obs(f"mutations applied while the other point was watched", 2)
    ctx.key(name, n, tuple(how), variant)
    ctx.check(freeze_point(second) == keep, f"mutating one point ({how}) changed the other", key="independent")


def case_massive(ctx):
    """clustered points: massive scalars and massive fermions"""
    rng = ctx.rng
    name = rng.choice(MAIN)
    n = rng.choice([5, 6, 7, 8])
    full = cons_point(ctx, n, name)
    ids = rng.sample(range(1, n + 1), n)
    groups, k = [], 0
    while k < n:
        w = rng.choice([1, 1, 2, 2, 3])
        groups.append(ids[k:k + w])
        k += w
    rng.shuffle(groups)
    ferm = tuple((i + 1, rng.choice("ud"), rng.choice([all, all, 1, 2])) for i, g in enumerate(groups) if len(g) == 2 and rng.random() < .7)
    ps = full.cluster(groups, massive_fermions=ferm or None)
    m = len(groups)
    if m < 2:
        raise Skip("single group")
    for i, g in enumerate(groups, 1):
        if len(g) > 1 and i not in [x[0] for x in ferm] and rng.random() < .4:
            # a massive leg without spinors
            r2 = numpy.array(ps[i].r2_sp, dtype=object)
            r2[1, 1] = r2[1, 1] * 0
            ps[i] = Particle(kinematics=r2, field=full.field)
            ctx.obs("massive legs without spinors" if ps[i].r_sp_d is None else "massive legs replaced")
    legs = [(None, None) + w[2:] if len(g) > 1 and w[3] is None else w for w, g in zip(legs_ref(ps), groups)]
    for sigma, flip in ((perm(rng, m), True), (perm(rng, m), rng.random() < .5)):
        ctx.key(name, tuple(map(tuple, groups)), tuple((a, b, str(c)) for a, b, c in ferm), st(sigma), flip)
        ctx.obs("images of clustered points")
        img = ps.image((st(sigma), flip))
        want = image_ref(legs, sigma, flip)
        check_massive(ctx, want, img, f"image {st(sigma)},{flip} of a clustered point ({name}, {ferm})")
        back = img.image(inverse((st(sigma), flip)))
        check_massive(ctx, legs, back, "image of a clustered point undone", signs=True)
        # spin sum over both components reproduces the momentum also after the exchange
        for j, oP in enumerate(list.__iter__(img)):
            sp = getattr(oP, "spin_index", None)
            if sp is None or sp[1] is not all:
                continue
            r = [[R.lift(x) for x in rw] for rw in numpy.asarray(oP.r_sp_d)]
            l = [[R.lift(x) for x in rw] for rw in numpy.asarray(oP.l_sp_d)]
            # r: α x I, l: I x α̇; both spin indices in the same position, contracted with the antisymmetric tensor
            s = R.mm(R.mm(r, [[0, 1], [-1, 0]]), l)
            Pb = [[R.lift(x) for x in rw] for rw in numpy.asarray(oP.r2_sp_b)]
            sc = max([1] + [abs(x) for rw in Pb for x in rw if isinstance(x, mpmath.mpc)])
            okp = all(R.is_zero(s[a][b] - Pb[a][b], sc, 230) for a in range(2) for b in range(2))
            ctx.obs("spin sums observed")
            ctx.check(okp, f"spin sum of massive fermion {j + 1} after image {st(sigma)},{flip} (index {sp[0]})", key="spinsum")


def check_massive(ctx, want, img, what, signs=False):
    for k, (w, oP) in enumerate(zip(want, list.__iter__(img))):
        r, l, P, sp = w
        sc = max([1] + [abs(x) for rw in P for x in rw if isinstance(x, mpmath.mpc)])
        ctx.eqm(P, oP.r2_sp, f"{what}: momentum of leg {k + 1}", key="massive", scale=sc)
        ctx.eqm([[P[1][1], -P[0][1]], [-P[1][0], P[0][0]]], oP.r2_sp_b, f"{what}: lower momentum of leg {k + 1}", key="massive", scale=sc)
        if r is None:
            continue
        s = 1
        if signs and sp is not None:
            s = 1 if R.close(r[0][0], numpy.asarray(oP.r_sp_d)[0, 0], sc) else -1
        ctx.eqm([[s * x for x in rw] for rw in r], oP.r_sp_d, f"{what}: angle spinor of leg {k + 1}", key="massive", scale=sc)
        ctx.eqm([[s * x for x in rw] for rw in l], oP.l_sp_d, f"{what}: square spinor of leg {k + 1}", key="massive", scale=sc)
        ctx.eqm([[s * r[1][c], -s * r[0][c]] for c in range(len(r[0]))], oP.r_sp_u, f"{what}: upper angle spinor of leg {k + 1}", key="massive", scale=sc)
        ctx.eqm(R.mT([[s * l[c][1], -s * l[c][0]] for c in range(len(l))]), oP.l_sp_u, f"{what}: upper square spinor of leg {k + 1}", key="massive", scale=sc)


def case_copy_large(ctx):
    rng = ctx.rng
    name = rng.choice(ALL)
    n = rng.choice([10, 11, 12, 14, 20])
    kw = {"internal_masses": {"m_t": scalar(rng, name)}} if rng.random() < .5 else {}
    ps = raw_point(ctx, n, name, **kw)
    ctx.key(name, n)
    before = freeze_point(ps)
    c = ps.copy()
    ctx.obs("copies of large points")
    ctx.check(freeze_point(c) == before and c == ps, f"copy of a point with {n} legs differs", key="copy-large")
    legs = legs_ref(ps)
    d = ps.copy()
    for k in (1, 2):
        d.angles_for_squares()
        compare(ctx, image_ref(legs, list(range(1, n + 1)), True) if k == 1 else legs, d, f"exchange in place, {n} legs", key="inplace")
    mutate(ctx, c, name)
    ctx.check(freeze_point(ps) == before, "mutating a copy changed the original", key="independent")


KINDS = [("image", case_image, 700, 12000), ("group", case_group, 500, 9000), ("independent", case_independent, 500, 9000),
         ("massive", case_massive, 300, 6000), ("copy_large", case_copy_large, 60, 600)]
