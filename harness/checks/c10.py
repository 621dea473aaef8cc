from gen import *
from core import Skip
import monitors as Mo
from checks.c05 import string_and_value
from checks.c09 import arrays

ID = "C10"
RULE = ("a case is one random point (4-11 legs over C, F_p, Q_p), one random grouping of (some of) its legs in random order and random internal masses/aliases or massive fermions; "
        "momenta, spinors, ~8 random strings, masses and massive spinors of the clustered point are compared with independent arithmetic on the original legs, and the original is watched; "
        "distinct = (field, grouping, fermion choice, mass aliases)")
ASSUMPTIONS = ["mass aliases are Mandelstam invariants or arithmetic on them", "massive-fermion spinors of a group (a,b): |I⟩ = (|a⟩,|b⟩), [_I| = ([a|,[b|), the other position by the antisymmetric tensor"]


def grouping(rng, n, partial=True):
    ids = rng.sample(range(1, n + 1), n)
    if rng.random() < .35:
        ids.sort()
    if partial and rng.random() < .15:
        ids = ids[:-1]
    groups, k = [], 0
    while k < len(ids):
        w = rng.choice([1, 1, 1, 2, 2, 3])
        groups.append(ids[k:k + w])
        k += w
    if rng.random() < .5:
        rng.shuffle(groups)
    return groups


def grouped(P, groups):
    out = []
    for g in groups:
        out.append(P[g[0]] if len(g) == 1 else Leg(P=P.sumP(g)))
    return Point(out)


def case_scalar(ctx):
    rng = ctx.rng
    name = MAIN[ctx.index % len(MAIN)]
    n = rng.choice([4, 5, 6, 7, 8, 9, 11])
    ps = any_point(ctx, n, name)
    P = Point.of(ps)
    groups = grouping(rng, n)
    if rng.random() < .1:
        groups = [[i] for i in range(1, n + 1)]
    m = len(groups)
    before = freeze_point(ps)
    ctx.key(name, tuple(map(tuple, groups)))
    arg = groups if rng.random() < .7 else [tuple(g) for g in groups]
    cl = ps.cluster(arg)
    what = f"cluster({groups}) over {name}"
    ctx.check(len(cl) == m, f"{what}: number of legs", key="n", got=len(cl))
    Q = grouped(P, groups)
    sc = P.scale()
    for k, g in enumerate(groups):
        ctx.obs("groups compared")
        ctx.eqm(Q[k + 1].P, cl[k + 1].r2_sp, f"{what}: momentum of group {g}", key="momentum", scale=sc)
        if len(g) == 1:
            ctx.check(freeze(cl[k + 1].r_sp_d) == freeze(ps[g[0]].r_sp_d) and freeze(cl[k + 1].l_sp_d) == freeze(ps[g[0]].l_sp_d), f"{what}: spinors of single leg {g}", key="single")
            Mo.monitor_leg(ctx, cl[k + 1], field(name), what)
        else:
            Mo.monitor_leg(ctx, cl[k + 1], field(name), what, spinors="maybe" if False else "free")
        ctx.eq(R.det2(Q[k + 1].P), cl[k + 1].m2, f"{what}: mass of group {g}", key="mass", scale=sc ** 2)
    ctx.check(str(cl.field) == str(ps.field), f"{what}: field", key="field")
    massless = {k + 1 for k, g in enumerate(groups) if len(g) == 1}
    if m >= 4:
        for _ in range(7):
            fam, s, v = string_and_value(rng, Q, massless, m)
            ctx.obs(f"strings on clustered points")
            ctx.eq(v, cl(s), f"{s} at {what}", scale=sc ** 8 if name == "mpc" else 1, key="string")
    ctx.check(freeze_point(ps) == before, f"{what}: the original changed", key="original")
    for x in arrays(ps):
        for y in arrays(cl):
            ctx.check(not numpy.shares_memory(x, y), f"{what}: clustered point shares an array with the original", key="shares")
    cl[1].r_sp_d = col(scalar(rng, name), scalar(rng, name)) if groups[0].__len__() == 1 else cl[1].r_sp_d
    if len(groups[0]) == 1:
        cl[1].r_sp_d[0, 0] = scalar(rng, name)
    ctx.check(freeze_point(ps) == before, f"{what}: changing the clustered point changed the original", key="independent")


def case_masses(ctx):
    """internal masses by value and by alias keep their value under clustering, and aliases follow the clustered point"""
    rng = ctx.rng
    name = MAIN[ctx.index % len(MAIN)]
    n = rng.choice([4, 5, 6, 7, 8, 9, 11, 12])
    groups = grouping(rng, n, partial=False)
    if n > 9 and rng.random() < .7:
        groups = [[i] for i in rng.sample(range(1, n + 1), n)]
    m = len(groups)
    nameable = [g for g in groups if max(g) <= 9]     # strings name legs by one digit
    def alias_legs():
        if rng.random() < .75 and nameable:   # a union of groups
            legs = [i for g in rng.sample(nameable, rng.randrange(1, min(len(nameable), 3) + 1)) for i in g]
            rng.shuffle(legs) if rng.random() < .3 else None
            return legs, True
        return rng.sample(range(1, min(n, 9) + 1), rng.randrange(1, min(n, 4) + 1)), False
    d, ref, expressible = {}, {}, {}
    for nm in rng.sample(["m_t", "mh2", "M", "mu", "m_b2", "μ"], rng.randrange(1, 4)):
        if rng.random() < .3:
            d[nm] = scalar(rng, name)
            ref[nm] = None
        else:
            legs, ok = alias_legs()
            d[nm] = rng.choice(["s_", "s_", "s", "S_", "S"]) + "".join(map(str, legs))
            ref[nm] = [legs]
            if rng.random() < .25:
                legs2, ok2 = alias_legs()
                d[nm] += "+" + rng.choice(["s_", "s_", "s", "S_", "S"]) + "".join(map(str, legs2))
                ref[nm].append(legs2)
    ps = any_point(ctx, n, name, internal_masses=dict(d))
    P = Point.of(ps)
    sc = P.scale() ** 2
    before = freeze_point(ps)
    cl = ps.cluster(groups)
    ctx.key(name, tuple(map(tuple, groups)), tuple(sorted((k, v if isinstance(v, str) else "value") for k, v in d.items())))
    ctx.check(set(cl.internal_masses) == set(d), "names of internal masses after clustering", key="mass-names", got=cl.internal_masses)
    for nm in d:
        ctx.obs("internal masses compared")
        v = R.lift(d[nm]) if ref[nm] is None else sum((P.mand(L) for L in ref[nm]), 0)
        ctx.eq(v, cl(nm), f"internal mass {nm}={d[nm] if isinstance(d[nm], str) else 'value'} after cluster({groups})", key="mass-value", scale=sc)
    ctx.check(freeze_point(ps) == before, "the original changed", key="original")
    # an alias that is a sum of groups keeps following the momenta of the clustered point
    if m > 1:
        newleg = raw_point(ctx, 1, name)[1]
        k = rng.randrange(1, m + 1)
        cl[k] = newleg
        Q = grouped(P, groups)
        Q.legs[k - 1] = R.leg_from_lib(newleg)
        for nm in d:
            if ref[nm] is None:
                continue
            labels = [[j + 1 for j, g in enumerate(groups) if set(g) <= set(L)] for L in ref[nm]]
            if all({i for j in lb for i in groups[j - 1]} == set(L) and max(lb) <= 9 for lb, L in zip(labels, ref[nm])):
                ctx.obs("aliases followed after a change of the clustered point")
                ctx.eq(sum((Q.mand(lb) for lb in labels), 0), cl(nm), f"alias {nm}={d[nm]} after cluster({groups}) and replacing leg {k}", key="alias-follows", scale=sc + Q.scale() ** 2)


EPS = [[0, 1], [-1, 0]]


def fermion(P, a, b, pos):
    """r: α x I, l: I x α̇"""
    ra, rb, la, lb = P[a].r, P[b].r, P[a].l, P[b].l
    r = [[ra[0], rb[0]], [ra[1], rb[1]]]
    l = [list(la), list(lb)]
    if pos == 'u':
        l = [[-x for x in lb], list(la)]
    else:
        r = [[rb[0], -ra[0]], [rb[1], -ra[1]]]
    return r, l


def case_fermion(ctx):
    rng = ctx.rng
    name = MAIN[ctx.index % len(MAIN)]
    n = rng.choice([5, 6, 7, 8])
    ps = any_point(ctx, n, name)
    P = Point.of(ps)
    sc = P.scale()
    for _ in range(20):
        groups = grouping(rng, n, partial=False)
        pairs = [i + 1 for i, g in enumerate(groups) if len(g) == 2]
        if pairs and len(groups) >= 3:
            break
    else:
        raise Skip("no pair")
    chosen = [k for k in pairs if rng.random() < .75] or pairs[:1]
    spec = [(k, rng.choice("ud"), rng.choice([all, all, 1, 2])) for k in chosen]
    rng.shuffle(spec)
    before = freeze_point(ps)
    ctx.key(name, tuple(map(tuple, groups)), tuple((a, b, str(c)) for a, b, c in spec))
    cl = ps.cluster(groups, massive_fermions=tuple(spec) if rng.random() < .7 else list(spec))
    ctx.check(freeze_point(ps) == before, "the original changed", key="original")
    Q = grouped(P, groups)
    fm = {}
    for k, pos, comp in spec:
        a, b = groups[k - 1]
        r, l = fermion(P, a, b, pos)
        # the reference itself: spin sum
        s = R.mm(R.mm(r, EPS), l)
        for i in range(2):
            for j in range(2):
                assert R.is_zero(s[i][j] - Q[k].Pb[i][j], sc, 230)
        if comp is not all:
            r = [[r[0][comp - 1]], [r[1][comp - 1]]]
            l = [l[comp - 1]]
        fm[k] = (r, l, pos, comp)
        w = f"massive fermion {k}={groups[k - 1]} index {pos} component {comp if comp is not all else 'all'} ({name})"
        ctx.obs("massive fermions compared")
        ctx.eqm(r, cl[k].r_sp_d, f"{w}: |I⟩", key="fermion", scale=sc)
        ctx.eqm(l, cl[k].l_sp_d, f"{w}: [I|", key="fermion", scale=sc)
        ru = [[r[1][c], -r[0][c]] for c in range(len(r[0]))]
        lu = R.mT([[l[c][1], -l[c][0]] for c in range(len(l))])
        ctx.eqm(ru, cl[k].r_sp_u, f"{w}: ⟨I|", key="fermion", scale=sc)
        ctx.eqm(lu, cl[k].l_sp_u, f"{w}: |I]", key="fermion", scale=sc)
        ctx.eqm(Q[k].P, cl[k].r2_sp, f"{w}: momentum", key="fermion", scale=sc)
        # Dirac equation with the masses of the pair, through the string interface
        ms, mb = -P.ang(a, b), P.sq(a, b)
        scd = sc ** 3
        ctx.obs("Dirac equations observed", 4)
        ctx.eqm([[-ms * x for x in rw] for rw in lu], cl(f"|{k}|{k}⟩"), f"{w}: Dirac equation for |I⟩", key="dirac", scale=scd)
        ctx.eqm([[-mb * x for x in rw] for rw in r], cl(f"|{k}|{k}]"), f"{w}: Dirac equation for |I]", key="dirac", scale=scd)
        ctx.eqm([[ms * x for x in rw] for rw in l], cl(f"⟨{k}|{k}|"), f"{w}: Dirac equation for ⟨I|", key="dirac", scale=scd)
        ctx.eqm([[mb * x for x in rw] for rw in ru], cl(f"[{k}|{k}|"), f"{w}: Dirac equation for [I|", key="dirac", scale=scd)
        if comp is all:
            got = numpy.asarray(cl[k].r_sp_d) @ numpy.array(EPS, dtype=object) @ numpy.asarray(cl[k].l_sp_d)
            ctx.eqm(Q[k].Pb, got, f"{w}: spin sum", key="spinsum", scale=sc)
            ctx.obs("spin sums observed")
    # chains between massive fermions and massless legs, entry by entry
    m = len(groups)
    ends = [k for k in range(1, m + 1) if len(groups[k - 1]) == 1 or k in fm]
    for _ in range(6):
        a, b = rng.choice(ends), rng.choice(ends)
        k = rng.choice([0, 1, 1, 2, 3])
        o = rng.choice("⟨[")
        c = {("⟨", 1): "]", ("⟨", 0): "⟩", ("[", 1): "⟩", ("[", 0): "]"}[(o, k % 2)]
        mids = [msum(rng, m, 2) for _ in range(k)]
        def sp(x, which):
            r, l = fm[x][:2] if x in fm else ([[q] for q in Q[x].r], [Q[x].l])
            if which == "⟨":
                return [[r[1][i], -r[0][i]] for i in range(len(r[0]))]
            if which == "[":
                return l
            if which == "⟩":
                return r
            return R.mT([[l[i][1], -l[i][0]] for i in range(len(l))])
        res = sp(a, o)
        for q, mid in enumerate(mids):
            res = R.mm(res, Q.sumP(mid, bar=(q % 2 == 0) == (o == '⟨')))
        res = R.mm(res, sp(b, c))
        s = f"{o}{a}|" + "".join(render_sum(rng, x) + "|" for x in mids) + f"{b}{c}"
        ctx.obs("chains with massive fermions")
        got = cl(s)
        w = f"{s} at clustered point {groups}, fermions {[(x, y, str(z)) for x, y, z in spec]} ({name})"
        if len(res) == 1 and len(res[0]) == 1:
            ctx.eq(res[0][0], got, w, key="fermion-chain", scale=sc ** 5)
        else:
            ctx.eqm(res, got, w, key="fermion-chain", scale=sc ** 5)
    if rng.random() < .3:
        bad = rng.choice(["x", "up", "U", 1])
        ctx.raises(lambda: ps.cluster(groups, massive_fermions=((chosen[0], bad, all),)), "unknown spin index position accepted", key="position")


KINDS = [("scalar", case_scalar, 800, 15000), ("masses", case_masses, 700, 12000), ("fermion", case_fermion, 700, 12000)]
