from gen import *
from core import Skip, Violation
from pyadic.field_extension import FieldExtension
from lips.tools import ldot, det
import monitors as Mo

ID = "C26"
RULE = ("a case is one or a few particles, one point (3 to 12 legs, some of them clustered into massive ones), one square matrix or one cyclic splitting, in any of nine fields; masses, dot products, totals, determinants and "
        "splittings reported by the library are compared with the harness's own arithmetic on the momentum matrices; distinct = (kind, field, legs, operation, index)")
ASSUMPTIONS = ["masses (square roots) are compared through their squares", "agreement to 230 digits relative to the size of the momenta (complex), exact otherwise"]


def mat(oP):
    P = R.lift_arr(oP.r2_sp, (2, 2))
    return [P[:2], P[2:]]


def dot(P, Q):
    """P.Q from momentum matrices: polarised determinant"""
    return (P[0][0] * Q[1][1] + P[1][1] * Q[0][0] - P[0][1] * Q[1][0] - P[1][0] * Q[0][1]) * Fraction(1, 2) if not isinstance(P[0][0], mpmath.mpc) else \
        (P[0][0] * Q[1][1] + P[1][1] * Q[0][0] - P[0][1] * Q[1][0] - P[1][0] * Q[0][1]) / 2


def size(*Ps):
    return max([1] + [abs(x) for P in Ps for r in P for x in r if isinstance(x, mpmath.mpc)])


def massive(ctx, name):
    """particle with any momentum matrix"""
    f = field(name)
    m = numpy.empty((2, 2), dtype=object)
    for i in range(2):
        for j in range(2):
            m[i, j] = scalar(ctx.rng, name)
    return Particle(kinematics=m, field=f)


def leg(ctx, name):
    if ctx.rng.random() < .5 and name not in ("q", "qi"):   # no square roots there
        return massive(ctx, name)
    r, l = raw_spinors(ctx.rng, 1, name)[0]
    return particle(field(name), r, l)


def check_mass(ctx, oP, what):
    P = mat(oP)
    sc = size(P) ** 2
    want = dot(P, P)
    ctx.eq(want, oP.m2, f"{what}: mass squared", scale=sc, key="m2")
    ctx.eq(want, oP.lsq(), f"{what}: momentum squared", scale=sc, key="m2")
    if oP.field.name in ("rational", "gaussian rational") or (isinstance(want, R.PA) and want.v() != 0):
        ctx.obs("no root sought")
        return
    m = oP.m
    if isinstance(m, FieldExtension):
        ctx.obs("mass in a field extension")
        ctx.check(m * m == oP.m2, f"{what}: mass in the extension squared", key="m")
        return
    ctx.obs("mass in the field")
    ctx.eq(want, m * m, f"{what}: mass squared from the mass", scale=sc, key="m")


def case_mass(ctx):
    rng = ctx.rng
    name = ALL[ctx.index % len(ALL)]
    oP = leg(ctx, name)
    ctx.key("mass", name, ctx.index)
    before = freeze_leg(oP)
    check_mass(ctx, oP, f"particle over {name}")
    p4 = oP.four_mom
    if p4 is not None and Mo.imag_unit(field(name)) is not None:
        ctx.obs("components by index")
        for k in range(4):
            ctx.check(freeze(oP[k]) == freeze(p4[k]), f"component {k} of a particle over {name}", key="component")
        E, x, y, z = [R.lift(c) for c in p4]
        ctx.eq(E * E - x * x - y * y - z * z, oP.m2, f"particle over {name}: mass squared against the four-momentum", scale=size(mat(oP)) ** 2, key="m2")
    ctx.check(freeze_leg(oP) == before, f"reading the mass changed a particle over {name}", key="changed")


def case_dot(ctx):
    rng = ctx.rng
    name = ALL[ctx.index % len(ALL)]
    a, b, c = (leg(ctx, name) for _ in range(3))
    A, B, C = map(mat, (a, b, c))
    sc = size(A, B, C) ** 2 * 100
    what = f"dot product over {name}"
    ctx.key("dot", name, ctx.index)
    ctx.obs("dot products", 6)
    ctx.eq(dot(A, B), ldot(a, b), what, scale=sc, key="dot")
    ctx.eq(dot(A, B), ldot(b, a), what + " (exchanged)", scale=sc, key="dot")
    ctx.eq(dot(A, A), ldot(a, a), what + " (square)", scale=sc, key="dot")
    if name in ("q", "qi"):
        return
    ctx.eq(dot(A, B) + dot(C, B), ldot(a + c, b), what + " (sum)", scale=sc, key="dot")
    ctx.eq(dot(A, B) - dot(A, C), ldot(a, b - c), what + " (difference)", scale=sc, key="dot")
    k = rng.randrange(2, 50)
    ctx.eq(dot(A, B) * k, ldot(a * k, b), what + " (multiple)", scale=sc * k, key="dot")


def case_point(ctx):
    rng = ctx.rng
    name = ALL[ctx.index % len(ALL)]
    n = rng.randrange(3, 13) if name not in ("q", "qi") else rng.randrange(3, 8)
    ps = any_point(ctx, n, name) if n > 3 else raw_point(ctx, n, name)
    what = f"{n} legs over {name}"
    if n >= 5 and rng.random() < .5 and name not in ("q", "qi"):
        legs = rng.sample(range(1, n + 1), n)
        cut = sorted(rng.sample(range(1, n), rng.randrange(2, n - 1)))
        groups = [legs[i:j] for i, j in zip([0] + cut, cut + [n])]
        ps = ps.cluster(groups)
        n = len(groups)
        what += f" clustered into {groups}"
        ctx.obs("clustered points")
    ctx.key("point", name, n, ctx.index)
    massless = "clustered" not in what
    observe(ctx, ps, n, name, what)
    if massless:
        import history as H
        log = []
        for _ in range(3):
            try:
                ps, op = H.change(ctx, ps, name)
            except (ZeroDivisionError, ArithmeticError):
                return
            if not H.settled(ps):
                return
            log.append(op)
            observe(ctx, ps, n, name, f"{what}, after {log}")
            ctx.obs("points looked at again after a change")


def observe(ctx, ps, n, name, what):
    rng = ctx.rng
    before = freeze_point(ps)
    M = [mat(o) for o in list.__iter__(ps)]
    sc = size(*M) ** 2 * n
    ctx.check(ps.multiplicity == n == len(ps), f"{what}: multiplicity", key="multiplicity", got=ps.multiplicity)
    tot = [[sum((m[i][j] for m in M), 0) for j in range(2)] for i in range(2)]
    ctx.eqm(tot, ps.total_mom, f"{what}: total momentum", scale=sc)
    m2s = ps.m2s
    ctx.check(len(m2s) == n, f"{what}: number of masses")
    for k in range(n):
        ctx.eq(dot(M[k], M[k]), m2s[k], f"{what}: mass squared of leg {k + 1}", scale=sc, key="m2")
    for _ in range(6):
        i, j = rng.randrange(1, n + 1), rng.randrange(1, n + 1)
        ctx.eq(dot(M[i - 1], M[j - 1]), ps.ldot(i, j), f"{what}: dot product of legs {i} and {j}", scale=sc, key="dot")
        ctx.obs("dot products by label")
    if name in ("mpc", "fp", "fpi", "fps"):
        ms = ps.ms
        ctx.check(len(ms) == n, f"{what}: number of masses")
        for k in range(n):
            if isinstance(ms[k], FieldExtension):
                ctx.check(ms[k] * ms[k] == m2s[k], f"{what}: mass of leg {k + 1} squared", key="m")
            else:
                ctx.eq(dot(M[k], M[k]), ms[k] * ms[k], f"{what}: mass of leg {k + 1} squared", scale=sc, key="m")
    # flags: in an extension exactly when some component is
    if all(o.r_sp_d is not None and o.l_sp_d is not None for o in list.__iter__(ps)):
        ext = [any(isinstance(x, FieldExtension) for x in list(o.r_sp_d.flatten()) + list(o.l_sp_d.flatten())) for o in list.__iter__(ps)]
        ctx.obs("points with spinors in an extension" if any(ext) else "points with spinors in the field")
        ctx.check(bool(ps.spinors_are_in_field_extension) == any(ext), f"{what}: flag for spinors in an extension", key="flag", ext=ext)
        for k in range(n):
            ctx.check(bool(ps[k + 1].spinors_are_in_field_extension) == ext[k], f"{what}: flag for spinors in an extension of leg {k + 1}", key="flag")
    ctx.check(freeze_point(ps) == before, f"{what}: reading changed the point", key="changed")


def case_mixed(ctx):
    """legs given with momentum matrices of rank one: some have spinors only in an extension of a finite field"""
    rng = ctx.rng
    name = ("fp", "fpi", "fps")[ctx.index % 3]
    f = field(name)
    n = rng.randrange(3, 9)
    legs = []
    for r, l in raw_spinors(rng, n, name):
        if rng.random() < .4:
            legs.append(particle(f, r, l))
        else:
            m = numpy.empty((2, 2), dtype=object)
            for i in range(2):
                for j in range(2):
                    m[i, j] = l[i] * r[j]
            legs.append(Particle(kinematics=m, field=f))
    ps = Particles(legs, field=f, fix_mom_cons=False)
    have = [o for o in list.__iter__(ps) if o.r_sp_d is not None and o.l_sp_d is not None]
    ext = [any(isinstance(x, FieldExtension) for x in list(o.r_sp_d.flatten()) + list(o.l_sp_d.flatten())) for o in have]
    ctx.key("mixed", name, n, ctx.index)
    ctx.obs("legs with spinors in an extension", sum(ext))
    ctx.obs("legs with spinors in the field", len(ext) - sum(ext))
    for o, e in zip(have, ext):
        ctx.check(bool(o.spinors_are_in_field_extension) == e, f"flag for spinors in an extension of {name}", key="flag")
        ctx.check(o.m2 == 0, f"mass of a leg of rank one over {name}", key="m2")
    if len(have) == n:
        ctx.check(bool(ps.spinors_are_in_field_extension) == any(ext), f"flag for a point over {name}", key="flag", ext=ext)
    # one component of one spinor only
    root = next((x for o in have for x in list(o.r_sp_d.flatten()) + list(o.l_sp_d.flatten()) if isinstance(x, FieldExtension)), None)
    if root is not None:
        (r, l), = raw_spinors(rng, 1, name)
        side, k = rng.randrange(2), rng.randrange(2)
        r, l = list(r), list(l)
        (r, l)[side][k] = root
        o = particle(f, r, l)
        ctx.obs("legs with a single component in an extension")
        ctx.check(bool(o.spinors_are_in_field_extension), f"flag for a leg with one spinor component in an extension of {name}", key="flag", side=side, component=k)


def case_det(ctx):
    rng = ctx.rng
    name = ALL[ctx.index % len(ALL)]
    k = rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 6])
    M = numpy.empty((k, k), dtype=object)
    for i in range(k):
        for j in range(k):
            M[i, j] = scalar(rng, name) if rng.random() < .85 else field(name)(0)
    before = freeze(M)
    ref = [[R.lift(M[i, j]) for j in range(k)] for i in range(k)]
    sc = size(ref) ** k * 1000
    ctx.key("det", name, k, ctx.index)
    ctx.obs(f"determinants {k}x{k}")
    ctx.eq(R.detn(ref), det(M), f"determinant {k}x{k} over {name}", scale=sc, key="det")
    ctx.check(freeze(M) == before, "the determinant changed its argument", key="changed")


def case_split(ctx):
    """three non-overlapping runs of labels in cyclic order"""
    rng = ctx.rng
    n = rng.randrange(3, 13)
    name = rng.choice(["fp", "mpc", "fpi"])
    ps = any_point(ctx, n, name) if n > 3 else raw_point(ctx, n, name)
    st = sorted(rng.sample(range(1, n + 1), 3))
    if rng.random() < .5:
        k = rng.randrange(3)
        st = st[k:] + st[:k]
    ctx.key("split", n, tuple(st))
    got = ps.ijk_to_3NonOverlappingLists(list(st))
    want = []
    for i in range(3):
        run, x = [], st[i]
        while x != st[(i + 1) % 3]:
            run.append(x)
            x = x % n + 1
        want.append(run)
    ctx.check([list(x) for x in got] == want, f"splitting of {n} legs at {st}", key="split", got=got, want=want)
    Ks = ps.ijk_to_3Ks(list(st))
    for i in range(3):
        tot = [[sum((mat(ps[k])[a][b] for k in want[i]), 0) for b in range(2)] for a in range(2)]
        ctx.eqm(tot, Ks[i + 1].r2_sp, f"momentum of group {i + 1} of {n} legs split at {st}", scale=size(*[mat(o) for o in list.__iter__(ps)]) * n)
    ctx.obs("splittings")


KINDS = [("mass", case_mass, 360, 4000), ("dot", case_dot, 360, 4000), ("point", case_point, 450, 5000), ("mixed", case_mixed, 60, 600), ("det", case_det, 270, 3000), ("split", case_split, 150, 1500)]
