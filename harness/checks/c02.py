from gen import *
from monitors import monitor_leg, imag_unit, unl, has_i
from core import Skip, Violation
import lips

ID = "C02"
RULE = ("a case is one history of 6-14 assignments to the representations of one leg (spinors of either chirality and index position, momentum matrices, four-momenta, "
        "chirality flips) in one field and spinor convention; after every step all representations are compared with reference arithmetic; distinct = (field, convention, sequence of operations)")
ASSUMPTIONS = []

SP = ("r_sp_d", "r_sp_u", "l_sp_d", "l_sp_u")


def arr(rng, vals, attr):
    a = numpy.empty(2, dtype=object)
    a[0], a[1] = vals
    shape = {"r_sp_d": (2, 1), "r_sp_u": (1, 2), "l_sp_d": (1, 2), "l_sp_u": (2, 1)}[attr]
    return a if rng.random() < .4 else a.reshape(shape)


def mat(m):
    a = numpy.empty((2, 2), dtype=object)
    for i in range(2):
        for j in range(2):
            a[i, j] = m[i][j]
    return a


def spin_ok(o, P):
    """are the leg's spinors proper spinors of the matrix P (same field)?"""
    from pyadic.field_extension import FieldExtension
    ss = [o.r_sp_d, o.l_sp_d, o.r_sp_u, o.l_sp_u]
    if any(s is None for s in ss):
        return False
    return not any(isinstance(x, FieldExtension) for s in ss for x in s.flatten())


def case_history(ctx):
    rng = ctx.rng
    name = ALL[ctx.index % len(ALL)]
    f = field(name)
    conv = 'symmetric' if rng.random() < .6 else 'asymmetric'
    lips.spinor_convention = conv
    i = imag_unit(f)
    r0, l0 = raw_spinors(rng, 1, name)[0]
    o = particle(f, r0, l0)
    r, l = [R.lift(x) for x in r0], [R.lift(x) for x in l0]   # model
    good = True      # model has proper spinors
    monitor_leg(ctx, o, f, "after construction")
    hist = []
    for step in range(rng.randrange(6, 15)):
        ops = ["matrix", "matrix_b"] if not (name in ("q", "qi") and conv == 'symmetric') else []
        if good:
            ops += ["spinor"] * 5 + ["flip"]
        if i is not None and name != "qi":
            ops += ["four", "four_d"]
        if not ops:
            break
        op = rng.choice(ops)
        if op == "spinor":
            attr = rng.choice(SP)
            v = [scalar(rng, name), scalar(rng, name)]
            if rng.random() < .1 and f.name in ('finite field', 'mpc', 'rational'):
                v[rng.randrange(2)] = f(0)
            hist.append(attr)
            other = ("l_sp_d", "l_sp_u") if attr[0] == "r" else ("r_sp_d", "r_sp_u")
            before = [freeze(getattr(o, a)) for a in other]
            setattr(o, attr, arr(rng, v, attr))
            ctx.check([freeze(getattr(o, a)) for a in other] == before, f"assigning {attr} changed the other chirality", key="chirality", history=hist)
            w = [R.lift(x) for x in v]
            if attr == "r_sp_d":
                r = w
            elif attr == "r_sp_u":
                r = [-w[1], w[0]]
            elif attr == "l_sp_d":
                l = w
            else:
                l = [-w[1], w[0]]
            P = R.Leg(r, l).P
            kind = 'massless'
        elif op == "flip":
            hist.append("flip")
            o.angles_for_squares()
            r, l = l, r
            P = R.Leg(r, l).P
            kind = 'massless'
        else:
            massive = rng.random() < .35
            if massive:
                P = [[R.lift(scalar(rng, name)) for _ in range(2)] for _ in range(2)]
                if rng.random() < .2:
                    P[1][1] = P[1][1] * 0
                    ctx.obs('singular spinors')
                kind = 'free'
            else:
                rr, ll = [[R.lift(x) for x in s] for s in raw_spinors(rng, 1, name)[0]]
                if rng.random() < .15:
                    rr[0] = rr[0] * 0      # P0 + P3 = 0: the spinors are singular there
                    ctx.obs('singular spinors')
                P = R.Leg(rr, ll).P
                kind = 'maybe'
            hist.append(op + ("(massive)" if massive else ""))
            Pb = [[P[1][1], -P[0][1]], [-P[1][0], P[0][0]]]
            if op == "matrix":
                o.r2_sp = mat([[unl(x, f) for x in q] for q in P])
            elif op == "matrix_b":
                o.r2_sp_b = mat([[unl(x, f) for x in q] for q in Pb])
            else:
                E = (P[0][0] + P[1][1]) / 2
                z = (P[1][1] - P[0][0]) / 2
                x = (P[0][1] + P[1][0]) / (-2)
                y = (P[0][1] - P[1][0]) / (2 * i)
                four = numpy.empty(4, dtype=object)
                for k, c in enumerate((E, x, y, z) if op == "four" else (E, -x, -y, -z)):
                    four[k] = unl(c, f)
                setattr(o, "four_mom" if op == "four" else "four_mom_d", four)
            good = kind == 'maybe' and spin_ok(o, P)
            if good:
                r, l = R.lift_arr(o.r_sp_d, (2, 1)), R.lift_arr(o.l_sp_d, (1, 2))
                kind = 'massless'
        ctx.obs(f"op:{op}")
        what = f"{name}/{conv}: after {' -> '.join(hist[-4:])}"
        sc = max([1] + [abs(x) for q in P for x in q if isinstance(x, mpmath.mpc)])
        ctx.eqm(P, o.r2_sp, f"{what}: momentum matrix", scale=sc, key="momentum")
        if op in ("spinor", "flip"):
            ctx.eqm([[r[0]], [r[1]]], o.r_sp_d, f"{what}: angle spinor", scale=sc)
            ctx.eqm([[l[0], l[1]]], o.l_sp_d, f"{what}: square spinor", scale=sc)
        if kind == 'maybe' and conv == 'symmetric' and f.name == 'mpc' and not R.is_zero(P[1][1]):
            ctx.check(good, f"{what}: spinors not available over the complex numbers")
        monitor_leg(ctx, o, f, what, spinors=kind)
        ctx.obs("states compared")
    ctx.key(name, conv, tuple(hist))


def case_constructor(ctx):
    rng = ctx.rng
    name = rng.choice([x for x in ALL if x not in ("q", "qi")])
    f = field(name)
    r, l = raw_spinors(rng, 1, name)[0]
    L = R.Leg([R.lift(x) for x in r], [R.lift(x) for x in l])
    o = particle(f, r, l)
    ctx.eqm(L.P, o.r2_sp, "constructor from spinors", scale=10 ** 6)
    monitor_leg(ctx, o, f, "constructor from spinors")
    m = mat([[unl(x, f) for x in q] for q in L.P])
    o = Particle(kinematics=m, field=f)
    ctx.eqm(L.P, o.r2_sp, "constructor from matrix", scale=10 ** 6)
    monitor_leg(ctx, o, f, "constructor from matrix", spinors='maybe')
    i = imag_unit(f)
    if i is not None:
        P = L.P
        four = numpy.empty(4, dtype=object)
        for k, c in enumerate(((P[0][0] + P[1][1]) / 2, (P[0][1] + P[1][0]) / (-2), (P[0][1] - P[1][0]) / (2 * i), (P[1][1] - P[0][0]) / 2)):
            four[k] = unl(c, f)
        o = Particle(kinematics=four, field=f)
        ctx.eqm(L.P, o.r2_sp, "constructor from four-momentum", scale=10 ** 6)
        monitor_leg(ctx, o, f, "constructor from four-momentum", spinors='maybe')
        for k in range(4):
            ctx.eq(R.lift(four[k]), o[k], f"component {k} of the leg by index", scale=10 ** 6)
    ctx.key("ctor", name, ctx.index)
    for bad in (numpy.zeros(3), numpy.zeros((3, 3)), (numpy.zeros((2, 2)), numpy.zeros((1, 2))), "x", 3):
        ctx.raises(lambda: Particle(kinematics=bad, field=f), "malformed kinematics accepted", bad=bad)


KINDS = [("history", case_history, 1200, 20000), ("constructor", case_constructor, 150, 1500)]
