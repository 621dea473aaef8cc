"""Reusable state monitors: properties of one leg / one point, checked against reference arithmetic."""
import mpmath
import numpy
import ref as R
from gen import freeze, freeze_leg, field
from pyadic import ModP, PAdic, GaussianRational
from fractions import Fraction
from pyadic.field_extension import FieldExtension


def in_field(x, f):
    if f.name == 'mpc':
        return isinstance(x, (mpmath.mpc, mpmath.mpf, int))
    if f.name == 'finite field':
        return isinstance(x, ModP) and x.p == f.characteristic
    if f.name == 'padic':
        return isinstance(x, PAdic) and x.p == f.characteristic
    if f.name == 'rational':
        return isinstance(x, Fraction)
    if f.name == 'gaussian rational':
        return isinstance(x, (GaussianRational, Fraction))
    return False


def monitor_leg(ctx, oP, f=None, what="", spinors="massless", digits=230):
    """All representations exposed by one leg describe the same momentum.
    spinors: 'massless' (spinors must reproduce the momentum), 'maybe' (may be absent or in an extension), 'free'."""
    f = f or oP.field
    ctx.obs("leg states examined")
    P = R.lift_arr(oP.r2_sp, (2, 2))
    P = [P[:2], P[2:]]
    sc = max([1] + [abs(x) for r in P for x in r if isinstance(x, mpmath.mpc)])
    Pb = [[P[1][1], -P[0][1]], [-P[1][0], P[0][0]]]
    ctx.eqm(Pb, oP.r2_sp_b, f"{what}: lower-index momentum matrix", scale=sc)
    # four momentum
    p4 = oP.four_mom
    if p4 is not None:
        ctx.obs("four-momentum compared")
        p4 = numpy.asarray(p4)
        ctx.check(p4.shape == (4,), f"{what}: four-momentum shape", got=p4.shape)
        i = imag_unit(f)
        if i is None and f.name in ('finite field', 'padic'):
            ctx.check(P[0][1] == P[1][0] and all(c is not None for c in p4), f"{what}: four-momentum reported where none exists in the field", got=p4)
        if i is not None:
            E, x, y, z = [R.lift(c) for c in p4]
            # P^{α̇α} = p_μ σ^μ = E - p.σ
            want = [[E - z, -x + i * y], [-x - i * y, E + z]]
            for a in range(2):
                for b in range(2):
                    ctx.eq(P[a][b], unl(want[a][b], f), f"{what}: four-momentum contracted with Pauli matrices [{a},{b}]", scale=sc)
            p4d = numpy.asarray(oP.four_mom_d)
            for k in range(4):
                ctx.eq(R.lift(p4[k]) * (1 if k == 0 else -1), p4d[k], f"{what}: lower-index four-momentum component {k}", scale=sc)
    elif f.name in ('mpc', 'gaussian rational') or has_i(f):
        ctx.check(False, f"{what}: four-momentum reported undefined in a field with a square root of -1")
    # spinors
    rs = [oP.r_sp_d, oP.r_sp_u, oP.l_sp_d, oP.l_sp_u]
    if any(s is None for s in rs):
        ctx.check(all(s is None for s in rs), f"{what}: only some spinors are undefined")
        ctx.check(spinors in ('maybe', 'free'), f"{what}: spinors undefined for a massless leg")
        return
    if any(isinstance(x, FieldExtension) for s in rs for x in s.flatten()):
        ctx.check(spinors in ('maybe', 'free'), f"{what}: spinors left the field")
        ctx.obs("spinors in a field extension")
        return
    r, l = R.lift_arr(oP.r_sp_d, (2, 1)), R.lift_arr(oP.l_sp_d, (1, 2))
    ctx.eqm([[r[1], -r[0]]], oP.r_sp_u, f"{what}: upper-index angle spinor", scale=sc)
    ctx.eqm([[l[1]], [-l[0]]], oP.l_sp_u, f"{what}: upper-index square spinor", scale=sc)
    if spinors == 'massless':
        L = R.Leg(r, l)
        ctx.eqm(L.P, oP.r2_sp, f"{what}: momentum matrix vs spinors", scale=sc)
        ctx.eqm(L.Pb, oP.r2_sp_b, f"{what}: lower momentum matrix vs spinors", scale=sc)
        for x in r + l:
            pass
        for s in rs:
            for x in s.flatten():
                ctx.check(in_field(x, f), f"{what}: spinor component not in {f}", got=type(x))
    ctx.eq(R.det2(P), oP.m2, f"{what}: mass squared", scale=sc * sc)


def has_i(f):
    return f.name in ('finite field', 'padic') and f.characteristic % 4 == 1


_ISQ = {}


def imag_unit(f):
    """a square root of -1 in reference arithmetic, with the sign the library's scalar arithmetic uses; None if there is none."""
    if f.name == 'mpc':
        return mpmath.mpc(0, 1)
    if f.name == 'gaussian rational':
        return R.G(0, 1)
    if has_i(f):
        key = str(f)
        if key not in _ISQ:
            one = f(1)
            _ISQ[key] = R.lift(one * 1j)   # pyadic's own embedding of the imaginary unit
            assert (_ISQ[key] * _ISQ[key] + 1) == 0
        return _ISQ[key]
    return None


def unl(x, f):
    """reference scalar back to a library-like scalar for ctx.eq"""
    if isinstance(x, R.M):
        return ModP(x.v, x.p)
    if isinstance(x, R.PA):
        x_ = Fraction(x.x)
        N = min(x.N, 4 * f.digits)
        v = R.val(x_, x.p)
        if v is None or v >= N:
            return PAdic(0, x.p, 0, N)
        u = x_ / Fraction(x.p) ** v
        k = N - v
        m = x.p ** k
        return PAdic(u.numerator * pow(u.denominator, -1, m) % m, x.p, k, v)
    if isinstance(x, R.G):
        return GaussianRational(x.re, x.im)
    return x


def monitor_point(ctx, oPs, what, conserve=True, massless=True, digits=None):
    """A phase-space point: conservation and masslessness recomputed from the library's matrices and, independently, from its spinors."""
    ctx.obs("points examined")
    n = len(oPs)
    for name, P in (("momentum matrices", R.Point.of(oPs, set(range(1, n + 1)))), ("spinors", R.Point.of(oPs) if massless else None)):
        if P is None:
            continue
        s = P.scale()
        d = digits or 265
        if conserve:
            for rrow in P.total():
                for x in rrow:
                    ctx.check(R.is_zero(x, s, d), f"{what}: total momentum from {name} is not zero", total=x)
        if massless:
            for k, L in enumerate(P.legs):
                ctx.check(R.is_zero(R.det2(L.P), s * s, d), f"{what}: leg {k + 1} is not massless", m2=R.det2(L.P))
