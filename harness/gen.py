"""Workload generators: fields, points built independently of the library's generator, spinor strings with reference values."""
from fractions import Fraction
import itertools
import mpmath
import numpy
import ref as R
from ref import Point, Leg, Inconclusive
from core import Skip
from syngular import Field
import lips
from lips import Particles, Particle

_F = dict(mpc=('mpc', 0, 300), fp=('finite field', 2 ** 31 - 1, 1), fpi=('finite field', 2 ** 31 - 19, 1), fps=('finite field', 32003, 1),
          qp=('padic', 2 ** 31 - 1, 5), qpi=('padic', 2 ** 31 - 19, 4), qps=('padic', 10007, 6), q=('rational', 0, 0), qi=('gaussian rational', 0, 0))
EXACT_FIELDS = ('fp', 'fpi', 'fps', 'q', 'qi')
MAIN = ('mpc', 'fp', 'fpi', 'qp', 'qpi')
ALL = tuple(_F)


def field(name):
    mpmath.mp.dps = 300
    return Field(*_F[name])


def scalar(rng, name):
    """random non-zero library scalar of the field, and independent of the library's own randomness"""
    f = field(name)
    if name == 'mpc':
        return mpmath.mpc(mpmath.mpf(rng.randrange(-99, 100)) / rng.randrange(1, 60) + mpmath.mpf(rng.getrandbits(900)) / 2 ** 900,
                          mpmath.mpf(rng.randrange(-99, 100)) / rng.randrange(1, 60) + mpmath.mpf(rng.getrandbits(900)) / 2 ** 900)
    if name in ('fp', 'fpi', 'fps'):
        return f(rng.randrange(1, f.characteristic))
    if name in ('qp', 'qpi', 'qps'):
        x = rng.randrange(1, f.characteristic ** f.digits)
        while x % f.characteristic == 0:
            x = rng.randrange(1, f.characteristic ** f.digits)
        return f(x)
    if name == 'q':
        return Fraction(rng.choice([-1, 1]) * rng.randrange(1, 200), rng.randrange(1, 60))
    if name == 'qi':
        return f(Fraction(rng.choice([-1, 1]) * rng.randrange(1, 60), rng.randrange(1, 20)), Fraction(rng.choice([-1, 1]) * rng.randrange(1, 60), rng.randrange(1, 20)))
    raise KeyError(name)


def small(rng):
    return Fraction(rng.choice([-1, 1]) * rng.randrange(1, 12), rng.choice([1, 1, 2, 3, 5, 7]))


def to_lib(f, x):
    if f.name == 'mpc':
        if isinstance(x, Fraction):
            return mpmath.mpc(mpmath.mpf(x.numerator) / x.denominator)
        return mpmath.mpc(x)
    if f.name == 'gaussian rational':
        return f(x.re, x.im) if isinstance(x, R.G) else f(Fraction(x), 0)
    if isinstance(x, R.M):
        return f(x.v)
    if f.name == 'padic':
        if isinstance(x, R.PA):
            x = x.x
        if Fraction(x).denominator % f.characteristic == 0:
            raise Inconclusive("p in a denominator")
        m = f.characteristic ** f.digits
        x = Fraction(x)
        return f(x.numerator * pow(x.denominator, -1, m) % m)
    if f.name == 'finite field':
        x = Fraction(x)
        if x.denominator % f.characteristic == 0:
            raise Inconclusive("p in a denominator")
        return f(x.numerator * pow(x.denominator, -1, f.characteristic))
    return f(x)


def col(a, b):
    r = numpy.empty((2, 1), dtype=object)
    r[0, 0], r[1, 0] = a, b
    return r


def row(a, b):
    r = numpy.empty((1, 2), dtype=object)
    r[0, 0], r[0, 1] = a, b
    return r


def particle(f, r, l):
    return Particle(kinematics=(col(*r), row(*l)), field=f)


def raw_spinors(rng, n, name):
    return [([scalar(rng, name), scalar(rng, name)], [scalar(rng, name), scalar(rng, name)]) for _ in range(n)]


def raw_point(ctx, n, name, **kw):
    """point that does not conserve momentum, from harness-chosen spinors"""
    f = field(name)
    return Particles([particle(f, r, l) for r, l in raw_spinors(ctx.rng, n, name)], field=f, fix_mom_cons=False, seed=ctx.rng.randrange(10 ** 9), **kw)


def conserving_spinors(rng, n, name):
    """exactly conserving massless spinors solved by the reference arithmetic"""
    f = field(name)
    for _ in range(20):
        try:
            if name == 'mpc':
                def draw(): return R.lift(scalar(rng, 'mpc'))
            elif name == 'qi':
                def draw(): return R.lift(scalar(rng, 'qi'))
            elif name == 'q':
                def draw(): return small(rng)
            else:
                m = f.characteristic ** f.digits
                def draw():
                    while True:
                        x = rng.randrange(1, m)
                        if x % f.characteristic:
                            return R.M(x, f.characteristic) if f.name == 'finite field' else R.PA(x, f.characteristic, f.digits)
            r = [[draw(), draw()] for _ in range(n)]
            l = [[draw(), draw()] for _ in range(n)]
            A, B = rng.sample(range(n), 2)
            if rng.random() < 0.5:
                r, l = l, r
                swapped = True
            else:
                swapped = False
            def br(x, y): return x[0] * y[1] - x[1] * y[0]
            dAB = br(r[A], r[B])
            rest = [k for k in range(n) if k not in (A, B)]
            l[A] = [sum((br(r[k], r[B]) * l[k][c] for k in rest), 0) * (-1) / dAB for c in range(2)]
            l[B] = [sum((br(r[k], r[A]) * l[k][c] for k in rest), 0) / dAB for c in range(2)]
            if swapped:
                r, l = l, r
            if any(R.is_zero(x) for s in r + l for x in s):
                continue
            return [([to_lib(f, x) for x in r[k]], [to_lib(f, x) for x in l[k]]) for k in range(n)]
        except (Inconclusive, ZeroDivisionError):
            continue
    raise Skip("no conserving spinors")


def cons_point(ctx, n, name, **kw):
    f = field(name)
    return Particles([particle(f, r, l) for r, l in conserving_spinors(ctx.rng, n, name)], field=f, fix_mom_cons=False, seed=ctx.rng.randrange(10 ** 9), **kw)


def special_point(ctx, n, name, **kw):
    """point (not conserving momentum) with vanishing, unit and repeated spinor components and parallel spinors"""
    f, rng = field(name), ctx.rng
    sp = []
    for r, l in raw_spinors(rng, n, name):
        for v in (r, l):
            k = rng.randrange(8)
            if k == 0:
                v[rng.randrange(2)] = f(0)
            elif k == 1:
                v[rng.randrange(2)] = f(rng.choice([1, -1]))
            elif k == 2:
                v[0] = v[1]
            elif k == 3 and sp:
                v[:] = list(rng.choice(sp)[rng.randrange(2)])
        sp.append((r, l))
    ctx.obs("points with special spinor components")
    return Particles([particle(f, r, l) for r, l in sp], field=f, fix_mom_cons=False, seed=rng.randrange(10 ** 9), **kw)


def any_point(ctx, n, name, **kw):
    if kw.pop("special", False) and ctx.rng.random() < 0.2:
        return special_point(ctx, n, name, **kw)
    if ctx.rng.random() < 0.5:
        return raw_point(ctx, n, name, **kw)
    return cons_point(ctx, n, name, **kw)


# ------------------------------------------------------------------ snapshots

def freeze(x):
    """hashable deep value of library data, for before/after comparisons"""
    from pyadic import ModP, PAdic, GaussianRational
    from pyadic.field_extension import FieldExtension
    if isinstance(x, numpy.ndarray):
        return ('arr', x.shape, tuple(freeze(y) for y in x.flatten()))
    if isinstance(x, ModP):
        return ('modp', x.n, x.p)
    if isinstance(x, PAdic):
        return ('padic', x.num, x.p, x.k, x.n)
    if isinstance(x, GaussianRational):
        return ('qi', x.real, x.imag)
    if isinstance(x, (mpmath.mpc, mpmath.mpf)):
        return ('mp', x._mpc_ if isinstance(x, mpmath.mpc) else x._mpf_)
    if isinstance(x, FieldExtension):
        return ('ext', str(x))
    if isinstance(x, (int, Fraction, float, complex)):
        return ('num', type(x).__name__, x)
    if isinstance(x, (list, tuple)) and not isinstance(x, Particles):
        return tuple(freeze(y) for y in x)
    if isinstance(x, (set, frozenset)):
        return ('set', tuple(sorted(map(repr, x))))
    if isinstance(x, dict):
        return tuple(sorted((str(k), freeze(v)) for k, v in x.items()))
    if isinstance(x, Particle):
        return freeze_leg(x)
    return ('obj', type(x).__name__, str(x))


def freeze_leg(oP):
    return tuple(freeze(getattr(oP, a)) for a in ('r_sp_d', 'r_sp_u', 'l_sp_d', 'l_sp_u', 'r2_sp', 'r2_sp_b', 'four_mom', 'four_mom_d')) + (str(oP.field),)


def freeze_point(oPs):
    legs = tuple(freeze_leg(oP) for oP in list.__iter__(oPs))
    masses = freeze({k: getattr(oPs, k) for k in oPs.internal_masses})
    return (legs, masses, str(oPs.field))


# ------------------------------------------------------------------ strings

def msum(rng, n, maxlen=3, signed=True, avoid=()):
    k = rng.randrange(1, maxlen + 1)
    idx = rng.sample([i for i in range(1, n + 1) if i not in avoid], min(k, n - len(avoid)))
    return [idx[0]] + [(-i if signed and rng.random() < 0.4 else i) for i in idx[1:]]


def render_sum(rng, m, paren=None):
    s = "".join(("+" if (k and i > 0) else "-" if i < 0 else "") + str(abs(i)) for k, i in enumerate(m))
    if paren is None:
        paren = rng.random() < 0.5
    return "(" + s + ")" if paren and len(m) > 1 else s


def bold(s):
    return s.translate({ord(str(d)): 0x1D7CE + d for d in range(10)})
