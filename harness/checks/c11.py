from gen import *
import re
from core import Skip
import monitors as Mo
from pyadic import GaussianRational
from checks.c05 import string_and_value
from checks.c07 import Gen, E

ID = "C11"
RULE = ("a case is one exact (rational, Gaussian rational) or p-adic point of 4-9 legs with internal masses, built by the harness or by the library, mapped to a target field; the values of ~8 random "
        "strings and expressions computed exactly at the source by independent arithmetic and mapped are compared with the library's evaluation at the mapped point; every leg is inspected in the "
        "new field; distinct = (source, target field, expression)")
ASSUMPTIONS = ["targets: finite fields and p-adics whose prime divides no denominator (with a square root of -1 for Gaussian rationals), complex numbers, Gaussian rationals; p-adics with unit components to the residue field",
               "the square root of -1 of a target is the one pyadic uses"]
PRIMES = [10007, 32003, 65537, 2 ** 31 - 1, 2 ** 31 - 19, 2147483587, 1000033, 30013]


def is_prime(n):
    return all(n % q for q in range(2, int(n ** .5) + 1))


PRIMES = [p for p in PRIMES if is_prime(p)]


class Img:
    def __init__(self, f, src):
        self.f = f
        self.i = None
        if src == "qi":
            if f.name in ("finite field", "padic"):
                self.i = R.lift(f(GaussianRational(0, 1)))

    def __call__(self, x):
        f = self.f
        if isinstance(x, R.PA):       # residue field
            if R.val(x.x, x.p) is not None and R.val(x.x, x.p) < 0 or x.N < 1:
                raise Inconclusive("not integral")
            return R.M(x.x.numerator * pow(x.x.denominator, -1, x.p), x.p)
        if isinstance(x, R.G):
            if f.name == "mpc":
                return mpmath.mpc(self.q(x.re), self.q(x.im))
            if f.name == "gaussian rational":
                return x
            return self.q(x.re) + self.i * self.q(x.im)
        return self.q(x)

    def q(self, x):
        x = Fraction(x)
        f = self.f
        if f.name == "mpc":
            return mpmath.mpf(x.numerator) / x.denominator
        if f.name == "gaussian rational":
            return R.G(x)
        if x.denominator % f.characteristic == 0:
            raise Inconclusive("p in a denominator")
        if f.name == "finite field":
            return R.M(x.numerator * pow(x.denominator, -1, f.characteristic), f.characteristic)
        return R.PA(x, f.characteristic)


def target(rng, src):
    t = rng.choice(["fp", "fp", "qp", "qp", "mpc"] + (["gr"] if src == "q" else []))
    if src == "qi" and t == "mpc":
        t = "fp"    # refused by mpmath/pyadic
    p = rng.choice([p for p in PRIMES if src == "q" or p % 4 == 1])
    if t == "fp":
        return Field('finite field', p, 1)
    if t == "qp":
        return Field('padic', p, rng.choice([1, 2, 3, 5, 8]) if rng.random() < .9 else 20)
    if t == "gr":
        return Field('gaussian rational', 0, 0)
    return Field('mpc', 0, 300)


def src_point(ctx, src, n, **kw):
    rng = ctx.rng
    if rng.random() < .35:
        ctx.obs("source point generated by the library")
        return Particles(n, field=field(src), seed=rng.randrange(10 ** 9), **kw)
    return cons_point(ctx, n, src, **kw) if rng.random() < .7 else raw_point(ctx, n, src, **kw)


def compare_leg(ctx, what, leg, oP, img, f):
    for a, b in ((leg.r, oP.r_sp_d), (leg.l, oP.l_sp_d)):
        for x, y in zip(a, numpy.asarray(b).flatten()):
            ctx.eq(img(x), y, f"{what}: spinor component", key="component", scale=10 ** 6)
            if f.name == "padic":
                ctx.check(y.n + y.k >= f.digits, f"{what}: p-adic digits lost", key="digits", got=y, digits=f.digits)
    Mo.monitor_leg(ctx, oP, f, what)
    ctx.check(oP.field == f, f"{what}: field of a leg", key="leg-field", got=oP.field)


def case_map(ctx):
    rng = ctx.rng
    src = ("q", "qi")[ctx.index % 2]
    n = rng.choice([4, 5, 6, 7, 8, 9])
    f = target(rng, src)
    kw = {}
    masses, aliases = {}, {}
    if rng.random() < .5:
        zero, one = (Fraction(0), Fraction(1)) if src == "q" else (field(src)(Fraction(0), Fraction(0)), field(src)(Fraction(1), Fraction(0)))
        d = {m: zero if rng.random() < .2 else one if rng.random() < .1 else scalar(rng, src) for m in rng.sample(["m_t", "mh2", "μ", "M_W"], 2)}
        masses = {m: R.lift(x) for m, x in d.items()}
        d["mX"] = "s_12"
        kw["internal_masses"] = d
    ps = src_point(ctx, src, n, **kw)
    P = Point.of(ps)
    if masses:
        aliases = {"mX": P.mand([1, 2])}
    conserved = P.conserves()
    img = Img(f, src)
    for L in P.legs:          # any vanishing denominator: outside the claim
        for x in L.r + L.l:
            img(x)
    what = f"{src} -> {f}"
    r = ps.to_field(f)
    ctx.check(ps.field == f, f"{what}: field of the point", key="field", got=ps.field)
    for k, L in enumerate(P.legs):
        compare_leg(ctx, f"{what}, leg {k + 1}", L, ps[k + 1], img, f)
    if conserved:
        Mo.monitor_point(ctx, ps, what)
        ctx.check(ps.momentum_conservation_check() and ps.onshell_relation_check(), f"{what}: the library's own checks on the mapped point", key="selfcheck")
    for m, x in masses.items():
        ctx.eq(img(x), ps(m), f"{what}: mass {m}", key="mass")
        ctx.check(Mo.in_field(getattr(ps, m), f), f"{what}: mass {m} left behind in the old field", key="mass-field", got=type(getattr(ps, m)))
    Q = Point.of(ps)
    sc = Q.scale() ** 8 if f.name == "mpc" else 1
    for _ in range(5):
        fam, s, v = string_and_value(rng, P, set(range(1, n + 1)), n)
        ctx.key(src, str(f), s)
        ctx.obs("strings: exact value mapped vs value at the mapped point")
        ctx.eq(img(v), ps(s), f"{what}: {s}", key="string", scale=sc)
    for _ in range(3):
        g = Gen(ctx, P, n, masses, aliases)
        try:
            r, v = g.expr(rng.choice([0, 1]))
            w = img(v.v)
        except (Inconclusive, OverflowError):
            ctx.obs("expression discarded (vanishing denominator)")
            continue
        s = r()
        if f.name == "gaussian rational" and re.search(r"(\^|\*\*)\(?[-−]|[(^]\s*\+", s):
            continue      # pyadic has neither negative powers nor unary plus there
        ctx.key(src, str(f), s)
        ctx.obs("expressions: exact value mapped vs value at the mapped point")
        try:
            got = ps(s)
        except ZeroDivisionError:
            ctx.obs("denominator vanishes in the target")
            continue
        if f.name == "mpc":
            ctx.eq(w, got, f"{what}: {s}", key="expr", scale=v.mag * 10 ** 10)
        else:
            ctx.eq(w, got, f"{what}: {s}", key="expr")


def case_residue(ctx):
    """p-adic integers (unit components) to the residue field"""
    rng = ctx.rng
    name = rng.choice(["qp", "qpi", "qps"])
    n = rng.choice([4, 5, 6, 8])
    fq = field(name)
    f = Field('finite field', fq.characteristic, 1)
    ps = any_point(ctx, n, name, internal_masses={"m_t": scalar(rng, name)})
    P = Point.of(ps)
    mass = R.lift(ps.m_t)
    img = Img(f, name)
    if any(x.v() != 0 for L in P.legs for x in L.r + L.l):
        raise Skip("non-unit component")
    cons = P.conserves()
    ps.to_field(f)
    for k, L in enumerate(P.legs):
        compare_leg(ctx, f"{name} -> {f}, leg {k + 1}", L, ps[k + 1], img, f)
    if cons:
        Mo.monitor_point(ctx, ps, f"{name} -> {f}")
    ctx.eq(img(mass), ps("m_t"), f"{name} -> {f}: mass", key="mass")
    ctx.check(Mo.in_field(ps.m_t, f), f"{name} -> {f}: mass left behind in the old field", key="mass-field", got=type(ps.m_t))
    for _ in range(6):
        fam, s, v = string_and_value(rng, P, set(range(1, n + 1)), n)
        ctx.key(name, s)
        ctx.obs("strings: p-adic value reduced vs value at the reduced point")
        ctx.eq(img(v), ps(s), f"residue of {s}", key="residue")


def case_leg(ctx):
    """one particle on its own"""
    rng = ctx.rng
    src = ("q", "qi")[ctx.index % 2]
    f = target(rng, src)
    if rng.random() < .5:
        oP = Particle(field=field(src))
    else:
        oP = raw_point(ctx, 1, src)[1]
    L = R.leg_from_lib(oP)
    img = Img(f, src)
    for x in L.r + L.l:
        img(x)
    oP.to_field(f)
    ctx.key(src, str(f))
    ctx.obs("single particles mapped")
    compare_leg(ctx, f"particle {src} -> {f}", L, oP, img, f)


KINDS = [("map", case_map, 900, 15000), ("residue", case_residue, 150, 2500), ("leg", case_leg, 200, 3000)]
