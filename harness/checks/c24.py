from gen import *
from core import Skip, Violation
import monitors as Mo

ID = "C24"
RULE = ("a case is one complex point, helicity assignment and reference vector; contractions for all or random leg pairs are compared with brackets of the harness's own spinors and with identities they must satisfy "
        "(transversality, conservation, symmetry, completeness sum over helicities, shift under a change of reference); distinct = (kind, n, helicities, reference)")
ASSUMPTIONS = ["complex numbers only (the library divides by the square root of two)", "references not parallel to a leg"]


def setup(ctx, n, labels=None):
    rng = ctx.rng
    ps = cons_point(ctx, n, "mpc")
    hel = "".join(rng.choice("+-") for _ in range(n))
    lab = {"+": "+p", "-": "-m"}
    style = rng.choice(["string", "list", "mixed", "tuple"])
    conf = hel if style == "string" else [rng.choice(lab[h]) for h in hel]
    ps.helconf = tuple(conf) if style == "tuple" else conf
    r, l = raw_spinors(rng, 1, "mpc")[0]
    ps.oRefVec = particle(field("mpc"), r, l)
    return ps, hel, style


def br(a, b):
    return a[0] * b[1] - a[1] * b[0]


class Brackets:
    """⟨ij⟩ and [ij] from the legs' spinors with index 0 for the reference, in the library's sign conventions fixed by ⟨ij⟩[ji] = 2 p.p"""

    def __init__(self, ps):
        L = [ps.oRefVec] + list(ps)
        self.r = [[x.r_sp_d[0, 0], x.r_sp_d[1, 0]] for x in L]
        self.l = [[x.l_sp_d[0, 0], x.l_sp_d[0, 1]] for x in L]

    def a(self, i, j):
        return -br(self.r[i], self.r[j])

    def s(self, i, j):
        return br(self.l[i], self.l[j])

    def dot(self, i, j):
        return self.a(i, j) * self.s(j, i) / 2

    def plus(self, i, j):     # ε+_i . p_j
        return self.a(0, j) * self.s(j, i) / (mpmath.sqrt(2) * self.a(0, i))

    def minus(self, i, j):
        return self.a(i, j) * self.s(j, 0) / (mpmath.sqrt(2) * self.s(i, 0))

    def ep(self, h, i, j):
        return self.plus(i, j) if h == "+" else self.minus(i, j)

    def ee(self, hi, hj, i, j):
        if hi == hj:
            return mpmath.mpc(0)
        if hi == "-":
            return self.a(i, 0) * self.s(j, 0) / (self.s(i, 0) * self.a(0, j))
        return self.ee(hj, hi, j, i)


def case_values(ctx):
    rng = ctx.rng
    n = rng.choice([4, 5, 6, 7, 10, 11])
    ps, hel, style = setup(ctx, n)
    B = Brackets(ps)
    # the convention: ⟨12⟩[21] = 2 p1.p2
    i, j = rng.sample(range(1, n + 1), 2)
    if not R.close(ps.compute(f"⟨{i}|{j}⟩"), B.a(i, j)):
        raise Violation("spinor product differs from the spinors' determinant", key="convention")
    ctx.key("values", n, hel, style)
    before = freeze_point(ps), freeze_leg(ps.oRefVec)
    pairs = [(i, j) for i in range(1, n + 1) for j in range(1, n + 1)]
    rng.shuffle(pairs)
    for i, j in pairs[:40]:
        w = f"helicities {list(ps.helconf)}, legs {i},{j}"
        ctx.eq(B.ep(hel[i - 1], i, j), ps.ep(i, j), f"ep, {w}", key="ep")
        ctx.eq(B.ep(hel[j - 1], j, i), ps.pe(i, j), f"pe, {w}", key="pe")
        ctx.eq(B.ee(hel[i - 1], hel[j - 1], i, j), mpmath.mpc(ps.ee(i, j)), f"ee, {w}", key="ee")
        ctx.eq(mpmath.mpc(ps.ee(j, i)), mpmath.mpc(ps.ee(i, j)), f"ee not symmetric, {w}", key="ee")
        ctx.obs("contractions", 3)
        if hel[i - 1] == hel[j - 1]:
            ctx.check(ps.ee(i, j) == 0, f"ee of equal helicities is {ps.ee(i, j)}, {w}", key="equal")
            ctx.obs("equal-helicity contractions")
    for i in range(1, n + 1):
        ctx.eq(mpmath.mpc(0), ps.ep(i, i), f"leg {i} not transverse to its own momentum", key="transverse")
        ctx.eq(mpmath.mpc(0), sum(ps.ep(i, j) for j in range(1, n + 1)), f"sum over legs of ep({i}, j)", key="conserved")
    ctx.check((freeze_point(ps), freeze_leg(ps.oRefVec)) == before, "the contractions changed the point", key="mutation")
    # the same contractions after a change of helicities, reference (replaced or changed in place) and legs
    log = []
    for _ in range(3):
        op = rng.choice(["helicity", "reference", "reference in place", "leg", "swap"])
        log.append(op)
        if op == "helicity":
            i = rng.randrange(n)
            hel = hel[:i] + ("-" if hel[i] == "+" else "+") + hel[i + 1:]
            ps.helconf = list(hel)
        elif op == "reference":
            r, l = raw_spinors(rng, 1, "mpc")[0]
            ps.oRefVec = particle(field("mpc"), r, l)
        elif op == "reference in place":
            r, l = raw_spinors(rng, 1, "mpc")[0]
            ps.oRefVec.r_sp_d, ps.oRefVec.l_sp_d = col(*r), row(*l)
        elif op == "leg":
            r, l = raw_spinors(rng, 1, "mpc")[0]
            i = rng.randrange(1, n + 1)
            ps[i].r_sp_d, ps[i].l_sp_d = col(*r), row(*l)
        else:
            i, j = rng.sample(range(1, n + 1), 2)
            ps[i], ps[j] = ps[j], ps[i]
        B = Brackets(ps)
        for i, j in pairs[:12]:
            w = f"helicities {list(ps.helconf)}, legs {i},{j}, after {log}"
            ctx.eq(B.ep(hel[i - 1], i, j), ps.ep(i, j), f"ep, {w}", key="ep")
            ctx.eq(B.ep(hel[j - 1], j, i), ps.pe(i, j), f"pe, {w}", key="pe")
            ctx.eq(B.ee(hel[i - 1], hel[j - 1], i, j), mpmath.mpc(ps.ee(i, j)), f"ee, {w}", key="ee")
            ctx.obs("contractions after a change", 3)


def case_identities(ctx):
    """formula-free: completeness of the two polarisations, reference independence up to the momentum"""
    rng = ctx.rng
    n = rng.choice([4, 5, 6, 8])
    ps, hel, style = setup(ctx, n)
    ctx.key("identities", n, hel, style)
    i, j, k = rng.sample(range(1, n + 1), 3)
    q = ps.oRefVec

    def d(a, b):
        return lips.tools.ldot(a, b)

    def conf(**kw):
        c = list(hel)
        for leg, h in kw.items():
            c[int(leg[1:]) - 1] = h
        ps.helconf = c
    vals = {}
    for h in "+-":
        conf(**{f"l{i}": h})
        vals[h] = (ps.ep(i, j), ps.ep(i, k))
    lhs = vals["+"][0] * vals["-"][1] + vals["-"][0] * vals["+"][1]
    rhs = -d(ps[j], ps[k]) + (d(ps[i], ps[j]) * d(q, ps[k]) + d(q, ps[j]) * d(ps[i], ps[k])) / d(ps[i], q)
    ctx.eq(rhs, lhs, f"sum over the polarisations of leg {i} contracted with legs {j}, {k}", key="completeness")
    for hk in "+-":
        tot = 0
        for h in "+-":
            conf(**{f"l{i}": h, f"l{k}": hk})
            e = ps.ep(i, j)
            conf(**{f"l{i}": "-" if h == "+" else "+", f"l{k}": hk})
            tot = tot + e * ps.ee(i, k)
        conf(**{f"l{k}": hk})
        rhs = -ps.ep(k, j) + ps.ep(k, i) * d(q, ps[j]) / d(ps[i], q)
        ctx.eq(rhs, tot, f"sum over the polarisations of leg {i} contracted with leg {j} and polarisation {k}{hk}", key="completeness")
    # another reference
    ps.helconf = hel
    old = {(i, m): ps.ep(i, m) for m in range(1, n + 1)}
    r, l = raw_spinors(rng, 1, "mpc")[0]
    ps.oRefVec = particle(field("mpc"), r, l)
    c = None
    for m in range(1, n + 1):
        if m == i:
            continue
        ratio = (ps.ep(i, m) - old[i, m]) / d(ps[i], ps[m])
        if c is not None:
            ctx.eq(c, ratio, f"changing the reference shifts the polarisation of {i} by more than its momentum", key="gauge")
        c = ratio
    ctx.check(abs(c) > mpmath.mpf(10) ** -50, "the reference has no effect", key="gauge")
    # a leg as reference of the others: transverse to it
    ps.oRefVec = ps[k]
    for m in range(1, n + 1):
        if m != k:
            ctx.eq(mpmath.mpc(0), ps.ep(m, k), f"polarisation {m} not transverse to its reference, leg {k}", key="transverse")
    ctx.obs("identities", 3 + 2 * n)


KINDS = [("values", case_values, 160, 4000), ("identities", case_identities, 160, 4000)]
