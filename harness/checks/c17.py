import contextlib
import io
from gen import *
from core import Skip, Violation
import monitors as Mo
import refstr

ID = "C17"
RULE = ("a case is one point in one field with a controlled flaw (none, below tolerance, just above, order one; on one matrix entry of one leg or of two legs so that they cancel) or with prepared outliers (rescaled and "
        "parallel spinors, p-adically small or large ones); the three checks are called and their verdicts and outlier lists compared with the harness's own evaluation of total momentum, masses and invariants; "
        "the point and the caller's list are compared before and after; distinct = (kind, field, n, flaw, size)")
ASSUMPTIONS = ["over the complex numbers violations within a factor 1e4 of the tolerance are not drawn", "outliers over the complex and rational numbers: at most 1e-8 or at least 1e8 (values within a factor 100 are not drawn)"]


def mat(P):
    r = numpy.empty((2, 2), dtype=object)
    for a in range(2):
        for b in range(2):
            r[a, b] = P[a][b]
    return r


def tol_exceeded(x, f, name):
    """does a reference number count as non-zero?  None: too close to call"""
    if f.name == "padic":
        return x.v() < f.digits if not R.is_zero(x) else False
    if name == "mpc":
        T = mpmath.mpf(10) ** -284
        a = abs(x)
        if a > T * 10 ** 4:
            return True
        if a < T / 10 ** 3:
            return False
        return None
    return not R.is_zero(x)


def truth(vals, f, name):
    v = [tol_exceeded(x, f, name) for x in vals]
    if any(x is True for x in v):
        return False
    if any(x is None for x in v):
        return None
    return True


def case_verdict(ctx):
    rng = ctx.rng
    name = ("mpc", "fp", "fpi", "qp", "qpi", "q", "qi", "mpc", "qps")[ctx.index % 9]
    f = field(name)
    n = rng.choice([2, 3, 4, 5, 6, 9, 11]) if name != "qi" else rng.choice([4, 5, 6])
    n = max(n, 4)
    ps = cons_point(ctx, n, name)
    flaw = rng.choice(["none", "entry", "entry", "pair", "pair", "spinor", "swap", "cancel", "cancel", "opposite"])
    size = None
    if name == "mpc":
        k = rng.choice([0, 100, 200, 270, 276, 292, 295])
        size = mpmath.mpf(10) ** -k * rng.choice([1, 1, -1, 1j, -1j, 1 + 1j])
    elif f.name == "padic":
        k = rng.choice([0, 1, f.digits - 1, f.digits - 2])
        size = f(f.characteristic ** k * rng.randrange(1, f.characteristic))
    elif name == "q":
        k, size = 0, small(rng)
    else:
        k, size = 0, scalar(rng, name)
    a, b = rng.randrange(2), rng.randrange(2)
    i, j = rng.sample(range(1, n + 1), 2)
    ctx.key("verdict", name, n, flaw, k, a, b, i)

    def shift(leg, sign, at=None, by=None):
        P = [[leg.r2_sp[x, y] for y in range(2)] for x in range(2)]
        x, y = at or (a, b)
        by = size if by is None else by
        P[x][y] = P[x][y] + by if sign > 0 else P[x][y] - by
        leg.r2_sp = mat(P)
    if rng.random() < .5:      # asked before the flaw is planted, and again after
        with contextlib.redirect_stdout(io.StringIO()):
            first = ps.momentum_conservation_check(), ps.onshell_relation_check(), ps.phasespace_consistency_check()[:2]
        ctx.check(all(first[:2]) and all(first[2]), f"verdicts {first} on a valid point with {n} legs over {name}", key="valid")
        ctx.obs("verdicts before the flaw")
    try:
        if flaw == "cancel":   # two masses squared of opposite sign: their sum vanishes
            c = [(-1) ** (a + b) * ps[m].r2_sp[1 - a, 1 - b] for m in (i, j)]
            by = size * c[0] / c[1]
            shift(ps[i], 1)
            shift(ps[j], -1, by=by)
            ctx.obs("masses squared adding up to zero")
        elif flaw == "opposite":   # the entries of the total momentum add up to zero
            shift(ps[i], 1)
            shift(ps[i], -1, at=rng.choice([(1 - a, b), (a, 1 - b), (1 - a, 1 - b)]))
            ctx.obs("momentum violations adding up to zero")
        if flaw in ("entry", "pair"):
            shift(ps[i], 1)
            if flaw == "pair":
                shift(ps[j], -1)
        elif flaw == "spinor":
            r = ps[i].r_sp_d
            c = [r[0, 0], r[1, 0]]
            c[a] = c[a] + size
            ps[i].r_sp_d = col(*c)
        elif flaw == "swap":
            x, y = ps[i].l_sp_d[0, 0], ps[i].l_sp_d[0, 1]
            ps[i].l_sp_d = row(y, x)
    except Exception as e:
        if name in ("q", "qi"):
            raise Skip(f"flaw cannot be planted: {type(e).__name__}")
        raise
    P = Point.of(ps, set(range(1, n + 1)))
    tot = [x for rr in P.total() for x in rr]
    m2 = [R.det2(L.P) for L in P.legs]
    mom, ons = truth(tot, f, name), truth(m2, f, name)
    before = freeze_point(ps)
    what = f"{flaw} of size {k} on leg {i} of {n}, entry {a}{b}, over {name}"
    with contextlib.redirect_stdout(io.StringIO()):
        got = ps.momentum_conservation_check(), ps.onshell_relation_check(), ps.momentum_conservation_check(silent=False), ps.onshell_relation_check(silent=False)
    if mom is not None:
        ctx.check(bool(got[0]) == mom and bool(got[2]) == mom, f"momentum-conservation verdict {got[0]}/{got[2]}, truth {mom}: {what}", key="momentum", total=tot)
        ctx.obs(f"momentum verdicts ({mom})")
    if ons is not None:
        ctx.check(bool(got[1]) == ons and bool(got[3]) == ons, f"on-shell verdict {got[1]}/{got[3]}, truth {ons}: {what}", key="onshell", m2=m2)
        ctx.obs(f"on-shell verdicts ({ons})")
    spin = flaw in ("none", "spinor", "swap")
    if spin:
        r = ps.phasespace_consistency_check()
        ctx.check(len(r) == 4, f"consistency check returns {len(r)} items: {what}")
        if mom is not None:
            ctx.check(bool(r[0]) == mom, f"full check: momentum verdict {r[0]}, truth {mom}: {what}", key="full")
        if ons is not None:
            ctx.check(bool(r[1]) == ons, f"full check: on-shell verdict {r[1]}, truth {ons}: {what}", key="full")
        ctx.obs("full checks")
    ctx.check(freeze_point(ps) == before, f"the checks changed the point: {what}", key="mutation")


def classify(v, f, name):
    """'small', 'big', 'normal' or None (too close to call)"""
    if f.name == "finite field":
        return "small" if R.is_zero(v) else "normal"
    if f.name == "padic":
        if R.is_zero(v):
            return "small"
        return "small" if v.v() >= 1 else "big" if v.v() <= -1 else "normal"
    if name == "qi":
        a = mpmath.sqrt(mpmath.mpf((v.re ** 2 + v.im ** 2).numerator) / (v.re ** 2 + v.im ** 2).denominator)
    elif name == "q":
        a = abs(mpmath.mpf(v.numerator) / v.denominator)
    else:
        a = abs(v)
    if a <= mpmath.mpf(10) ** -10:
        return "small"
    if a >= mpmath.mpf(10) ** 10:
        return "big"
    lim = 3 if name == "qi" else 6   # the size of a Gaussian rational is its norm, |z|^2
    if mpmath.mpf(10) ** -lim < a < mpmath.mpf(10) ** lim:
        return "normal"
    return None


def components(P, s):
    if s.startswith("|") or s.endswith("|"):      # a spinor; the position of its index changes no magnitude
        L = P[int(s.strip("|⟨⟩[]"))]
        return list(L.r if "⟨" in s or "⟩" in s else L.l)
    return [refstr.value(P, s)]


def case_outliers(ctx):
    rng = ctx.rng
    name = ("mpc", "fp", "fpi", "fps", "qp", "qpi", "q", "qi", "qps", "mpc", "qp")[ctx.index % 11]
    f = field(name)
    n = rng.choice([4, 5, 6, 7, 11])
    sp = raw_spinors(rng, n, name)
    if name == "mpc":
        sp = [([x / 10 for x in r], [x / 10 for x in l]) for r, l in sp]
    # prepared outliers
    for _ in range(rng.randrange(0, 4)):
        i, j = rng.sample(range(n), 2)
        w = rng.choice([0, 1])
        c = rng.choice(["parallel", "scale", "nearly", "component"])
        new = list(sp[j])
        if c == "component":     # one component vanishes
            new[w] = [new[w][0], f(0)] if rng.random() < .5 else [f(0), new[w][1]]
        elif c == "parallel":
            new[w] = list(sp[i][w])
        elif c == "scale" and name == "mpc":
            s = mpmath.mpf(10) ** rng.choice([-15, 15, -40, 40])
            new[w] = [x * s for x in new[w]]
        elif c == "scale" and name == "q":
            s = Fraction(10) ** rng.choice([-15, 15])
            new[w] = [x * s for x in new[w]]
        elif c == "scale" and f.name == "padic":
            s = f(f.characteristic)
            new[w] = [x * s for x in new[w]] if rng.random() < .6 else [x / s for x in new[w]]
        elif c == "nearly" and name == "mpc":
            e = mpmath.mpf(10) ** -rng.randrange(14, 60)
            new[w] = [sp[i][w][0] + e, sp[i][w][1]]
        elif c == "nearly" and f.name == "padic":
            e = f(f.characteristic ** rng.randrange(1, f.digits - 1))
            new[w] = [sp[i][w][0] + e, sp[i][w][1]]
        else:
            continue
        sp[j] = tuple(new)
    ps = Particles([particle(f, r, l) for r, l in sp], field=f, fix_mom_cons=False, seed=1)
    full = [f"⟨{i}|{j}⟩" for i in range(1, n + 1) for j in range(i + 1, n + 1)] + [f"[{i}|{j}]" for i in range(1, n + 1) for j in range(i + 1, n + 1)]
    explicit = rng.random() < .6
    if explicit:
        d = min(n, 9)
        pool = list(full) if n < 10 else [s for s in full if all(int(x) < 10 for x in s[1:-1].split("|"))]
        for _ in range(6):
            a, b, c, e = rng.sample(range(1, d + 1), 4)
            pool += [f"⟨{a}|({b}+{c})|{e}]", f"s_{a}{b}", f"[{a}|({b}+{c})|({c}+{e})|{a}]"]
            pool += [f"|{a}⟩", f"[{b}|", f"⟨{c}|", f"|{e}]"]
        if rng.random() < .15:      # everything one can ask for at once
            ix = range(1, min(n, 6) + 1)
            pool += [f"⟨{a}|({b}+{c})|{e}]" for a in ix for e in ix for b, c in itertools.combinations(ix, 2) if len({a, b, c, e}) >= 3]
            ctx.obs("long lists of invariants")
        names = sorted(set(pool))
        rng.shuffle(names)
        if len(names) < 200:
            names = names[:rng.randrange(1, len(names) + 1)]
    else:
        names = full
    P = Point.of(ps)
    cls = {}
    for s in names:
        parts = components(P, s)
        if any(isinstance(x, R.PA) and R.is_zero(x) and x.N < 1 for x in parts):
            raise Skip("p-adic precision exhausted")
        c = [classify(x, f, name) for x in parts]
        # the largest component decides
        cls[s] = "big" if "big" in c else None if None in c else "normal" if "normal" in c else "small"
        if len(parts) > 1 and cls[s] is not None:
            ctx.obs("open-index strings")
    ctx.key("outliers", name, n, explicit, sorted(k for k, c in cls.items() if c != "normal"))
    tot = [x for rr in P.total() for x in rr]
    before = freeze_point(ps)
    arg = list(names)
    silent = rng.random() < .7
    with contextlib.redirect_stdout(io.StringIO()):
        r = ps.phasespace_consistency_check(arg, silent) if explicit else ps.phasespace_consistency_check(silent=silent)
    what = f"outliers over {name}, n={n}, {'explicit' if explicit else 'default'} list of {len(names)}"
    mom, ons, big, sml = r
    t = truth(tot, f, name)
    if t is not None:
        ctx.check(bool(mom) == t, f"{what}: momentum verdict")
    for lab, got in (("small", sml), ("big", big)):
        got = list(got)
        ctx.check(len(got) == len(set(got)), f"{what}: {lab} outliers listed more than once", got=got)
        for s in names:
            if cls[s] is None:
                continue
            ctx.check((s in got) == (cls[s] == lab), f"{what}: {s} is {cls[s]} but {'' if s in got else 'not '}listed as {lab} outlier", key="outlier", value=components(P, s))
            if cls[s] == lab:
                ctx.obs(f"{lab} outliers")
        ctx.check(all(s in cls for s in got), f"{what}: unknown strings among the outliers", got=got)
    ctx.check(arg == names, f"{what}: the caller's list was changed")
    ctx.check(freeze_point(ps) == before, f"{what}: the point was changed", key="mutation")
    ctx.obs("outlier scans")


KINDS = [("verdict", case_verdict, 900, 20000), ("outliers", case_outliers, 440, 9000)]
