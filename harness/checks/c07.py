from gen import *
from core import Skip, Violation
from pyadic.field_extension import FieldExtension

ID = "C07"
RULE = ("a case is one point (any field, 4-9 legs, random internal masses and aliases) and ~5 random expressions of the grammar, each rendered in several spellings; every rendering is evaluated by the "
        "library and compared with independent arithmetic on the atoms' definitions; distinct = (expression text, field)")
ASSUMPTIONS = ["spellings refused by the library (raising) are outside the grammar exercised here", "agreement to 220 digits relative to the size of the terms (complex), exact otherwise"]

MASSES = ["mt2", "mt", "mh", "mZ", "μ", "M_W", "m_t", "μ2", "mW2", "Mq"]


class E:
    """expression value with its magnitude (for complex numbers)"""
    def __init__(self, v, mag):
        self.v, self.mag = v, mag


def mg(x):
    """size of an exact or complex number (1 where size means nothing)"""
    if isinstance(x, (mpmath.mpc, mpmath.mpf)):
        return abs(x)
    if isinstance(x, (int, Fraction)):
        return mpmath.mpf(abs(Fraction(x).numerator)) / Fraction(x).denominator
    if isinstance(x, R.G):
        return mg(x.re) + mg(x.im)
    return mpmath.mpf(1)


def sized(x):
    return isinstance(x, (mpmath.mpc, int, Fraction, R.G))


def num(P, x):
    return E(x, mpmath.mpf(abs(Fraction(x).numerator)) / Fraction(x).denominator + 0)


def add(a, b, s):
    return E(a.v + s * b.v, a.mag + b.mag)


def mul(a, b):
    return E(a.v * b.v, a.mag * b.mag)


def zero(a):
    return R.is_zero(a.v, 1, 150) if not isinstance(a.v, (int, Fraction)) else a.v == 0


def div(a, b):
    if zero(b):
        raise Inconclusive("division by zero")
    v = a.v / b.v if not (isinstance(a.v, int) and isinstance(b.v, int)) else Fraction(a.v, b.v)
    if isinstance(v, mpmath.mpf):
        v = mpmath.mpc(v)
    return E(v, a.mag * b.mag / mg(b.v) ** 2 if sized(b.v) else a.mag)


def pw(a, k):
    if k < 0:
        return div(E(1, 1), pw(a, -k))
    return E(a.v ** k if not isinstance(a.v, mpmath.mpc) else mpmath.power(a.v, k), a.mag ** k)


def ev(ps, s):
    try:
        return ps(s)
    except (ArithmeticError, AttributeError, SyntaxError, TypeError, ValueError, NameError, LookupError) as e:
        raise Violation(f"evaluating {s!r} raised {type(e).__name__}: {str(e)[:200]}", f"raised:{type(e).__name__}")


class Gen:
    def __init__(self, ctx, P, n, masses, aliases):
        self.rng, self.P, self.n, self.masses, self.aliases = ctx.rng, P, n, masses, aliases
        self.ctx = ctx

    def atom(self):
        """-> (list of alternative spellings, reference value, ends with digit?, starts with letter?, is a mass name)"""
        rng, P, n = self.rng, self.P, self.n
        d = min(n, 9)
        fam = rng.choice(["ang", "ang", "sq", "sq", "chain", "chain", "s", "s", "tr", "tr5", "D", "m", "mass", "mass", "O", "P"])
        if fam == "mass" and not (self.masses or self.aliases):
            fam = "s"
        if fam in ("O", "P") and (n < 6 or n > 9):
            fam = "ang"
        self.ctx.obs(f"atom:{fam}")
        if fam == "ang":
            i, j = rng.sample(range(1, d + 1), 2)
            v = P.ang(i, j)
            al = [f"⟨{i}|{j}⟩", f"⟨{i}{j}⟩", f"<{i}|{j}>", f"<{i}{j}>", bold(f"⟨{i}|{j}⟩")]
            if n > 9:
                i, j = rng.sample(range(1, n + 1), 2)
                return [f"⟨{i}|{j}⟩", f"<{i}|{j}>"], P.ang(i, j), False, False, False
            return al, v, False, False, False
        if fam == "sq":
            i, j = rng.sample(range(1, d + 1), 2)
            return [f"[{i}|{j}]", f"[{i}{j}]"], P.sq(i, j), False, False, False
        if fam == "chain":
            k = rng.choice([1, 1, 2, 3])
            a, b = rng.randrange(1, d + 1), rng.randrange(1, d + 1)
            mids = [msum(rng, d, 3) for _ in range(k)]
            o = rng.choice("⟨[")
            c = {("⟨", 1): "]", ("⟨", 0): "⟩", ("[", 1): "⟩", ("[", 0): "]"}[(o, k % 2)]
            al = [f"{o}{a}|" + "|".join(render_sum(rng, m, p) for m in mids) + f"|{b}{c}" for p in (True, False)]
            al.append(al[1].replace("⟨", "<").replace("⟩", ">"))
            return al, P.chain(o, a, mids, b, c)[0][0], False, False, False
        if fam == "s":
            idx = rng.sample(range(1, d + 1), rng.randrange(2, min(4, d) + 1))
            t = "".join(map(str, idx))
            return ["s_" + t, "s" + t, "S_" + t], P.mand(idx), True, True, False
        if fam == "m":
            i = rng.randrange(1, d + 1)
            return [f"m_{i}", f"M_{i}", f"m{i}"], P.mand([i]), True, True, False
        if fam == "tr":
            mids = [msum(rng, d, 3) for _ in range(rng.choice([2, 2, 4]))]
            return ["tr(" + "|".join(render_sum(rng, m, False) for m in mids) + ")"], P.trace(mids), False, True, False
        if fam == "tr5":
            from checks.c05 import tr5
            ii = rng.sample(range(1, d + 1), 4)
            return ["tr5_" + "".join(map(str, ii)), "tr5(" + "|".join(map(str, ii)) + ")"], tr5(P, *[[i] for i in ii]), True, True, False
        if fam == "D":
            k = rng.choice([3, 3, 4])
            legs = rng.sample(range(1, d + 1), rng.randrange(k, d + 1))
            gr = [[x] for x in legs[:k]]
            for x in legs[k:]:
                q = rng.choice(gr)
                if len(q) < 4:   # longer corners are refused inside expressions
                    q.append(x)
            g = [[P.dot(gr[i], gr[j]) for j in range(k - 1)] for i in range(k - 1)]
            return ["Δ_" + "|".join("".join(map(str, q)) for q in gr)], R.detn(g) * (-1) ** k, True, False, False
        if fam in ("O", "P"):
            from checks.c05 import nol
            st = sorted(rng.sample(range(1, n + 1), 3))
            A, B, C = nol(st, n)
            if fam == "P" and len(A) < 2:
                return ["s_12"], P.mand([1, 2]), True, True, False
            if fam == "O":
                sA, sB, sC = P.mand(A), P.mand(B), P.mand(C)
                return ["Ω_" + "".join(map(str, st))], 2 * sC * sB - (sC + sB - sA) * P.mand(C + [A[0]]), True, False, False
            return ["Π_" + "".join(map(str, st))], P.mand(C + [A[0]]) - P.mand(C + [A[1]]), True, False, False
        name = rng.choice(list(self.masses) + list(self.aliases))
        v = self.masses[name] if name in self.masses else self.aliases[name]
        return [name], v, True, True, True

    def factor(self, depth):
        """-> (rendering function, value, starts, ends) ; starts/ends in letter/digit/other"""
        rng = self.rng
        r = rng.random()
        if r < 0.12:
            nbr = rng.randrange(1, 40) if rng.random() < .7 else rng.randrange(1, 10 ** rng.choice([3, 4, 6]))
            f, v, st, en = (lambda: str(nbr)), num(self.P, nbr), "number", "number"
        elif r < 0.75 or depth <= 0:
            al, val, endd, startl, mass = self.atom()
            f = lambda: rng.choice(al)
            v = E(val, mg(val))
            if isinstance(val, mpmath.mpc):
                v.mag = max(v.mag, mpmath.mpf(10) ** 3)
            elif sized(val):        # an atom may vanish with large terms inside
                v.mag = max(v.mag, (1 + max(mg(x) for L in self.P.legs for x in L.r + L.l)) ** 16)
            st, en = ("letter" if startl else "other"), ("mass" if mass else "digit" if endd else "other")
        else:
            g, v = self.expr(depth - 1)
            f, st, en = (lambda: "(" + g() + ")"), "paren", "other"
        if rng.random() < 0.35:
            k = rng.choice([2, 2, 3, 4, 10, 12, rng.randrange(13, 41), -1, -2, 0, 1])
            if k < 0 and (zero(v) or isinstance(v.v, R.G)):   # pyadic has no negative powers of Gaussian rationals
                k = 2
            if k > 4 and isinstance(v.v, (Fraction, R.G)):
                k = 2
            v2 = pw(v, k)
            f0 = f
            sup = str(k).translate({ord(c): s for c, s in zip("0123456789", "⁰¹²³⁴⁵⁶⁷⁸⁹")})

            def f():
                o = rng.choice([f"^{k}", f"**{k}", f"^({k})", f"**({k})"] + ([sup] if 2 <= k <= 9 else []))
                return f0() + o
            return f, v2, st, "power"
        return f, v, st, en

    def term(self, depth):
        rng = self.rng
        fs = [self.factor(depth)]
        ops = []
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            nx = self.factor(depth)
            op = rng.choice("***" + "/")
            if op == "/" and zero(nx[1]):
                op = "*"
            ops.append(op)
            fs.append(nx)
        v = fs[0][1]
        for o, x in zip(ops, fs[1:]):
            v = mul(v, x[1]) if o == "*" else div(v, x[1])
        coef = rng.random()

        def r():
            s = fs[0][0]()
            for k, (o, x) in enumerate(zip(ops, fs[1:])):
                prev = fs[k][3]
                # implicit multiplication wherever the text stays unambiguous
                glue = (o == "*" and (x[2] != "number" or prev == "other") and not (prev == "mass" and x[2] == "letter")
                        and not (prev == "digit" and x[2] == "letter" and False) and not (prev == "power" and x[2] == "number")
                        and not (prev == "number" and x[2] == "number"))
                s += ("" if glue and rng.random() < .5 else o) + x[0]()
            return s
        if coef < .3:
            a, b = rng.randrange(1, 50), rng.randrange(1, 50)
            if rng.random() < .15:
                a = rng.randrange(1, 10 ** rng.choice([4, 12, 40]))
            if rng.random() < .1:
                b = rng.randrange(1, 9000)
            q = Fraction(a, b)
            r0 = r
            if fs[0][2] == "number":
                r = lambda: f"{a}/{b}*" + r0()
            else:
                r = lambda: f"{a}/{b}" + rng.choice(["", "*"]) + r0()
            v0 = v
            # a/b is a factor like any other: a/b*f0*f1/f2 ...
            v = mul(num(self.P, q), v0)
            if fs[0][3] == "power" and fs[0][2] == "number":
                pass
        return r, v

    def expr(self, depth, lead=True):
        rng = self.rng
        ts = []
        for k in range(rng.choice([1, 1, 2, 2, 3])):
            ts.append((rng.choice([1, 1, -1]), *self.term(depth)))
        v = None
        for s, _, t in ts:
            v = (E(s * t.v, t.mag) if v is None else add(v, t, s))

        def r():
            out = ""
            for k, (s, f, _) in enumerate(ts):
                sp = " " if rng.random() < .3 else ""
                minus = "−" if rng.random() < .2 else "-"
                out += sp + (minus if s < 0 else ("+" if k else "")) + sp + f()
            return out
        return r, v


def setup(ctx, name):
    rng = ctx.rng
    n = rng.choice([5, 6, 7, 8, 9, 11])
    ps = any_point(ctx, n, name, special=True)
    P = Point.of(ps)
    masses, aliases = {}, {}
    names = rng.sample(MASSES, rng.randrange(0, 4))
    for m in names:
        if rng.random() < .65:
            x = scalar(rng, name)
            setattr(ps, m, x)
            masses[m] = R.lift(x)
        else:
            idx = rng.sample(range(1, min(n, 9) + 1), 2)
            setattr(ps, m, "s_" + "".join(map(str, idx)))
            aliases[m] = P.mand(idx)
            if rng.random() < .4:
                i, j = rng.sample(range(1, min(n, 9) + 1), 2)
                k = rng.randrange(2, 30)
                alias, v = rng.choice([("+{k}*s_{i}{j}", lambda: aliases[m] + k * P.mand([i, j])), ("-⟨{i}{j}⟩[{j}{i}]/{k}", lambda: aliases[m] - P.ang(i, j) * P.sq(j, i) * num(P, Fraction(1, k)).v), ("*⟨{i}|{j}⟩^2", lambda: aliases[m] * P.ang(i, j) ** 2)])
                setattr(ps, m, getattr(ps, m) + alias.format(i=i, j=j, k=k))
                aliases[m] = v()
                ctx.obs("compound aliases")
    if ctx.rng.random() < .3:
        ps = ps.copy() if n <= 9 else ps
        ctx.obs("evaluated on a copy")
    return ps, P, n, masses, aliases


def case_expr(ctx):
    rng = ctx.rng
    name = ALL[ctx.index % len(ALL)]
    ps, P, n, masses, aliases = setup(ctx, name)
    done = 0
    for _ in range(5):
        g = Gen(ctx, P, n, masses, aliases)
        try:
            r, v = g.expr(rng.choice([0, 1, 1, 2]))
        except Inconclusive:
            ctx.obs("expression with a vanishing denominator discarded")
            continue
        for s in {r(), r()}:
            if rng.random() < .1:
                s = " " + s.replace("*", " * ", 1) if "**" not in s else s + "\n"
            ctx.key(s, name)
            ctx.obs("renderings evaluated")
            ctx.eq(v.v, ev(ps, s), f"expression {s!r} over {name}", scale=v.mag * 10 ** 6, key="value")
            done += 1
    if not done:
        raise Skip("only vanishing denominators")


def case_frac(ctx):
    """LaTeX fractions"""
    rng = ctx.rng
    name = ALL[ctx.index % len(ALL)]
    ps, P, n, masses, aliases = setup(ctx, name)
    g = Gen(ctx, P, n, masses, aliases)
    try:
        a, va = g.expr(0)
        b, vb = g.expr(0)
        v = div(va, vb)
    except Inconclusive as e:
        raise Skip(str(e))
    s = r"\frac{" + a() + "}{" + b() + "}"
    ctx.key("frac", s, name)
    ctx.obs("latex fraction")
    ctx.eq(v.v, ev(ps, s), f"LaTeX fraction {s!r} over {name}", scale=v.mag * 10 ** 6, key="frac")
    # inside larger expressions
    try:
        c, vc = g.expr(0)
        d, vd = g.expr(0)
        w = div(vc, vd)
        A, VA = g.factor(0)[:2]
    except Inconclusive as e:
        raise Skip(str(e))
    t = r"\frac{" + c() + "}{" + d() + "}"
    k = rng.randrange(2, 4)
    forms = [(s + "+" + t, add(v, w, 1)), (s + "-" + t, add(v, w, -1)), ("-" + s + "+" + t, add(E(-w.v if False else -v.v, v.mag), w, 1)), (s + t, mul(v, w)), (s + "*" + t, mul(v, w)),
             (s + "*" + A(), mul(v, VA)), (A() + "*" + s, mul(VA, v)), (A() + "-" + s, add(VA, v, -1)), (s + f"^{k}", pw(v, k)), (s + f"**{k}", pw(v, k)), (s + "^{" + str(k) + "}", pw(v, k)), ("(" + s + ")*(" + t + "+1)", mul(v, add(w, num(P, 1), 1))),
             (r"\frac{" + s + "}{" + str(k) + "}", mul(v, num(P, Fraction(1, k)))), (r"\frac{" + s + "+" + t + "}{" + str(k) + "}", mul(add(v, w, 1), num(P, Fraction(1, k))))]
    try:
        forms += [(s + "/" + t, div(v, w)), (A() + "/" + s, div(VA, v)), (r"\frac{" + s + "}{" + t + "}", div(v, w)), (r"\frac{1}{" + t + "}", div(num(P, 1), w))]
    except Inconclusive:
        pass
    for u, x in rng.sample(forms, 6):
        ctx.obs("latex fractions in expressions")
        ctx.eq(x.v, ev(ps, u), f"LaTeX fractions {u!r} over {name}", scale=x.mag * 10 ** 6, key="frac")
    # subscripts and exponents in braces
    i, j = rng.sample(range(1, min(n, 9) + 1), 2)
    S, k = P.mand([i, j]), rng.randrange(2, 5)
    for u, x in ((f"s_{{{i}{j}}}", S), (f"s_{{{i}{j}}}^{{{k}}}+1", S ** k + 1), (f"{k}s_{{{i}{j}}}", k * S), (r"\frac{1}{2}" + f"s_{{{i}{j}}}", S * Fraction(1, 2) if not isinstance(S, mpmath.mpc) else S / 2), (f"⟨{i}{j}⟩^{{{k}}}", P.ang(i, j) ** k)):
        ctx.obs("braces around subscripts and exponents")
        ctx.eq(x, ev(ps, u), f"{u!r} over {name}", scale=P.scale() ** 10 if name == "mpc" else 1, key="frac")
    # and with a global coefficient
    q = rng.randrange(2, 50)
    ctx.eq(q * v.v, ev(ps, f"{q}*" + s), f"LaTeX fraction with a coefficient {q}*{s!r} over {name}", scale=v.mag * 10 ** 6 * q, key="frac")


def case_precision(ctx):
    """pure-number arithmetic stays exact next to an atom"""
    rng = ctx.rng
    name = ALL[ctx.index % len(ALL)]
    ps, P, n, masses, aliases = setup(ctx, name)
    for _ in range(6):
        a, b, c = (rng.randrange(1, 100) for _ in range(3))
        k = rng.randrange(1, 4)
        i, j = rng.sample(range(1, min(n, 9) + 1), 2)
        A = P.ang(i, j)
        t = f"⟨{i}{j}⟩"
        if R.is_zero(A, 1, 100):
            continue
        s, v = rng.choice([
            (f"{t}/{a}/{b}", A * Fraction(1, a * b)), (f"{t}^2/{a}", A * A * Fraction(1, a)), (f"{a}/{b}^{k}*{t}", A * Fraction(a, b ** k)),
            (f"({a}/{b})^{k}{t}", A * Fraction(a, b) ** k), (f"{a}^-{k}*{t}", A * Fraction(1, a ** k)), (f"{t}*{a}/{b}/{c}", A * Fraction(a, b * c)),
            (f"({a}+{b}/{c}){t}", A * (a + Fraction(b, c))), (f"{a}/({b}+1/{c})*{t}", A * (a / (b + Fraction(1, c)))), (f"1/{a}-{b}/{c}+{t}", A + Fraction(1, a) - Fraction(b, c)),
            (f"{a}-{b}/{c}{t}", a - A * Fraction(b, c)), (f"{t}-{a}/{b}{t}", A - A * Fraction(a, b)), (f"{a}{t}/{b}", A * Fraction(a, b)), (f"-{t}^2", -(A * A)), (f"-{a}/{b}{t}**2", -(A * A * Fraction(a, b))),
            (f"{t}^2^{k}", A ** (2 ** k)), (f"{a}-{b}-{t}", (a - b) - A), (f"{t}/{a}*{b}", A * Fraction(b, a)), (f"{t}²/{t}", A),
            (f"{a}--{b}{t}", a + b * A), (f"{t}- -{a}", A + a), (f"--{t}", A), (f"{a}*-{t}", -(a * A)), (f"{t}/-{a}", A * Fraction(-1, a)), (f"-({a}-{t})", A - a), (f"{t}^2*-{a}", -(A * A * a))])
        ctx.key("precision", s, name)
        ctx.obs("numeric precedence forms")
        sc = (abs(A) + 1) ** (2 ** k) * 10 ** 8 if isinstance(A, mpmath.mpc) else 1
        ctx.eq(v, ev(ps, s), f"{s!r} over {name}", scale=sc, key="precision")


def case_sqrt(ctx):
    rng = ctx.rng
    name = ("mpc", "fp", "fpi", "qp", "qpi", "fps", "qps")[ctx.index % 7]
    ps, P, n, masses, aliases = setup(ctx, name)
    gr = rng.sample(range(1, min(n, 9) + 1), min(n, 5))
    kind = rng.randrange(3)
    if kind == 0:
        arg, v = "s_" + "".join(map(str, gr[:3])), P.mand(gr[:3])
    elif kind == 1:
        arg = f"Δ_{gr[0]}{gr[1]}|{gr[2]}{gr[3]}|{gr[4]}"
        A, B = gr[:2], gr[2:4]
        v = P.dot(A, B) ** 2 - P.mand(A) * P.mand(B)
    else:
        arg, v = f"⟨{gr[0]}{gr[1]}⟩", P.ang(gr[0], gr[1])
    a, b = rng.randrange(1, 30), rng.randrange(1, 30)
    if name in ("qp", "qpi", "qps") and R.is_zero(v):
        raise Skip("pyadic has no square root of a p-adic zero")
    got = ps(f"sqrt({arg})")
    if isinstance(got, FieldExtension):
        ctx.obs("square root in a field extension")
        ctx.key("sqrt-ext", arg, name)
        w = ps(arg)
        ctx.check(got * got == w, f"sqrt({arg}) squared over {name}")
        # the reference must agree that there is no root in the field
        f = ps.field
        x = R.lift(w)
        if isinstance(x, R.M):
            ctx.check(pow(x.v, (x.p - 1) // 2, x.p) != 1, f"sqrt({arg}) left the field although a root exists")
        return
    x = R.lift(got)
    sc = P.scale() ** 4
    ctx.key("sqrt", arg, name)
    ctx.obs("square root in the field")
    ctx.eq(v, _sq(got), f"sqrt({arg}) squared over {name}", scale=sc, key="sqrt")
    s = rng.choice([f"{a}/{b}*sqrt({arg})", f"{a}/{b}sqrt({arg})"])
    w = x * Fraction(a, b) if not isinstance(x, mpmath.mpc) else x * a / b
    ctx.eq(w, ps(s), f"{s} over {name}", scale=sc, key="sqrt")
    ctx.eq(v * Fraction(a, b) if not isinstance(v, mpmath.mpc) else v * a / b, ps(f"{a}/{b}*sqrt({arg})*sqrt({arg})"), f"product of square roots over {name}", scale=sc, key="sqrt")


def _sq(x):
    return x * x


def case_masses(ctx):
    """internal masses: by value, by alias, added, replaced"""
    rng = ctx.rng
    name = ALL[ctx.index % len(ALL)]
    n = rng.choice([5, 6, 7])
    f = field(name)
    vals = {m: scalar(rng, name) for m in rng.sample(MASSES, 3)}
    names = list(vals)
    base = any_point(ctx, n, name)
    style = rng.randrange(3)
    if style == 0:
        ps = Particles(list(list.__iter__(base)), field=f, fix_mom_cons=False, internal_masses=dict(vals))
    elif style == 1:
        ps = Particles(list(list.__iter__(base)), field=f, fix_mom_cons=False, internal_masses=rng.choice([set, list, tuple])(names))
        vals = {m: getattr(ps, m) for m in names}
    else:
        ps = base
        for m, x in vals.items():
            setattr(ps, m, x)
    P = Point.of(ps)
    ctx.check(set(ps.internal_masses) == set(names), "set of internal masses", got=ps.internal_masses)
    ctx.check(freeze(ps.internal_masses_dict) == freeze(vals), "dictionary of internal masses", got=ps.internal_masses_dict)
    L = {m: R.lift(x) for m, x in vals.items()}
    a, b, c = names
    sc = 10 ** 12
    ctx.key("masses", tuple(names), name, style)
    ctx.obs("mass points")
    ctx.eq(L[a], ps(a), f"mass {a}", scale=sc)
    ctx.eq(L[a] * L[b], ps(f"{a}*{b}"), f"{a}*{b}", scale=sc)
    ctx.eq(L[a] * L[a] - 2 * L[c], ps(f"{a}^2-2{c}"), f"{a}^2-2{c}", scale=sc)
    # alias, then change of the point under the alias
    ps.mX = "s_12"
    ctx.eq(P.mand([1, 2]), ps("mX"), "alias", scale=P.scale() ** 2)
    ctx.eq(P.mand([1, 2]) * L[b] * 3, ps(f"3mX*{b}"), "alias in expression", scale=P.scale() ** 4 * 100)
    ps.mX = "s_13-s_23"
    ctx.eq(P.mand([1, 3]) - P.mand([2, 3]), ps("mX"), "compound alias", scale=P.scale() ** 2)
    ctx.eq((P.mand([1, 3]) - P.mand([2, 3])) * 2, ps("2mX"), "compound alias in expression", scale=P.scale() ** 2)
    x = scalar(rng, name)
    setattr(ps, a, x)
    ctx.eq(R.lift(x) * 5, ps(f"5{a}"), "mass after reassignment", scale=sc)
    ctx.raises(lambda: ps("mUnset"), "undefined mass was evaluated")


def case_history(ctx):
    """the same expressions while legs, masses and aliases change under them"""
    import history as H
    import refstr
    rng = ctx.rng
    name = ALL[ctx.index % len(ALL)]
    n = rng.choice([5, 6, 7, 9])
    names = rng.sample(MASSES, 2)
    ps = any_point(ctx, n, name, internal_masses={m: scalar(rng, name) for m in names})
    a, b = names
    exprs = []
    for _ in range(4):
        s, t = H.rand_strings(rng, n, 2)
        k, c = rng.randrange(2, 40), rng.randrange(2, 40)
        exprs.append(rng.choice([
            (f"{k}*{a}^2*{s}-{t}/{c}", lambda P, M, s=s, t=t, k=k, c=c: k * M[a] * M[a] * refstr.value(P, s) - refstr.value(P, t) * Fraction(1, c)),
            (f"{a}*{b}+{s}", lambda P, M, s=s: M[a] * M[b] + refstr.value(P, s)), (f"{a}", lambda P, M: M[a]), (f"{k}*{b}", lambda P, M, k=k: k * M[b]),
            (f"({s}-{a})*({t}+{b})", lambda P, M, s=s, t=t: (refstr.value(P, s) - M[a]) * (refstr.value(P, t) + M[b])),
            (f"{k}/{c}*{s}*{t}", lambda P, M, s=s, t=t, k=k, c=c: Fraction(k, c) * refstr.value(P, s) * refstr.value(P, t) if not isinstance(refstr.value(P, s), mpmath.mpc) else refstr.value(P, s) * refstr.value(P, t) * k / c)]))
    log = []
    ctx.key("history", tuple(e[0] for e in exprs), name)
    for step in range(6):
        P = Point.of(ps)
        vals = ps.internal_masses_dict
        ctx.check(set(vals) == set(names), f"internal masses after {log}", key="history", got=sorted(vals))
        M = {m: refstr.value(P, v) if isinstance(v, str) else R.lift(v) for m, v in vals.items()}
        sc = (P.scale() ** 8 + max([1] + [abs(x) for x in M.values() if isinstance(x, mpmath.mpc)])) ** 3 if name == "mpc" else 1
        for s, v in exprs:
            ctx.eq(v(P, M), ev(ps, s), f"{s} over {name}, n={n}, after {log}", scale=sc, key="history")
            ctx.obs("expressions along a history")
        try:
            ps, op = H.change(ctx, ps, name, masses=names)
        except (ZeroDivisionError, ArithmeticError):
            raise Skip("degenerate change")
        if not H.settled(ps):
            return
        ctx.obs(f"change: {op.split()[0]}")
        log.append(op)


KINDS = [("history", case_history, 360, 5000), ("expr", case_expr, 1800, 30000), ("frac", case_frac, 270, 4000), ("precision", case_precision, 450, 6000), ("sqrt", case_sqrt, 280, 4000), ("masses", case_masses, 270, 3000)]
