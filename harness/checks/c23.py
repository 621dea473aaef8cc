import sympy
from gen import *
from core import Skip, Violation
import monitors as Mo
import refstr

ID = "C23"
RULE = ("a case is one numeric point, a choice of symbolic components and symbol names, and a list of spinor strings; the library's symbolic value is walked by the harness's own evaluator with the point's components and compared "
        "with the harness's numeric value of the string (symbolic), or the symbolic point, possibly with components polynomial in further symbols and symbolic masses, is substituted back in one or several steps and every leg is "
        "compared with the expected numbers (subs); distinct = (kind, field, n, components, strings)")
ASSUMPTIONS = ["substituting back only in finite fields and p-adics (the library reduces modulo p^k)", "strings without division by an invariant, and quotients of them"]


def walk(e, env, p=None):
    """value of a sympy expression in reference arithmetic"""
    if isinstance(e, sympy.Symbol):
        return env[e.name]
    if isinstance(e, sympy.Integer):
        return int(e)
    if isinstance(e, sympy.Rational):
        return Fraction(int(e.p), int(e.q))
    if isinstance(e, sympy.Float):
        return mpmath.mpf(e._mpf_) if hasattr(e, "_mpf_") else mpmath.mpf(str(e))
    if e == sympy.I:
        return mpmath.mpc(0, 1)
    if isinstance(e, sympy.Add):
        r = 0
        for a in e.args:
            r = walk(a, env) + r
        return r
    if isinstance(e, sympy.Mul):
        num, den = None, None
        for a in e.args:
            if isinstance(a, sympy.Pow) and isinstance(a.exp, sympy.Integer) and int(a.exp) < 0:
                x = walk(a.base, env) ** (-int(a.exp))
                den = x if den is None else den * x
            else:
                x = walk(a, env)
                num = x if num is None else num * x
        if den is None:
            return num
        return (1 if num is None else num) / den
    if isinstance(e, sympy.Pow) and isinstance(e.exp, sympy.Integer):
        k = int(e.exp)
        if k < 0:
            return 1 / (walk(e.base, env) ** -k)
        return walk(e.base, env) ** k
    if not isinstance(e, sympy.Basic):
        return R.lift(e)
    raise Violation(f"unexpected node {type(e).__name__} in a symbolic value", key="node")


def env_of(P, sym):
    env = {}
    for i, L in enumerate(P.legs, 1):
        for s, v in zip(sym, (L.r[0], L.r[1], L.l[0], L.l[1])):
            env[f"{s}{i}"] = v
    return env


class Num:
    """numeric components of a library point in reference arithmetic"""

    def __init__(self, ps):
        self.legs = []
        for oP in list(ps):
            class L:
                pass
            L.r = [R.lift(oP.r_sp_d[0, 0]), R.lift(oP.r_sp_d[1, 0])]
            L.l = [R.lift(oP.l_sp_d[0, 0]), R.lift(oP.l_sp_d[0, 1])]
            self.legs.append(L)


def some_string(rng, n):
    k = rng.randrange(9)
    a, b, c, d = rng.sample(range(1, n + 1), 4)
    if k == 0:
        return f"⟨{a}|{b}⟩"
    if k == 1:
        return f"[{a}|{b}]"
    if k == 2:
        return f"⟨{a}|({b}+{c})|{d}]"
    if k == 3:
        return f"[{a}|({b}+{c})|({c}+{d})|{a}]"
    if k == 4:
        return f"⟨{a}|({b}+{c})|({c}+{d})|{b}⟩"
    if k == 5:
        return "s_" + "".join(map(str, sorted(rng.sample(range(1, n + 1), rng.choice([2, 3])))))
    if k == 6:
        return f"tr5_{a}{b}{c}{d}"
    if k == 7:
        legs = list(range(1, n + 1))
        rng.shuffle(legs)
        x, y = sorted(rng.sample(range(1, n), 2))
        return "Δ_" + "|".join("".join(map(str, q)) for q in (legs[:x], legs[x:y], legs[y:]))
    return f"⟨{a}|{b}|{c}|{d}⟩"


def case_symbolic(ctx):
    rng = ctx.rng
    name = ("fp", "qp", "mpc", "fpi", "qpi", "fps", "q", "qps")[ctx.index % 8]
    f = field(name)
    n = rng.choice([4, 5, 6])
    num = cons_point(ctx, n, name)
    sym = rng.choice([("a", "b", "c", "d")] * 2 + [("x", "y", "z", "w"), ("λ", "μ", "ν", "ρ"), ("r", "s", "t", "u")])
    full = rng.random() < .5 or name == "q"
    keep = [0] * (4 * n) if full else [rng.randrange(2) for _ in range(4 * n)]
    ps = num.copy()
    kw = {} if sym[0] == "a" and rng.random() < .5 else dict(symbols=sym)
    if not full or rng.random() < .3:
        kw["indepVars"] = rng.choice([tuple, list, numpy.array])(keep)
    before = freeze_point(num)
    ps.make_analytical_d(**kw)
    ctx.check(freeze_point(num) == before, "making a copy symbolic changed the original", key="alias")
    P = Point.of(num)
    env = env_of(Num(num), sym)
    other = rng.random() < .5
    if other:    # the numbers of another point, for the symbolic components
        sp = raw_spinors(rng, n, name)
        alt = [particle(f, [sp[i][0][c] if keep[4 * i + c] == 0 else oP.r_sp_d[c, 0] for c in (0, 1)], [sp[i][1][c] if keep[4 * i + 2 + c] == 0 else oP.l_sp_d[0, c] for c in (0, 1)]) for i, oP in enumerate(list(num))]
        alt = Particles(alt, field=f, fix_mom_cons=False, seed=1)
        P = Point.of(alt)
        env = env_of(Num(alt), sym)
        ctx.obs("evaluated at another point")
    what = f"n={n} over {name}, {'all' if full else 4 * n - sum(keep)} components symbolic as {sym}"
    ctx.key("symbolic", name, n, tuple(keep), sym, ctx.index)
    # which components are symbols
    for i, oP in enumerate(list(ps)):
        comps = [oP.r_sp_d[0, 0], oP.r_sp_d[1, 0], oP.l_sp_d[0, 0], oP.l_sp_d[0, 1]]
        orig = [list(num)[i].r_sp_d[0, 0], list(num)[i].r_sp_d[1, 0], list(num)[i].l_sp_d[0, 0], list(num)[i].l_sp_d[0, 1]]
        for c in range(4):
            if keep[4 * i + c] == 0:
                ctx.check(isinstance(comps[c], sympy.Symbol) and comps[c].name == f"{sym[c]}{i + 1}", f"component {c} of leg {i + 1} is {comps[c]}, {what}", key="symbol")
            else:
                ctx.check(freeze(comps[c]) == freeze(orig[c]), f"component {c} of leg {i + 1} was to stay numeric, {what}", key="symbol")
    for _ in range(6):
        s = some_string(rng, n)
        ref = refstr.value(P, s)
        e = ps(s) if rng.random() < .5 else ps.compute(s)
        val = walk(sympy.sympify(e) if not isinstance(e, sympy.Basic) and name in ("mpc", "q") else e, env)
        compare(ctx, ref, val, f"{s}: symbolic value substituted, {what}", s)
        ctx.obs("symbolic evaluations")
    # an expression
    s, t = some_string(rng, n), some_string(rng, n)
    if name != "q":
        ex = rng.choice([f"{s}*{t}", f"{s}^2", f"2*{s}*{t}", f"{s}/{t}"])
        rs, rt = refstr.value(P, s), refstr.value(P, t)
        ref = {f"{s}*{t}": lambda: rs * rt, f"{s}^2": lambda: rs * rs, f"2*{s}*{t}": lambda: 2 * rs * rt, f"{s}/{t}": lambda: rs / rt}[ex]()
        if "Δ" not in ex and "tr5" not in ex:
            val = walk(ps(ex), env)
            compare(ctx, ref, val, f"{ex}: symbolic value substituted, {what}", ex)
            ctx.obs("symbolic expressions")


def compare(ctx, ref, val, what, s):
    ctx.evals += 1
    if isinstance(val, (int, Fraction)) and not isinstance(ref, (Fraction, int)):
        val = ref * 0 + val
    if isinstance(ref, R.PA) or isinstance(val, R.PA):
        d = ref - val
        ok = R.is_zero(d)
    elif isinstance(ref, (mpmath.mpc, mpmath.mpf)):
        ok = abs(ref - val) <= mpmath.mpf(10) ** -230 * (1 + abs(ref))
    else:
        ok = R.is_zero(ref - val)
    if not ok:
        raise Violation(what, key="value", got=val, expected=ref)


def case_table(ctx):
    rng = ctx.rng
    name = ALL[ctx.index % 9]
    n = rng.choice([2, 3, 4, 6, 9, 10, 12])
    ps = raw_point(ctx, n, name)
    ctx.key("table", name, n)
    d = ps.analytical_subs_d()
    exp = {}
    for i, oP in enumerate(list(ps), 1):
        for s, v in zip("abcd", (oP.r_sp_d[0, 0], oP.r_sp_d[1, 0], oP.l_sp_d[0, 0], oP.l_sp_d[0, 1])):
            exp[f"{s}{i}"] = v
    ctx.check(len(d) == 4 * n and {str(k) for k in d} == set(exp), f"the table of {n} legs has the symbols {sorted(map(str, d))[:8]}...", key="table")
    for k, v in d.items():
        ctx.check(isinstance(k, sympy.Symbol), f"table key {k!r} is no symbol", key="table")
        ctx.check(freeze(v) == freeze(exp[str(k)]), f"{k} has another value than the point over {name}", key="table")
    ctx.obs("table entries", len(d))


def case_subs(ctx):
    rng = ctx.rng
    name = ("fp", "qp", "fpi", "qpi", "fps", "qps")[ctx.index % 6]
    f = field(name)
    mod = f.characteristic ** f.digits
    n = rng.choice([4, 5, 6, 10])
    kw = {}
    if rng.random() < .5:
        kw["internal_masses"] = {"m_t": scalar(rng, name), "M": scalar(rng, name)}
    num = cons_point(ctx, n, name, **kw)
    table = num.analytical_subs_d()
    keep = [0] * (4 * n) if rng.random() < .5 else [rng.randrange(2) for _ in range(4 * n)]
    ps = num.copy()
    ps.make_analytical_d(indepVars=keep)
    masses = {}
    if kw:
        masses = {sympy.Symbol("mt"): num.m_t}
        ps.m_t = sympy.Symbol("mt")
        k = rng.randrange(5)
        if k == 0:
            ps.m_t = sympy.Symbol("mt") + 3
            num.m_t = num.m_t + 3
        elif k == 1:
            ps.m_t = sympy.Symbol("mt") ** 2
            num.m_t = num.m_t * num.m_t
        elif k == 2:
            ps.m_t = 5 * sympy.Symbol("mt")
            num.m_t = 5 * num.m_t
    style = rng.choice(["plain", "plain", "steps", "ints", "poly"])
    ctx.key("subs", name, n, tuple(keep), style, bool(kw))
    what = f"n={n} over {name}, {style}, {4 * n - sum(keep)} symbolic components{', symbolic mass' if kw else ''}"
    full = {**table, **masses}
    if style == "poly":
        # components polynomial in t, also pure powers
        t, u = sympy.symbols("t u")
        tv, uv = rng.randrange(2, mod), rng.randrange(2, 1000)
        if tv % f.characteristic == 0:
            tv += 1
        for oP, ref in zip(list(ps), list(num)):
            new = []
            for c in range(4):
                k = rng.randrange(6)
                a, b = rng.randrange(1, mod), rng.randrange(1, mod)
                e, v = [(a + b * t, a + b * tv), (t ** 2, tv ** 2), (a * t ** 2 + b, a * tv ** 2 + b), (t * u, tv * uv), (t, tv), (a * t * u + t ** 3, a * tv * uv + tv ** 3)][k]
                if v % f.characteristic == 0:      # (a value divisible by p has more digits than its residue)
                    e, v = t, tv
                new.append((e, v))
            r, l = col(new[0][0], new[1][0]), row(new[2][0], new[3][0])
            oP.r_sp_d, oP.l_sp_d = r, l
            ref.r_sp_d, ref.l_sp_d = col(f(new[0][1] % mod), f(new[1][1] % mod)), row(f(new[2][1] % mod), f(new[3][1] % mod))
        full = {t: tv, u: uv, **masses}
        ps.subs(full)
    elif style == "steps":
        items = list(full.items())
        rng.shuffle(items)
        k = rng.randrange(0, len(items) + 1)
        ps.subs(dict(items[:k]))
        for i, oP in enumerate(list(ps)):
            for c, x in enumerate((oP.r_sp_d[0, 0], oP.r_sp_d[1, 0], oP.l_sp_d[0, 0], oP.l_sp_d[0, 1])):
                s = sympy.Symbol(f"{'abcd'[c]}{i + 1}")
                if keep[4 * i + c] == 0 and s not in dict(items[:k]):
                    ctx.check(x == s, f"after a partial substitution {s} is {x}, {what}", key="partial")
        ps.subs(dict(items[k:]))
        ctx.obs("two-step substitutions")
    elif style == "ints":
        ps.subs({k: int(v) for k, v in full.items()})
    else:
        ps.subs(full)
    for i, (a, b) in enumerate(zip(list(ps), list(num)), 1):
        for at in ("r_sp_d", "r_sp_u", "l_sp_d", "l_sp_u", "r2_sp", "r2_sp_b"):
            ctx.check(freeze(getattr(a, at)) == freeze(getattr(b, at)), f"{at} of leg {i} after substitution, {what}", key="subs", got=getattr(a, at), expected=getattr(b, at))
    if kw:
        ctx.check(set(ps.internal_masses) == set(num.internal_masses), f"internal masses {ps.internal_masses}, {what}", key="mass")
        for m in ("m_t", "M"):
            ctx.check(freeze(getattr(ps, m)) == freeze(getattr(num, m)), f"internal mass {m} is {getattr(ps, m)!r}, {what}", key="mass")
        ctx.obs("masses substituted")
    ctx.check(bool(ps == num), f"the substituted point does not equal the numeric one, {what}", key="subs")
    s = some_string(rng, min(n, 9))
    if n < 10:
        ctx.eq(refstr.value(Point.of(num), s), ps(s), f"{s} on the substituted point, {what}", key="value")
    ctx.obs("points substituted")


KINDS = [("symbolic", case_symbolic, 200, 4000), ("table", case_table, 60, 900), ("subs", case_subs, 180, 4000)]
