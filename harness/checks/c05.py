from gen import *
import lips
from core import Skip

ID = "C05"
RULE = ("a case is one random point (field, 4-12 legs, conserving or not, sometimes with massive legs) and ~12 random invariant strings of every family and spelling; "
        "each string is evaluated by the library and from the definition by independent arithmetic; distinct = (string family, string text, field)")
ASSUMPTIONS = ["pyadic/mpmath scalar arithmetic is trusted", "agreement to 230 digits (complex), exact (finite field, rationals), to the known p-adic precision"]


def nol(ijk, n):
    out = []
    for s in ijk:
        L = [s]
        while True:
            nx = L[-1] % n + 1
            if nx in ijk:
                break
            L.append(nx)
        out.append(L)
    return out


def tr5(P, A, B, C, D):
    def tr(bars):
        X = None
        for m, b in zip((A, B, C, D), bars):
            Y = P.sumP(m, bar=b)
            X = Y if X is None else R.mm(X, Y)
        return X[0][0] + X[1][1]
    return tr((True, False, True, False)) - tr((False, True, False, True))


def spell_br(rng, s):
    """ASCII or unicode angle brackets"""
    return s.replace("⟨", "<").replace("⟩", ">") if rng.random() < 0.3 else s


def string_and_value(rng, P, massless, n):
    """returns family, string, reference value"""
    fam = rng.choice(["ang", "sq", "chain", "chain", "chain", "chain", "s", "s", "m", "tr", "tr", "tr5", "tr5g", "D3", "Dg", "Dg", "O", "P", "d5", "short"])
    d9 = min(n, 9)
    ml = sorted(massless)
    if fam in ("ang", "sq", "short", "chain") and len(ml) < 2:
        fam = "s"
    if fam == "ang":
        i, j = rng.choice(ml), rng.choice(ml)
        return fam, spell_br(rng, f"⟨{i}|{j}⟩"), P.ang(i, j)
    if fam == "sq":
        i, j = rng.choice(ml), rng.choice(ml)
        return fam, f"[{i}|{j}]", P.sq(i, j)
    if fam == "short":
        m9 = [i for i in ml if i < 10]
        if len(m9) < 2:
            return "s", "s_12", P.mand([1, 2])
        i, j = rng.sample(m9, 2)
        if rng.random() < .5:
            return fam, spell_br(rng, f"⟨{i}{j}⟩"), P.ang(i, j)
        return fam, f"[{i}{j}]", P.sq(i, j)
    if fam == "chain":
        k = rng.choice([1, 1, 2, 2, 3, 4, 5, 6])
        a, b = rng.choice(ml), rng.choice(ml)
        mids = [msum(rng, n, 3) for _ in range(k)]
        o = rng.choice("⟨[")
        c = {("⟨", 1): "]", ("⟨", 0): "⟩", ("[", 1): "⟩", ("[", 0): "]"}[(o, k % 2)]
        s = f"{o}{a}|" + "|".join(render_sum(rng, m) for m in mids) + f"|{b}{c}"
        return fam, spell_br(rng, s), P.chain(o, a, mids, b, c)[0][0]
    if fam == "s":
        idx = rng.sample(range(1, d9 + 1), rng.randrange(1, min(d9, 5) + 1)) if rng.random() < .9 else [rng.randrange(1, d9 + 1) for _ in range(rng.randrange(2, 5))]
        return fam, rng.choice(["s_", "s", "S_", "S"]) + "".join(map(str, idx)), P.mand(idx)
    if fam == "m":
        i = rng.randrange(1, d9 + 1)
        return fam, rng.choice(["m_", "m", "M_", "M"]) + str(i), P.mand([i])
    if fam == "tr":
        k = rng.choice([2, 2, 4, 4, 6])
        mids = [msum(rng, n, 3) for _ in range(k)]
        return fam, "tr(" + "|".join(render_sum(rng, m) for m in mids) + ")", P.trace(mids)
    if fam == "tr5":
        ii = rng.sample(range(1, d9 + 1), 4)
        if not any(i in massless for i in ii):
            return "m", "m_1", P.mand([1])
        if ii[0] not in massless:   # the underscore notation starts from its first leg
            return "m", "m_1", P.mand([1])
        return fam, "tr5_" + "".join(map(str, ii)), tr5(P, *[[i] for i in ii])
    if fam == "tr5g":
        ms = [msum(rng, n, 3) for _ in range(4)]
        pos = rng.randrange(4)
        m9 = [i for i in ml if i < 10]
        if not m9:
            return "m", "m_1", P.mand([1])
        ms[pos] = [rng.choice(m9)]
        # a single-digit single leg in front of it must be massless too, for the library's expansion to apply
        for m in ms:
            if len(m) == 1 and m[0] not in massless:
                return "m", "m_1", P.mand([1])
        return fam, "tr5(" + "|".join(render_sum(rng, m, paren=False) for m in ms) + ")", tr5(P, *ms)
    if fam == "D3":
        start = sorted(rng.sample(range(1, n + 1), 3)) if n <= 9 else None
        if start is None:
            return "m", "m_1", P.mand([1])
        A, B, C = nol(start, n)
        return fam, "Δ_" + "".join(map(str, start)), P.dot(A, B) ** 2 - P.mand(A) * P.mand(B)
    if fam == "Dg":
        k = rng.choice([3, 3, 4, 5]) if n >= 5 else 3
        legs = rng.sample(range(1, d9 + 1), rng.randrange(k, d9 + 1)) if d9 >= k else None
        if legs is None:
            return "m", "m_1", P.mand([1])
        groups = [[x] for x in legs[:k]]
        for x in legs[k:]:
            rng.choice(groups).append(x)
        g = [[P.dot(groups[i], groups[j]) for j in range(k - 1)] for i in range(k - 1)]
        return fam, "Δ_" + "|".join("".join(map(str, q)) for q in groups), R.detn(g) * (-1) ** k
    if fam in ("O", "P"):
        if n > 9 or n < 5:
            return "m", "m_1", P.mand([1])
        for _ in range(30):
            st = rng.sample(range(1, n + 1), 3)
            # cyclic order, any starting point
            st.sort()
            r = rng.randrange(3)
            st = st[r:] + st[:r]
            A, B, C = nol(st, n)
            if fam == "O":
                sA, sB, sC = P.mand(A), P.mand(B), P.mand(C)
                return fam, "Ω_" + "".join(map(str, st)), 2 * sC * sB - (sC + sB - sA) * P.mand(C + [A[0]])
            if len(A) >= 2:
                return fam, "Π_" + "".join(map(str, st)), P.mand(C + [A[0]]) - P.mand(C + [A[1]])
        return "m", "m_1", P.mand([1])
    if fam == "d5":
        if n < 5:
            return "m", "m_1", P.mand([1])
        s12, s23, s34, s45, s51 = (P.mand(x) for x in ([1, 2], [2, 3], [3, 4], [4, 5], [5, 1]))
        return fam, "δ5", d5(s12, s23, s34, s45, s51)
    raise AssertionError(fam)


def d5(s12, s23, s34, s45, s51):
    """det(2 p_i.p_j), i,j = 1..4, of a massless momentum-conserving five-point process, in its five cyclic invariants."""
    z = 0 * s12
    s13, s24 = s45 - s12 - s23, s51 - s23 - s34
    s14 = -s12 - s13 - s51
    return R.detn([[z, s12, s13, s14], [s12, z, s23, s24], [s13, s23, z, s34], [s14, s24, s34, z]])


def case_strings(ctx):
    rng = ctx.rng
    name = ALL[ctx.index % len(ALL)]
    n = rng.choice([4, 5, 5, 6, 6, 7, 8, 9, 10, 12])
    mode = rng.choice(["raw", "raw", "special", "cons", "cons", "cons", "massive", "massive"]) if name not in ("q", "qi") else rng.choice(["raw", "special", "cons", "cons"])
    ps = raw_point(ctx, n, name) if mode == "raw" else special_point(ctx, n, name) if mode == "special" else cons_point(ctx, n, name)
    massive = set()
    if mode == "massive":
        # replace some legs by massive ones (sums of two)
        f = field(name)
        for i in rng.sample(range(1, n + 1), rng.randrange(1, 3)):
            q = raw_point(ctx, 2, name)
            m = numpy.array(q[1].r2_sp + q[2].r2_sp, dtype=object)
            ps[i] = Particle(kinematics=m, field=f)
            massive.add(i)
    P = Point.of(ps, massive)
    sc = P.scale() ** 8 if name == "mpc" else 1
    for _ in range(14):
        fam, s, v = string_and_value(rng, P, set(range(1, n + 1)) - massive, n)
        t = bold(s) if rng.random() < 0.15 else s
        ctx.obs(f"family:{fam}")
        ctx.key(fam, t, name)
        got = ps(t) if rng.random() < 0.7 else ps.compute(t)
        ctx.eq(v, got, f"{fam}: {t} over {name}, n={n}, {mode}", scale=sc, key=f"value:{fam}")


def case_mismatch(ctx):
    rng = ctx.rng
    name = rng.choice(MAIN)
    n = rng.choice([4, 6, 8])
    ps = any_point(ctx, n, name)
    for _ in range(12):
        k = rng.randrange(1, 6)
        o = rng.choice("⟨[")
        c = {("⟨", 1): "⟩", ("⟨", 0): "]", ("[", 1): "]", ("[", 0): "⟩"}[(o, k % 2)]
        s = f"{o}{rng.randrange(1, n + 1)}|" + "|".join(render_sum(rng, msum(rng, n, 3)) for _ in range(k)) + f"|{rng.randrange(1, n + 1)}{c}"
        s = spell_br(rng, s)
        ctx.obs("mismatched bracket tried")
        ctx.key("mismatch", s)
        ctx.raises(lambda: ps(s), f"chain with mismatched closing bracket was evaluated: {s}", key="mismatch")
    for s in (f"⟨{n + 1}|1⟩", "⟨0|1⟩", f"[1|{n + 3}]", f"⟨1|{n + 1}|2]", f"⟨1|2+{n + 2}|3]", "s_10", f"tr(1|{n + 1})"):
        ctx.obs("out-of-range leg tried")
        ctx.raises(lambda: ps(s), f"leg that does not exist was evaluated: {s} at n={n}", key="range")


def case_history(ctx):
    """the same strings again and again while the point changes under them: each value is that of the current point"""
    import history as H
    import refstr
    rng = ctx.rng
    name = ALL[ctx.index % len(ALL)]
    n = rng.choice([4, 5, 6, 6, 7, 9, 10])
    ps = any_point(ctx, n, name)
    strings = H.rand_strings(rng, n, 5)
    log = []
    ctx.key("history", tuple(strings), name)
    for step in range(6):
        P = Point.of(ps)
        sc = P.scale() ** 8 if name == "mpc" else 1
        for s in strings:
            ctx.eq(refstr.value(P, s), ps(s), f"{s} over {name}, n={n}, after {log}", scale=sc, key="history")
            ctx.obs("evaluations along a history")
        try:
            ps, op = H.change(ctx, ps, name)
        except (ZeroDivisionError, ArithmeticError):
            raise Skip("degenerate change")
        if not H.settled(ps):
            return
        ctx.obs(f"change: {op.split()[0]}")
        log.append(op)


KINDS = [("history", case_history, 360, 6000), ("strings", case_strings, 2700, 45000), ("mismatch", case_mismatch, 150, 2000)]
