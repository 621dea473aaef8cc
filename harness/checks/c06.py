from gen import *
from core import Skip

ID = "C06"
RULE = ("a case is one random point and ~10 open-index strings or ways of cutting a closed string; the library's array (or scalar) is compared entry by entry with the contraction done by "
        "independent arithmetic; distinct = (family, string text, field)")
ASSUMPTIONS = ["a string open on both sides starts with a lower undotted index (the library's convention)",
               "strings inside expressions use single-digit legs", "open strings are spelled without parentheses, or with them around their only entry"]


def rnd_mids(rng, n, k, maxlen=3):
    return [msum(rng, n, maxlen) for _ in range(k)]


def body(rng, mids, paren=None):
    """open strings take parentheses around a lone entry only; other spellings are refused by the library"""
    if len(mids) > 1:
        paren = False
    return "|".join(render_sum(rng, m, paren) for m in mids)


def asc(rng, s):
    return s.replace("⟨", "<").replace("⟩", ">") if rng.random() < 0.25 else s


def case_tensor(ctx):
    """one open string through the string interface"""
    rng = ctx.rng
    name = ALL[ctx.index % len(ALL)]
    n = rng.choice([4, 5, 6, 8, 11])
    ps = any_point(ctx, n, name, special=True)
    P = Point.of(ps)
    sc = P.scale() ** 7
    for _ in range(10):
        fam = rng.choice(["⟨a|", "|b⟩", "[a|", "|b]", "begin", "end", "double"])
        a, b = rng.randrange(1, n + 1), rng.randrange(1, n + 1)
        k = rng.choice([1, 1, 2, 2, 3, 4, 5])
        mids = rnd_mids(rng, n, k)
        if fam == "⟨a|":
            s, v = f"⟨{a}|", [P[a].ru]
        elif fam == "[a|":
            s, v = f"[{a}|", [P[a].l]
        elif fam == "|b⟩":
            s, v = f"|{b}⟩", [[x] for x in P[b].r]
        elif fam == "|b]":
            s, v = f"|{b}]", [[x] for x in P[b].lu]
        elif fam == "begin":
            c = rng.choice("⟩]")
            s, v = "|" + body(rng, mids) + f"|{b}{c}", P.chain(None, None, mids, b, c)
        elif fam == "end":
            o = rng.choice("⟨[")
            s, v = f"{o}{a}|" + body(rng, mids) + "|", P.chain(o, a, mids, None, None)
        else:
            s, v = "|" + body(rng, mids) + "|", P.chain(None, None, mids, None, None)
        if fam in ("⟨a|", "|b⟩"):
            s = asc(rng, s)
        if fam in ("begin", "end"):
            s = asc(rng, s)
        if fam == "double" or fam in ("begin", "end") or True:
            s = bold(s) if rng.random() < 0.1 else s
        ctx.obs(f"family:{fam}")
        ctx.key(fam, s, name)
        how = rng.randrange(3)
        got = ps(s) if how else ps.compute(s)
        if fam in ("⟨a|", "|b⟩", "[a|", "|b]") and rng.random() < .4:
            got = ps[s.replace("<", "⟨").replace(">", "⟩")] if not any(ord(ch) >= 0x1D7CE for ch in s) else got
            ctx.obs("item access by string")
        ctx.eqm(v, got, f"{fam}: {s} over {name}, n={n}", scale=sc, key=f"tensor:{fam}")


def case_join(ctx):
    """a closed chain cut into pieces; pieces joined by matrix products outside or inside one expression"""
    rng = ctx.rng
    name = ALL[ctx.index % len(ALL)]
    n = rng.choice([4, 5, 6, 8, 9])
    ps = any_point(ctx, n, name, special=True)
    P = Point.of(ps)
    sc = P.scale() ** 8
    for _ in range(6):
        k = rng.choice([1, 2, 3, 4, 5])
        o = rng.choice("⟨[")
        c = {("⟨", 1): "]", ("⟨", 0): "⟩", ("[", 1): "⟩", ("[", 0): "]"}[(o, k % 2)]
        a, b = rng.randrange(1, n + 1), rng.randrange(1, n + 1)
        mids = rnd_mids(rng, n, k)
        closed = P.chain(o, a, mids, b, c)[0][0]
        # cut positions: before mid i (i=0..k); a doubly open piece must start at an undotted index
        cuts = sorted(set(rng.randrange(0, k + 1) for _ in range(rng.choice([1, 1, 2]))))
        undotted = lambda i: (i % 2 == 0) == (o == "⟨")
        pieces, last = [], None
        edges = cuts + [k]
        pieces.append(f"{o}{a}|" + (body(rng, mids[:cuts[0]]) + "|" if cuts[0] else ""))
        okay = True
        for x, y in zip(edges, edges[1:]):
            if x == y:
                continue
            if y != k or rng.random() < .4:
                if not undotted(x):
                    okay = False
                pieces.append("|" + body(rng, mids[x:y]) + "|")
                if y == k:
                    pieces.append(f"|{b}{c}")
                    last = True
            else:
                pieces.append("|" + body(rng, mids[x:y]) + f"|{b}{c}")
                last = True
        if last is None:
            pieces.append(f"|{b}{c}")
        if not okay:
            ctx.obs("cut starting at a dotted index left out")
            continue
        ctx.key("join", tuple(pieces), name)
        arrs = [ps(q) for q in pieces]
        prod = arrs[0]
        for q in arrs[1:]:
            prod = prod @ q
        ctx.obs("pieces joined by matrix product")
        ctx.eqm([[closed]], prod, f"joining {pieces} over {name}", scale=sc, key="join:outside")
        if all("(" not in q for q in pieces):
            s = "@".join(pieces)
            ctx.obs("pieces joined inside one expression")
            ctx.eq(closed, ps(s), f"joining inside one expression: {s} over {name}", scale=sc, key="join:inside")


def term(rng, P, n, left, right):
    """outer-product term with open indices; left in 'α','α̇' (column spinor), right likewise (row spinor). Returns text, matrix."""
    # column
    if rng.random() < .5:
        x = rng.randrange(1, n + 1)
        col, cm = f"|{x}⟩", [[q] for q in P[x].r]
    else:
        x, k = rng.randrange(1, n + 1), rng.choice([1, 2])
        mids = rnd_mids(rng, n, k, 2)
        c = "]" if k % 2 else "⟩"
        col, cm = "|" + body(rng, mids, False) + f"|{x}{c}", P.chain(None, None, mids, x, c)
    if rng.random() < .5:
        y = rng.randrange(1, n + 1)
        row_, rm = f"⟨{y}|", [P[y].ru]
    else:
        y, k = rng.randrange(1, n + 1), rng.choice([1, 2])
        mids = rnd_mids(rng, n, k, 2)
        o = "[" if k % 2 else "⟨"
        row_, rm = f"{o}{y}|" + body(rng, mids, False) + "|", P.chain(o, y, mids, None, None)
    return col + row_, R.mm(cm, rm)


def case_expr(ctx):
    """sums of open-index terms in one expression"""
    rng = ctx.rng
    name = [x for x in ALL if x != "qi"][ctx.index % (len(ALL) - 1)]   # pyadic's Gaussian rationals cannot scale arrays from the left
    n = rng.choice([4, 5, 6, 8, 9])
    ps = any_point(ctx, n, name, special=True)
    P = Point.of(ps)
    sc = P.scale() ** 7
    for _ in range(4):
        fam = rng.choice(["outer", "vector", "scaled"])
        parts, tot = [], None
        for j in range(rng.randrange(1, 4)):
            sg = rng.choice([1, -1])
            if fam == "outer":
                t, m = term(rng, P, n, None, None)
            elif fam == "vector":
                x, k = rng.randrange(1, n + 1), 2 * rng.randrange(0, 3)
                mids = rnd_mids(rng, n, k, 2)
                t, m = ("|" + body(rng, mids, False) + f"|{x}]" if k else f"|{x}]"), P.chain(None, None, mids, x, "]")
            else:
                x, i, l = rng.randrange(1, n + 1), *rng.sample(range(1, n + 1), 2)
                q = rng.randrange(1, 30)
                t = f"{q}*⟨{i}|{l}⟩*|{x}⟩"
                m = [[q * P.ang(i, l) * z] for z in P[x].r]
            tot = [[sg * z for z in r_] for r_ in m] if tot is None else R.madd(tot, m, sg)
            parts.append(("+" if sg > 0 else "-") + t)
        s = "".join(parts)
        if fam == "vector" and len(parts) == 1:
            s = s[1:]
            if parts[0][0] == "-":
                s = "-" + s
        ctx.obs(f"expression:{fam}")
        ctx.key("expr", s, name)
        ctx.eqm(tot, ps(s), f"open-index expression {s} over {name}", scale=sc, key=f"expr:{fam}")


def case_spin(ctx):
    """explicit spin indices: massive leg i made of massless legs i, i+1; ⟨i_| is its lower, [i^| its upper first component"""
    rng = ctx.rng
    name = ALL[ctx.index % len(ALL)]
    n = rng.choice([6, 7, 8, 9])
    ps = any_point(ctx, n, name)
    P = Point.of(ps)
    sc = P.scale() ** 7
    for _ in range(4):
        k = rng.choice([0, 1, 1, 2, 3, 4])
        mids = rnd_mids(rng, n, k, 2)
        o = rng.choice("⟨[")
        c = {("⟨", 1): "]", ("⟨", 0): "⟩", ("[", 1): "⟩", ("[", 0): "]"}[(o, k % 2)]
        a, b = rng.randrange(1, n), rng.randrange(1, n)
        sa, sb = rng.choice([(True, True), (True, False), (False, True)])

        def mark(x, br, spin):
            if not spin:
                return str(x), x, 1
            ang = br in "⟨⟩"
            return str(x) + (rng.choice("_d") if ang else rng.choice("^u")), x + 1, (1 if ang else -1)
        ta, xa, fa = mark(a, o, sa)
        tb, xb, fb = mark(b, c, sb)
        s = f"{o}{ta}|" + (body(rng, mids, False) + "|" if k else "") + f"{tb}{c}"
        v = fa * fb * P.chain(o, xa, mids, xb, c)[0][0]
        pre = rng.choice(["", "", "", "q", "br"])
        if pre == "q":
            q = rng.randrange(2, 9)
            s, v = f"{q}*" + s, q * v
        elif pre == "br" and name != "qi":
            i, l = rng.sample(range(1, n + 1), 2)
            s, v = f"⟨{i}|{l}⟩" + s, P.ang(i, l) * v
        s = asc(rng, s)
        ctx.obs(f"spin-index chain, {k} insertions")
        ctx.key("spin", s, name)
        ctx.eq(v, ps(s), f"spin-index string {s} over {name}", scale=sc, key="spin")


def case_history(ctx):
    """the same open strings while the point changes under them"""
    import history as H
    rng = ctx.rng
    name = ALL[ctx.index % len(ALL)]
    n = rng.choice([4, 5, 6, 8])
    ps = any_point(ctx, n, name)
    todo = []
    for _ in range(6):
        a, b = rng.randrange(1, n + 1), rng.randrange(1, n + 1)
        mids = rnd_mids(rng, n, rng.choice([1, 2, 3]))
        o, c = rng.choice("⟨["), rng.choice("⟩]")
        todo.append(rng.choice([(f"⟨{a}|", lambda P, a=a: [P[a].ru]), (f"[{a}|", lambda P, a=a: [P[a].l]), (f"|{b}⟩", lambda P, b=b: [[x] for x in P[b].r]), (f"|{b}]", lambda P, b=b: [[x] for x in P[b].lu]),
                                ("|" + body(rng, mids) + f"|{b}{c}", lambda P, m=mids, b=b, c=c: P.chain(None, None, m, b, c)),
                                (f"{o}{a}|" + body(rng, mids) + "|", lambda P, m=mids, a=a, o=o: P.chain(o, a, m, None, None)),
                                ("|" + body(rng, mids) + "|", lambda P, m=mids: P.chain(None, None, m, None, None))]))
    log = []
    ctx.key("history", tuple(t[0] for t in todo), name)
    for step in range(6):
        P = Point.of(ps)
        sc = P.scale() ** 7
        for s, v in todo:
            ctx.eqm(v(P), ps(s), f"{s} over {name}, n={n}, after {log}", scale=sc, key="history")
            ctx.obs("open strings along a history")
        try:
            ps, op = H.change(ctx, ps, name)
        except (ZeroDivisionError, ArithmeticError):
            raise Skip("degenerate change")
        if not H.settled(ps):
            return
        log.append(op)


KINDS = [("history", case_history, 270, 4000), ("tensor", case_tensor, 900, 15000), ("join", case_join, 900, 15000), ("expr", case_expr, 600, 10000), ("spin", case_spin, 600, 10000)]
