import json
import os
import subprocess
import sys
from gen import *
from core import Skip, Violation, REPO
import refstr
from lips.invariants import Invariants

ID = "C18"
RULE = ("a case is one multiplicity and option combination (lists), one batch of random spinor chains looked up in a list (complete), or one pair of processes with different hash seeds (twice); "
        "every entry is evaluated by the library and by the harness at random conserving points of a finite field (and over the complex numbers), looked up among the others up to sign, and every family is compared "
        "with the harness's own enumeration; distinct = (kind, n, options) plus, for chains, the chain")
ASSUMPTIONS = ["completeness is claimed for chains with one insertion and, with two insertions, for equal ends; between different ends chains whose insertions differ by just the leg at the other end are left out by the library",
               "values colliding by accident in a field of 2^31-1 elements are re-drawn at a second point", "multiplicity 8 with all restrictions on, on the quick tier",
               "the three strings added by hand at seven points may repeat an entry of the less restricted four-bracket lists"]
CPU_LIMIT, WALL_LIMIT = 900, 1800

FAM = ("2", "3", "4", "5", "s", "D", "O", "P", "tr5")
HC7 = ("⟨1|(5+6)|(2+7)|1⟩", "[1|(5+6)|(2+7)|1]", "Δ_12|347|56")
HC6 = ("⟨2|(1+3)|5]", "⟨3|(1+5)|4]", "⟨6|(1+3)|4]", "⟨6|(2+4)|3]", "⟨4|(3+5)|1]", "⟨2|(1+4)|5]", "⟨4|(2+5)|1]", "⟨6|(2+5)|3]", "⟨3|(4+6)|1]")
HC6D = ("Δ_15|26|34", "Δ_14|23|56", "Δ_13|24|56")
_memo = {}


def make(n, nh=False, r3=True, r4=True, f4=True):
    k = (n, nh, r3, r4, f4)
    if k not in _memo:
        _memo[k] = Invariants(n, no_cached=True, no_hard_coded_ones=nh, Restrict3Brackets=r3, Restrict4Brackets=r4, FurtherRestrict4Brackets=f4)
    return _memo[k]


def contiguous(n, S):
    S = set(S)
    return sum(1 for x in S if x % n + 1 not in S) <= 1


def parse(s):
    q = s[1:-1].split("|")
    return int(q[0]), [[int(x) for x in y.strip("()").split("+")] for y in q[1:-1]], int(q[-1])


def num(v):
    return v.v if hasattr(v, "v") and not callable(v.v) else int(v)


def up_to_sign(v, p):
    v = num(v) % p
    return min(v, p - v)


def values(ctx, n, names):
    """up-to-sign values at two independent points: equality of the pair means equality of the functions"""
    p = 2 ** 31 - 1
    out = []
    pts = [Point.of(cons_point(ctx, n, "fp")) for _ in range(2)]
    for s in names:
        out.append(tuple(up_to_sign(refstr.value(P, s), p) for P in pts))
    return out, pts


def subsets(L, lo):
    for k in range(lo, len(L) + 1):
        yield from itertools.combinations(L, k)


def expected_values(ctx, pts, chains):
    p = 2 ** 31 - 1
    return {tuple(up_to_sign(P.chain(*c)[0][0], p) for P in pts): c for c in chains}


def case_eight(ctx):
    check_lists(ctx, *((8, True, True, True, True), (8, True, True, True, False), (8, True, True, False, True), (8, False, True, True, True))[ctx.index % 4])


def case_lists(ctx):
    rng = ctx.rng
    combos = [(n, nh, r3, r4, f4) for n in (4, 5, 6) for nh in (False, True) for r3 in (True, False) for r4 in (True, False) for f4 in (True, False)]
    combos += [(7, nh, r3, r4, f4) for nh, r3, r4, f4 in ((False, True, True, True), (True, False, False, True), (True, True, True, False), (False, False, True, True))]
    if ctx.tier == "thorough":
        combos += [(8, True, True, True, True), (8, False, False, True, True), (8, True, True, True, False), (7, False, True, False, False)]
    n, nh, r3, r4, f4 = combos[ctx.index % len(combos)]
    if n == 6 and not nh and ctx.tier == "quick" and rng.random() < (.3 if r4 else .85):
        nh = True
    check_lists(ctx, n, nh, r3, r4, f4)


def check_lists(ctx, n, nh, r3, r4, f4):
    rng = ctx.rng
    I = make(n, nh, r3, r4, f4)
    what = f"n={n} no_hard_coded={nh} restrict3={r3} restrict4={r4} further={f4}"
    ctx.key("lists", n, nh, r3, r4, f4)
    fam = {k: list(getattr(I, f"invs_{k}")) for k in FAM}
    allf = [s for k in FAM for s in fam[k]]
    # unions
    from collections import Counter
    ctx.check(Counter(I.full) == Counter(allf), f"{what}: the full list is not the union of its parts", key="union", diff=list((Counter(I.full) - Counter(allf)) + (Counter(allf) - Counter(I.full)))[:5])
    ctx.check(Counter(I.full_minus_4_brackets) == Counter(s for k in FAM if k != "4" for s in fam[k]), f"{what}: the list without 4-brackets is not the union of the other parts", key="union")
    ctx.check(Counter(I.invs_N) == Counter(fam["3"] + fam["4"] + fam["5"]), f"{what}: the list of chains is not the union of 3-, 4- and 5-brackets", key="union")
    ctx.check(len(set(allf)) == len(allf), f"{what}: repeated strings", key="repeat", dup=[s for s, c in Counter(allf).items() if c > 1][:5])
    ctx.check(I.multiplicity == n, f"{what}: multiplicity {I.multiplicity}")
    # values: non-zero, distinct up to sign
    vals, pts = values(ctx, n, allf)
    seen = {}
    for s, v in zip(allf, vals):
        ctx.check(v[0] != 0 or v[1] != 0, f"{what}: {s} vanishes at generic points", key="zero")
        if v in seen:
            exempt = n == 7 and not (r4 and f4) and s in HC7
            ctx.check(exempt, f"{what}: {s} equals {seen[v]} up to sign", key="redundant")
        seen[v] = s
    ctx.obs("entries evaluated", len(allf))
    ctx.obs("distinct values up to sign", len(seen))
    # the library evaluates them to the same
    some = allf if len(allf) <= 300 else rng.sample(allf, 300)
    ps = cons_point(ctx, n, "fp" if rng.random() < .7 else "mpc")
    P = Point.of(ps)
    for s in some:
        v = ps.compute(s) if rng.random() < .5 else ps(s)
        ctx.eq(refstr.value(P, s), v, f"{what}: {s}", key="value")
    ctx.obs("library evaluations", len(some))
    # families against independent enumerations
    legs = list(range(1, n + 1))
    exp2 = {f"⟨{i}|{j}⟩" for i, j in itertools.combinations(legs, 2)} | (set() if n == 4 else {f"[{i}|{j}]" for i, j in itertools.combinations(legs, 2)})
    ctx.check(set(fam["2"]) == exp2, f"{what}: spinor products are not each pair once", key="2", diff=sorted(set(fam["2"]) ^ exp2)[:5])

    def canon_s(L):
        L = frozenset(L)
        return min([tuple(sorted(L)), tuple(sorted(set(legs) - L))], key=lambda t: (len(t), t))
    gots = Counter(canon_s([int(x) for x in s[2:]]) for s in fam["s"])
    exps = Counter({canon_s(L) for L in subsets(legs, 3) if len(L) <= n - 3})
    ctx.check(gots == exps, f"{what}: Mandelstams are not each subset once up to complement", key="s", diff=list((gots - exps) + (exps - gots))[:5])

    def canon_D(s):
        t = s[2:]
        blocks = [[int(x) for x in c] for c in t.split("|")] if "|" in t else refstr.nol([int(x) for x in t], n)
        return frozenset(frozenset(b) for b in blocks)
    gotD = Counter(canon_D(s) for s in fam["D"])
    expD = set()
    if n >= 6:
        for a in legs:
            for x in range(2, n):
                for y in range(2, n - x - 1):
                    cyc = [(a - 1 + t) % n + 1 for t in range(n)]
                    expD.add(frozenset([frozenset(cyc[:x]), frozenset(cyc[x:x + y]), frozenset(cyc[x + y:])]))
    if n == 6:
        expD |= {canon_D(s) for s in HC6D}
    ctx.check(gotD == Counter(expD), f"{what}: the three-mass Gram determinants are not each cyclic splitting once", key="D", got=fam["D"])
    gott = Counter(frozenset(int(x) for x in s.split("_")[1]) for s in fam["tr5"])
    expt = Counter(frozenset(c) for c in itertools.combinations(legs[:-1], 4)) if n >= 5 else Counter()
    ctx.check(gott == expt, f"{what}: tr5 does not list each four of the first n-1 legs once", key="tr5")
    ctx.check((len(fam["O"]), len(fam["P"])) == ((6, 6) if n == 6 else (0, 0)), f"{what}: {len(fam['O'])} Ω and {len(fam['P'])} Π", key="OP")
    exp5 = set()
    if n >= 7:
        for i in legs:
            line = [(i + t) % n + 1 for t in range(n - 1)]     # the other legs in cyclic order after i
            for x in range(2, n - 4):
                for y in range(2, n - x - 2):
                    b = [line[:x], line[x:x + y], line[x + y:]]
                    for r in range(3):
                        exp5.add((i, tuple(frozenset(z) for z in b[r:] + b[:r]), i))
    got5 = set()
    for s in fam["5"]:
        a, m, d = parse(s)
        got5.add((a, tuple(frozenset(z) for z in m), d))
    ctx.check(got5 == exp5 and len(fam["5"]) == len(exp5), f"{what}: 5-brackets", key="5", diff=list(got5 ^ exp5)[:3])
    # 3-brackets: every chain with one insertion that does not factor, once up to sign
    if nh or n != 6:
        chains = []
        for a in legs:
            for d in legs:
                rest = [x for x in legs if x not in (a, d)]
                for J in subsets(rest, 2):
                    K = set(rest) - set(J)
                    if len(K) < 2 or (r3 and not (contiguous(n, {a, d} | set(J)) or contiguous(n, {a, d} | K))):
                        continue
                    chains.append(("⟨", a, [list(J)], d, "]"))
        exp3 = expected_values(ctx, pts, chains)
        got3 = {v: s for s, v in zip(allf, vals) if s in set(fam["3"])}
        ctx.check(set(exp3) == set(got3), f"{what}: 3-brackets are not each irreducible chain with one insertion once", key="3v",
                  missing=[exp3[v] for v in set(exp3) - set(got3)][:3], extra=[got3[v] for v in set(got3) - set(exp3)][:3])
        ctx.obs("3-brackets enumerated independently", len(exp3))
    # restrictions select, from the unrestricted family, the chains whose legs neighbour each other
    if n <= 7 or ctx.tier == "thorough":
        full3 = [s for s in make(n, True, False, r4 or n < 8, f4 or n < 8).invs_3] if not (n == 8) else None
        if full3 is not None:
            keep = []
            for s in full3:
                a, (J,), d = parse(s)
                K = set(legs) - set(J) - {a, d}
                if not r3 or contiguous(n, {a, d} | set(J)) or contiguous(n, {a, d} | K):
                    keep.append(s)
            if n == 6 and not nh:
                p = 2 ** 31 - 1
                have = {tuple(up_to_sign(refstr.value(Q, s), p) for Q in pts) for s in keep}
                keep += [s for s in HC6 if tuple(up_to_sign(refstr.value(Q, s), p) for Q in pts) not in have]
            ctx.check(set(fam["3"]) == set(keep), f"{what}: 3-brackets kept", key="3", diff=sorted(set(fam["3"]) ^ set(keep))[:5])
            full4 = make(n, True, r3, False, True).invs_4
            keep = []
            for s in full4:
                if s in HC7 and n == 7:
                    keep.append(s)
                    continue
                a, (X, Y), d = parse(s)
                if r4:
                    if len(X) != 2 or len(Y) != 2:
                        continue
                    if f4 and not (contiguous(n, {a} | set(X)) and contiguous(n, {d} | set(Y))):
                        continue
                    if not f4 and not contiguous(n, {a, d} | set(X) | set(Y)):
                        continue
                keep.append(s)
            ctx.check(set(fam["4"]) == set(keep), f"{what}: 4-brackets kept", key="4", diff=sorted(set(fam["4"]) ^ set(keep))[:5])
            ctx.obs("families filtered and compared", 2)


def case_complete(ctx):
    """any chain with one or two insertions equals an entry up to sign, or a product of simpler ones"""
    rng = ctx.rng
    n = (4, 5, 6, 5, 6, 7)[ctx.index % 6]
    p = 2 ** 31 - 1
    I = make(n, True, False, False, True)
    legs = list(range(1, n + 1))
    ang = [f"⟨{i}|{j}⟩" for i, j in itertools.combinations(legs, 2)]
    sq = [f"[{i}|{j}]" for i, j in itertools.combinations(legs, 2)]
    own = [s for s in I.invs_3 + I.invs_4]
    vals, pts = values(ctx, n, own)
    table = dict(zip(vals, own))

    def pair(fn):
        return tuple(up_to_sign(fn(P), p) for P in pts)
    two = {s: tuple(num(refstr.value(P, s)) for P in pts) for s in ang + sq}
    three = {s: tuple(num(refstr.value(P, s)) for P in pts) for s in I.invs_3}
    man = {L: tuple(num(P.mand(list(L))) for P in pts) for L in subsets(legs, 2) if len(L) <= n - 2}

    def lookup(v):
        """v: pair of values. 'entry', 'product' or None"""
        k = tuple(min(x % p, -x % p) for x in v)
        if k in table:
            return "entry"
        for s, a in two.items():
            q = tuple(x * pow(y, -1, p) % p for x, y in zip(v, a))
            kq = tuple(min(x, p - x) for x in q)
            if kq in t2 or kq in table or kq in tm:
                return "product"
            for s2, b in two.items():
                q2 = tuple(x * pow(y, -1, p) % p for x, y in zip(q, b))
                if tuple(min(x, p - x) for x in q2) in t2:
                    return "product"
        return None
    t2 = {tuple(min(x, p - x) for x in v): s for s, v in two.items()}
    tm = {tuple(min(x % p, -x % p) for x in v): s for s, v in man.items()}
    kinds = {"entry": 0, "product": 0, "zero": 0, "dropped": 0}
    N = 40 if ctx.tier == "quick" else 200
    for _ in range(N):
        if rng.random() < .35:
            a, d = rng.choice(legs), rng.choice(legs)
            J = [x for x in legs if rng.random() < .5]
            mids, cl, op = [J], "]", "⟨"
        else:
            op = rng.choice("⟨[")
            cl = {"⟨": "⟩", "[": "]"}[op]
            a, d = rng.choice(legs), rng.choice(legs)
            mids = [[x for x in legs if rng.random() < .5] for _ in range(2)]
        if any(not m for m in mids):
            continue
        v = tuple(num(P.chain(op, a, mids, d, cl)[0][0]) for P in pts)
        s = f"{op}{a}|{'|'.join('(' + '+'.join(map(str, m)) + ')' for m in mids)}|{d}{cl}"
        if v == (0, 0):
            kinds["zero"] += 1
            continue
        r = lookup(v)
        if r is None and len(mids) == 2 and a != d:
            # between different legs the library drops a chain also when its insertions differ by just the leg at the other end
            X, Y = set(mids[0]) - {a}, set(mids[1]) - {d}
            X2, Y2 = set(legs) - X - {a}, set(legs) - Y - {d}
            if any(x - y == {d} or y - x == {a} for x in (X, X2) for y in (Y, Y2)):
                kinds["dropped"] += 1
                continue
        ctx.check(r is not None, f"n={n}: {s} is neither an entry up to sign nor a product of simpler ones", key="incomplete")
        kinds[r] += 1
        ctx.key("complete", n, op, a, mids, d)
    for k, c in kinds.items():
        ctx.obs(f"random chains: {k}", c)


_CHILD = r"""
import sys, json, random
import lips
from lips.invariants import Invariants
n, nh, r3, r4, f4, seed = json.loads(sys.argv[1])
random.seed(seed)
I = Invariants(n, no_cached=True, no_hard_coded_ones=nh, Restrict3Brackets=r3, Restrict4Brackets=r4, FurtherRestrict4Brackets=f4)
print(json.dumps([I.full, I.invs_N, I.full_minus_4_brackets]))
"""


def child(args, hashseed):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONPATH=REPO)
    r = subprocess.run([sys.executable, "-W", "ignore", "-c", _CHILD, json.dumps(args)], env=env, capture_output=True, text=True, timeout=800)
    if r.returncode:
        raise Violation(f"generation fails in a fresh process: {r.stderr[-300:]}", key="process")
    return json.loads(r.stdout.splitlines()[-1])


def case_twice(ctx):
    rng = ctx.rng
    n = (7, 6, 5, 7, 4, 6)[ctx.index % 6]
    nh, r3, r4, f4 = [rng.random() < .5 for _ in range(4)] if ctx.index % 2 else (False, True, True, True)
    if n == 6 and not r4:
        nh = True
    a = child((n, nh, r3, r4, f4, rng.randrange(10 ** 9)), rng.randrange(1, 2 ** 32))
    b = child((n, nh, r3, r4, f4, rng.randrange(10 ** 9)), rng.randrange(1, 2 ** 32))
    ctx.key("twice", n, nh, r3, r4, f4, ctx.index)
    what = f"n={n} no_hard_coded={nh} restrict3={r3} restrict4={r4} further={f4}"
    ctx.check(a == b, f"{what}: two processes generate different lists", key="twice", diff=sorted(set(a[0]) ^ set(b[0]))[:6])
    I = Invariants(n, no_cached=True, no_hard_coded_ones=nh, Restrict3Brackets=r3, Restrict4Brackets=r4, FurtherRestrict4Brackets=f4)
    J = Invariants(n, no_cached=True, no_hard_coded_ones=nh, Restrict3Brackets=r3, Restrict4Brackets=r4, FurtherRestrict4Brackets=f4)
    ctx.check(I.full == a[0] and J.full == a[0], f"{what}: generated again in this process the list differs", key="twice", diff=sorted(set(a[0]) ^ set(I.full))[:6])
    # caller's changes to the list do not leak into the next one
    I.full.append("x")
    I.invs_2.append("x")
    ctx.check("x" not in J.full and "x" not in Invariants(min(n, 5), no_cached=True).full, f"{what}: lists share state", key="twice")
    ctx.obs("processes compared", 2)


FIRST = ("eight", )
KINDS = [("eight", case_eight, 3, 4), ("lists", case_lists, 52, 56), ("complete", case_complete, 48, 400), ("twice", case_twice, 12, 60)]
