import re
from gen import *
from core import Skip, Violation
import refstr
from lips.algebraic_geometry.covariant_ideal import LipsIdeal
from lips.algebraic_geometry.invariant_ideal import SpinorIdeal
from lips.symmetries import all_symmetries, inverse
try:
    from lips.algebraic_geometry.tools import conversionIdeal
except ImportError:
    conversionIdeal = None

ID = "C20"
RULE = ("a case is one ideal built from a random set of spinor strings together with finite-field points constructed by the harness on (and off) its variety: every generator is evaluated there with the harness's arithmetic; membership "
        "queries are decided by construction (random combinations of the strings and of momentum conservation are in) or by a point of the variety where the queried string does not vanish (it is out); images are compared with the "
        "ideal of the relabelled strings and with the relabelled points; distinct = (kind, n, strings, symmetry)")
ASSUMPTIONS = ["Gröbner bases, elimination and reduction by Singular are trusted", "up to 9 legs for generators and images at points, up to 6 for membership, 5 for equality of images, 4 (5 on the thorough tier) for equivalence classes",
               "a string vanishing on all constructed points without being a combination by construction is left undecided", "images of invariant ideals with homogeneous generators"]
CPU_LIMIT = 400
WALL_LIMIT = 280
TIMEOUT_IS_SKIP = True
P = 2 ** 31 - 1


def draw(rng):
    return R.M(rng.randrange(1, P), P)


def br(x, y):
    return x[0] * y[1] - x[1] * y[0]


def scaled(x, v):
    return [x * v[0], x * v[1]]


class Variety:
    """strings together with a sampler of points where they vanish"""

    def __init__(self, rng, n, only=None):
        self.n = n
        self.constraints = []          # functions (r, l) -> None imposing the constraint
        self.strings = []
        self.repair = None             # ('l' or 'r', A, B)
        fam = only or rng.choice(["none", "angles", "angles", "star", "collinear", "two", "soft", "chain", "chain", "openchain", "mand"])
        self.family = fam
        self.parity = rng.random() < .5
        legs = rng.sample(range(1, n + 1), n)
        s = self.strings
        self.free = legs[-2:]          # legs whose square spinors are solved for
        o, c, O, C = "⟨⟩[]"
        if fam == "angles":
            S = legs[:rng.randrange(2, max(3, n - 1))]
            for a, b in itertools.combinations(S, 2):
                s.append(f"{o}{a}|{b}{c}")
            self.constraints.append(lambda r, l: [r.__setitem__(k, scaled(draw(rng), r[S[0]])) for k in S[1:]])
        elif fam == "star":
            S = legs[:rng.randrange(2, max(3, n - 1))]
            s += [f"{o}{S[0]}|{b}{c}" for b in S[1:]]
            self.constraints.append(lambda r, l: [r.__setitem__(k, scaled(draw(rng), r[S[0]])) for k in S[1:]])
        elif fam == "collinear":
            a, b = legs[:2]
            s += [f"{o}{a}|{b}{c}", f"{O}{a}|{b}{C}"]
            self.constraints.append(lambda r, l: (r.__setitem__(b, scaled(draw(rng), r[a])), l.__setitem__(b, scaled(draw(rng), l[a]))))
        elif fam == "two":
            a, b = legs[:2]
            x, y = rng.sample(legs[:-2], 2)
            s += [f"{o}{a}|{b}{c}"] + [f"{O}{x}|{y}{C}"] * (1 if rng.random() < .9 else 2)
            self.constraints.append(lambda r, l: (r.__setitem__(b, scaled(draw(rng), r[a])), l.__setitem__(y, scaled(draw(rng), l[x]))))
        elif fam == "soft":
            a = legs[0]
            s.append(rng.choice([f"|{a}{c}", f"{o}{a}|"]))
            self.constraints.append(lambda r, l: r.__setitem__(a, [R.M(0, P), R.M(0, P)]))
        elif fam == "chain" and n >= 5:
            m = rng.randrange(2, n - 2)
            i, mid, e = legs[-1], legs[:m], legs[m]
            sg = [1] + [rng.choice([1, 1, -1]) for _ in mid[1:]]
            s.append(f"{o}{i}|" + "".join(("+" if k and x > 0 else "-" if x < 0 else "") + str(j) for k, (j, x) in enumerate(zip(mid, sg))) + f"|{e}{C}")
            self.constraints.append(lambda r, l: l.__setitem__(e, [sum((br(r[i], r[j]) * x * l[j][q] for j, x in zip(mid, sg)), R.M(0, P)) for q in (0, 1)]))
        elif fam == "openchain":
            i, j, k = legs[-1], legs[0], legs[1]
            s.append(f"{o}{i}|{j}+{k}|")
            self.constraints.append(lambda r, l: l.__setitem__(k, scaled(-br(r[i], r[j]) / br(r[i], r[k]), l[j])))
        elif fam == "mand":
            a, b = legs[:2]
            s.append(f"s_{a}{b}")
            self.constraints.append(lambda r, l: r.__setitem__(b, scaled(draw(rng), r[a])) if rng.random() < .5 else l.__setitem__(b, scaled(draw(rng), l[a])))
        rng.shuffle(s)
        self.rng = rng
        if self.parity:
            self.strings = [swap(x) for x in s]

    def key(self):
        return (self.n, tuple(self.strings))

    def point(self, on=True, conserve=True):
        """(r, l) dictionaries of lower-index spinors"""
        rng, n = self.rng, self.n
        for _ in range(20):
            r = {k: [draw(rng), draw(rng)] for k in range(1, n + 1)}
            l = {k: [draw(rng), draw(rng)] for k in range(1, n + 1)}
            if on:
                for c in self.constraints:
                    c(r, l)
            A, B = self.free
            if conserve:
                d = br(r[A], r[B])
                if d == 0:
                    continue
                rest = [k for k in r if k not in (A, B)]
                l[A] = [sum((br(r[k], r[B]) * l[k][q] for k in rest), R.M(0, P)) * (-1) / d for q in (0, 1)]
                l[B] = [sum((br(r[k], r[A]) * l[k][q] for k in rest), R.M(0, P)) / d for q in (0, 1)]
            if self.parity:
                r, l = l, r
            pt = Point([R.Leg(r[k], l[k]) for k in range(1, n + 1)])
            if conserve and not pt.conserves():
                raise Skip("harness point does not conserve momentum")
            if on and not all(vanishes(pt, s) for s in self.strings):
                raise Skip("harness point is off the variety")
            return pt
        raise Skip("no point")


EXCH = str.maketrans("⟨⟩[]", "[]⟨⟩")


def swap(s):
    """exchange of angle and square brackets"""
    return s.translate(EXCH)


def relabel(s, perm, parity):
    if s.startswith("s_"):
        return "s_" + "".join(perm[int(c) - 1] for c in s[2:])
    t = re.sub(r"\d", lambda m: perm[int(m.group()) - 1], s)
    return swap(t) if parity else t


def vals(pt, s):
    """components of a string at a point"""
    if s[0] == "|" or s[-1] == "|":
        if s[0] == "|":
            leg = pt[int(s[1:-1])]
            return list(leg.r if s[-1] == "⟩" else leg.l)
        parts = s[1:-1].split("|")
        ch = pt.chain(s[0], int(parts[0]), [refstr.signed(x) for x in parts[1:]], None, "|")
        return list(ch[0])
    return [refstr.value(pt, s)]


def vanishes(pt, s):
    return all(x == 0 for x in vals(pt, s))


def env_cov(pt):
    d = {}
    for k in range(1, len(pt) + 1):
        d[f"a{k}"], d[f"b{k}"] = pt[k].r
        d[f"c{k}"], d[f"d{k}"] = pt[k].l
    return d


def env_inv(pt):
    d = {}
    for q, (i, j) in enumerate(itertools.combinations(range(1, len(pt) + 1), 2)):
        d[f"A{q + 1}"], d[f"B{q + 1}"] = pt.ang(i, j), pt.sq(i, j)
    return d


def evaluate(poly, env):
    """value of a polynomial printed by the library or Singular"""
    t = poly.replace("^", "**").replace(" ", "")
    t = re.sub(r"(?<![\w*])(\d+)|(?<=[^*]\*)(\d+)(?!\w)", lambda m: f"K({m.group()})", t)
    try:
        v = eval(t, {"__builtins__": {}, "K": lambda x: R.M(x, P)}, env)
    except NameError as e:
        raise Violation(f"generator {poly[:80]} contains an unknown symbol: {e}", "symbol")
    return v if isinstance(v, R.M) else R.M(int(v), P)


def all_zero(I, env):
    return all(evaluate(g, env) == 0 for g in I.generators)


def symmetry(rng, n):
    p = list(range(1, n + 1))
    c = rng.random()
    if c < .15:
        k = rng.randrange(n)
        p = p[k:] + p[:k]
    elif c < .3:
        i, j = rng.sample(range(n), 2)
        p[i], p[j] = p[j], p[i]
    else:
        rng.shuffle(p)
    return "".join(map(str, p)), rng.random() < .5


def moved(pt, sym):
    """point where the image's strings take the values the strings take at pt: leg i goes to position σ(i)"""
    n = len(pt)
    legs = [None] * n
    for i in range(1, n + 1):
        L = pt[i]
        legs[int(sym[0][i - 1]) - 1] = R.Leg(L.l, L.r) if sym[1] else R.Leg(L.r, L.l)
    return Point(legs)


def comp(p, q):
    return "".join(p[int(c) - 1] for c in q)


def judge(ctx, I, V, env, what, conserved=True):
    for _ in range(3):
        pt = V.point()
        ctx.check(all_zero(I, env(pt)), f"{what}: a generator does not vanish at a point where all strings vanish and momentum is conserved", key="generator vanishes", strings=V.strings)
        ctx.obs("generators evaluated on the variety", len(I.generators))
    for _ in range(3):
        pt = V.point(on=False)
        if not all(vanishes(pt, s) for s in V.strings):
            ctx.check(not all_zero(I, env(pt)), f"{what}: all generators vanish where the strings do not", key="generator misses strings", strings=V.strings)
            ctx.obs("points off the strings")
        pt = V.point(conserve=False)
        if not pt.conserves():
            ctx.check(all_zero(I, env(pt)) != conserved, f"{what}: momentum conservation {'missing from' if conserved else 'present in'} the generators", key="generator momentum", strings=V.strings)
            ctx.obs("points that do not conserve momentum")


def case_generators(ctx):
    rng = ctx.rng
    n = rng.randrange(4, 10)
    V = Variety(rng, n)
    mc = rng.choice([None, None, True, False])
    ctx.key("generators", V.key(), mc)
    I = LipsIdeal(n, tuple(V.strings)) if mc is None else LipsIdeal(n, tuple(V.strings), momentum_conservation=mc)
    if mc is False and not V.strings:
        ctx.check(all_zero(I, env_cov(V.point(conserve=False))), "ideal of no strings", key="zero ideal")
        return
    judge(ctx, I, V, env_cov, f"ideal of {V.strings} with {n} legs", conserved=mc is not False)
    J = LipsIdeal(I.ring, list(I.generators))
    ctx.check(J.generators == I.generators and J.multiplicity == n, "ideal rebuilt from its ring and generators differs", key="rebuild")


def spinor_factor(rng, n, k=2):
    out = ""
    for _ in range(rng.randrange(0, k)):
        a, b = rng.sample(range(1, n + 1), 2)
        out += rng.choice([f"⟨{a}|{b}⟩", f"[{a}|{b}]"])
    return out


def query(rng, n):
    c = rng.random()
    a, b = rng.sample(range(1, n + 1), 2)
    if c < .4:
        return rng.choice([f"⟨{a}|{b}⟩", f"[{a}|{b}]"])
    if c < .6:
        return rng.choice([f"|{a}⟩", f"|{a}]", f"⟨{a}|", f"[{a}|"])
    m = sorted(rng.sample(range(1, n + 1), 2))
    if c < .85:
        return rng.choice([f"⟨{a}|{m[0]}+{m[1]}|{b}]", f"[{a}|{m[0]}+{m[1]}|{b}⟩", f"⟨{a}|{m[0]}-{m[1]}|{b}]"])
    return "s_" + "".join(map(str, m))


def member(rng, V):
    """string of a random combination of the defining strings and of momentum conservation"""
    n = V.n
    terms = []
    for s in V.strings:
        if rng.random() < .7:
            if s[0] == "|" or s[-1] == "|":
                x = rng.randrange(1, n + 1)
                if s[0] == "|":
                    b = s[-1]
                    s = ("⟨" if b == "⟩" else "[") + f"{x}{s}"
                else:
                    inner = s[1:-1].split("|")
                    close = ("⟩" if s[0] == "⟨" else "]") if len(inner) % 2 else ("]" if s[0] == "⟨" else "⟩")
                    s = s + f"{x}{close}"
            terms.append(f"{rng.randrange(1, 9)}{s}{spinor_factor(rng, n)}")
    if not terms or rng.random() < .4:
        a, b = rng.choice(range(1, n + 1)), rng.choice(range(1, n + 1))
        terms.append(f"{rng.randrange(1, 9)}⟨{a}|{'+'.join(map(str, range(1, n + 1)))}|{b}]{spinor_factor(rng, n)}")
    return "".join((rng.choice("+-") if k else "") + t for k, t in enumerate(terms))


def case_membership(ctx):
    rng = ctx.rng
    n = rng.choice([4, 4, 5, 5, 5, 6])
    V = Variety(rng, n)
    I = LipsIdeal(n, tuple(V.strings))
    ctx.key("membership", V.key())
    pts = [V.point() for _ in range(4)]
    c = rng.random()
    if c < .2 and V.strings:      # momentum conservation only enters with the quotient
        I = LipsIdeal(n, tuple(V.strings), momentum_conservation=False)
    if c < .3:
        I.to_mom_cons_qring()
        ctx.obs("queries in the quotient ring")
    x, y = rng.choice("ab"), rng.choice("cd")
    mc = "+".join(f"{x}{k}*{y}{k}" for k in range(1, n + 1))
    ctx.check(mc in I, f"momentum conservation {mc} is not in the ideal of {V.strings}{' (quotient ring)' if c < .3 else ''}", key="momentum member")
    for s in V.strings:
        ctx.check(s in I, f"{s} is not in the ideal of {V.strings}", key="own string")
    for _ in range(2):
        m = member(rng, V)
        ctx.check(m in I, f"combination {m} is not in the ideal of {V.strings}", key="combination")
        ctx.obs("members")
    for _ in range(4):
        q = query(rng, n)
        zero = all(vanishes(pt, q) for pt in pts)
        got = q in I
        if not zero:
            ctx.check(not got, f"{q} is accepted in the ideal of {V.strings} ({n} legs) although it does not vanish there", key="not sound")
            ctx.obs("non-members")
        elif q in V.strings:
            ctx.check(got, f"{q} refused", key="own string")
        else:
            ctx.obs("undecided queries")
    # polynomials in the components
    g = rng.choice(I.generators)
    ctx.check(g in I, f"generator {g} is not a member", key="own generator")
    k = rng.randrange(1, n + 1)
    mono = rng.choice("abcd") + str(k)
    if any(env_cov(pt)[mono] != 0 for pt in pts):
        ctx.check(mono not in I, f"{mono} is accepted", key="not sound")


def case_components(ctx):
    """ideals given by polynomials in the components: an open string is a member only if each of its components is"""
    rng = ctx.rng
    n = rng.choice([4, 5, 6])
    k = rng.randrange(1, n + 1)
    chi = rng.choice(["ab", "cd"])
    other = [f"{x}{j}" for j in range(1, n + 1) if j != k for x in "abcd"]
    gens = rng.sample([chi[0] + str(k), chi[1] + str(k)], rng.choice([1, 1, 2])) + rng.sample(other, rng.randrange(0, 3))
    rng.shuffle(gens)
    I = LipsIdeal(n, list(gens))
    ctx.key("components", n, tuple(gens))
    ctx.check(I.multiplicity == n and I.generators == gens, "ideal from a list of generators", key="form")
    for j in range(1, n + 1):
        for t, cs in ((f"|{j}⟩", "ab"), (f"⟨{j}|", "ab"), (f"|{j}]", "cd"), (f"[{j}|", "cd")):
            if j != k and rng.random() < .7:
                continue
            exp = all(c + str(j) in gens for c in cs)
            ctx.check((t in I) == exp, f"membership of {t} in the ideal of {gens} is not {exp}", key="component")
            ctx.obs("open strings in component ideals")
    i = rng.choice([j for j in range(1, n + 1) if j != k])
    t = f"⟨{k}|{i}|" if chi == "ab" else f"[{k}|{i}|"
    # ⟨k i⟩ times the components of the spinor of leg i
    mono = {x: x not in gens for x in [y + str(j) for y in "abcd" for j in (i, k)]}
    br_zero = not ((mono[chi[0] + str(k)] and mono[chi[1] + str(i)]) or (mono[chi[1] + str(k)] and mono[chi[0] + str(i)]))
    exp = br_zero or not any(mono[x + str(i)] for x in ("cd" if chi == "ab" else "ab"))
    ctx.check((t in I) == exp, f"membership of {t} in the ideal of {gens} is not {exp}", key="component")


def case_tensor(ctx):
    """strings with two open indices: all four components are imposed, each by itself"""
    rng = ctx.rng
    n = rng.randrange(4, 8)
    legs = rng.sample(range(1, n + 1), n)
    outer = rng.random() < .35
    m = 2 if outer else rng.randrange(2, n)
    use = legs[:m]
    sg = [1] + [rng.choice([1, 1, -1]) for _ in use[1:]]
    if outer:
        kind = rng.choice(["⟩[", "⟩⟨", "]⟨", "]["])
        s = f"|{use[0]}{kind[0]}{kind[1]}{use[1]}|"
    else:
        s = "|" + "".join(("+" if k and x > 0 else "-" if x < 0 else "") + str(j) for k, (j, x) in enumerate(zip(use, sg))) + "|"
    ctx.key("tensor", n, s)
    I = LipsIdeal(n, (s, ), momentum_conservation=False)
    F = LipsIdeal(n, (s, ))

    def entries(pt):
        if outer:
            x = pt[use[0]].r if kind[0] == "⟩" else pt[use[0]].l
            y = pt[use[1]].l if kind[1] == "[" else pt[use[1]].r
            return [a * b for a in x for b in y]
        return [sum((pt[j].r[a] * pt[j].l[b] * e for j, e in zip(use, sg)), R.M(0, P)) for a in (0, 1) for b in (0, 1)]

    def build(target):
        """a point where the tensor has exactly these entries"""
        r = {k: [draw(rng), draw(rng)] for k in range(1, n + 1)}
        l = {k: [draw(rng), draw(rng)] for k in range(1, n + 1)}
        if outer:
            a = next((q for q in range(4) if target[q] != 0), None)
            x = [R.M(0, P), R.M(0, P)]
            y = [draw(rng), draw(rng)]
            if a is not None:
                x[a // 2] = draw(rng)
                y = [R.M(0, P), R.M(0, P)]
                y[a % 2] = draw(rng)
            (r if kind[0] == "⟩" else l)[use[0]] = x
            (l if kind[1] == "[" else r)[use[1]] = y
        else:
            A, B = use[-2:]
            d = br(r[A], r[B])
            # r_A l_A e_A + r_B l_B e_B = target - rest
            for b in (0, 1):
                w = [target[2 * a + b] - sum((r[j][a] * l[j][b] * e for j, e in zip(use[:-2], sg)), R.M(0, P)) for a in (0, 1)]
                l[A][b] = br(w, r[B]) / d * sg[-2]
                l[B][b] = br(r[A], w) / d * sg[-1]
        return Point([R.Leg(r[k], l[k]) for k in range(1, n + 1)])

    zero = [R.M(0, P)] * 4
    pt = build(zero)
    if any(x != 0 for x in entries(pt)):
        raise Skip("harness point")
    ctx.check(all_zero(I, env_cov(pt)), f"ideal of {s}: a generator does not vanish where the tensor does", key="generator vanishes")
    hit = set()
    for q in range(4):
        t = list(zero)
        t[q] = draw(rng)
        u = build(t)
        e = entries(u)
        if sum(1 for x in e if x != 0) != 1:
            raise Skip("harness point")
        hit.add([x != 0 for x in e].index(True))
        ctx.check(not all_zero(I, env_cov(u)), f"ideal of {s}: all generators vanish where one component of the tensor does not", key="generator misses strings")
        ctx.check(not all_zero(F, env_cov(u)), f"ideal of {s}, momentum conserved: all generators vanish where one component of the tensor does not", key="generator misses strings")
    ctx.check(len(hit) == 4, "harness: components", key="harness")
    g = symmetry(rng, n)
    J = I(*g)
    ctx.check(all_zero(J, env_cov(moved(pt, g))), f"image of the ideal of {s} under {g}: does not vanish at the moved point", key="image")
    ctx.check(not all_zero(J, env_cov(moved(u, g))), f"image of the ideal of {s} under {g}: vanishes off the moved variety", key="image")
    ctx.check(s in I and s in F, f"{s} is not in its own ideal", key="own string")
    if n < 6 and not outer:
        x, y = rng.randrange(1, n + 1), rng.randrange(1, n + 1)
        c = f"⟨{x}{s}{y}]"
        ctx.check(c in I and c in F, f"{c} is not in the ideal of {s}", key="combination")
        for t in (f"⟨{x}{s}", f"{s}{y}]"):
            ctx.check(t in I, f"{t} is not in the ideal of {s}", key="combination")
    ctx.obs("tensors with two open indices")


def case_invariant_large(ctx):
    """images of invariant ideals given by polynomials, six to nine legs (no elimination involved)"""
    rng = ctx.rng
    n = rng.randrange(4, 10)
    N = n * (n - 1) // 2
    gens = []
    for _ in range(rng.randrange(1, 4)):
        deg = rng.randrange(1, 4)
        gens.append("+".join(f"{rng.randrange(1, 99)}*" + "*".join(rng.choice("AB") + str(rng.randrange(1, N + 1)) for _ in range(deg)) for _ in range(rng.randrange(1, 4))))
        if rng.random() < .3:
            gens[-1] = gens[-1].replace("+", "-")
        if rng.random() < .3:
            gens.append(f"{rng.choice('AB')}{rng.randrange(1, N + 1)}^{rng.randrange(2, 5)}")
    S = SpinorIdeal(n, list(gens))
    g, h = symmetry(rng, n), symmetry(rng, n)
    ctx.key("invariant_large", n, tuple(gens), g)
    pt = Variety(rng, n, only="none").point(conserve=rng.random() < .5)
    e, J = env_inv(pt), S(*g)
    f = env_inv(moved(pt, g))
    ctx.check(S.generators == gens and len(J.generators) == len(gens) and J.multiplicity == n, "image of an invariant ideal has other generators", key="form")
    K = J(*h)
    k = env_inv(moved(moved(pt, g), h))
    for a, b, c in zip(gens, J.generators, K.generators):
        x, y, z = evaluate(a, e), evaluate(b, f), evaluate(c, k)
        ctx.check(y == x or y == -x, f"image of {a} under {g} is {b}: wrong value at the moved point", key="image")
        ctx.check(z == x or z == -x, f"image of {a} under {g} then {h} is {c}: wrong value at the moved point", key="image")
        ctx.obs("invariant generators moved")


def case_covariant_large(ctx):
    """images of covariant ideals given by polynomials in the components, as printed by the library or by Singular"""
    rng = ctx.rng
    n = rng.randrange(4, 10)
    gens = []
    for _ in range(rng.randrange(1, 4)):
        t = []
        for _ in range(rng.randrange(1, 4)):
            m = [rng.choice("abcd") + str(rng.randrange(1, n + 1)) for _ in range(rng.randrange(1, 4))]
            if rng.random() < .4:
                m[0] += rng.choice(["^", "**"]) + str(rng.randrange(2, 5))
            t.append(("" if rng.random() < .4 else f"{rng.randrange(2, 99)}*") + "*".join(m))
        gens.append(rng.choice(["+", "-", " + "]).join(t))
    I = LipsIdeal(n, list(gens))
    g, h = symmetry(rng, n), symmetry(rng, n)
    ctx.key("covariant_large", n, tuple(gens), g)
    pt = Variety(rng, n, only="none").point(conserve=rng.random() < .5)
    J = I(*g)
    K = J(*h)
    ctx.check(I.generators == gens and len(J.generators) == len(gens) and J.multiplicity == n, "image of a covariant ideal has other generators", key="form")
    e, f, k = env_cov(pt), env_cov(moved(pt, g)), env_cov(moved(moved(pt, g), h))
    for a, b, c in zip(gens, J.generators, K.generators):
        x, y, z = evaluate(a, e), evaluate(b, f), evaluate(c, k)
        ctx.check(y == x, f"image of {a} under {g} is {b}: wrong value at the moved point", key="image")
        ctx.check(z == x, f"image of {a} under {g} then {h} is {c}: wrong value at the moved point", key="image")
        ctx.obs("covariant generators moved")


def case_conversion(ctx):
    """the passage from components to invariants: A and B are the angle and square products, in order"""
    rng = ctx.rng
    n = rng.randrange(4, 10)
    if conversionIdeal is None:
        ctx.check(True, "no such helper")
        return
    C = conversionIdeal(n)
    ctx.key("conversion", n, ctx.index)
    N = n * (n - 1) // 2
    pt = Variety(rng, n, only="none").point(conserve=rng.random() < .5)
    e = {**env_cov(pt), **env_inv(pt)}
    bad = [g for g in C.generators if evaluate(g, e) != 0]
    ctx.check(not bad, f"conversion with {n} legs: {bad[:2]} does not vanish at the products of the point", key="conversion")
    for _ in range(4):
        x = rng.choice("AB") + str(rng.randrange(1, N + 1))
        w = {**e, x: e[x] + R.M(rng.randrange(1, P), P)}
        ctx.check(any(evaluate(g, w) != 0 for g in C.generators), f"conversion with {n} legs leaves {x} undetermined", key="conversion")
    ctx.obs("conversions")


def case_image(ctx):
    """images at points: no Gröbner basis involved, up to nine legs"""
    rng = ctx.rng
    n = rng.randrange(4, 10)
    V = Variety(rng, n)
    I = LipsIdeal(n, tuple(V.strings))
    g = symmetry(rng, n)
    ctx.key("image", V.key(), g)
    before = list(I.generators)
    J = I(*g) if rng.random() < .7 else I.image(g)
    ctx.check(I.generators == before, "image changed the ideal", key="mutation")
    ctx.check(isinstance(J, LipsIdeal) and J.multiplicity == n and J.ring == I.ring, "image is not an ideal of the same ring", key="form")
    for _ in range(2):
        pt = V.point()
        ctx.check(all_zero(J, env_cov(moved(pt, g))), f"image of {V.strings} under {g}: does not vanish at the moved point", key="image")
        q = V.point(on=False)
        if not all(vanishes(q, s) for s in V.strings):
            ctx.check(not all_zero(J, env_cov(moved(q, g))), f"image of {V.strings} under {g}: vanishes off the moved variety", key="image")
        rel = [relabel(s, *g) for s in V.strings]
        w = moved(pt, g)
        ctx.check(all(vanishes(w, s) for s in rel), "harness: relabelled strings", key="harness")
        fresh = Variety(rng, n, only="none").point()
        if not all(vanishes(fresh, s) for s in rel):
            ctx.check(not all_zero(J, env_cov(fresh)), f"image of {V.strings} under {g}: vanishes at a generic point", key="image")
        u = V.point(conserve=False)
        ctx.check(not all_zero(J, env_cov(moved(u, g))), f"image of {V.strings} under {g}: lost momentum conservation", key="image")
    # inverse: values of the generators come back
    K = J(*inverse(g))
    u = V.point(on=False, conserve=False)
    e = env_cov(u)
    ctx.check(sorted(evaluate(x, e).v for x in K.generators) == sorted(evaluate(x, e).v for x in I.generators), f"inverse image of {g} does not give the generators back", key="inverse")
    ctx.obs("images at points")


def case_equal(ctx):
    """images as ideals"""
    rng = ctx.rng
    n = rng.choice([4, 5, 5])
    V = Variety(rng, n)
    I = LipsIdeal(n, tuple(V.strings))
    g, h = symmetry(rng, n), symmetry(rng, n)
    ctx.key("equal", V.key(), g)
    J = I(*g)
    rel = tuple(relabel(s, *g) for s in V.strings)
    ctx.check(bool(J == LipsIdeal(n, rel)), f"image of the ideal of {V.strings} under {g} is not the ideal of {rel}", key="relabelled ideal")
    ctx.check(bool(J(*h) == I(comp(h[0], g[0]), g[1] != h[1])), f"images {g} then {h} do not compose", key="compose")
    ctx.check(bool(J(*inverse(g)) == I), f"the inverse of {g} does not undo it", key="inverse")
    # a different ideal is different
    pts = [V.point() for _ in range(3)]
    if not all(all_zero(J, env_cov(pt)) for pt in pts):
        ctx.check(not (J == I), f"the image under {g} equals the ideal although their points differ", key="distinct")
        ctx.obs("distinct images")
    ctx.obs("images compared as ideals")


def case_invariant(ctx):
    rng = ctx.rng
    n = 4 if rng.random() < .6 else 5
    V = Variety(rng, n, only=rng.choice(["none", "angles", "star", "collinear", "two", "chain", "mand", "angles"]))
    S = SpinorIdeal(n, tuple(V.strings))
    ctx.key("invariant", V.key())
    for _ in range(3):
        pt = V.point()
        ctx.check(all_zero(S, env_inv(pt)), f"invariant ideal of {V.strings}: a generator does not vanish on the variety", key="generator vanishes")
        q = V.point(on=False)
        if not all(vanishes(q, s) for s in V.strings):
            ctx.check(not all_zero(S, env_inv(q)), f"invariant ideal of {V.strings}: vanishes where the strings do not", key="generator misses strings")
        u = V.point(conserve=False)
        ctx.check(not all_zero(S, env_inv(u)), f"invariant ideal of {V.strings}: vanishes without momentum conservation", key="generator momentum")
    if V.strings and rng.random() < .4:
        # without momentum conservation: it holds on more points
        N = SpinorIdeal(n, tuple(V.strings), momentum_conservation=False)
        for _ in range(2):
            u = V.point(conserve=False)
            if all(vanishes(u, s) for s in V.strings):
                ctx.check(all_zero(N, env_inv(u)), f"invariant ideal of {V.strings} without momentum conservation: a generator does not vanish at a point where the strings do", key="generator momentum")
                ctx.obs("invariant ideals without momentum conservation")
            q = V.point(on=False, conserve=False)
            if not all(vanishes(q, s) for s in V.strings):
                ctx.check(not all_zero(N, env_inv(q)), f"invariant ideal of {V.strings} without momentum conservation: vanishes where the strings do not", key="generator misses strings")
    g = symmetry(rng, n)
    J = S(*g)
    ctx.check(isinstance(J, SpinorIdeal) and J.multiplicity == n, "image is not an invariant ideal", key="form")
    pt = V.point()
    ctx.check(all_zero(J, env_inv(moved(pt, g))), f"image of the invariant ideal of {V.strings} under {g} does not vanish at the moved point", key="image")
    rel = tuple(relabel(s, *g) for s in V.strings)
    ctx.check(bool(J == SpinorIdeal(n, rel)), f"image of the invariant ideal of {V.strings} under {g} is not the one of {rel}", key="relabelled ideal")
    ctx.check(bool(J(*inverse(g)) == S), f"the inverse of {g} does not undo it", key="inverse")
    ctx.obs("invariant ideals")
    if rng.random() < .5:
        Q = SpinorIdeal(n, tuple(V.strings))
        Q.to_momentum_and_schouten_qring()
        q = V.point(on=False)
        ctx.check(all_zero(Q.ring.ideal, env_inv(q)), f"quotient by momentum conservation and Schouten identities: a relation fails at a generic point ({n} legs)", key="quotient relation")
        u = V.point(conserve=False)
        ctx.check(not all_zero(Q.ring.ideal, env_inv(u)), f"quotient ring ({n} legs) does not know momentum conservation", key="quotient relation")
        ctx.check(all(x in Q for x in S.generators), f"the invariant ideal of {V.strings} loses a generator in the quotient ring", key="quotient")
        on = env_inv(V.point())
        for x in rng.sample(sorted(on), min(3, len(on))):
            if on[x] != 0:
                ctx.check(x not in Q, f"{x} is accepted in the quotient ideal of {V.strings} although it does not vanish there", key="quotient")
        Q.to_full_ring()
        ctx.check(bool(Q == S), f"leaving the quotient ring does not give the invariant ideal of {V.strings} back", key="quotient")
        ctx.obs("quotients by momentum conservation and Schouten identities")


def case_slice(ctx):
    rng = ctx.rng
    n = 4 if rng.random() < .5 else 5
    V = Variety(rng, n)
    I = LipsIdeal(n, tuple(V.strings))
    g = symmetry(rng, n)
    ctx.key("slice", V.key(), g)
    S = I.invariant_slice()
    ctx.check(isinstance(S, SpinorIdeal) and S.multiplicity == n, "slice is not an invariant ideal", key="form")
    for _ in range(2):
        ctx.check(all_zero(S, env_inv(V.point())), f"invariant slice of {V.strings} does not vanish on the variety", key="slice")
    closed = [s for s in V.strings if s[0] != "|" and s[-1] != "|"]
    q = V.point(on=False)
    if closed and not all(vanishes(q, s) for s in closed):
        ctx.check(not all_zero(S, env_inv(q)), f"invariant slice of {V.strings} vanishes off the variety", key="slice")
    ctx.check(bool(I(*g).invariant_slice() == S(*g)), f"invariant slice of {V.strings} does not commute with {g}", key="slice commutes")
    if closed == V.strings:
        ctx.check(bool(S == SpinorIdeal(n, tuple(V.strings))), f"invariant slice of {V.strings} is not the invariant ideal", key="slice ideal")
    ctx.obs("slices")


def case_class(ctx):
    rng = ctx.rng
    n = 4 if ctx.tier == "quick" or rng.random() < .8 else 5
    V = Variety(rng, n)
    I = LipsIdeal(n, tuple(V.strings))
    ctx.key("class", V.key())
    cls = I.equivalenceClass
    syms = all_symmetries(n)
    ctx.check(all(k in syms for k in cls), "keys of the equivalence class are not symmetries", key="form")
    bases = {}
    for k, J in cls.items():
        ctx.check(bool(J == I(*k)), f"class of {V.strings}: entry {k} is not the image under {k}", key="entry")
        b = tuple(J.reduced_groebner_basis)
        ctx.check(b not in bases, f"class of {V.strings}: {k} and {bases.get(b)} are the same ideal", key="repeat")
        bases[b] = k
    for k in (syms if n == 4 else rng.sample(syms, 20)):
        ctx.check(tuple(I(*k).reduced_groebner_basis) in bases, f"class of {V.strings}: the image under {k} is missing", key="missing")
    ctx.obs("distinct images listed", len(cls))


def case_bad(ctx):
    rng = ctx.rng
    n = rng.choice([4, 5])
    for cls in (LipsIdeal, SpinorIdeal):
        for a, b in ((str(n), ("⟨1|2⟩",)), (None, ("⟨1|2⟩",)), (n, "⟨1|2⟩"), (n, {"⟨1|2⟩"}), (n, None)):
            ctx.raises(lambda: cls(a, b), f"{cls.__name__}({a!r}, {b!r}) does not raise", key="bad")
    V = Variety(rng, n)
    I = LipsIdeal(n, tuple(V.strings))
    ctx.key("bad", V.key())
    ctx.raises(lambda: I(1, 2), "calling an ideal with numbers does not raise", key="bad")
    ctx.raises(lambda: "⟨1|2+3|4⟩" in I, "membership of a malformed chain does not raise", key="bad")


KINDS = [("components", case_components, 60, 800), ("tensor", case_tensor, 60, 800), ("invariant_large", case_invariant_large, 120, 2000), ("generators", case_generators, 160, 3000), ("membership", case_membership, 120, 2500), ("covariant_large", case_covariant_large, 150, 4000), ("conversion", case_conversion, 24, 300), ("image", case_image, 160, 3000), ("equal", case_equal, 90, 1500),
         ("invariant", case_invariant, 60, 1000), ("slice", case_slice, 50, 800), ("class", case_class, 16, 150), ("bad", case_bad, 4, 20)]
