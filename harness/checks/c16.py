import contextlib
import copy
import io
import random
import sys
import sympy
import traceback
from gen import *
from core import Skip, Violation
import monitors as Mo
import refstr

ID = "C16"
RULE = ("a case is one slice (univariate covariant or generic, bivariate covariant) over a finite field with random constraints, seed and multiplicity; its spinors are read as polynomials and evaluated by the harness at random "
        "parameter values (more than the degree of any identity involved); at each of them conservation, masslessness and the constraints are recomputed; the degree of each spinor product is bounded by finite differences; the "
        "numeric point obtained with subs() is examined as a point; distinct = (algorithm, n, field, constraints, seed)")
ASSUMPTIONS = ["finite fields (constraints), finite fields and p-adics (conservation)", "identities are decided by evaluation at random values: wrong with probability below 1e-7 per identity at the primes used"]
CPU_LIMIT = 300
WALL_LIMIT = 200
TIMEOUT_IS_SKIP = True


def quiet(fn):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn()


def val_at(x, at, p, name):
    """value of a spinor component (number or polynomial in the parameters) at the given parameter values"""
    if not isinstance(x, sympy.Basic):
        return R.lift(x)
    for s in x.free_symbols:
        if str(s) not in at:
            raise Violation(f"spinor component still contains the symbol {s}", "symbol")
    P = sympy.Poly(x, *sympy.symbols(sorted(at)))
    m = p ** field(name).digits
    tot = 0
    for mon, c in P.terms():
        c = int(c)
        for e, k in zip(mon, sorted(at)):
            c = c * pow(at[k], e, m) % m
        tot += c
    return R.M(tot % m, p) if field(name).name == "finite field" else R.PA(tot % m, p, field(name).digits)


def point_at(ps, at, name):
    p = field(name).characteristic
    legs = []
    for q in ps:
        legs.append(R.Leg([val_at(q.r_sp_d[0, 0], at, p, name), val_at(q.r_sp_d[1, 0], at, p, name)], [val_at(q.l_sp_d[0, 0], at, p, name), val_at(q.l_sp_d[0, 1], at, p, name)]))
    return Point(legs)


def constraint_value(P, s):
    tot = 0
    for sign, term in terms(s):
        v = refstr.value(P, term)
        tot = v * sign + tot
    return tot


def terms(s):
    out, sign = [], 1
    cur = ""
    depth = 0
    for ch in s:
        if ch in "⟨[(":
            depth += 1
        if ch in "⟩])":
            depth -= 1
        if ch in "+-" and depth == 0 and cur:
            out.append((sign, cur))
            cur, sign = "", 1 if ch == "+" else -1
        else:
            cur += ch
    return out + [(sign, cur)]


def draw_constraints(rng, n):
    c = rng.random()
    if c < .35:
        return ()
    i, j, k, l = rng.sample(range(1, n + 1), 4)
    pool = [f"⟨{i}{j}⟩+[{i}{j}]", f"⟨{i}{j}⟩-⟨{k}{l}⟩", f"s_{i}{j}-s_{k}{l}", f"⟨{i}|{j}⟩-[{k}|{l}]"]
    if n >= 6:
        pool += [f"⟨{i}|{j}+{k}|{l}]-⟨{j}|{i}+{k}|{l}]", f"⟨{i}|{j}⟩"]
    if n >= 6 and c > .8:
        # as in the library's own use: two massive legs from pairs of massless ones
        return (f"⟨{i}{j}⟩+[{i}{j}]", f"⟨{i}{j}⟩-⟨{k}{l}⟩", f"⟨{k}{l}⟩+[{k}{l}]")
    if n >= 6 and c > .65:
        return tuple(rng.choice([(f"⟨{i}|{j}⟩", f"⟨{k}|{l}⟩"), (f"⟨{i}|{j}⟩", f"[{k}|{l}]"), (f"⟨{i}|{j}⟩", f"⟨{i}|{k}⟩"), (f"⟨{i}|{j}⟩", f"[{i}|{j}]")]))
    return (rng.choice(pool), )


def examine(ctx, ps, n, name, cons, params, linear, what):
    f = field(name)
    p = f.characteristic
    ctx.check(len(ps) == n, f"{what}: number of legs")
    rng = ctx.rng
    pts = []
    for _ in range(7):
        at = {k: rng.randrange(1, p) for k in params}
        P = point_at(ps, at, name)
        for rrow in P.total():
            for x in rrow:
                ctx.check(R.is_zero(x), f"{what}: momentum is not conserved along the slice", key="conservation", at=at, total=x)
        for s in cons:
            v = constraint_value(P, s)
            ctx.check(R.is_zero(v), f"{what}: constraint {s} is violated along the slice", key="constraint", at=at, value=v)
        pts.append((at, P))
        ctx.obs("parameter values examined")
    # the slice moves, in every parameter
    for k in params:
        base = dict(pts[0][0])
        vals = [rng.randrange(1, p) for _ in range(5)]
        line = [(v, point_at(ps, {**base, k: v}, name)) for v in vals]
        moved = False
        for o, c in ("⟨⟩", "[]"):
            for i in range(1, n + 1):
                for j in range(i + 1, n + 1):
                    y = [refstr.value(P, f"{o}{i}|{j}{c}") for _, P in line]
                    if not R.is_zero(y[0] - y[1]):
                        moved = True
                    d = 1 if linear else 2
                    if linear is None:
                        continue
                    # Lagrange extrapolation from d+1 points to the others
                    for q in range(d + 1, 5):
                        tot = 0
                        for a in range(d + 1):
                            num, den = 1, 1
                            for b in range(d + 1):
                                if a != b:
                                    num = num * (vals[q] - vals[b]) % p
                                    den = den * (vals[a] - vals[b]) % p
                            tot = y[a] * (num * pow(den, -1, p) % p) + tot
                        ctx.check(R.is_zero(tot - y[q]), f"{what}: {o}{i}{j}{c} is of degree higher than {d} in {k}", key="degree")
        ctx.check(moved, f"{what}: the slice does not move with {k}", key="moves")
        for side, name_ in ((0, "angle"), (1, "square")) if n >= 6 or (n == 5 and not cons) else ():
            mv = any(not R.is_zero(refstr.value(line[0][1], f"{'⟨['[side]}{i}|{j}{'⟩]'[side]}") - refstr.value(line[1][1], f"{'⟨['[side]}{i}|{j}{'⟩]'[side]}"))
                     for i in range(1, n + 1) for j in range(i + 1, n + 1))
            ctx.check(mv, f"{what}: no {name_} product moves with {k}", key="moves")
    # library evaluation on the slice, and the numeric point from subs()
    at, P = pts[0]
    t = {sympy.Symbol(k): v for k, v in at.items()}
    i, j = rng.sample(range(1, n + 1), 2)
    for s in (f"⟨{i}|{j}⟩", f"[{i}|{j}]", f"s_{i}{j}"):
        e = ps(s)
        v = int(sympy.Poly(sympy.expand(e), *sympy.symbols(sorted(at))).eval(tuple(at[k] for k in sorted(at)))) if isinstance(e, sympy.Basic) else e
        v = (R.M(v % p, p) if f.name == "finite field" else R.PA(v % p ** f.digits, p, f.digits)) if isinstance(v, int) else R.lift(v)
        ctx.check(R.is_zero(v - refstr.value(P, s)), f"{what}: library evaluation of {s} on the slice", got=v, want=refstr.value(P, s))
    num = copy.deepcopy(ps)
    num.subs(t)
    Q = Point.of(num)
    for a, b in zip(Q.legs, P.legs):
        for x, y in zip(a.r + a.l, b.r + b.l):
            ctx.check(R.is_zero(x - y), f"{what}: substituting parameter values", got=x, want=y)
    if f.name == "finite field":
        Mo.monitor_point(ctx, num, what + ", numeric point")
        for k in range(1, n + 1):
            Mo.monitor_leg(ctx, num[k], f, f"{what}, numeric leg {k}")
    ctx.obs("slices examined")


def start(ctx, n, name):
    return Particles(n, field=field(name), seed=ctx.rng.randrange(1, 10 ** 6)) if ctx.rng.random() < .5 else cons_point(ctx, n, name)


TIMEOUTS = [0]


def count_timeouts():
    """Singular runs given up by the solver: what it does next depends on the load of the machine, not on the seed"""
    for name, m in list(sys.modules.items()):
        if name.split(".")[0] == "syngular" and callable(getattr(m, "execute_singular_command", None)) and not hasattr(m.execute_singular_command, "watched"):
            def run(*a, _f=m.execute_singular_command, **k):
                try:
                    return _f(*a, **k)
                except TimeoutError:
                    TIMEOUTS[0] += 1
                    raise
            run.watched = True
            m.execute_singular_command = run


def components(ps):
    return [sympy.sympify(x).expand() if isinstance(x, sympy.Basic) else x for q in ps for x in list(q.r_sp_d.flatten()) + list(q.l_sp_d.flatten())]


def sliced(ctx, ps, seed, what, fn, often=.5):
    """slice the point, now and then twice from the same start with the same seed: the seed alone decides.
    The solver gives up on some decompositions after three seconds, so a slice may depend on the load: a difference counts
    if four runs in which nothing timed out all differ from each other."""
    count_timeouts()
    fresh = copy.deepcopy(ps) if seed is not None and len(ps) <= 6 and ctx.rng.random() < often else None
    before = TIMEOUTS[0]
    quiet(lambda: fn(ps))
    if fresh is None or TIMEOUTS[0] != before:
        return
    seen = [components(ps)]
    for k in range(6):
        if len(seen) == 4:
            break
        random.seed(ctx.rng.randrange(10 ** 6))
        other, before = copy.deepcopy(fresh), TIMEOUTS[0]
        quiet(lambda: fn(other))
        if TIMEOUTS[0] != before:
            continue
        c = components(other)
        if any(c == d for d in seen):
            ctx.obs("slices repeated with the same seed")
            ctx.check(True, "same seed")
            return
        seen.append(c)
    ctx.check(len(seen) < 4, f"{what}: the same seed gives another slice", key="seed")


def case_uni(ctx):
    rng = ctx.rng
    n = rng.choice([4, 5, 6, 7, 8])
    name = ("fp", "fpi", "fps")[ctx.index % 3]
    cons = draw_constraints(rng, n)
    seed = rng.choice([None, 0, 1, rng.randrange(10 ** 6)])
    ctx.key("uni", n, name, cons, seed)
    ps = start(ctx, n, name)
    what = f"univariate_slice{cons}, n={n}, {name}, seed={seed}"
    sliced(ctx, ps, seed, what, lambda q: q.univariate_slice(extra_constraints=cons, seed=seed))
    examine(ctx, ps, n, name, cons, ["t"], True, what)


def case_gen(ctx):
    rng = ctx.rng
    n = rng.choice([4, 4, 5, 6])
    name = ("fp", "fpi", "fps")[ctx.index % 3]
    i, j = rng.sample(range(1, n + 1), 2)
    cons = () if rng.random() < .5 else (f"⟨{i}{j}⟩+[{i}{j}]", )
    if ctx.index % 4 == 3:
        n = 6
        i, j, k, l = rng.sample(range(1, n + 1), 4)
        cons = (f"⟨{i}{j}⟩+[{i}{j}]", f"⟨{k}{l}⟩+[{k}{l}]")
    seed = rng.choice([None, 0, 1, rng.randrange(10 ** 6)])
    ctx.key("generic", n, name, cons, seed)
    ps = start(ctx, n, name)
    what = f"univariate_slice{cons}, generic, n={n}, {name}, seed={seed}"
    sliced(ctx, ps, seed, what, lambda q: q.univariate_slice(extra_constraints=cons, seed=seed, algorithm='generic'))
    examine(ctx, ps, n, name, cons, ["t"], False, what)


def case_bi(ctx):
    rng = ctx.rng
    n = rng.choice([5, 6, 7, 8])
    name = ("fp", "fpi", "fps")[ctx.index % 3]
    i, j = rng.sample(range(1, n + 1), 2)
    k, l = rng.sample([x for x in range(1, n + 1) if x not in (i, j)], 2)
    cons = rng.choice([(), (), (f"⟨{i}{j}⟩+[{i}{j}]", ), (f"⟨{i}|{j}⟩", f"⟨{k}|{l}⟩"), (f"⟨{i}|{j}⟩", f"[{k}|{l}]"), (f"[{i}|{j}]", f"⟨{k}|{l}⟩"), (f"⟨{i}|{j}⟩", f"⟨{i}|{k}⟩"), (f"[{k}|{l}]", ),
                       (f"⟨{i}{j}⟩-⟨{k}{l}⟩", )])
    if n == 5:
        cons = ()
    if ctx.index % 6 == 5:
        # three constraints at once
        n = max(n, 6)
        i, j, k, l, a, b = rng.sample(range(1, n + 1), 6)
        cons = rng.choice([(f"⟨{i}|{j}⟩", f"⟨{k}|{l}⟩", f"[{a}|{b}]"), (f"⟨{i}|{j}⟩", f"[{k}|{l}]", f"⟨{a}|{b}⟩"), (f"[{i}|{j}]", f"⟨{k}|{l}⟩", f"⟨{a}|{b}⟩")])
    seed = rng.choice([None, 0, 1, rng.randrange(10 ** 6)])
    ctx.key("bi", n, name, cons, seed)
    ps = start(ctx, n, name)
    what = f"bivariate_slice{cons}, n={n}, {name}, seed={seed}"
    sliced(ctx, ps, seed, what, lambda q: q.bivariate_slice(extra_constraints=cons, seed=seed))
    examine(ctx, ps, n, name, cons, ["t1", "t2"], True, what)


def case_small(ctx):
    """small prime: coefficients have to be redrawn now and then"""
    rng = ctx.rng
    n = rng.choice([4, 5, 6])
    f = Field('finite field', 101, 1)
    gen_F["f101"] = ('finite field', 101, 1)
    seed = rng.choice([None, rng.randrange(100), rng.randrange(10 ** 6)])
    ctx.key("small", n, seed, ctx.index)
    try:
        ps = Particles(n, field=f, seed=rng.randrange(1, 10 ** 6))
    except ZeroDivisionError:
        raise Skip("degenerate starting point at a small prime")
    what = f"slice over F_101, n={n}, seed={seed}"
    try:
        sliced(ctx, ps, seed, what, lambda q: q.univariate_slice(seed=seed), often=1)
    except Violation:
        raise
    except Exception as e:
        if "/lips/" in traceback.extract_tb(e.__traceback__)[-1].filename and not isinstance(e, ZeroDivisionError):
            raise
        raise Skip(f"degenerate at a small prime: {type(e).__name__}")
    ts = [{"t": rng.randrange(101)} for _ in range(8)]
    for at in ts:
        P = point_at(ps, at, "f101")
        for rrow in P.total():
            for x in rrow:
                ctx.check(R.is_zero(x), f"{what}: momentum is not conserved along the slice", key="conservation", at=at, total=x)
    ctx.obs("slices over a small field examined")


def case_padic(ctx):
    rng = ctx.rng
    n = rng.choice([4, 5, 6])
    name = ("qp", "qpi")[ctx.index % 2]
    seed = rng.choice([None, 0, rng.randrange(10 ** 6)])
    ctx.key("padic", n, name, seed)
    ps = start(ctx, n, name)
    what = f"univariate_slice, n={n}, {name}, seed={seed}"
    sliced(ctx, ps, seed, what, lambda q: q.univariate_slice(seed=seed))
    p = field(name).characteristic
    for _ in range(6):
        at = {"t": rng.randrange(1, p)}
        P = point_at(ps, at, name)
        for rrow in P.total():
            for x in rrow:
                ctx.check(x.v() >= field(name).digits or R.is_zero(x), f"{what}: momentum is not conserved along the slice", key="conservation", at=at, total=x)
    ctx.obs("slices over the p-adics examined")


import gen as _gen
gen_F = _gen._F
KINDS = [("univariate", case_uni, 40, 800), ("generic", case_gen, 8, 120), ("bivariate", case_bi, 24, 250), ("small_field", case_small, 40, 600), ("padic", case_padic, 6, 100)]
