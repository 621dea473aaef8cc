import copy
import pickle
from gen import *
from core import Skip, Violation
import monitors as Mo

ID = "C22"
RULE = ("a case is one random sequence of container operations on one point (get, set, insert, delete, append by integer, slice and string, out-of-range ones included), shadowed by an ordinary list of frozen legs that is "
        "compared after every operation (container), or one pair of points compared, hashed, pickled and deep-copied (value); distinct = (kind, field, n, operations)")
ASSUMPTIONS = ["slices address legs as ordinary zero-based list slices, as the library documents", "points with internal masses given as values"]

NAMES = ("mpc", "fp", "fpi", "fps", "qp", "qpi", "qps", "q", "qi")


def legs(ps):
    return [freeze_leg(p) for p in list(ps)]


def bad_index(rng, n):
    return rng.choice([0, -1, -2, -n, -n - 1, n + 1, n + 2, n + 9])


def case_container(ctx):
    rng = ctx.rng
    name = NAMES[ctx.index % 9]
    f = field(name)
    n = rng.choice([1, 2, 3, 4, 5, 6, 9, 10, 11, 12, 13])
    ps = raw_point(ctx, n, name) if rng.random() < .7 or n < 4 or name == "qi" else cons_point(ctx, n, name)
    model = legs(ps)
    ops = []

    def leg():
        r, l = raw_spinors(rng, 1, name)[0]
        return particle(f, r, l)

    def same(what):
        now = legs(ps)
        ctx.check(len(now) == len(model), f"{what}: {len(now)} legs, expected {len(model)}", key="length", ops=ops[-6:])
        for k, (a, b) in enumerate(zip(now, model)):
            ctx.check(a == b, f"{what}: leg {k + 1} of {len(model)} over {name} is not the expected one", key="wrong leg", ops=ops[-6:])
        ctx.check(ps.multiplicity == len(model) == len(ps), f"{what}: multiplicity {ps.multiplicity}")
    for _ in range(14):
        op = rng.choice(["get", "get", "getstr", "getspinor", "setspinor", "setspinor", "set", "insert", "del", "append", "slice", "bad", "badstr", "iter", "setslice"])
        m = len(model)
        ops.append(op)
        if op == "get" and m:
            i = rng.randrange(1, m + 1)
            ctx.check(freeze_leg(ps[i]) == model[i - 1], f"ps[{i}] of {m} is another leg", key="get")
        elif op == "getstr" and m:
            i = rng.randrange(1, m + 1)
            ctx.check(freeze_leg(ps[str(i)]) == model[i - 1], f"ps['{i}'] of {m} is another leg", key="get")
        elif op == "getspinor" and m:
            i = rng.randrange(1, m + 1)
            for s, a in ((f"⟨{i}|", "r_sp_u"), (f"|{i}⟩", "r_sp_d"), (f"[{i}|", "l_sp_d"), (f"|{i}]", "l_sp_u"), (f"<{i}|", "r_sp_u"), (f"|{i}>", "r_sp_d")):
                ctx.check(freeze(ps[s]) == freeze(getattr(list(ps)[i - 1], a)), f"ps['{s}'] of {m} over {name} is not the spinor of leg {i}", key="spinor")
        elif op == "setspinor" and m:
            i = rng.randrange(1, m + 1)
            w = rng.randrange(6)
            s, a, mk = ((f"⟨{i}|", "r_sp_u", row), (f"|{i}⟩", "r_sp_d", col), (f"[{i}|", "l_sp_d", row), (f"|{i}]", "l_sp_u", col), (f"<{i}|", "r_sp_u", row), (f"|{i}>", "r_sp_d", col))[w]
            v = mk(scalar(rng, name), scalar(rng, name))
            want = freeze(v)
            other = "l_sp_d" if a.startswith("r") else "r_sp_d"
            keep = freeze(getattr(list(ps)[i - 1], other))
            ps[s] = v
            ops[-1] = f"set {s}"
            L = list(ps)[i - 1]
            ctx.check(freeze(getattr(L, a)) == want, f"ps['{s}'] = v over {name}: the spinor is not v", key="setspinor")
            ctx.check(freeze(getattr(L, other)) == keep, f"ps['{s}'] = v over {name} changed the other spinor of the leg", key="setspinor")
            if f.name != "mpc":
                Mo.monitor_leg(ctx, L, f, f"after ps['{s}'] = v over {name}")
            model[i - 1] = freeze_leg(L)
        elif op == "set" and m:
            i = rng.randrange(1, m + 1)
            L = leg()
            ps[i] = L
            model[i - 1] = freeze_leg(L)
            ctx.check(ps[i] is L, f"ps[{i}] = leg stores something else", key="set")
        elif op == "insert" and m:
            i = rng.randrange(1, m + 1)
            L = leg()
            ps.insert(i, L)
            model.insert(i - 1, freeze_leg(L))
        elif op == "del" and m > 1:
            i = rng.randrange(1, m + 1)
            del ps[i]
            del model[i - 1]
        elif op == "append":
            L = leg()
            ps.append(L)
            model.append(freeze_leg(L))
        elif op == "slice":
            a, b, c = rng.choice([None, rng.randrange(0, m + 2)]), rng.choice([None, rng.randrange(-3, m + 2)]), rng.choice([None, None, 2, -1])
            q = ps[a:b:c]
            ctx.check(type(q) is type(ps), f"ps[{a}:{b}:{c}] is a {type(q).__name__}", key="slice")
            ctx.check(legs(q) == model[a:b:c], f"ps[{a}:{b}:{c}] of {m} has other legs", key="slice")
            ctx.check(q.field == ps.field, "a slice is in another field", key="slice")
        elif op == "setslice" and m > 2:
            a = rng.randrange(0, m - 1)
            L = [leg(), leg()]
            ps[a:a + 2] = L
            model[a:a + 2] = [freeze_leg(x) for x in L]
        elif op == "bad":
            i = bad_index(rng, m)
            L = leg()
            ctx.raises(lambda: ps[i], f"ps[{i}] of {m} does not raise", exc=IndexError, key="range")
            ctx.raises(lambda: ps.__setitem__(i, L), f"ps[{i}] = leg of {m} does not raise", exc=IndexError, key="range")
            ctx.raises(lambda: ps.__delitem__(i), f"del ps[{i}] of {m} does not raise", exc=IndexError, key="range")
            ctx.raises(lambda: ps.insert(i, L), f"insert at {i} of {m} does not raise", exc=IndexError, key="range")
        elif op == "badstr":
            i = rng.choice([0, m + 1, m + 7])
            v = col(scalar(rng, name), scalar(rng, name))
            ctx.raises(lambda: ps[f"|{i}⟩"], f"ps['|{i}⟩'] of {m} does not raise", key="range")
            ctx.raises(lambda: ps.__setitem__(f"|{i}⟩", v), f"ps['|{i}⟩'] = v of {m} does not raise", key="range")
            ctx.raises(lambda: ps["leg"], "ps['leg'] does not raise", key="range")
            ctx.raises(lambda: ps.__setitem__("leg", v), "ps['leg'] = v does not raise", key="range")
        elif op == "iter":
            ctx.check([freeze_leg(p) for p in ps] == model, "iteration yields other legs", key="iter")
            ctx.check([freeze_leg(p) for p in reversed(ps)] == model[::-1], "reversed iteration yields other legs", key="iter")
        same(f"after {op}")
        ctx.obs(f"operation {op}")
    ctx.key("container", name, n, tuple(ops))


def case_value(ctx):
    rng = ctx.rng
    name = NAMES[ctx.index % 9]
    f = field(name)
    n = rng.choice([1, 2, 3, 4, 5, 7, 10, 12])
    kw = {}
    if rng.random() < .4:
        kw["internal_masses"] = {"m_t": scalar(rng, name), "μ": scalar(rng, name)} if rng.random() < .7 or n < 4 else {"m_t": scalar(rng, name), "M1": "s_12"}
    massive = rng.random() < .25 and name not in ("q", "qi")
    ps = raw_point(ctx, n, name, **kw)
    if massive:
        for i in range(1, n + 1):
            if rng.random() < .5:
                r2 = numpy.empty((2, 2), dtype=object)
                for a in range(2):
                    for b in range(2):
                        r2[a, b] = scalar(rng, name)
                try:
                    ps[i].r2_sp = r2
                except Exception as e:
                    raise Skip(f"massive leg: {type(e).__name__}")
    what = f"over {name}, n={n}{', masses' if kw else ''}{', massive legs' if massive else ''}"
    ctx.key("value", name, n, bool(kw), massive, ctx.index)
    before = freeze_point(ps)
    copies = dict(deepcopy=copy.deepcopy(ps), copy=ps.copy(), pickle=pickle.loads(pickle.dumps(ps)), pickle2=pickle.loads(pickle.dumps(ps, protocol=2)))
    ctx.check(freeze_point(ps) == before, f"copying changed the point {what}", key="copy")
    for how, q in copies.items():
        ctx.check(type(q) is Particles, f"{how} is a {type(q).__name__}", key="copy")
        ctx.check(freeze_point(q) == before, f"{how} differs from the point {what}", key="copy")
        ctx.check(bool(q == ps) and bool(ps == q) and not (q != ps), f"{how} is not equal to the point {what}", key="eq")
        ctx.check(hash(q) == hash(ps), f"{how} hashes differently {what}", key="hash")
        ctx.check(q.field == ps.field and all(p.field == f for p in q), f"{how} is in another field {what}", key="copy")
        ctx.check(set(q.internal_masses) == set(ps.internal_masses) and {k: freeze(v) for k, v in q.internal_masses_dict.items()} == {k: freeze(v) for k, v in ps.internal_masses_dict.items()},
                  f"{how} has other internal masses {what}", key="copy")
        ctx.obs(f"copies by {how}")
        # independence, both ways
        i = rng.randrange(1, n + 1)
        q[f"|{i}⟩"] = col(scalar(rng, name), scalar(rng, name))
        if kw:
            q.m_t = scalar(rng, name)
            q.m_new = scalar(rng, name)
        ctx.check(freeze_point(ps) == before, f"changing a {how} changed the point {what}", key="alias")
        ctx.check(not (q == ps) and not (ps == q) and q != ps, f"a {how} with leg {i} changed still equals the point {what}", key="eq")
        if n > 1:
            r = copy.deepcopy(ps)
            del r[rng.randrange(1, n + 1)]
            s = copy.deepcopy(ps)
            del s[n]
            for t in (r, s):
                ctx.check(not (t == ps) and not (ps == t), f"points with {n - 1} and {n} legs are equal {what}", key="eq")
        e = copy.deepcopy(ps)
        e.append(copy.deepcopy(ps[1]))
        ctx.check(not (e == ps) and not (ps == e), f"points with {n + 1} and {n} legs are equal {what}", key="eq")
    ctx.check(not (ps == 3) and not (ps == None) and not (ps == [1]), "a point equals something that is no point", key="eq")    # noqa
    # permuted legs: equal only if the permutation maps equal momenta to equal momenta
    if n > 1:
        perm = list(range(n))
        rng.shuffle(perm)
        q = Particles([copy.deepcopy(list(ps)[k]) for k in perm], field=f, fix_mom_cons=False, seed=1)
        ctx.check(bool(q == ps) == (perm == list(range(n))), f"legs in the order {perm}: equality {q == ps} {what}", key="eq")
    # one entry changed
    i = rng.randrange(1, n + 1)
    q = copy.deepcopy(ps)
    a = rng.randrange(2)
    if rng.random() < .5:
        v = [q[i].r_sp_d[0, 0], q[i].r_sp_d[1, 0]] if not massive else [scalar(rng, name), scalar(rng, name)]
        v[a] = v[a] + v[a]
        q[f"|{i}⟩"] = col(*v)
    else:
        v = [q[i].l_sp_d[0, 0], q[i].l_sp_d[0, 1]] if not massive else [scalar(rng, name), scalar(rng, name)]
        v[a] = v[a] + v[a]
        q[f"[{i}|"] = row(*v)
    ctx.check(not (q == ps), f"one component of leg {i} doubled, still equal {what}", key="eq")
    # equal momenta with other spinors are equal points
    if f.name == "finite field" and not massive:
        q = copy.deepcopy(ps)
        for i in range(1, n + 1):
            t = scalar(rng, name)
            r, l = q[i].r_sp_d, q[i].l_sp_d
            q[f"|{i}⟩"] = col(r[0, 0] * t, r[1, 0] * t)
            q[f"[{i}|"] = row(l[0, 0] / t, l[0, 1] / t)
        ctx.check(bool(q == ps) and bool(ps == q), f"points with the same momenta are not equal {what}", key="eq")
        ctx.obs("little-group related points compared")
    # the point survives as dictionary key and in sets
    ctx.check(len({ps, copy.deepcopy(ps)}) == 1, f"a set keeps the point and its copy {what}", key="hash")
    # so does a point with a leg which has a momentum but no spinors (P0 + P3 = 0)
    q = copy.deepcopy(ps)
    m = numpy.empty((2, 2), dtype=object)
    m[0, 0], m[1, 1] = scalar(rng, name), f(0)
    m[0, 1], m[1, 0] = rng.choice([(f(0), f(0)), (scalar(rng, name), f(0)), (f(0), scalar(rng, name)), (scalar(rng, name), scalar(rng, name))])
    q[rng.randrange(1, n + 1)] = Particle(kinematics=m, field=f)
    for w in (copy.deepcopy(q), pickle.loads(pickle.dumps(q))):
        ctx.check(bool(w == q) and hash(w) == hash(q) and len({w, q}) == 1, f"a copy of a point with a leg without spinors {what}", key="hash")
    ctx.check(not (q == ps), f"a point with one leg replaced still equals the point {what}", key="eq")
    ctx.obs("points with a leg without spinors")


KINDS = [("container", case_container, 540, 12000), ("value", case_value, 360, 8000)]
