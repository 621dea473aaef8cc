"""Random histories of in-place changes of a point, through its public interface."""
from gen import *
from pyadic import PAdic


def rand_strings(rng, n, k):
    """closed strings in the notation refstr reads (single-digit legs where the notation needs it)"""
    d = min(n, 9)
    out = []
    while len(out) < k:
        fam = rng.choice(["ang", "sq", "chain", "chain", "s", "s", "D", "Dg", "tr5", "O", "P"])
        a, b = rng.choice(range(1, n + 1)), rng.choice(range(1, n + 1))
        if fam == "ang":
            out.append(f"⟨{a}|{b}⟩")
        elif fam == "sq":
            out.append(f"[{a}|{b}]")
        elif fam == "chain":
            m = rng.choice([1, 1, 2, 3])
            o = rng.choice("⟨[")
            c = {("⟨", 1): "]", ("⟨", 0): "⟩", ("[", 1): "⟩", ("[", 0): "]"}[(o, m % 2)]
            out.append(f"{o}{a}|" + "|".join(render_sum(rng, msum(rng, n, 3)) for _ in range(m)) + f"|{b}{c}")
        elif fam == "s":
            out.append("s_" + "".join(map(str, rng.sample(range(1, d + 1), rng.randrange(2, min(4, d) + 1)))))
        elif fam == "tr5":
            out.append("tr5_" + "".join(map(str, rng.sample(range(1, d + 1), 4))))
        elif fam == "D" and 5 <= n <= 9:
            out.append("Δ_" + "".join(map(str, sorted(rng.sample(range(1, n + 1), 3)))))
        elif fam == "Dg" and d >= 5:
            i = rng.sample(range(1, d + 1), 5)
            out.append(f"Δ_{i[0]}{i[1]}|{i[2]}{i[3]}|{i[4]}")
        elif fam in "OP" and n == 6:
            out.append(("Ω_" if fam == "O" else "Π_") + rng.choice(["135", "246"]))
    return out


def change(ctx, ps, name, masses=None, grow=False):
    """one change; returns (the point to go on with, a description)"""
    rng = ctx.rng
    f = field(name)
    n = len(ps)
    ops = ["rescale", "rescale", "component", "component", "string", "inplace", "leg", "swap", "parity", "copy", "image", "repair", "matrix"]
    if masses:
        ops += ["mass"] * 4
    if n > 9:
        ops = [o for o in ops if o != "image"]
    if name in ("q", "qi"):                   # no square roots there
        ops = [o for o in ops if o != "matrix"]
    op = rng.choice(ops)
    i, j = rng.sample(range(1, n + 1), 2)
    oP = ps[i]
    if op == "rescale":                       # momentum unchanged
        t = scalar(rng, name)
        r, l = oP.r_sp_d, oP.l_sp_d
        oP.r_sp_d = col(r[0, 0] * t, r[1, 0] * t)
        oP.l_sp_d = row(l[0, 0] / t, l[0, 1] / t)
    elif op == "component":
        which = rng.randrange(4)
        x, y = scalar(rng, name), scalar(rng, name)
        if which == 0:
            oP.r_sp_d = col(x, oP.r_sp_d[1, 0])
        elif which == 1:
            oP.l_sp_d = row(oP.l_sp_d[0, 0], y)
        elif which == 2:
            oP.r_sp_u = row(x, y)
        else:
            oP.l_sp_u = col(x, y)
    elif op == "string":
        x, y = scalar(rng, name), scalar(rng, name)
        s = rng.choice([f"⟨{i}|", f"|{i}⟩", f"[{i}|", f"|{i}]"])
        ps[s] = (row if s[0] in "⟨[" else col)(x, y)
        op = f"string {s}"
    elif op == "inplace":                     # as the library's own substitution does: edit, then assign
        a = oP.r_sp_d if rng.random() < .5 else None
        if a is not None:
            a[rng.randrange(2), 0] = scalar(rng, name)
            oP.r_sp_d = a
        else:
            b = oP.l_sp_d
            b[0, rng.randrange(2)] = scalar(rng, name)
            oP.l_sp_d = b
    elif op == "leg":
        ps[i] = particle(f, [scalar(rng, name), scalar(rng, name)], [scalar(rng, name), scalar(rng, name)])
    elif op == "swap":
        ps[i], ps[j] = ps[j], ps[i]
    elif op == "parity":
        ps.angles_for_squares()
    elif op == "copy":
        ps = ps.copy()
    elif op == "image":
        p = list(range(1, n + 1))
        rng.shuffle(p)
        ps = ps.image(("".join(map(str, p)), rng.random() < .5))
    elif op == "repair":
        axis = rng.choice([1, 2])
        if any(degenerate(x[0] * y[1] - x[1] * y[0]) for x, y in [(ps[i].r_sp_d.flatten(), ps[j].r_sp_d.flatten()), (ps[i].l_sp_d.flatten(), ps[j].l_sp_d.flatten())]):
            raise ZeroDivisionError("the two legs are parallel")
        ps.fix_mom_cons(i, j, axis=axis)
    elif op == "matrix":                      # exchange the momenta of two legs through their matrices
        a, b = [[oP.r2_sp[x, y] for y in range(2)] for x in range(2)], None
        m = numpy.empty((2, 2), dtype=object)
        for x in range(2):
            for y in range(2):
                m[x, y] = a[x][y]
        t = scalar(rng, name)
        oP.r2_sp = m * t
    elif op == "mass":
        m = rng.choice(sorted(masses))
        c = rng.random()
        v = scalar(rng, name) if c < .6 else f(0) if c < .7 and name != "qi" else f"s_{i}{j}" if max(i, j) < 10 else scalar(rng, name)
        setattr(ps, m, v)
        op = f"mass {m}"
    return ps, op


def degenerate(x):
    """zero, or too close to it to divide by"""
    return x.n > 0 if isinstance(x, PAdic) else abs(x) < 10 ** -30 if isinstance(x, (mpmath.mpc, mpmath.mpf)) else x == 0


def settled(ps):
    """the point has spinors in its field"""
    return not any(oP.r_sp_d is None or oP.l_sp_d is None for oP in list.__iter__(ps)) and not ps.spinors_are_in_field_extension
