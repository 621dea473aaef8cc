"""Independent evaluation of invariant strings (the library's own list notation) on a reference point."""
import re
import ref as R
from ref import Point


def nol(ijk, n):
    out = []
    for s in ijk:
        L = [s]
        while True:
            nx = L[-1] % n + 1
            if nx in ijk:
                break
            L.append(nx)
        out.append(L)
    return out


def signed(txt):
    txt = txt.replace("(", "").replace(")", "").replace(" ", "")
    return [int(x) for x in re.findall(r"[+-]?\d+", txt)]


def tr5(P, A, B, C, D):
    def tr(bars):
        X = None
        for m, b in zip((A, B, C, D), bars):
            Y = P.sumP(m, bar=b)
            X = Y if X is None else R.mm(X, Y)
        return X[0][0] + X[1][1]
    return tr((True, False, True, False)) - tr((False, True, False, True))


def chain(P, s):
    o, c = s[0], s[-1]
    parts = s[1:-1].split("|")
    if len(parts) == 1 and len(parts[0]) == 2:
        parts = list(parts[0])
    return P.chain(o, int(parts[0]), [signed(x) for x in parts[1:-1]], int(parts[-1]), c)[0][0]


def value(P, s):
    s = s.replace("<", "⟨").replace(">", "⟩")
    n = len(P)
    if re.fullmatch(r"[⟨\[][^⟨\[\]⟩]*[⟩\]]", s):
        return chain(P, s)
    m = re.fullmatch(r"\(?([⟨\[][^⟨\[\]⟩]*[⟩\]])-([⟨\[][^⟨\[\]⟩]*[⟩\]])\)?", s)
    if m:
        return chain(P, m[1]) - chain(P, m[2])
    m = re.fullmatch(r"[sS]_?(\d+)", s)
    if m:
        return P.mand([int(x) for x in m[1]])
    m = re.fullmatch(r"Δ_(\d+)", s)
    if m:
        A, B, C = nol([int(x) for x in m[1]], n)
        return P.dot(A, B) ** 2 - P.mand(A) * P.mand(B)
    m = re.fullmatch(r"Δ_([\d|]+)", s)
    if m:
        g = [[int(x) for x in c] for c in m[1].split("|")]
        k = len(g)
        return R.detn([[P.dot(g[i], g[j]) for j in range(k - 1)] for i in range(k - 1)]) * (-1) ** k
    m = re.fullmatch(r"Ω_(\d+)", s)
    if m:
        A, B, C = nol([int(x) for x in m[1]], n)
        sA, sB, sC = P.mand(A), P.mand(B), P.mand(C)
        return 2 * sC * sB - (sC + sB - sA) * P.mand(C + [A[0]])
    m = re.fullmatch(r"Π_(\d+)", s)
    if m:
        A, B, C = nol([int(x) for x in m[1]], n)
        return P.mand(C + [A[0]]) - P.mand(C + [A[1]])
    m = re.fullmatch(r"tr5_(\d)(\d)(\d)(\d)", s)
    if m:
        return tr5(P, *[[int(x)] for x in m.groups()])
    raise KeyError(s)
