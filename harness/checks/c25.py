import os
import re
import shutil
import tempfile
from gen import *
from core import Skip, Violation

ID = "C25"
RULE = ("a case is one complex point (ordinary, huge, tiny, zero, real, imaginary and negative components) exported as text that an independent reader of Mathematica input parses back and compares with the point (text), or one history "
        "of saves under several names in a scratch working directory whose files are read back and compared, all files of the directory tree being compared before and after (files); distinct = (kind, n, shape of the components / names)")
ASSUMPTIONS = ["complex points", "names are invariants of the library (no path separators)", "the second file of a name may be replaced by a third save"]

NUM = r"[+-]?\d+(?:\.\d*)?(?:\*\^[+-]?\d+)?"


def real(t):
    return mpmath.mpf(t.replace("*^", "e"))


def cnum(t):
    """a complex number written for Mathematica: x, x+yI, x+-yI, yI, optionally parenthesised, y*I and y I"""
    t = t.strip()
    if t.startswith("(") and t.endswith(")"):
        t = t[1:-1].strip()
    m = re.fullmatch(rf"({NUM})", t)
    if m:
        return mpmath.mpc(real(m[1]))
    m = re.fullmatch(rf"({NUM})\s*\*?\s*I", t)
    if m:
        return mpmath.mpc(0, real(m[1]))
    m = re.fullmatch(rf"({NUM})\s*(\+\s*|(?=-))({NUM})\s*\*?\s*I", t)
    if m:
        return mpmath.mpc(real(m[1]), real(m[3]))
    m = re.fullmatch(rf"({NUM})\s*-\s+({NUM})\s*\*?\s*I", t)
    if m:
        return mpmath.mpc(real(m[1]), -real(m[2]))
    raise Violation(f"not a Mathematica number: {t[:60]}", key="syntax")


def component(rng, style):
    x = scalar(rng, "mpc")
    if style == "tiny":
        return x * mpmath.mpf(10) ** -rng.randrange(5, 290)
    if style == "huge":
        return x * mpmath.mpf(10) ** rng.randrange(5, 290)
    if style == "real":
        return mpmath.mpc(x.real)
    if style == "imag":
        return mpmath.mpc(0, x.imag)
    if style == "zero":
        return mpmath.mpc(0)
    if style == "int":
        return mpmath.mpc(rng.randrange(-9, 10), rng.randrange(-9, 10))
    if style == "negative":
        return mpmath.mpc(-abs(x.real), -abs(x.imag))
    return x


def draw(ctx):
    rng = ctx.rng
    n = rng.choice([2, 3, 4, 5, 6, 10, 11])
    styles = [rng.choice(["plain", "plain", "plain", "tiny", "huge", "real", "imag", "zero", "int", "negative"]) for _ in range(4 * n)]
    f = field("mpc")
    legs = []
    for k in range(n):
        c = [component(rng, s) for s in styles[4 * k:4 * k + 4]]
        legs.append(particle(f, c[:2], c[2:]))
    return n, styles, Particles(legs, field=f, fix_mom_cons=False, seed=1)


def exact(ctx, ref, got, what, digits=None):
    """componentwise: a tiny real part next to a huge imaginary one is to be kept too"""
    for a, b, w in ((ref.real, got.real, "real"), (ref.imag, got.imag, "imaginary")):
        ctx.evals += 1
        if a == b:
            continue
        if digits is None or abs(a - b) > abs(a) * mpmath.mpf(10) ** -digits:
            raise Violation(f"{what}: {w} part", key="value", got=mpmath.nstr(b, 25), expected=mpmath.nstr(a, 25))


SUB_R = re.compile(r"Subscript\[\\\[Lambda\], ?(\d+), ?([12])\] = (.*?);")
SUB_L = re.compile(r"Subscript\[\\!\\\(\\\*OverscriptBox\[\\\(\\\[Lambda\]\\\), \\\(_\\\)\]\\\), ?(\d+), ?([12])\] = (.*?);")


def spinor_text(ctx, ps, txt, what):
    n = len(ps)
    entries_r, entries_l = SUB_R.findall(txt), SUB_L.findall(txt)
    for side, entries in (("angle", entries_r), ("square", entries_l)):
        ctx.check([(int(i), int(c)) for i, c, _ in entries] == [(i, c) for i in range(1, n + 1) for c in (1, 2)], f"{what}: {side} spinor entries {[(i, c) for i, c, _ in entries][:6]}...", key="entries")
        for i, c, t in entries:
            L = list(ps)[int(i) - 1]
            ref = L.r_sp_d[int(c) - 1, 0] if side == "angle" else L.l_sp_d[0, int(c) - 1]
            exact(ctx, mpmath.mpc(ref), cnum(t), f"{what}: {side} spinor {i}, component {c}")
    rest = SUB_L.sub("", SUB_R.sub("", txt)).strip()
    ctx.check(rest == "", f"{what}: unexpected text {rest[:80]!r}", key="syntax")
    ctx.obs("spinor components read back", 4 * n)


def case_text(ctx):
    rng = ctx.rng
    dps = rng.choice([300, 300, 50, 450, 700])
    try:
        text(ctx, dps)
    finally:
        mpmath.mp.dps = 300


def text(ctx, dps):
    rng = ctx.rng
    n, styles, ps = draw(ctx)
    ctx.key("text", n, dps, tuple(styles))
    if dps != 300:
        # another working precision
        mpmath.mp.dps = dps
        bits = int(dps * 3.4)
        for oP in list(ps):
            v = [mpmath.mpc(x) * (1 + mpmath.mpf(rng.getrandbits(bits)) / 2 ** bits) for x in list(oP.r_sp_d.flatten()) + list(oP.l_sp_d.flatten())]
            oP.r_sp_d, oP.l_sp_d = col(*v[:2]), row(*v[2:])
        ctx.obs("points at other working precisions")
    before = freeze_point(ps)
    if hasattr(ps, "_r_sp_d_for_mathematica") and hasattr(ps, "_l_sp_d_for_mathematica"):
        spinor_text(ctx, ps, ps._r_sp_d_for_mathematica() + ps._l_sp_d_for_mathematica(), "spinor export")
    txt = ps.four_momenta_for_mathematica()
    lines = txt.split("\n")
    ctx.check(len(lines) == n, f"{len(lines)} lines for {n} momenta", key="entries")
    for k, line in enumerate(lines):
        m = re.fullmatch(r"DeclareSpinorMomentum\[(\d+), \{(.*)\}\]", line.strip())
        ctx.check(m is not None, f"momentum line not understood: {line[:60]}...{line[-40:]}", key="syntax")
        ctx.check(int(m[1]) == k + 1, f"momentum line {k + 1} declares {m[1]}", key="entries")
        comps = re.findall(r"SetPrecision\[(.*?), (\d+)\]", m[2])
        ctx.check(len(comps) == 4 and re.sub(r"SetPrecision\[.*?, \d+\]", "", m[2]).replace(",", "").strip() == "", f"momentum line {k + 1} has {len(comps)} components", key="syntax")
        for c, (t, prec) in enumerate(comps):
            ctx.check(int(prec) == mpmath.mp.dps, f"precision {prec} declared at {mpmath.mp.dps} digits", key="precision")
            exact(ctx, mpmath.mpc(list(ps)[k].four_mom[c]), cnum(t), f"momentum {k + 1}, component {c}")
            ctx.obs("momentum components read back")
    big = max(abs(x.real) + abs(x.imag) for L in list(ps) for x in list(L.r_sp_d.flatten()) + list(L.l_sp_d.flatten()))
    if big < mpmath.mpf(10) ** 300:
        txt = ps.four_momenta_for_mathematica(as_spinors=True)
        lines = txt.split("\n")
        ctx.check(len(lines) == n, f"{len(lines)} lines for {n} spinor pairs", key="entries")
        for k, line in enumerate(lines):
            m = re.fullmatch(r"DeclareSpinorMomentum\[Sp\[(\d+)\], \{\{(.*)\}, \{(.*)\}\}, \{\{(.*), (.*)\}\}\]", line.strip())
            ctx.check(m is not None, f"spinor line not understood: {line[:80]}...{line[-60:]}", key="syntax")
            ctx.check(int(m[1]) == k + 1, f"spinor line {k + 1} declares {m[1]}", key="entries")
            L = list(ps)[k]
            for t, ref, w in zip(m.groups()[1:], (L.r_sp_d[0, 0], L.r_sp_d[1, 0], L.l_sp_d[0, 0], L.l_sp_d[0, 1]), ("λ1", "λ2", "λ~1", "λ~2")):
                exact(ctx, mpmath.mpc(ref), cnum(t), f"spinor line {k + 1}, {w}", digits=14)
                ctx.obs("double-precision components read back")
    ctx.check(freeze_point(ps) == before, "exporting changed the point", key="mutation")


def tree(d):
    out = {}
    for base, dirs, files in os.walk(d):
        for x in files:
            p = os.path.join(base, x)
            out[os.path.relpath(p, d)] = open(p, "rb").read()
    return out


def case_files(ctx):
    rng = ctx.rng
    cwd = os.getcwd()
    d = tempfile.mkdtemp(prefix="save", dir=os.environ.get("VERIF_SCRATCH"))
    try:
        w = os.path.join(d, "work")
        os.makedirs(w)
        os.chdir(w)
        pool = ["", "⟨1|2⟩", "[1|2]", "⟨2|1⟩", "s_123", "s_12", "s_1231", "⟨1|(2+3)|4]", "[1|(2+3)|4⟩", "⟨1|2⟩1", "tr5_1234", "Δ_135", "[1|2]2", "⟨1|(2+3)|(4+5)|(6+7)|(8+9)|(1+2)|(3+4)|(5+6)|(7+8)|(9+1)|(2+4)|(3+5)|(6+8)|(7+9)|(1+3)|(2+5)|(4+7)|2⟩", "⟨1|(2+3)|(4+5)|(6+7)|(8+9)|(1+2)|(3+4)|(5+6)|(7+8)|(9+1)|(2+4)|(3+5)|(6+8)|(7+9)|(1+3)|(2+5)|(4+7)|3⟩"]
        names = rng.sample(pool, rng.randrange(1, 5)) if rng.random() < .8 else pool[-2:]
        hist = [rng.choice(names) for _ in range(rng.randrange(2, 8))]
        ctx.key("files", tuple(hist))
        saved = {}          # name -> points in order
        owner = {}
        where = {}          # name -> file of the first save
        for h in hist:
            n, styles, ps = draw(ctx)
            before = tree(d)
            ps.save_phase_space_point(h) if h or rng.random() < .5 else ps.save_phase_space_point()
            after = tree(d)
            new = [p for p in after if p not in before]
            changed = [p for p in before if after.get(p) != before[p]]
            ctx.check(all(p.startswith("work/phase_space_cache/") for p in new + changed), f"saving {h!r} wrote outside the cache folder: {new + changed}", key="place")
            ctx.check(len(new) + len(changed) == 1 or (not new and not changed), f"saving {h!r} touched {new + changed}", key="place")
            k = len(saved.setdefault(h, []))
            if k == 0:
                ctx.check(len(new) == 1 and not changed, f"first save of {h!r} after {hist} replaced {changed}", key="overwrite")
                where[h] = new[0]
            else:
                ctx.check(where[h] not in changed, f"save number {k + 1} of {h!r} replaced the first point", key="overwrite")
                if k == 1:
                    ctx.check(len(new) == 1 and not changed, f"second save of {h!r} replaced {changed}", key="overwrite")
            for g in where:
                if g != h:
                    ctx.check(not any(p == where[g] for p in changed), f"saving {h!r} replaced the point of {g!r}", key="overwrite")
            for q in changed:
                ctx.check(owner.get(q) == h, f"saving {h!r} replaced a file of {owner.get(q)!r}", key="overwrite")
            owner.update({q: h for q in new})
            saved[h].append(ps)
            p = (new + changed or [None])[0]
            if p:
                spinor_text(ctx, ps, after[p].decode(), f"file of {h!r}")
            ctx.obs("saves")
        for g, p in where.items():
            spinor_text(ctx, saved[g][0], tree(d)[p].decode(), f"first file of {g!r} after all saves")
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


KINDS = [("text", case_text, 200, 4000), ("files", case_files, 100, 1500)]
