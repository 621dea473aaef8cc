from gen import *
from core import Skip, Violation
import os
import re
import sys
from checks import c05, c07

ID = "C08"
RULE = ("a case freezes a point bit for bit, evaluates valid, mutated or hostile strings with a process audit hook armed, and compares the point, its masses, precision, environment and scratch directory afterwards; "
        "distinct = (string text, field)")
ASSUMPTIONS = ["effects on the process are those CPython reports as audit events (file writes, process creation, sockets, imports of canary modules, environment changes) plus environment and directory comparison",
               "blow-ups in running time on malformed strings are out of scope (counted as inconclusive)"]
TIMEOUT_IS_SKIP = True
CPU_LIMIT = 40

# ---------------------------------------------------------------- audit monitor
_ARMED = False
_SEEN = []
_INSTALLED = False
_COUNT = [0]
ALARM = ("os.system", "os.exec", "os.posix_spawn", "os.spawn", "os.fork", "os.forkpty", "subprocess.Popen", "os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.chmod", "os.chown", "os.kill", "os.killpg", "os.link",
         "os.symlink", "os.truncate", "os.putenv", "os.unsetenv", "os.chdir", "os.listdir", "os.scandir", "shutil.", "socket.", "tempfile.", "urllib.", "ctypes.", "pickle.find_class", "builtins.input", "sqlite3.",
         "ftplib.", "smtplib.", "http.", "webbrowser.", "code.__new__", "signal.pthread_kill", "pty.spawn", "mmap.")


class Blocked(Exception):
    pass


def _hook(event, args):
    if not _ARMED:
        return
    _COUNT[0] += 1
    bad = False
    if event == "import":
        bad = "verif_canary" in str(args[0])
    elif event == "open":
        path, mode, flags = (list(args) + [None] * 3)[:3]
        wr = (isinstance(mode, str) and any(c in mode for c in "wax+")) or (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
        bad = bool(wr) or "canary" in str(path)
    else:
        bad = any(event == a or (a.endswith(".") and event.startswith(a)) for a in ALARM)
    if bad:
        _SEEN.append((event, repr(args)[:200]))
        raise Blocked(f"{event} {args!r}"[:200])


class Watch:
    def __init__(self, ctx, ps):
        global _INSTALLED
        self.ctx, self.ps = ctx, ps
        if not _INSTALLED:
            sys.addaudithook(_hook)
            _INSTALLED = True

    def state(self):
        return (freeze_point(self.ps), freeze_leg(self.ps.oRefVec), len(self.ps), mpmath.mp.dps, dict(os.environ), os.getcwd(), tuple(sorted(os.listdir("."))),
                lips.spinor_convention, sys.getrecursionlimit(), tuple(sorted(self.ps.internal_masses)), tuple(sorted(k for k in self.ps.__dict__)))

    def __enter__(self):
        global _ARMED
        self.before = self.state()
        _SEEN.clear()
        _COUNT[0] = 0
        _ARMED = True
        return self

    def __exit__(self, *a):
        global _ARMED
        _ARMED = False
        self.ctx.obs("audit events seen while armed", _COUNT[0])

    def verdict(self, s):
        self.ctx.check(not _SEEN, f"evaluating {s!r} reached the process: {_SEEN[:1]}", key="foreign code")
        after = self.state()
        for what, x, y in zip(("point", "reference vector", "number of legs", "working precision", "environment", "working directory", "files", "convention", "recursion limit", "internal masses", "attributes"), self.before, after):
            self.ctx.check(x == y, f"evaluating {s!r} changed the {what}", key=f"changed {what}")


def evaluate(ps, s, how):
    return ps.compute(s) if how == 0 else ps(s) if how == 1 else ps._eval(s)


def valid_strings(ctx, ps, P, n, masses, aliases, name):
    rng = ctx.rng
    out = []
    for _ in range(4):
        out.append(c05.string_and_value(rng, P, set(range(1, n + 1)), n)[1])
    for _ in range(3):
        try:
            out.append(c07.Gen(ctx, P, n, masses, aliases).expr(1)[0]())
        except Inconclusive:
            pass
    a, b = rng.sample(range(1, min(n, 9) + 1), 2)
    out += rng.sample([f"⟨{a}|", f"|{b}⟩", f"[{a}|", f"|{b}]", f"|{a}+{b}|", f"⟨{a}|{b}|", f"|{a}|{b}]", f"⟨{a}|@|{b}⟩", f"|{a}⟩⟨{b}|", f"|{a}]⟨{b}|", f"⟨{a}_|{b}⟩" if a < n else f"⟨{a}|"], 3)
    return out


def case_pure(ctx):
    name = ALL[ctx.index % len(ALL)]
    ps, P, n, masses, aliases = c07.setup(ctx, name)
    for s in valid_strings(ctx, ps, P, n, masses, aliases, name):
        if s.startswith("⟨") and "_|" in s and name == "qi":
            continue
        how = ctx.rng.randrange(2)
        with Watch(ctx, ps) as w:
            v1 = evaluate(ps, s, how)
            v2 = evaluate(ps, s, how)
        ctx.key(s, name)
        ctx.obs("valid strings evaluated twice")
        w.verdict(s)
        ctx.check(freeze(v1) == freeze(v2), f"evaluating {s!r} twice gave different values", key="twice", first=v1, second=v2)
        # a returned array is the caller's: writing into it must not change what the string evaluates to
    ctx.obs("points")


def case_array(ctx):
    """evaluating sums and products of arrays does not write into the legs"""
    name = ALL[ctx.index % (len(ALL) - 1)]
    ps, P, n, masses, aliases = c07.setup(ctx, name)
    rng = ctx.rng
    d = min(n, 9)
    for _ in range(5):
        a, b, c = rng.sample(range(1, d + 1), 3)
        s = rng.choice([f"|{a}⟩+|{b}⟩", f"-|{a}⟩", f"2*|{a}]", f"⟨{a}|-⟨{b}|", f"|{a}|+|{b}|", f"|{a}|{b}|-|{b}|{a}|", f"⟨{a}|{b}|-⟨{c}|{b}|", f"|{a}⟩⟨{b}|-|{b}⟩⟨{a}|", f"|{a}|@|{b}]", f"-|{a}+{b}|"])
        with Watch(ctx, ps) as w:
            v1, v2 = ps(s), ps(s)
        ctx.key("array", s, name)
        ctx.obs("array expressions")
        w.verdict(s)
        ctx.check(freeze(v1) == freeze(v2), f"evaluating {s!r} twice gave different values", key="twice")


def case_mutated(ctx):
    name = ALL[ctx.index % len(ALL)]
    ps, P, n, masses, aliases = c07.setup(ctx, name)
    rng = ctx.rng
    alphabet = "⟨⟩[]|()+-*/^0123456789smtrΔΩΠδ_<>{}@,.'\" \\²³uoPsϵ:"
    for s in valid_strings(ctx, ps, P, n, masses, aliases, name):
        t = list(s)
        for _ in range(rng.randrange(1, 5)):
            k = rng.randrange(len(t) + 1)
            r = rng.random()
            if r < .35 and t:
                t[k % len(t)] = rng.choice(alphabet)
            elif r < .7:
                t.insert(k, rng.choice(alphabet))
            elif t:
                del t[k % len(t)]
        t = "".join(t)
        if re.search(r"(\^|\*\*|[²³⁴-⁹])\W*\d{2,}", t) or len(re.findall(r"\^|\*\*|[²³⁴-⁹]", t)) > 2 or re.search(r"\d{8,}", t):
            ctx.obs("mutants with huge powers left out")
            continue
        how = rng.randrange(2)
        with Watch(ctx, ps) as w:
            try:
                v1 = evaluate(ps, t, how)
                res = "evaluated"
            except Exception as e:
                res = "refused"
                v1 = None
            if res == "evaluated":
                v2 = evaluate(ps, t, how)
        ctx.key(t, name)
        ctx.obs(f"mutated strings {res}")
        w.verdict(t)
        if res == "evaluated":
            ctx.check(freeze(v1) == freeze(v2), f"evaluating {t!r} twice gave different values", key="twice")


def hostile(rng):
    """-> (string, must be refused)"""
    T = "\t"
    can = "verif_canary_" + "".join(rng.choice("abcdefgh") for _ in range(5))
    P = rng.choice([f"__import__('{can}')", f"open('{can}','w')", f"__import__('os').system('touch{T}{can}')", f"exec('import{T}{can}')", f"eval('__import__(\"{can}\")')",
                    f"__builtins__['__import__']('{can}')", f"__import__('os').remove('{can}')", f"__import__('shutil').rmtree('{can}')", f"__import__('subprocess').run(['{can}'])",
                    f"__import__('os').environ.update(VERIFCANARY='x')", f"__import__('os').putenv('{can}','x')", f"__import__('os').mkdir('{can}')", f"__import__('socket').socket()"])
    Q = P.replace("'", '"')
    forms = [
        (P, True), (f"⟨12⟩+{P}", True), (f"{P}*⟨12⟩", True), (f"-{P}", True), (f"({P})", True), (f"[{P}]", True), (f"⟨1|2+{P}|3]", True), (f"⟨1|{P}|3]", True), (f"[{P}|1]", True), (f"⟨{P}|", True), (f"|{P}]", True),
        (f"tr(1|{P})", True), (f"tr5({P}|1|2|3)", True), (f"tr5_{P}", True), (f"s_{P}", True), (f"s_12+s_{P}", True), (f"Δ_12|{P}|5", True), (f"m_{P}", True), (f"(lambda:{P})()", True), (f"[{P}\tfor\tx\tin\t[1]]", True), (f"{{{P}}}", True),
        (f"{{1:{P}}}", True), (f"f'{{{Q}}}'", True), (f"1\tif\t{P}\telse\t2", True), (f"⟨12⟩\tor\t{P}", True), (f"{P}\tor\t⟨12⟩", True), (f"not\t{P}", True), (f"(x:={P})", True), (f"1<{P}", True), (f"1=={P}", True),
        (f"⟨1|[{P}]", True), (f"|1⟩[{P}:1]", True), (f"|1⟩[0,{P}]", True), (f"oPs({P})", True), (f"oPs(*[{P}])", True), (f"oPs(x={P})", True),
        (f"oPs(\"1')+{P}+oPs('1\")", True), (f"oPs(\"s_12')*{P}*oPs('s_12\")", True), (f"⟨12⟩*oPs(\"'),{P},('\")", True), (f"sqrt(\"1')+{P}+oPs.field('1\")", True), (f"sqrt(\"'),{P},('\")", True), (f"sqrt({P})", True), (f"oPs.field.sqrt({P})", True),
        (f"Fraction(\"{P}\",1)", True), (f"Fraction(1,\"{P}\")", True), (f"Fraction(\"{P}\")", True), (f"Fraction({P},1)", True), (f"PAdic(\"{P}\",7,3)", True), (f"PAdic(1,\"{P}\",3)", True), (f"PAdic({P},7,3)", True),
        (f"numpy.block([[{P}]])", True), (f"numpy.transpose({P})", True), (f"numpy.transpose(a={P})", True), (f"numpy.save('{can}',1)", True), (f"numpy.savetxt('{can}',[1])", True), (f"numpy.load('{can}')", True), (f"numpy.loadtxt('{can}')", True),
        (f"numpy.genfromtxt('{can}')", True), (f"numpy.fromfile('{can}')", True), (f"numpy.memmap('{can}')", True), (f"numpy.savez('{can}',1)", True), (f"numpy.apply_along_axis({P},0,[1])", True), (f"numpy.fromstring('1')", True), (f"numpy.seterr(all='ignore')", True),
        (f"numpy.random.seed(1)", True), (f"numpy.os.getcwd()", True), (f"numpy.sys.exit()", True), (f"numpy.set_printoptions(precision=2)", True), (f"numpy.frompyfunc({P},1,1)", True), (f"numpy", True), (f"oPs", True), (f"oPs.field", True), (f"oPs.__class__", True),
        ("().__class__.__bases__", True), ("().__class__.__bases__[0].__subclasses__()", True), ("⟨12⟩.__class__", True), ("(1).__class__", True), ("oPs.randomise_all()", True), ("oPs.append(1)", True), ("oPs.clear()", True), ("oPs.pop()", True),
        ("oPs.fix_mom_cons(1,2)", True), ("oPs.__init__(4)", True), ("oPs.angles_for_squares()", True), ("oPs.subs({})", True), ("oPs.__dict__", True), ("exit()", True), ("quit()", True), ("__import__", True), ("print", True), ("print(1)", True), ("breakpoint()", True),
        ("globals()", True), ("locals()", True), ("vars(oPs)", True), ("setattr(oPs,'mt',1)", True), ("getattr(oPs,'field')", True), ("oPs['⟨1|']", True), ("oPs[1]", True), ("eval('1')", True), ("compile('1','','eval')", True), ("ϵ.__class__", True), ("(yield)", True), ("await\tx", True),
        ("pi", True), ("e", True), ("2*pi", True), ("⟨12⟩+e", True), ("inf", True), ("nan*⟨12⟩", True), ("eps", True), ("j", True), ("True+undefined", True), ("x", True), ("x*⟨12⟩", True), ("field", True), ("self", True), ("i*⟨12⟩", True), ("log(2)", True), ("exp(1)", True), ("abs(⟨12⟩)", True), ("conj(⟨12⟩)", True), ("mpmath.pi", True), ("mpmath.mpf(1)", False),
        ("del\toPs", True), ("import\tos", True), ("a=1", True), ("oPs.mt=1", True), ("1;2", True), ("..." + "+⟨12⟩", True),
        (f"({P}).sqrt(4)", False), (f"oPs('s_12',{P})", False), (f"sqrt(4,{P})", False), (f"sqrt(s_12,x={P})", False),
    ]
    return forms, can


_FORMS = len(hostile(__import__("random").Random(0))[0])


def case_hostile(ctx):
    rng = ctx.rng
    name = ("mpc", "fp", "qp", "fpi", "q", "qi", "qpi")[(ctx.index // _FORMS) % 7]
    ps, P, n, masses, aliases = c07.setup(ctx, name)
    forms, can = hostile(rng)
    s, refuse = forms[ctx.index % len(forms)]
    how = rng.randrange(3)
    if rng.random() < .2 and how < 2:
        ps.mQ = s
        used = rng.choice(["mQ", "2*mQ"])
        ctx.obs("hostile alias")
    else:
        used = s
    refused = None
    with Watch(ctx, ps) as w:
        try:
            v = evaluate(ps, used, how)
        except Exception as e:
            refused = type(e).__name__
    ctx.key("hostile", s, name, how)
    ctx.obs("hostile strings refused" if refused else "hostile strings ignored the foreign part")
    w.verdict(s)
    ctx.check(not os.path.exists(can), f"evaluating {s!r} created a file", key="foreign code")
    if refuse:
        ctx.check(refused is not None, f"foreign code was accepted: {s!r} gave {repr(locals().get('v'))[:100]}", key="accepted")


def case_item(ctx):
    """string indexing is evaluation too"""
    rng = ctx.rng
    name = rng.choice(MAIN)
    n = rng.choice([4, 6, 8])
    ps = any_point(ctx, n, name)
    forms, can = hostile(rng)
    s = rng.choice(forms)[0]
    with Watch(ctx, ps) as w:
        try:
            ps[s]
            res = "returned"
        except Exception:
            res = "refused"
    ctx.key("item", s)
    ctx.obs(f"hostile index {res}")
    w.verdict(s)


KINDS = [("pure", case_pure, 450, 8000), ("array", case_array, 200, 3000), ("mutated", case_mutated, 900, 20000), ("hostile", case_hostile, 7 * _FORMS, 60 * _FORMS), ("item", case_item, 100, 1000)]
