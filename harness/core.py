"""Runner shared by all checks: case scheduling, monitors' bookkeeping, verdicts, evidence, replay."""
import concurrent.futures
import hashlib
import json
import multiprocessing
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LIPS_REPO", "/repo")
NWORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
STOP_AFTER = int(os.environ.get("VERIF_STOP", "3"))


class Violation(Exception):
    def __init__(self, what, key=None, **detail):
        super().__init__(what)
        self.what, self.key, self.detail = what, key, detail


def rep(x):
    try:
        return repr(x)
    except Exception as e:
        return f"<{type(x).__name__}: {e}>"


class Skip(Exception):
    """Case is inconclusive: the oracle had nothing to decide."""


class CaseTimeout(BaseException):
    pass


_real_random_seed = random.seed


class Ctx:
    """Handed to each case. Records what the monitors observe."""

    def __init__(self, prop, kind, index, seed, tier):
        self.prop, self.kind, self.index, self.seed, self.tier = prop, kind, index, seed, tier
        self.rng = random.Random(f"{prop}:{kind}:{index}:{seed}")
        self.events = {}
        self.keys = set()
        self.evals = 0
        self.sample = None

    # -- observations
    def obs(self, event, n=1):
        self.events[event] = self.events.get(event, 0) + n

    def key(self, *k):
        """Declare the case (or sub-case) distinct under this key."""
        h = hashlib.sha1(repr(k).encode()).hexdigest()[:16]
        self.keys.add(h)
        if self.sample is None:
            self.sample = repr(k)[:300]

    # -- oracles
    def check(self, cond, what, key=None, **detail):
        self.evals += 1
        if not cond:
            raise Violation(what, key, **{k: rep(v)[:600] for k, v in detail.items()})

    def eq(self, ref, lib, what, key=None, scale=1, **detail):
        import ref as R
        self.evals += 1
        try:
            ok = R.close(ref, lib, scale)
        except TypeError as e:
            raise Violation(f"{what}: not a comparable number ({e})", key, lib=rep(lib)[:300], ref=rep(ref)[:300])
        if not ok:
            raise Violation(what, key, lib=rep(lib)[:400], ref=rep(ref)[:400], **{k: rep(v)[:600] for k, v in detail.items()})

    def eqm(self, refm, libm, what, key=None, scale=1, **detail):
        """Compare a reference matrix (list of lists) with a library array."""
        import numpy
        libm = numpy.asarray(libm)
        shape = (len(refm), len(refm[0]))
        if libm.shape != shape:
            self.evals += 1
            raise Violation(f"{what}: shape {libm.shape}, expected {shape}", key, **{k: rep(v)[:600] for k, v in detail.items()})
        for i in range(shape[0]):
            for j in range(shape[1]):
                self.eq(refm[i][j], libm[i, j], f"{what} [{i},{j}]", key, scale, **detail)

    def raises(self, fn, what, exc=Exception, key=None, **detail):
        self.evals += 1
        try:
            r = fn()
        except exc:
            return
        raise Violation(what, key, returned=rep(r)[:300], **{k: rep(v)[:600] for k, v in detail.items()})


def _seeded(ctx):
    """Make the library's entropy a function of the case: seed() without argument draws from the case's stream."""
    stream = random.Random(f"lib:{ctx.prop}:{ctx.kind}:{ctx.index}:{ctx.seed}")

    def seed(a=None, version=2):
        _real_random_seed(stream.getrandbits(64) if a is None else a, version)
    random.seed = seed
    seed()


_CHECK = None


_LINES = set()    # lines of lips executed by this process since the last report


def watch_lines():
    """Record (once per line and process) which lines of lips the workload executes; this is evidence, no verdict depends on it."""
    mon = getattr(sys, "monitoring", None)
    if mon is None:
        return
    root = os.path.join(REPO, "lips") + os.sep

    def on_line(code, line):
        if code.co_filename.startswith(root):
            _LINES.add((code.co_filename[len(root):], line))
        return mon.DISABLE
    try:
        mon.use_tool_id(mon.COVERAGE_ID, "lipsverif")
        mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, on_line)
        mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
    except ValueError:
        pass


def executable_lines(lips_dir):
    """{file: set of lines inside functions}"""
    out = {}
    for base, _, files in os.walk(lips_dir):
        for f in files:
            if not f.endswith(".py"):
                continue
            path = os.path.join(base, f)
            try:
                todo = [(compile(open(path).read(), path, "exec"), False)]
            except (SyntaxError, OSError):
                continue
            lines = set()
            while todo:
                code, inside = todo.pop()
                if inside:
                    lines |= {ln for _, _, ln in code.co_lines() if ln and ln != code.co_firstlineno}
                todo += [(c, inside or c.co_flags & 2) for c in code.co_consts if hasattr(c, "co_lines")]
            out[os.path.relpath(path, lips_dir)] = lines
    return out


def _run_case(args):
    _LINES.clear()
    out = _run_case_(args)
    out["lines"] = list(_LINES)
    return out


def _run_case_(args):
    prop, kind, index, seed, tier, cpu_limit, wall_limit = args
    import mpmath
    from ref import Inconclusive
    ctx = Ctx(prop, kind, index, seed, tier)
    fn = dict((k[0], k[1]) for k in _CHECK.KINDS)[kind]
    mpmath.mp.dps = 300
    import lips
    lips.spinor_convention = 'symmetric'
    out = dict(kind=kind, index=index, status="ok")
    t0 = time.time()

    def on_prof(*_):
        raise CaseTimeout("cpu")

    def on_alrm(*_):
        raise CaseTimeout("wall")
    signal.signal(signal.SIGPROF, on_prof)
    signal.signal(signal.SIGALRM, on_alrm)
    _seeded(ctx)
    try:
        signal.setitimer(signal.ITIMER_PROF, cpu_limit)
        signal.setitimer(signal.ITIMER_REAL, wall_limit)
        try:
            fn(ctx)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Violation as v:
        out.update(status="violation", what=v.what, key=v.key, detail=v.detail)
    except (Skip, Inconclusive) as s:
        out.update(status="skip", what=str(s))
    except CaseTimeout as t:
        if str(t) == "cpu" and not getattr(_CHECK, "TIMEOUT_IS_SKIP", False):
            out.update(status="violation", what=f"did not finish within {cpu_limit} s of CPU time (typical: well under a second)", key="nontermination", detail={})
        else:
            out.update(status="skip", what=f"{t} limit")
    except MemoryError:
        out.update(status="skip", what="memory")
    except Exception as e:
        frames = [f.filename for f in traceback.extract_tb(e.__traceback__)]
        in_lib = any(os.path.join(REPO, "lips") in f for f in frames)
        if isinstance(e, ZeroDivisionError) and not in_lib:
            out.update(status="skip", what=f"degenerate draw in the harness: {e}")
        elif isinstance(e, NotImplementedError) and "field extension" in str(e).lower() and "pyadic" in frames[-1]:
            out.update(status="skip", what="p-adic square root of odd valuation (not supported by pyadic)")
        else:
            out.update(status="violation", what=f"unexpected {type(e).__name__}: {str(e)[:300]}", key=f"exception:{type(e).__name__}",
                       detail=dict(traceback=traceback.format_exc()[-3000:]))
    except BaseException as e:   # e.g. SystemExit raised by evaluated text
        if isinstance(e, KeyboardInterrupt):
            raise
        out.update(status="violation", what=f"unexpected {type(e).__name__} escaped", key=f"exception:{type(e).__name__}", detail=dict(traceback=traceback.format_exc()[-3000:]))
    finally:
        random.seed = _real_random_seed
    out.update(events=ctx.events, keys=list(ctx.keys), evals=ctx.evals, sample=ctx.sample, wall=time.time() - t0)
    return out


def kill_descendants():
    parent = {}
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                parent[int(d)] = int(open(f"/proc/{d}/stat").read().rsplit(")", 1)[1].split()[1])
            except (OSError, ValueError, IndexError):
                pass
    todo, mine = [os.getpid()], []
    while todo:
        q = todo.pop()
        kids = [c for c, pp in parent.items() if pp == q]
        mine += kids
        todo += kids
    for c in mine:
        try:
            os.kill(c, signal.SIGKILL)
        except OSError:
            pass


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [f for f in json.load(open(path)).get("findings", []) if f["property"] == prop and f.get("status") != "fixed"]


def main(check, argv):
    """check: module with ID, RULE, KINDS=[(name, fn, n_quick, n_thorough[, min_ok])]."""
    global _CHECK
    _CHECK = check
    prop = check.ID
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cpu_limit = getattr(check, "CPU_LIMIT", 120)
    wall_limit = getattr(check, "WALL_LIMIT", 300)
    deadline = time.time() + (780 if tier == "quick" else 5400)
    t0 = time.time()

    import lips
    lips_dir = os.path.dirname(os.path.abspath(lips.__file__))
    if os.path.realpath(lips_dir) != os.path.realpath(os.path.join(REPO, "lips")):
        print(f"error: imported lips from {lips_dir}, not from {REPO}")
        return 2

    if len(argv) >= 2 and argv[0] == "--replay":
        r = json.load(open(argv[1]))
        res = _run_case((prop, r["kind"], r["index"], r["seed"], r["tier"], cpu_limit, wall_limit))
        print(json.dumps(res, indent=1, ensure_ascii=False, default=repr))
        return 1 if res["status"] == "violation" else 0

    if hasattr(check, "prepare"):
        check.prepare(tier, seed)
    only = os.environ.get("VERIF_ONLY_KIND")
    tasks = []
    for k in check.KINDS:
        n = k[2] if tier == "quick" else k[3]
        if only and k[0] != only:
            continue
        if callable(n):
            n = n()
        tasks += [(prop, k[0], i, seed, tier, cpu_limit, wall_limit) for i in range(n)]
    # interleave kinds so that a deadline cuts all of them evenly
    order = random.Random(f"order:{seed}")
    order.shuffle(tasks)
    tasks.sort(key=lambda t: t[1] not in getattr(check, "FIRST", ()))   # long cases first

    watch_lines()
    results, violations = [], []
    unstarted = 0
    kf = known_findings(prop)

    def is_known(r):
        return next((f for f in kf if f["kind"] == r["kind"] and f["key"] == r.get("key")), None)
    known_hit = {}

    mp = multiprocessing.get_context("fork")
    nw = min(NWORKERS, max(1, len(tasks)))
    try:
        with concurrent.futures.ProcessPoolExecutor(nw, mp_context=mp) as pool:
            it = iter(tasks)
            pending = set()

            def feed():
                nonlocal unstarted
                while len(pending) < 2 * nw:
                    t = next(it, None)
                    if t is None:
                        return
                    pending.add(pool.submit(_run_case, t))
            feed()
            while pending:
                done, _ = concurrent.futures.wait(pending, return_when=concurrent.futures.FIRST_COMPLETED)
                for d in done:
                    pending.discard(d)
                    r = d.result()
                    results.append(r)
                    if r["status"] == "violation":
                        f = is_known(r)
                        if f is not None:
                            known_hit[f["key"]] = f
                            r["status"] = "known"
                        else:
                            violations.append(r)
                if len(violations) >= STOP_AFTER or time.time() > deadline:
                    unstarted = sum(1 for _ in it) + len(pending)
                    for q in pending:
                        q.cancel()
                    kill_descendants()    # what still runs is not waited for
                    break
                feed()
    except concurrent.futures.process.BrokenProcessPool:
        if not violations:
            print("error: a worker process died; no verdict")
            return 2

    ok = [r for r in results if r["status"] == "ok"]
    events, keys = {}, set()
    per_kind = {}
    for r in results:
        pk = per_kind.setdefault(r["kind"], dict(ok=0, skip=0, violation=0, known=0))
        pk[r["status"]] += 1
        for e, n in r["events"].items():
            events[e] = events.get(e, 0) + n
        keys.update(r["keys"])
    samples, seen = [], set()
    for r in ok:
        if r["sample"] and r["kind"] not in seen:
            seen.add(r["kind"])
            samples.append(f"{r['kind']}#{r['index']}: {r['sample']}")
    skips = {}
    for r in results:
        if r["status"] == "skip":
            k = f"{r['kind']}: {r['what'][:80]}"
            skips[k] = skips.get(k, 0) + 1
    cov = dict(evaluations=sum(r["evals"] for r in results), distinct_nontrivial=len(keys), rule=check.RULE,
               samples=samples[:12] or ["none"], cases_run=len(results), cases_per_kind=per_kind, monitor_events=events,
               inconclusive=skips, cases_not_started=unstarted, known_findings_seen=len(known_hit), lips_imported_from=lips_dir)
    hit = {}
    for r in results:
        for f, ln in r["lines"]:
            hit.setdefault(f, set()).add(ln)
    ex = executable_lines(lips_dir)
    cov["lips_lines_executed"] = {f: f"{len(hit[f] & ex[f])} of {len(ex[f])}" for f in sorted(ex) if hit.get(f) and ex[f] and hit[f] & ex[f]}
    if os.environ.get("VERIF_LINES"):
        with open(os.path.join(os.environ["VERIF_LINES"], f"{prop}.lines.json"), "w") as f:
            json.dump({k: sorted(v) for k, v in hit.items()}, f)
    if hasattr(check, "extra_coverage"):
        cov.update(check.extra_coverage(results))
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=getattr(check, "ASSUMPTIONS", []),
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False, default=repr)

    for f in known_hit.values():
        print(f"KNOWN-FINDING: property={prop} {f['what']}")
    if violations:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        for v in violations:
            path = os.path.join(rdir, f"{prop}-{v['kind']}-{v['index']}-{seed}.json")
            with open(path, "w") as f:
                json.dump(dict(property=prop, kind=v["kind"], index=v["index"], seed=seed, tier=tier, what=v["what"], key=v.get("key"), detail=v.get("detail"),
                               rerun=f"bash run.sh {prop} --replay {path}"), f, indent=1, ensure_ascii=False, default=repr)
            print(f"  {v['kind']}#{v['index']}: {v['what']}")
            for k, d in list((v.get("detail") or {}).items())[:6]:
                print(f"     {k}: {str(d)[-700:] if k == 'traceback' else str(d)[:300]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    # inconclusive is not "held": every kind must have been decided often enough
    for k in check.KINDS:
        if only and k[0] != only:
            continue
        n = k[2] if tier == "quick" else k[3]
        n = n() if callable(n) else n
        pk = per_kind.get(k[0], dict(ok=0, skip=0, known=0))
        need = k[4] if len(k) > 4 else max(1, n // 4)
        if n and pk["ok"] + pk.get("known", 0) < need and not unstarted:
            print(f"error: {prop}/{k[0]}: only {pk['ok']} of {n} cases could be decided ({skips}); no verdict")
            return 2
        if n and unstarted and pk["ok"] == 0:
            print(f"error: {prop}/{k[0]}: nothing decided before the deadline; no verdict")
            return 2
    print(f"OK property={prop} tier={tier} seed={seed} cases={len(results)} comparisons={cov['evaluations']} distinct={len(keys)} "
          f"skips={sum(skips.values())} wall={ev['wall_s']}s")
    return 0
