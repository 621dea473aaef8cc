import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from gen import *
from core import Skip, Violation, REPO, VERIF

ID = "C19"
RULE = ("a case is one history of requests (multiplicity, options, cache on or off) on one scratch home directory by one or several real processes: one after the other (history), one of them killed, torn or "
        "refused at the k-th file-changing system call or interrupted by a signal (crash), or started together with delayed writes (concurrent); every list returned is compared with the one generated without "
        "cache in a clean home; distinct = (kind, history, fault point)")
ASSUMPTIONS = ["crash points are the library-level calls that create, write, rename or remove files below the home directory, seen by a preloaded shim", "multiplicities 4 to 7",
               "after a crash or an injected I/O error an explicit error is accepted, without them it is not", "the concurrent processes only interleave as the operating system and the injected delays make them"]
CPU_LIMIT, WALL_LIMIT = 600, 300

OPTS = ("no_hard_coded_ones", "Restrict3Brackets", "Restrict4Brackets", "FurtherRestrict4Brackets")
DEFAULT = (False, True, True, True)
_CHILD = r"""
import sys, json, os, time
import lips
from lips.invariants import Invariants
reqs, gate = json.loads(sys.argv[1])
FAM = ("2", "3", "4", "5", "s", "D", "O", "P", "tr5")
if gate:
    open(gate + ".ready." + str(os.getpid()), "w").close()
    while not os.path.exists(gate):
        time.sleep(.001)
for n, opts, cached, spoil in reqs:
    try:
        kw = dict(zip(("no_hard_coded_ones", "Restrict3Brackets", "Restrict4Brackets", "FurtherRestrict4Brackets"), opts))
        I = Invariants(n, no_cached=not cached, **kw)
        out = [[list(getattr(I, "invs_" + k)) for k in FAM], list(I.full), I.multiplicity]
        if spoil:
            for k in FAM:
                getattr(I, "invs_" + k).append("spoiled")
        print("RES " + json.dumps(out), flush=True)
    except Exception as e:
        print("ERR " + json.dumps([type(e).__name__, str(e)[:200]]), flush=True)
"""
SHIM = None
_ref = {}


def prepare(tier, seed):
    global SHIM
    so = os.path.join(os.environ.get("VERIF_SCRATCH", tempfile.gettempdir()), "fault.so")
    r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, os.path.join(VERIF, "harness", "native", "fault.c"), "-ldl"], capture_output=True)
    if r.returncode == 0:
        SHIM = so
    # the reference lists, each by its own process in its own home, without cache
    todo = [(n, o) for n in (4, 5, 6, 7) for o in options(n)]
    procs = []
    for n, o in todo:
        h = scratch()
        procs.append((n, o, h, spawn(h, [(n, o, False, False)])))
        while sum(p.poll() is None for _, _, _, p in procs) >= 8:
            time.sleep(.02)
    for n, o, h, p in procs:
        res = results(p)
        shutil.rmtree(h, ignore_errors=True)
        if len(res) != 1 or res[0][0] != "RES":
            print(f"  reference list n={n} {o}: {res}")
            _ref[n, o] = None
        else:
            _ref[n, o] = res[0][1]


def options(n):
    if n == 6:
        return [DEFAULT, (True, True, True, True), (True, False, True, True), (True, True, True, False), (True, True, False, True)]
    if n == 7:
        return [DEFAULT, (True, True, True, True), (False, True, True, False), (False, False, True, True)]
    return list(itertools.product((False, True), repeat=4))


def scratch():
    return tempfile.mkdtemp(prefix="home", dir=os.environ.get("VERIF_SCRATCH"))


def spawn(home, reqs, gate=None, **fault):
    env = dict(os.environ, HOME=home, PYTHONPATH=REPO, PYTHONHASHSEED="random", XDG_CACHE_HOME=home + "/.cache")
    if fault:
        env.update(LD_PRELOAD=SHIM, FAULT_ROOT=home, **{k: str(v) for k, v in fault.items()})
    return subprocess.Popen([sys.executable, "-W", "ignore", "-c", _CHILD, json.dumps([reqs, gate])], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=home)


IDLE = 30


def usage(pid):
    """Processor ticks used so far and the state of a process."""
    with open(f"/proc/{pid}/stat") as f:
        fields = f.read().rsplit(")", 1)[1].split()
    return int(fields[11]) + int(fields[12]), fields[0]


def results(p):
    """What a process answered; a process that sleeps for half a minute without using the processor waits for something that never comes: killed, and marked."""
    p.hung, last, since = False, None, time.time()
    while True:
        try:
            out, _ = p.communicate(timeout=2)
            break
        except subprocess.TimeoutExpired:
            pass
        try:
            now = usage(p.pid)
        except (OSError, IndexError, ValueError):
            continue
        if now != last or now[1] not in "SD":
            last, since = now, time.time()
        elif time.time() - since > IDLE:
            p.kill()
            p.hung = True
    res = []
    for line in out.decode(errors="replace").splitlines():
        if line[:4] in ("RES ", "ERR "):
            try:
                res.append((line[:3], json.loads(line[4:])))
            except ValueError:
                pass
    return res


def ask(ctx, home, reqs, what):
    """An undisturbed process: it answers every request, if only with an error."""
    p = spawn(home, reqs)
    res = results(p)
    ctx.check(not p.hung, f"{what}: the process waits for ever at request {len(res) + 1} of {reqs}", key="hang")
    ctx.check(len(res) == len(reqs), f"{what}: the process died after {len(res)} of {len(reqs)} requests", key="process")
    return res


def judge(ctx, req, res, what, errors_ok):
    n, o = req[0], tuple(req[1])
    ref = _ref[n, o]
    if ref is None:
        raise Skip("no reference list")
    kind, val = res
    if kind == "ERR":
        ctx.check(errors_ok, f"{what}: request n={n} {dict(zip(OPTS, o))} failed: {val}", key="error")
        ctx.obs("explicit errors after a fault")
        return
    ctx.obs("lists compared")
    if val != ref:
        a, b = set(val[1]), set(ref[1])
        raise Violation(f"{what}: request n={n} {dict(zip(OPTS, o))} {'from' if req[2] else 'without'} cache: wrong list", key="wrong list",
                        missing=sorted(b - a)[:5], extra=sorted(a - b)[:5], n_got=len(val[1]), n_expected=len(ref[1]))
    ctx.evals += 1


def draw(rng, big=True):
    n = rng.choice([4, 5, 5, 5, 6, 7] if big else [4, 5, 5])
    o = DEFAULT if rng.random() < .55 else rng.choice(options(n))
    return (n, o, rng.random() < .85, rng.random() < .3)


def case_history(ctx):
    rng = ctx.rng
    home = scratch()
    try:
        n0 = rng.choice([4, 5, 5, 6, 7])
        log = []
        for k in range(rng.randrange(2, 4)):
            reqs = []
            for _ in range(rng.randrange(1, 5)):
                r = draw(rng)
                if rng.random() < .6:
                    o = DEFAULT if rng.random() < .5 else rng.choice(options(n0))
                    r = (n0, o) + r[2:]
                reqs.append(r)
            log.append(reqs)
            res = ask(ctx, home, reqs, f"process {k} of {log}")
            for r, x in zip(reqs, res):
                judge(ctx, r, x, f"after {log}", errors_ok=False)
                ctx.obs(f"request {'cached' if r[2] else 'uncached'}")
        ctx.key("history", log)
        ctx.obs("processes", len(log))
    finally:
        shutil.rmtree(home, ignore_errors=True)


def case_crash(ctx):
    rng = ctx.rng
    if SHIM is None:
        raise Skip("the fault shim could not be compiled")
    n = rng.choice([4, 5, 5, 5, 7 if ctx.tier == "thorough" else 5])
    home = scratch()
    try:
        logf = home + ".log"
        # how many calls does an undisturbed first use make?
        p = spawn(home, [(n, DEFAULT, True, False)], FAULT_LOG=logf)
        res = results(p)
        ctx.check(len(res) == 1, f"first use of n={n}: {'the process waits for ever' if p.hung else 'the process died'}", key="hang" if p.hung else "process")
        judge(ctx, (n, DEFAULT, True), res[0], "first use", errors_ok=False)
        total = os.path.getsize(logf) if os.path.exists(logf) else 0
        if os.path.exists(logf):
            os.unlink(logf)
        shutil.rmtree(home, ignore_errors=True)
        os.makedirs(home)
        if total == 0:
            ctx.obs("first uses without any file operation")
            ctx.key("crash", "no file operations", n)
            return
        mode = rng.choice(["kill", "kill", "kill", "torn", "torn", "enospc", "eio", "sigint", "sigterm"])
        at = rng.randrange(1, total + 2)
        prior = rng.random() < .3
        if prior:
            judge(ctx, (4, DEFAULT, True), ask(ctx, home, [(4, DEFAULT, True, False)], "prior use")[0], "prior use", errors_ok=False)
        first = [(n, DEFAULT, True, False)]
        if mode.startswith("sig"):
            gate = home + ".gate"
            p = spawn(home, first, gate, FAULT_LOG=logf, FAULT_DELAY=20000)
            while p.poll() is None and not any(f.startswith(os.path.basename(gate) + ".ready") for f in os.listdir(os.path.dirname(home))):
                time.sleep(.002)
            open(gate, "w").close()
            # wait until the drawn number of file operations has been made, then interrupt
            t0 = time.time()
            while p.poll() is None and (os.path.getsize(logf) if os.path.exists(logf) else 0) < min(at, total) and time.time() - t0 < 60:
                time.sleep(.001)
            p.send_signal(signal.SIGINT if mode == "sigint" else signal.SIGTERM)
            res = results(p)
            for f in os.listdir(os.path.dirname(home)):
                if f.startswith(os.path.basename(gate)):
                    os.unlink(os.path.join(os.path.dirname(home), f))
        else:
            p = spawn(home, first, FAULT_LOG=logf, FAULT_AT=at, FAULT_MODE=mode)
            res = results(p)
        done = open(logf, "rb").read().decode() if os.path.exists(logf) else ""
        if os.path.exists(logf):
            os.unlink(logf)
        what = f"first use of n={n} {mode} at file operation {at} of {total} ({done})"
        ctx.key("crash", n, mode, at, prior)
        ctx.obs(f"crash points hit ({mode})")
        ctx.obs(f"faulted process exit {'killed' if p.returncode and p.returncode < 0 else p.returncode}")
        ctx.check(not p.hung, f"{what}: that process waits for ever", key="hang")
        if res:
            judge(ctx, first[0], res[0], what + ", in that process", errors_ok=True)
        # later users of the same cache
        for k in range(2):
            reqs = [(n, DEFAULT, True, False), (n, DEFAULT, False, False), (4, DEFAULT, True, True), (n, rng.choice(options(n)), True, False), (n, DEFAULT, True, False)]
            if k:
                rng.shuffle(reqs)
            r = ask(ctx, home, reqs, f"{what}, {k + 1} processes later")
            for q, x in zip(reqs, r):
                # other multiplicities and uncached requests are not concerned by the crash
                judge(ctx, q, x, what + f", {k + 1} processes later", errors_ok=q[2] and q[0] == n)
    finally:
        shutil.rmtree(home, ignore_errors=True)


def case_concurrent(ctx):
    rng = ctx.rng
    home = scratch()
    gate = home + ".gate"
    procs = []
    try:
        k = rng.randrange(2, 5)
        ns = rng.choice([[5], [5], [4, 5], [6], [7], [5, 6]])
        delay = rng.choice([0, 300, 3000]) if SHIM else 0
        warm = rng.random() < .2
        if warm:
            ask(ctx, home, [(ns[0], DEFAULT, True, False)], "first use")
        for j in range(k):
            reqs = [(rng.choice(ns), DEFAULT if rng.random() < .8 else rng.choice(options(ns[0])), True, False) for _ in range(rng.randrange(1, 4))]
            reqs = [r if r[1] in options(r[0]) else (r[0], DEFAULT) + r[2:] for r in reqs]
            d = dict(FAULT_DELAY=delay * rng.randrange(0, 3)) if delay else {}
            procs.append((reqs, spawn(home, reqs, gate, **d)))
        t0 = time.time()
        while time.time() - t0 < 60:
            if sum(f.startswith(os.path.basename(gate) + ".ready") for f in os.listdir(os.path.dirname(home))) >= k:
                break
            time.sleep(.005)
        open(gate, "w").close()
        ctx.key("concurrent", k, [r for r, _ in procs], delay, warm)
        for reqs, p in procs:
            res = results(p)
            ctx.check(not p.hung, f"one of {k} concurrent processes {[r for r, _ in procs]} waits for ever", key="hang")
            ctx.check(len(res) == len(reqs), f"one of {k} concurrent processes died", key="process")
            for q, x in zip(reqs, res):
                judge(ctx, q, x, f"{k} concurrent processes {[r for r, _ in procs]} (delay {delay} us)", errors_ok=False)
        later = [(n, DEFAULT, True, False) for n in ns]
        for q, x in zip(later, ask(ctx, home, later, f"after {k} concurrent processes")):
            judge(ctx, q, x, f"after {k} concurrent processes", errors_ok=False)
        ctx.obs("concurrent processes", k)
    finally:
        for _, p in procs:
            if p.poll() is None:
                p.kill()
        for f in os.listdir(os.path.dirname(home)):
            if f.startswith(os.path.basename(gate)):
                os.unlink(os.path.join(os.path.dirname(home), f))
        shutil.rmtree(home, ignore_errors=True)


KINDS = [("history", case_history, 40, 500), ("crash", case_crash, 48, 900), ("concurrent", case_concurrent, 16, 200)]
