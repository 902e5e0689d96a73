"""Verification units: one function (one case of its precondition) each, discharged in its own process."""
import json
import os
import select
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import z3

from .program import Program
from .sem import Engine, State, Unsupported, Budget, Fork, skolem_goal
from .vals import *

EXIT_OK, EXIT_VIOLATION, EXIT_ERROR = 0, 1, 3


class SpecError(Exception):
    """the specification could not be applied to the current code -> error, never a verdict"""


class Unit:
    """name: unique; fn: function under contract (display); run(ctx) executes the proof.
    internal=True: a helper contract, only relied upon by other units, never a verdict of its own."""

    def __init__(self, name, fn, run, internal=False, bounded=None, timeout=240, provides=None, case=""):
        self.name, self.fn, self.run, self.internal, self.bounded = name, fn, run, internal, bounded
        self.timeout = timeout
        self.provides = provides
        self.case = case


class Ctx:
    """everything one unit's proof needs; collects its results"""

    def __init__(self, P, unit, contracts=None, budget=200):
        self.P, self.unit = P, unit
        self.contracts = contracts or {}
        self.budget = budget
        self.engines = []
        self.inputs = {}
        self.results = []
        self.covers = []
        self.paths = 0
        self.replays = []
        self.t0 = time.time()
        self.functions = set()

    def engine(self, contracts=True):
        E = Engine(self.P)
        E.deadline = self.t0 + self.budget
        if contracts:
            for sym, fn in self.contracts.items():
                E.contracts[sym] = fn
        self.engines.append(E)
        return E

    def sym(self, name, sort):
        v = z3.Const(name, sort)
        self.inputs[name] = v
        return v

    def call(self, E, st, fn, args, own=True):
        """all paths of fn from st; fn's own contract is not used for itself"""
        f = self.P.lookup(fn) if isinstance(fn, str) else fn
        if f is None:
            raise SpecError("no function %s" % fn)
        self.functions.add(f.name)
        keep = E.contracts.pop(f.name, None) if own else None
        try:
            outs = E.run(st, f, args)
        finally:
            if keep is not None:
                E.contracts[f.name] = keep
        self.paths += len(outs)
        return outs

    def require(self, E, st, cond, label, kind="post"):
        if isinstance(cond, bool):
            cond = z3.BoolVal(cond)
        from .sem import Obl
        c = z3.simplify(cond)
        E.obls.append(Obl(list(st.pc), c, kind, label, self.unit.fn, st))

    def cover(self, E, st, label, cond=None):
        """this situation must be reachable, otherwise the proof would be empty"""
        self.covers.append((label, list(st.pc) + ([cond] if cond is not None else []), E))


def smt2_check(cs, timeout_s):
    s = z3.Solver()
    for c in cs:
        s.add(c)
    txt = s.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write("(set-logic ALL)\n" + txt)
        p = f.name
    try:
        r = subprocess.run(["cvc5", "--tlimit=%d" % (timeout_s * 1000), "--fp-exp", p], capture_output=True, text=True,
                           timeout=timeout_s + 10)
        out = r.stdout.strip().split("\n")[0] if r.stdout.strip() else "unknown"
    except Exception:
        out = "unknown"
    finally:
        os.unlink(p)
    return out if out in ("sat", "unsat") else "unknown"


def has_fp(cs):
    seen = set()
    stack = list(cs)
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_fp(e):
            return True
        stack.extend(e.children())
    return False


def samples(sort, rng):
    if sort == z3.BoolSort():
        return z3.BoolVal(rng.random() < 0.5)
    if isinstance(sort, z3.BitVecSortRef):
        w = sort.size()
        c = [0, 1, -1, 2, 3, 5, -2, 7, 10, 1 << (w - 1), (1 << (w - 1)) - 1]
        for k in (8, 15, 16, 24, 31, 32, 33, 53):
            if k < w:
                c += [1 << k, (1 << k) + 1, (1 << k) - 1, -(1 << k)]
        return z3.BitVecVal(rng.choice(c) if rng.random() < 0.7 else rng.getrandbits(w), w)
    if isinstance(sort, z3.FPSortRef):
        c = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, -2.5, 3.0, 1e10, -1e10, 16777216.0, 16777217.0, 16777219.0, 0.1, 1 / 3.0,
             float("inf"), float("-inf"), float("nan"), 1e-40, 1e300, 2147483648.0, 0.75, -0.75]
        if rng.random() < 0.7:
            return z3.FPVal(rng.choice(c), sort)
        return z3.FPVal(rng.uniform(-1000, 1000), sort)
    return None


def free_consts(cs):
    seen, out, stack = set(), {}, list(cs)
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[e.get_id()] = e
        elif z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return None
        elif z3.is_quantifier(e):
            return None
        stack.extend(e.children())
    return list(out.values())


class Assignment:
    """a concrete assignment, evaluated like a solver model"""

    def __init__(self, sub):
        self.sub = sub

    def eval(self, t, model_completion=True):
        return z3.simplify(z3.substitute(t, *self.sub))


def by_sampling(cs, n=400):
    """concrete values that refute the obligation, found without a solver (only ever used to refute)"""
    import random
    rng = random.Random(1)
    cs = [c for c in cs if not z3.is_true(c)]
    core = cs[-1]
    vs = free_consts([core])
    if not vs or len(vs) > 8:
        return None
    # constraints over other variables are left to the solver afterwards
    ids = {v.get_id() for v in vs}
    side, rest = [], []
    for c in cs[:-1]:
        fv = free_consts([c])
        if fv is not None and all(v.get_id() in ids for v in fv):
            side.append(c)
        else:
            rest.append(c)
    for _ in range(n):
        sub = []
        for v in vs:
            x = samples(v.sort(), rng)
            if x is None:
                return None
            sub.append((v, x))
        if z3.is_true(z3.simplify(z3.substitute(core, *sub))) and all(
                z3.is_true(z3.simplify(z3.substitute(c, *sub))) for c in side):
            if rest:
                s = z3.Solver()
                s.set("timeout", 3000)
                s.add(*[z3.substitute(c, *sub) for c in rest])
                if s.check() != z3.sat:
                    continue
            return Assignment(sub)
    return None


def forked(fn, timeout):
    """fn() in a child with a hard time limit (solvers do not always honour theirs) -> plain result or None"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(int(timeout) + 1)
            out = json.dumps(fn()).encode()
            with os.fdopen(w, "wb") as f:
                f.write(out)
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    with os.fdopen(r, "rb") as f:
        buf = f.read()
    os.waitpid(pid, 0)
    try:
        return json.loads(buf.decode())
    except Exception:
        return None


def quick(E, o):
    """obligations over floating point are first evaluated on concrete operands -> refuting assignment or None"""
    if z3.is_true(o.cond):
        return None
    cs = E.expand(list(o.pc)) + [z3.Not(o.cond)]
    return by_sampling([z3.simplify(x) for x in cs]) if has_fp(cs) else None


def int_consts(t):
    out, seen, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_int(x):
            out.append(x)
        todo += x.children()
    return out


def discharge(E, o, inputs, replay=None, tmo=(10, 30, 60), hit=None):
    t0 = time.time()
    c = o.cond
    if z3.is_true(c):
        o.result, o.backend = "proved", "simplifier"
        o.secs = time.time() - t0
        return o
    cs = E.expand(list(o.pc)) + [z3.Not(skolem_goal(c))]
    ax = E.axioms(cs)

    def refuted(m):
        o.result = "failed"
        vals = {}
        for k, v in inputs.items():
            try:
                x = m.eval(v, model_completion=True)
                vals[k] = str(z3.simplify(z3.fpToIEEEBV(x))) if z3.is_fp(x) else str(x)
            except Exception:
                vals[k] = "?"
        o.model = vals
        o.ctx = m
        d = dict(vals=vals)
        if replay:
            try:
                d["replay"] = replay(o)
            except Exception as e:
                d["replay_error"] = repr(e)
        return d

    def solve(seed, secs, extra=()):
        s = z3.Solver()
        s.set("timeout", secs * 1000)
        if seed:
            s.set("random_seed", seed)
        s.add(*cs)
        s.add(*ax)
        s.add(*extra)
        r = str(s.check())
        return dict(r=r, d=refuted(s.model()) if r == "sat" else None)

    fp = has_fp(cs)
    res = None
    if fp:
        if hit is not None:
            res = dict(r="sat", d=refuted(hit))
            o.backend = "evaluation"
    if res is None:
        res = (forked(lambda: solve(0, tmo[0]), tmo[0] + 5) if fp else solve(0, tmo[0])) or dict(r="unknown", d=None)
        o.backend = "z3"
    if res["r"] == "unknown" and len(tmo) > 1:
        r2 = smt2_check(cs + list(ax), tmo[1])
        if r2 == "unsat":
            res = dict(r="unsat", d=None)
            o.backend = "cvc5"
        else:
            # a model of the failed goal that also meets a guess is a model of the failed goal
            for n in [] if fp else int_consts(cs[-1])[:2]:
                for v in (256, 1 << 16, 2):
                    r2 = forked(lambda: solve(0, 5, [n == v]), 10)
                    if r2 and r2["r"] == "sat":
                        res = r2
                        break
                if res["r"] == "sat":
                    break
        if res["r"] == "unknown":
            res = forked(lambda: solve(7, tmo[2]), tmo[2] + 5) or dict(r="unknown", d=None)
    o.result = {"unsat": "proved", "sat": "failed"}.get(res["r"], "unknown")
    if res.get("d"):
        o.model = res["d"]["vals"]
        o.ctx = res["d"]
    o.secs = time.time() - t0
    return o


def run_unit(P, unit, contracts):
    """-> plain result (executed in the worker process)"""
    ctx = Ctx(P, unit, contracts, budget=unit.timeout - 20)
    res = dict(unit=unit.name, fn=unit.fn, case=unit.case, internal=unit.internal, bounded=unit.bounded, status="ok",
               obligations=[], t=0)
    t0 = time.time()
    try:
        unit.run(ctx)
    except (Unsupported, Budget, SpecError) as e:
        res["status"] = "error"
        res["error"] = "%s: %s" % (type(e).__name__, e)
    except Exception as e:
        res["status"] = "error"
        res["error"] = "%s: %s" % (type(e).__name__, e)
        res["trace"] = traceback.format_exc()[-2500:]
    seen = {}
    n = 0
    backends = {}
    failed = []
    unknown = []
    if res["status"] == "ok":
        todo = []
        for E in ctx.engines:
            E.deadline = None
            for o in E.obls:
                key = (tuple(sorted(c.get_id() for c in o.pc)), o.cond.get_id(), o.label)
                if key in seen:
                    continue
                seen[key] = 1
                todo.append((E, o, quick(E, o)))
        todo.sort(key=lambda x: x[2] is None)
        limit = t0 + max(unit.timeout, 60)
        for E, o, hit in todo:
            n += 1
            if len(failed) >= 6:
                continue
            # once refuted, the rest only adds detail
            tmo = (10, 30, 60) if not failed and time.time() < limit - 100 else (5,) if time.time() < limit else (1,)
            discharge(E, o, ctx.inputs, next((fn for R, fn in ctx.replays if R is E), None), tmo, hit)
            backends[o.backend] = backends.get(o.backend, 0) + 1
            if o.result != "proved":
                d = dict(kind=o.kind, label=o.label, where=o.where, result=o.result, inputs=o.model,
                         cond=str(o.cond)[:1500], pc=[str(c)[:300] for c in o.pc][-40:])
                if o.result == "failed":
                    for k in ("replay", "replay_error"):
                        if isinstance(o.ctx, dict) and k in o.ctx:
                            d[k] = o.ctx[k]
                    failed.append(d)
                else:
                    unknown.append(d)
        # vacuity
        for label, pc, E in ctx.covers:
            r = E.check(pc, timeout=20000)
            if r == "unsat":
                res["status"] = "error"
                res["error"] = "vacuous: %s is unreachable" % label
        if n == 0:
            res["status"] = "error"
            res["error"] = "no obligation generated"
    res["n"] = n
    res["covers"] = len(ctx.covers)
    res["backends"] = backends
    res["failed"] = failed
    res["unknown"] = unknown
    res["paths"] = ctx.paths
    res["functions"] = sorted(ctx.functions)
    res["inlined"] = sorted({x for E in ctx.engines for x in E.inlined})
    res["contracts"] = sorted({x for E in ctx.engines for x in E.used_contracts})
    res["models"] = sorted({x for E in ctx.engines for x in E.used_models})
    res["assumptions"] = sorted({x for E in ctx.engines for x in E.assumptions})
    res["loops_cut"] = sum(len(E.loops_cut) for E in ctx.engines)
    res["loop_obligations"] = sum(E.loop_obligations for E in ctx.engines)
    res["bounds"] = sorted({str(x) for E in ctx.engines for x in E.bounded})
    res["solver_s"] = sum(E.solver_s for E in ctx.engines)
    res["q"] = sum(E.q for E in ctx.engines)
    res["t"] = time.time() - t0
    if unknown and not failed and res["status"] == "ok":
        res["status"] = "error"
        res["error"] = "solver gave no answer: " + "; ".join(u["label"] for u in unknown[:3])
    if failed:
        res["status"] = "failed"
    return res


def run_pool(P, units, contracts, jobs=None, verbose=False):
    """each unit in a forked process, at most `jobs` at a time"""
    jobs = jobs or int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 4
    todo = list(units)[::-1]
    live = {}
    out = {}
    import gc
    gc.collect()
    gc.freeze()
    while todo or live:
        while todo and len(live) < jobs:
            u = todo.pop()
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    signal.signal(signal.SIGALRM, signal.SIG_DFL)
                    signal.alarm(0)
                    sys.setrecursionlimit(20000)
                    try:
                        res = run_unit(P, u, contracts)
                    except BaseException as e:
                        res = dict(unit=u.name, fn=u.fn, status="error", error="worker: %r" % e, n=0)
                    with os.fdopen(w, "wb") as f:
                        f.write(json.dumps(res).encode())
                finally:
                    os._exit(0)
            os.close(w)
            live[r] = (pid, u, time.time(), bytearray())
        ready, _, _ = select.select(list(live), [], [], 1.0)
        for fd in ready:
            pid, u, t, buf = live[fd]
            d = os.read(fd, 1 << 16)
            if d:
                buf += d
                continue
            os.close(fd)
            del live[fd]
            os.waitpid(pid, 0)
            try:
                out[u.name] = json.loads(bytes(buf).decode())
            except Exception:
                out[u.name] = dict(unit=u.name, fn=u.fn, status="error", error="worker died", n=0)
            if verbose:
                x = out[u.name]
                print("  %-9s %-60s n=%s paths=%s %.1fs %s" % (x["status"], u.name, x.get("n"), x.get("paths"),
                                                            time.time() - t, x.get("error", "")), flush=True)
        for fd in list(live):
            pid, u, t, buf = live[fd]
            if time.time() - t > u.timeout + 60:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
                del live[fd]
                out[u.name] = dict(unit=u.name, fn=u.fn, status="error", error="timeout", n=0)
                if verbose:
                    print("  timeout ", u.name, flush=True)
    return [out[u.name] for u in units]
