#!/usr/bin/env python3-vt
"""check of one property: run.py <property id>"""
import json
import os
import re
import signal
import subprocess
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)
LIMIT = int(os.environ.get("VERIF_LIMIT", "860"))


def fail(msg):
    print("ERROR: " + msg, flush=True)
    os._exit(3)


def on_alarm(*a):
    try:
        os.killpg(0, signal.SIGTERM) if os.getpgrp() == os.getpid() else None
    except Exception:
        pass
    fail("time limit reached")


def known_findings():
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("KNOWN-FINDING:"):
                m = re.match(r"KNOWN-FINDING: property=(\S+) unit=(\S+) obligation=\"([^\"]*)\" (.*)", l)
                if m:
                    out.append(m.groups())
    return out


def proved_functions():
    """functions whose contract is proved by some check"""
    p = os.path.join(ROOT, "contracts", "proved.txt")
    return {l.rstrip("\n").split("\t")[1]: l.split("\t")[0].split(",") for l in open(p)} if os.path.exists(p) else {}


def try_replay(pid, fails):
    """search the failed obligations' counterexamples for one the real code reproduces"""
    from engine.replay import Build
    B = Build()
    tried = []
    try:
        for f in fails:
            for o in f["failed"]:
                r = o.get("replay")
                if not r:
                    continue
                try:
                    if r["driver"] == "script":
                        rc, out = B.script(r["script"])
                        got = "rc=%s out=%s" % (rc, out)
                        bad = not (rc == r.get("rc", 0) and out == r["expect"])
                    else:
                        ls = r.get("lines") or [(r["line"], r["expect"])]
                        rc, out, err = B.run(r["driver"] + ".cpp", stdin="".join(l + "\n" for l, e in ls))
                        outs = out.split("\n")
                        got, bad = "as required", False
                        for i, (line, expect) in enumerate(ls):
                            x = outs[i].strip() if i + 1 < len(outs) else "crash rc=%s" % rc
                            if x != expect:
                                got, bad, r = x, True, dict(driver=r["driver"], line=line, expect=expect)
                                break
                except Exception as e:
                    tried.append(dict(replay=r, problem=repr(e)))
                    continue
                tried.append(dict(replay=r, got=got))
                if bad:
                    return dict(unit=f["unit"], obligation=o["label"], input=r, observed=got), tried
                if len(tried) > 40:
                    return None, tried
        # concrete inputs and programs that exercise the property end to end
        from contracts import cases
        for driver, lines in cases.for_property(pid):
            rc, out, err = B.run(driver + ".cpp", stdin="".join(l + "\n" for l, e in lines), timeout=30)
            outs = out.split("\n")
            for i, (line, expect) in enumerate(lines):
                x = outs[i].strip() if i + 1 < len(outs) else "crash rc=%s" % rc
                if x != expect:
                    return dict(driver=driver, input=line, expected=expect, observed=x), tried
        from contracts import scripts
        for name, text, expect, rc0 in scripts.for_property(pid):
            rc, out = B.script(text)
            if out != expect or rc != rc0:
                return dict(program=text, name=name, expected=expect, expected_rc=rc0, observed=out[-2000:], observed_rc=rc), tried
    finally:
        B.close()
    return None, tried


def main():
    pid = sys.argv[1]
    verbose = "-v" in sys.argv
    t0 = time.time()
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(LIMIT)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ev = os.path.join(ROOT, "evidence")
    os.makedirs(ev, exist_ok=True)
    evf = os.path.join(ev, pid + ".json")
    if os.path.exists(evf):
        os.unlink(evf)
    import z3
    from engine.program import Program, BuildError
    from engine import verify
    from contracts import registry, scripts, cases      # a broken table must not show only when a replay is needed
    try:
        P = Program(extra=registry.EXTRA.get(pid, ()))
    except BuildError as e:
        fail("source does not compile: %s" % e)
    prop = registry.PROPS[pid]
    only = os.environ.get("VERIF_ONLY")
    internal, units = prop(P)
    if only:
        units = [u for u in units if re.search(only, u.name)]
        internal = [u for u in internal if not only.startswith("=")]
    names = [u.name for u in units]
    if len(set(names)) != len(names):
        fail("duplicate unit names")
    contracts = {}
    ires = []
    dropped = []
    if internal:
        ires = verify.run_pool(P, internal, {}, verbose=verbose)
        good = {}
        for u, r in zip(internal, ires):
            good.setdefault(u.provides[0], []).append(r["status"] == "ok")
        for u in internal:
            sym, apply = u.provides
            if all(good[sym]):
                contracts[sym] = apply
            elif sym not in dropped:
                dropped.append(sym)
    res = verify.run_pool(P, units, contracts, verbose=verbose)
    if contracts:
        # a helper contract that is too weak for a caller must not decide: retry with the callee's own body
        again = [u for u, r in zip(units, res) if r["status"] != "ok" and r.get("contracts")]
        if again:
            res2 = {r["unit"]: r for r in verify.run_pool(P, again, {}, verbose=verbose)}
            for i, r in enumerate(res):
                r2 = res2.get(r["unit"])
                if r2 is not None and (r2["status"] == "ok" or r["status"] == "error"):
                    res[i] = r2
    findings = known_findings()
    notes = []
    fails, errors = [], []
    for r in res:
        if r["status"] == "failed":
            keep = []
            for o in r["failed"]:
                k = [f for f in findings if f[0] == pid and re.fullmatch(f[1], r["unit"]) and re.fullmatch(f[2], o["label"])]
                if k:
                    notes.append((pid, k[0][3]))
                else:
                    keep.append(o)
            r["known"] = len(r["failed"]) - len(keep)
            r["failed"] = keep
            if keep:
                fails.append(r)
        if r["status"] == "error":
            errors.append(r)
    for p, w in sorted(set(notes)):
        print("KNOWN-FINDING: property=%s %s" % (p, w))
    proved = [r for r in res if r["status"] == "ok" and not r.get("bounded")]
    allr = [r for r in ires if r["status"] == "ok"] + res
    n = sum(r.get("n", 0) for r in allr if not r.get("bounded"))
    nfail = sum(len(r.get("failed", [])) + len(r.get("unknown", [])) + r.get("known", 0) for r in res if not r.get("bounded"))
    backends = {}
    for r in allr:
        for k, v in r.get("backends", {}).items():
            backends[k] = backends.get(k, 0) + v
    dem = lambda s: P.demangle(s)
    verdict = "violation" if fails else "error" if errors else "held"
    rp = None
    hit = None
    if errors and not fails:
        # the verifier could not decide: a bounded run of the property's programs may still show a concrete violation
        try:
            hit, tried = try_replay(pid, [])
        except Exception:
            hit = None
        if hit:
            rp = os.path.join(ev, "replay-%s.json" % pid)
            with open(rp, "w") as f:
                json.dump(dict(property=pid, counterexample=hit, bounded="fixed programs, run because the verifier could not decide",
                               undecided=[dict(unit=r["unit"], error=r.get("error")) for r in errors]), f, indent=1)
    if fails:
        rp = os.path.join(ev, "replay-%s.json" % pid)
        try:
            hit, tried = try_replay(pid, fails)
        except Exception as e:
            hit, tried = None, [dict(problem=traceback.format_exc()[-1500:])]
        with open(rp, "w") as f:
            json.dump(dict(property=pid, counterexample=hit, tried=tried,
                           failed=[dict(unit=r["unit"], function=r["fn"], obligations=r["failed"]) for r in fails]), f, indent=1)
    from engine import trusted
    elsewhere = proved_functions()
    here = {dem(f) for r in allr for f in r.get("functions", [])}
    used = sorted({dem(f) for r in allr for f in r.get("contracts", [])})
    evidence = dict(
        property=pid, tier=tier, seed=seed, level="proof",
        coverage=dict(
            obligations=n, discharged=max(0, n - nfail),
            checker_cmd="python3-vt /verif/checks/run.py %s" % pid,
            trusted_base=trusted.BASE,
            back_ends=backends,
            solver_seconds=round(sum(r.get("solver_s", 0) for r in allr), 2),
            functions_under_contract=sorted({dem(f) for r in allr for f in r.get("functions", [])}),
            units=[dict(name=r["unit"], case=r.get("case", ""), status=r["status"], obligations=r.get("n", 0), paths=r.get("paths", 0),
                        seconds=round(r.get("t", 0), 2), bounded=r.get("bounded"), loops_by_invariant=r.get("loops_cut", 0),
                        loop_obligations=r.get("loop_obligations", 0)) for r in allr],
            loop_invariant_obligations=sum(r.get("loop_obligations", 0) for r in allr),
            reachability_checks=sum(r.get("covers", 0) for r in allr),
            contracts_used_at_calls=used,
            contracts_proved_by=dict((f, [pid] if f in here else elsewhere[f]) for f in used if f in here or f in elsewhere),
            contracts_assumed=[f for f in used if f not in here and f not in elsewhere],
            bodies_verified_in_place=len({f for r in allr for f in r.get("inlined", [])}),
            bodies_in_place=sorted({dem(f) for r in allr for f in r.get("inlined", [])})[:400],
            library_models=sorted({dem(f) for r in allr for f in r.get("models", [])})[:400],
            helper_contracts_not_relied_on=[dem(s) for s in dropped],
            source_files=P.nfiles,
            bounded=[dict(unit=r["unit"], bound=r["bounded"]) for r in res if r.get("bounded")],
            bounds=sorted({b for r in allr for b in r.get("bounds", [])}),
        ),
        assumptions=sorted(set(trusted.ASSUMPTIONS) | {a for r in allr for a in r.get("assumptions", [])}
                           | {"contract of %s (proved by no check)" % f for f in used if f not in here and f not in elsewhere}),
        violations=sum(len(r["failed"]) for r in fails) + (1 if hit and not fails else 0),
        violated=[dict(unit=r["unit"], obligation=o["label"], where=o["where"]) for r in fails for o in r["failed"]],
        errors=[dict(unit=r["unit"], error=r.get("error")) for r in errors],
        wall_s=round(time.time() - t0, 2))
    with open(evf, "w") as f:
        json.dump(evidence, f, indent=1)
    if fails:
        for r in fails:
            for o in r["failed"][:3]:
                print("FAILED %s: %s (%s)" % (r["unit"], o["label"], o["where"]))
                if verbose:
                    print("    inputs", o.get("inputs"))
                    print("    cond", o.get("cond"))
        tail = "" if hit else " no-failing-input-found"
        print("VIOLATION property=%s replay=%s%s" % (pid, rp, tail), flush=True)
        sys.exit(1)
    if errors:
        for r in errors:
            print("ERROR in %s: %s" % (r["unit"], r.get("error")))
            if verbose and r.get("trace"):
                print(r["trace"])
        if hit:
            print("VIOLATION property=%s replay=%s" % (pid, rp), flush=True)
            sys.exit(1)
        sys.exit(3)
    print("OK property=%s: %d obligations discharged in %d units (%s), %.1f s" % (pid, n, len(allr), ", ".join(
        "%s %d" % kv for kv in sorted(backends.items())), time.time() - t0))
    sys.exit(0)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException as e:
        traceback.print_exc()
        fail(repr(e))
