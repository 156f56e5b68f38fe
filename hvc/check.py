"""Decide one property on the current source of /repo.

usage: python3 -m hvc.check PROPERTY        (run in /verif)

exit 0  every obligation discharged (or a labelled bounded stand-in was clean)
exit 1  VIOLATION property=<id> replay=<path> [no-failing-input-found]
exit 2  the check itself could not give an answer
"""
import concurrent.futures as cf
import hashlib
import json
import os
import subprocess
import sys
import time

from .reg import load_all

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("HVC_SRC", "/repo/src")
VT = "python3-vt"
PY = "/opt/venv/bin/python"

TRUSTED = [
    "hvc: the verification-condition generator (hvc/*.py), cross-checked by executing the same contracts under CPython",
    "CPython semantics of the executed source; the AST rewrite listed in hvc/load.py (displays, comprehensions, for-loops, stores)",
    "z3 5.3.2, cvc5 1.1.2 and sympy 1.14 as back ends",
]
ASSUME = [
    "binary floating point is treated as real arithmetic",
    "numpy, scipy.optimize, pandas and numpy-stl follow the contracts of hvc/shims.py",
    "loops, when executed on arbitrarily long collections, run sequentially and the collections are not mutated by aliases outside the program",
]


def env():
    e = dict(os.environ)
    e.update(
        PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1",
        OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
        NPY_DISABLE_CPU_FEATURES="X86_V4 AVX512_ICL AVX512_SPR",
    )
    e["PYTHONPATH"] = VERIF
    return e


def run(cmd, timeout, **extra):
    e = env()
    e.update(extra)
    try:
        p = subprocess.run(cmd, cwd=VERIF, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return {"timeout": True}
    for l in p.stdout.splitlines():
        if l.startswith("HVCJSON "):
            return json.loads(l[8:])
    return {"crash": (p.stderr or p.stdout)[-2000:], "code": p.returncode}


def prove(ct, tier, slow=1):
    cap = ct.opts.get("wall", 120) * (4 if tier == "thorough" else 1) * (1 if slow == 1 else 1.5) + 60
    return run([VT, "-m", "hvc.prove", ct.id], cap, HVC_SLOW=str(slow))


def conc(ct, seed, n, model=None, budget=60):
    cmd = [PY, "-m", "hvc.conc", ct.id, str(seed), str(n)]
    if model is not None:
        cmd.append(model)
    return run(cmd, budget + 90, HVC_CONC_BUDGET=str(budget))


def known_findings(prop):
    """lines `known: property=<id> contract=<id> obligation=<text> :: <what>`"""
    out = []
    with open(os.path.join(VERIF, "known-findings.txt")) as fh:
        for l in fh:
            l = l.strip()
            if l.startswith("known: "):
                head, what = l[7:].split(" :: ", 1)
                p, c, o = head.split(" ", 2)
                p, c, o = p.split("=", 1)[1], c.split("=", 1)[1], o.split("=", 1)[1]
                if p == prop:
                    out.append((c, o, what))
    return out


class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.violations = []
        self.known = []
        self.degraded = []
        self.errors = []

    def replay_file(self, payload):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        s = json.dumps(payload, indent=1, default=str)
        f = os.path.join(d, f"{self.prop}-{hashlib.sha1(s.encode()).hexdigest()[:10]}.json")
        with open(f, "w") as fh:
            fh.write(s)
        return f


def split_known(findings, ct, names):
    """names of failed clauses not covered by a listed finding"""
    rest, hits = [], []
    for n in names:
        for c, o, what in findings:
            if c == ct.id and o == n:
                hits.append(what)
                break
        else:
            rest.append(n)
    return rest, hits


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    reg = load_all()
    own = [c for c in reg.values() if prop in c.props]
    if not own:
        print(f"no contract for {prop}", file=sys.stderr)
        return 2
    rep = Report(prop, tier, seed)
    findings = known_findings(prop)
    nsamp = 30 if tier == "quick" else 300
    cbudget = 40 if tier == "quick" else 240
    proofs, samples = {}, {}
    jobs = {}
    pool = cf.ThreadPoolExecutor(max_workers=min(8, os.cpu_count() or 4))

    def submit(ct):
        if ct.mode == "proof":
            jobs[pool.submit(prove, ct, tier)] = ("p", ct)
        n = nsamp if ct.mode == "proof" else ct.opts.get("samples", nsamp) * (1 if tier == "quick" else 6)
        jobs[pool.submit(conc, ct, seed, n, None, ct.opts.get("cbudget", cbudget))] = ("c", ct)

    seen = set()
    # longest first
    for ct in sorted(own, key=lambda c: -c.opts.get("cost", 1)):
        seen.add(ct.id)
        submit(ct)
    while jobs:
        done, _ = cf.wait(list(jobs), return_when=cf.FIRST_COMPLETED)
        for f in done:
            kind, ct = jobs.pop(f)
            r = f.result()
            (proofs if kind == "p" else samples)[ct.id] = r
            if kind == "p":
                for u in r.get("used", ()):
                    if u in reg and u not in seen:
                        seen.add(u)
                        submit(reg[u])

    # solvers ran against the clock: give what timed out more of it
    again = [c for c, r in proofs.items()
             if not any((samples.get(c.id) or {}).get("fails") for c in own) and (
                 r.get("timeout") or r.get("budget") or (r.get("status") == "unknown" and not r.get("unsupported")))]
    for cid, f in [(c, pool.submit(prove, reg[c], tier, 3)) for c in again]:
        r = f.result()
        if r.get("status") in ("proved", "refuted"):
            proofs[cid] = r

    dep_bad = []
    for cid in sorted(seen):
        ct = reg[cid]
        mine = ct in own
        p, s = proofs.get(cid), samples.get(cid)
        if not mine:
            if p is not None and (p.get("status") != "proved" or (s or {}).get("fails")):
                dep_bad.append(cid)
            continue
        decide(rep, ct, p, s, findings, seed, tier)
    if dep_bad:
        for ct in own:
            p = proofs.get(ct.id) or {}
            if set(p.get("used", ())) & set(dep_bad):
                rep.degraded.append(f"{ct.id}: callee contract(s) {', '.join(sorted(set(p['used']) & set(dep_bad)))} not established")
                r = conc(ct, f"{seed}d", 200, None, 60)
                samples[ct.id + "+"] = r
                take_conc(rep, ct, r, findings, f"{seed}d")

    write_evidence(rep, reg, own, seen, proofs, samples, time.time() - t0)
    for w in sorted(set(rep.known)):
        print(f"KNOWN-FINDING: property={prop} {w}")
    for d in rep.degraded:
        print(f"note: bounded stand-in used: {d}")
    if rep.violations:
        seenl = set()
        # prefer reproduced failures
        for f, line in sorted(rep.violations, key=lambda v: v[1].endswith("found")):
            if line not in seenl and len(seenl) < 5:
                seenl.add(line)
                print(line)
        return 1
    if rep.errors:
        for e in rep.errors:
            print("error:", e, file=sys.stderr)
        return 2
    return 0


def take_conc(rep, ct, r, findings, seed, model=None, obligation=None, detail=None):
    """Fold a concrete run into the report; -> True if it failed."""
    bad = False
    for f in (r.get("fails") or []) + (r.get("errors") or []):
        names, hits = split_known(findings, ct, f["failed"])
        rep.known += hits
        if not names:
            continue
        bad = True
        path = rep.replay_file({
            "property": rep.prop, "contract": ct.id, "functions": ct.targets,
            "obligation": obligation or names[0], "failed": names, "inputs": f.get("inputs"),
            "trace": f.get("trace"), "seed": seed, "case": f.get("case"), "model": model,
            "verifier": detail,
            "reproduce": f"cd /verif && {PY} -m hvc.conc --replay <this file>",
        })
        rep.violations.append((path, f"VIOLATION property={rep.prop} replay={path}"))
        break
    return bad


def decide(rep, ct, p, s, findings, seed, tier):
    bad = False
    if s is None or s.get("crash") or s.get("timeout"):
        rep.errors.append(f"{ct.id}: concrete run failed: {json.dumps(s)[:1500]}")
    else:
        bad = take_conc(rep, ct, s, findings, seed)
        if s["ran"] == 0:
            rep.errors.append(f"{ct.id}: no generated input satisfied the precondition")
    if ct.mode != "proof":
        return
    st = p.get("status")
    if p.get("crash") or p.get("timeout") or st in (None, "error"):
        st = "unknown"
    if st == "vacuous":
        rep.errors.append(f"{ct.id}: no obligations were generated")
        return
    if st == "proved":
        return
    if bad:
        return
    tried = 0
    reported = False
    ref = [o for o in p.get("obligations", ()) if o["status"] == "refuted"]
    left = []
    for o in ref:
        if not split_known(findings, ct, [o["name"]])[0]:
            continue
        left.append(o)
    for o in left:
        if tried >= 4 or reported:
            break
        if o["model"] is None:
            continue
        tried += 1
        mf = rep.replay_file({**o["model"], "contract": ct.id, "obligation": o["name"]})
        r = conc(ct, seed, 6, mf, 20)
        os.unlink(mf)
        reported = take_conc(rep, ct, r, findings, seed, o["model"], o["name"], o)
    if not reported:
        r = conc(ct, f"{seed}d", 250 if tier == "quick" else 1000, None, 60)
        if r.get("crash") or r.get("timeout"):
            rep.errors.append(f"{ct.id}: concrete run failed")
            return
        reported = take_conc(rep, ct, r, findings, f"{seed}d", None, left[0]["name"] if left else None,
                             left[0] if left else None)
        exact = [o for o in left if o["exact"]]
        if not reported and exact:
            o = exact[0]
            path = rep.replay_file({
                "property": rep.prop, "contract": ct.id, "functions": ct.targets,
                "obligation": o["name"], "verifier": o,
            })
            rep.violations.append((path, f"VIOLATION property={rep.prop} replay={path} no-failing-input-found"))
            reported = True
        if not reported:
            why = p.get("unsupported") or [p.get("budget") or p.get("reason") or ""]
            und = [o["name"] for o in p.get("obligations", ()) if o["status"] != "proved"]
            if left or und or st != "refuted":
                rep.degraded.append(f"{ct.id}: {st}: {'; '.join(und[:3])} {' '.join(map(str, why))[:300]} "
                                    f"({r.get('ran', 0)} executions clean)")


def write_evidence(rep, reg, own, seen, proofs, samples, wall):
    obl = dis = 0
    back, fns, bounded, assumed = {}, set(), [], set(ASSUME)
    secs = 0.0
    details = []
    for cid in sorted(seen):
        ct = reg[cid]
        p = proofs.get(cid)
        if ct.mode != "proof":
            s = samples.get(cid) or {}
            bounded.append({"contract": cid, "functions": ct.targets, "executions": s.get("ran", 0),
                            "clauses_evaluated": s.get("checks", 0)})
            continue
        obs = (p or {}).get("obligations", ())
        good = 0
        for o in obs:
            obl += 1
            if o["status"] == "proved":
                dis += 1
                good += 1
                back[o["backend"]] = back.get(o["backend"], 0) + 1
        if p and p.get("status") == "proved":
            fns |= set(ct.targets)
        else:
            bounded.append({"contract": cid, "functions": ct.targets, "degraded": (p or {}).get("status", "crash"),
                            "executions": (samples.get(cid) or {}).get("ran", 0)})
        sv = (p or {}).get("solver") or {}
        secs += sum(v[1] if isinstance(v, list) else 0 for v in sv.values())
        assumed |= set((p or {}).get("assumed", ()))
        details.append({"contract": cid, "status": (p or {}).get("status"), "obligations": len(obs), "discharged": good,
                        "paths": (p or {}).get("paths"), "used_callee_contracts": (p or {}).get("used", []),
                        "source_sha": (p or {}).get("source"),
                        "cpython_executions": (samples.get(cid) or {}).get("ran", 0)})
    proofmode = any(c.mode == "proof" for c in own)
    ran = sum((s or {}).get("ran", 0) for s in samples.values())
    cov = {
        "cpython_executions": ran,
        "bounded_stand_ins": bounded,
    }
    if proofmode:
        cov.update({
            "obligations": obl, "discharged": dis,
            "checker_cmd": f"cd /verif && python3 -m hvc.check {rep.prop}",
            "trusted_base": TRUSTED,
            "functions_under_contract": sorted(fns),
            "back_ends": back, "solver_seconds": round(secs, 2),
            "contracts": details, "degraded": rep.degraded,
        })
        level = "proof"
    else:
        cov.update({
            "evaluations": ran,
            "distinct_nontrivial": sum((s or {}).get("distinct", 0) for s in samples.values()),
            "rule": "inputs drawn from VERIF_SEED by the contract's generators; non-trivial = the precondition held and at least one clause was evaluated; distinct by generated input values",
            "samples": [x for s in samples.values() for x in (s or {}).get("examples", [])][:3],
        })
        level = "exploration"
    ev = {
        "property": rep.prop, "tier": rep.tier, "seed": rep.seed, "level": level, "coverage": cov,
        "assumptions": sorted(assumed), "wall_s": round(wall, 2), "violations": len(rep.violations),
    }
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, rep.prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)


if __name__ == "__main__":
    sys.exit(main())
