"""Check driver:  check <property> [--tier quick|thorough] [--replay file]"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)


def load_known(prop):
    p = os.path.join(ROOT, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                out.append(line[len("known: property=%s " % prop):])
    return out


def child(prop, name, tier, q, patience=1.0):
    from dv import smt
    smt.PATIENCE = patience
    try:
        os.setpgid(0, 0)
        importlib.import_module("props." + prop.lower())
        from vk import kit
        u = next(u for u in kit.units_of(prop) if u.name == name)
        r = kit.run_unit(u, tier)
    except BaseException as e:  # noqa
        import traceback
        r = {"unit": name, "error": "crash %s: %s" % (type(e).__name__, e), "trace": traceback.format_exc()[-2000:], "obligations": [],
             "paths": 0, "entered": {}, "assumed": [], "wall": 0, "functions": [], "bounded": None, "loops": {}, "vacuous": False}
    with open(q, "w") as f:
        json.dump(r, f, default=str)


def run_units(prop, tier, workers, tmp, only=None, patience=1.0, until=None):
    importlib.import_module("props." + prop.lower())
    from vk import kit
    us = [u for u in kit.units_of(prop) if (tier == "thorough" or u.tier == "quick") and (only is None or u.name in only)]
    ctx = mp.get_context("fork")
    pend = list(us)
    running = []
    results = {}
    factor = 3 if tier == "thorough" else 1
    while pend or running:
        while pend and len(running) < workers:
            u = pend.pop(0)
            q = os.path.join(tmp, "u%d_%d.json" % (len(results), patience * 10) + u.name.replace("/", "_"))
            p = ctx.Process(target=child, args=(prop, u.name, tier, q, patience))
            p.start()
            running.append((u, p, q, time.time()))
        time.sleep(0.05)
        still = []
        for u, p, q, t in running:
            lim = u.timeout * factor * patience + 40
            if until is not None:
                lim = min(lim, until - t)
            if p.is_alive() and time.time() - t > lim:
                p.kill()
                p.join()
                results[u.name] = {"unit": u.name, "error": "time limit %ds" % lim, "obligations": [], "paths": 0, "entered": {}, "assumed": [],
                                   "wall": lim, "functions": u.functions, "bounded": u.bounded, "loops": {}, "vacuous": False}
            elif not p.is_alive():
                p.join()
                try:
                    results[u.name] = json.load(open(q))
                except Exception:
                    results[u.name] = {"unit": u.name, "error": "no result (exit %s)" % p.exitcode, "obligations": [], "paths": 0, "entered": {},
                                       "assumed": [], "wall": 0, "functions": u.functions, "bounded": u.bounded, "loops": {}, "vacuous": False}
            else:
                still.append((u, p, q, t))
        running = still
    return [results[u.name] for u in us]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--unit")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop = a.prop
    os.environ["VERIF_TIER"] = a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    if a.unit:
        importlib.import_module("props." + prop.lower())
        from vk import kit
        for u in kit.units_of(prop):
            if u.name == a.unit or a.unit == "all":
                r = kit.run_unit(u, a.tier)
                show(r, a.v)
        return 0
    tmp = tempfile.mkdtemp(prefix="verif_")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", NUMBA_CACHE_DIR=os.path.join(tmp, "numba"), MPLBACKEND="Agg",
               VERIF_SEED=str(seed), VERIF_TIER=a.tier, PYTHONPATH=ROOT, OMP_NUM_THREADS="1", HOME=tmp, PYTHONWARNINGS="ignore")
    try:
        if a.replay:
            rp = json.load(open(a.replay))
            if rp.get("kind") != "concrete":
                print(json.dumps(rp, indent=1)[:6000])
                return 1
            r = subprocess.run([sys.executable, "-m", "vk.concrete", prop, "--case", str(rp["case"]), "--seed", str(rp["seed"]), "--group", rp["group"],
                                "--out", os.path.join(tmp, "c.json")], cwd=ROOT, env=env)
            res = json.load(open(os.path.join(tmp, "c.json")))
            for f in res["failures"]:
                print("REPRODUCED %s: %s" % (f["check"], f["detail"]))
            return 1 if res["failures"] else 0
        cp = subprocess.Popen([sys.executable, "-m", "vk.concrete", prop, "--seed", str(seed), "--tier", a.tier, "--out", os.path.join(tmp, "c.json")],
                              cwd=ROOT, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        units = run_units(prop, a.tier, 7, tmp)
        try:
            out, _ = cp.communicate(timeout=600 if a.tier == "quick" else 3600)
        except subprocess.TimeoutExpired:
            cp.kill()
            out = b"timeout"
        try:
            conc = json.load(open(os.path.join(tmp, "c.json")))
        except Exception:
            conc = {"error": "concrete harness: " + out.decode(errors="replace")[-1500:], "failures": [], "cases": 0, "distinct": 0, "samples": [], "checks": 0}
        known = load_known(prop)
        bad = [r["unit"] for r in units if unit_bad(r, known)]
        slow = [r["unit"] for r in units if out_of_time(r, known)]
        if bad and slow == bad and not new_failures(prop, conc) and time.time() - t0 < 450:
            # nothing is refuted: the solver ran out of time.  Again, with more of it and less load
            again = run_units(prop, a.tier, 4, tmp, slow, 3.0, time.time() + 300)
            again = {r["unit"]: r for r in again}
            units = [again[r["unit"]] if r["unit"] in again and not unit_bad(again[r["unit"]], known) else r for r in units]
            bad = [r["unit"] for r in units if unit_bad(r, known)]
        if bad and not new_failures(prop, conc):
            # an obligation is not discharged: look harder for a failing input on the real code
            for r in units:
                if unit_bad(r, known):
                    show(r, a.v)
            print("obligations not discharged in %s: searching a failing input" % ", ".join(bad))
            out2 = os.path.join(tmp, "c2.json")
            left = max(60, min(300, 800 - (time.time() - t0)))
            try:
                subprocess.run([sys.executable, "-m", "vk.concrete", prop, "--seed", str(seed + 1000), "--tier", "search", "--out", out2],
                               cwd=ROOT, env=dict(env, VERIF_CONC_BUDGET=str(left - 20)), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=left)
                c2 = json.load(open(out2))
                for f in c2["failures"]:
                    f["seed"] = seed + 1000
                conc["failures"] += c2["failures"]
                conc["cases"] += c2["cases"]
                conc["checks"] += c2["checks"]
                conc["distinct"] += c2["distinct"]
            except Exception:
                pass
        return verdict(prop, a.tier, seed, units, conc, t0, a.v)
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)


def show(r, verbose=False):
    ob = r["obligations"]
    print("unit %-42s paths %3d obligations %3d proved %3d  %.1fs %s%s" % (
        r["unit"], r["paths"], len(ob), sum(o["status"] == "proved" for o in ob), r["wall"], "BOUNDED(%s) " % r["bounded"] if r.get("bounded") else "",
        "VACUOUS" if r.get("vacuous") else ""))
    if r.get("error"):
        print("   error:", r["error"])
        if verbose and r.get("trace"):
            print(r["trace"])
    for o in ob:
        if o["status"] != "proved":
            print("   %s %s [%s] %s" % (o["status"].upper(), o["name"], o["backend"], o.get("detail", "")[:400]))
            if verbose:
                print("      goal", o.get("goal"))
                for h in o.get("hyps", []):
                    print("      hyp ", h)
                print("      cex ", o.get("counterexample"))


def slug(x):
    return x.replace(" ", "_")


def ob_known(r, o, known):
    key = "obligation=" + slug(r["unit"] + "/" + o["name"])
    return [k for k in known if k.split(" ", 1)[0] == key]


def unit_bad(r, known=()):
    return bool(r.get("error") or r.get("vacuous") or not r["obligations"] or missing(r)
                or any(o["status"] != "proved" and not ob_known(r, o, known) for o in r["obligations"]))


def out_of_time(r, known=()):
    """not discharged, but nothing was refuted or outside the evaluator's reach either"""
    err = r.get("error")
    return unit_bad(r, known) and not r.get("vacuous") and not missing(r) and (not err or err.startswith("time limit")) \
        and all(o["status"] in ("proved", "unknown") for o in r["obligations"])


def missing(r):
    if r.get("error"):
        return []
    return [f for f in r["functions"] if f not in r.get("entered", {})]


def new_failures(prop, conc):
    known = load_known(prop)
    return [f for f in conc["failures"] if not any(k.split(" ", 1)[0] == "check=" + slug(f["check"]) for k in known)]


def verdict(prop, tier, seed, units, conc, t0, verbose):
    known = load_known(prop)
    fails = []
    undecided = []
    kn = []
    n_ob = n_ok = 0
    per_backend = {}
    functions = {}
    assumed = set()
    for r in units:
        if verbose:
            show(r)
        for o in r["obligations"]:
            n_ob += 1
            if o["status"] == "proved":
                n_ok += 1
                for b in str(o["backend"]).split("+"):
                    per_backend[b] = per_backend.get(b, 0) + 1
            elif ob_known(r, o, known):
                kn += ob_known(r, o, known)
            else:
                fails.append((r, o))
        why = r.get("error") or ("no obligations generated" if not r["obligations"] else None) or ("preconditions are unsatisfiable" if r.get("vacuous") else None)
        # a private helper may be inlined or renamed: then it is only reported as not reached
        public = [f for f in missing(r) if f.split(".")[-1].split(":")[-1].startswith("__") or not f.split(".")[-1].split(":")[-1].startswith("_")]
        if not why and public:
            why = "function under contract not reached: " + ", ".join(public)
        if why:
            fails.append((r, {"name": "obligations of this unit", "status": "not generated", "backend": "evaluator", "detail": why}))
        assumed |= set(r["assumed"])
        ok = not r.get("error") and not r.get("vacuous") and r["obligations"] and all(o["status"] == "proved" for o in r["obligations"])
        for f in r["functions"]:
            st = "proved" if ok and not r.get("bounded") else ("bounded: " + r["bounded"] if ok else "not proved")
            cur = functions.get(f)
            if cur is None or cur == "proved":
                functions[f] = st
            if f in missing(r):
                functions[f] = "not reached"
    if conc.get("error"):
        undecided.append(conc["error"])
    viol = []
    for f in conc["failures"]:
        text = "%s: %s" % (f["check"], f["detail"])
        hit = [k for k in known if k.split(" ", 1)[0] == "check=" + slug(f["check"])]
        if hit:
            kn.append(hit[0])
        else:
            viol.append(f)
    for k in sorted(set(kn)):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    code = 0
    line = None
    if viol or fails:
        code = 1
        rdir = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, prop + ".json")
        obl = [{"unit": r["unit"], "obligation": o["name"], "backend": o["backend"], "goal": o.get("goal"), "hypotheses": o.get("hyps"),
                "counterexample": o.get("counterexample"), "detail": o.get("detail")} for r, o in fails]
        if viol:
            v = viol[0]
            rep = {"kind": "concrete", "property": prop, "seed": v.get("seed", seed), "case": v["case"], "group": v["group"], "check": v["check"], "detail": v["detail"],
                   "input": v.get("input"), "failed_obligations": obl, "replay_cmd": "./check %s --replay %s" % (prop, path)}
            line = "VIOLATION property=%s replay=%s" % (prop, path)
        else:
            rep = {"kind": "obligation", "property": prop, "failed_obligations": obl, "note": "no failing input found by the contract run on the real code"}
            line = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path)
        json.dump(rep, open(path, "w"), indent=1, default=str)
        for r, o in fails[:6]:
            print("failed obligation: %s/%s (%s: %s) %s" % (r["unit"], o["name"], o["backend"], o["status"], str(o.get("detail", ""))[:300]))
        for v in viol[:6]:
            print("failing input: [%s case %s] %s: %s" % (v["group"], v["case"], v["check"], v["detail"][:300]))
    wall = time.time() - t0
    # cvc5 cross-check and solver statistics
    st = {"nf": 0, "smt": 0, "smt_time": 0.0, "queries": 0, "nf_time": 0.0}
    for r in units:
        for k in st:
            st[k] += (r.get("smt") or {}).get(k, 0)
    proved_units = [r["unit"] for r in units if not r.get("bounded") and not r.get("error") and not r.get("vacuous") and r["obligations"] and all(o["status"] == "proved" for o in r["obligations"])]
    bounded_units = [{"unit": r["unit"], "bound": r["bounded"]} for r in units if r.get("bounded")]
    level = "proof" if proved_units else "exploration"
    cov = {
        "obligations": n_ob, "discharged": n_ok, "by_backend": per_backend,
        "checker_cmd": "./check %s --tier %s" % (prop, tier),
        "trusted_base": ["dv evaluator (AST semantics of the Python subset, numpy/pandas/scipy contracts in dv/npshim.py and dv/libs.py)", "dv normal forms",
                         "z3 %s" % z3v()] + sorted(assumed),
        "functions_under_contract": functions,
        "units_proved": proved_units, "units_bounded": bounded_units,
        "solver": {k: round(v, 2) for k, v in st.items()},
        "cvc5_second_opinion": {k: sum((r.get("cvc5") or {}).get(k, 0) for r in units) for k in ("agrees", "no answer", "disagrees")},
        "obligation_list": [{"unit": r["unit"], "name": o["name"], "status": o["status"], "backend": o["backend"], "wall": o["wall"]} for r in units for o in r["obligations"]][:400],
        "loops": {k: v for r in units for k, v in (r.get("loops") or {}).items()},
        "paths": sum(r["paths"] for r in units),
        "undecided": undecided,
        "evaluations": conc["cases"], "distinct_nontrivial": conc["distinct"],
        "rule": "the same contract evaluated on the real module for generated inputs (%d individual checks); a case is distinct by its generated parameters" % conc.get("checks", 0),
        "samples": conc["samples"][:5] or ["none"],
        "explanation": "contracts on the real functions; obligations generated from /repo's current source by evaluating its AST symbolically; bounded units and the contract run are stand-ins and not counted as proved",
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": sorted(assumed) + ["machine arithmetic treated as exact real/complex arithmetic", "division is defined (denominators nonzero) outside guarded cases"],
          "wall_s": round(wall, 2), "violations": len(viol) + len(fails) if code else 0}
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1, default=str)
    for u in undecided:
        print("undecided:", u)
    print("%s: %d/%d obligations discharged in %d units, %d contract-run cases (%d checks), %.1fs" % (prop, n_ok, n_ob, len(units), conc["cases"], conc.get("checks", 0), wall))
    if code:
        print(line)
    elif n_ob == 0 and conc["cases"] == 0:
        print("nothing was checked")
        return 2
    elif conc.get("error") and not conc["cases"]:
        print(conc["error"])
        return 2
    return code


def z3v():
    try:
        from dv import smt
        return smt.z3.get_version_string()
    except Exception:
        return "?"


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
