"""Contract run: the stated contracts evaluated on the real, imported code for
generated inputs (cross-check of the proofs, source of replays, stand-in)."""
import argparse
import importlib
import json
import os
import random
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
SRC = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src")
sys.path.insert(0, SRC)
warnings.simplefilter("ignore")

_groups = {}


def group(prop, name, cases=40, thorough=None):
    """@group('C01','waves', cases=60): fn(h) runs one generated case using h.rng"""
    def deco(fn):
        _groups.setdefault(prop, []).append((name, fn, cases, thorough or cases * 8))
        return fn
    return deco


class Case:
    def __init__(self, H, name, idx, seed):
        self.H, self.group, self.idx = H, name, idx
        self.rng = random.Random("%s/%s/%d/%d" % (H.prop, name, seed, idx))
        self.desc = {}
        import numpy as np
        self.np = np
        self.nprng = np.random.default_rng(self.rng.getrandbits(32))

    def note(self, **kw):
        self.desc.update(kw)

    def check(self, ok, name, detail=""):
        self.H.nchecks += 1
        try:
            ok = bool(ok)
        except Exception as e:
            ok, detail = False, "%s (%s)" % (detail, e)
        if not ok:
            self.H.fail(self, name, detail)
        return ok

    def close(self, a, b, name, rtol=1e-7, atol=1e-10, detail=""):
        np = self.np
        try:
            x, y = np.asarray(a), np.asarray(b)
            if x.shape != y.shape and x.size != 1 and y.size != 1:
                return self.check(False, name, "shapes %s and %s %s" % (x.shape, y.shape, detail))
            with np.errstate(all="ignore"):
                sc = max(float(np.nanmax(np.abs(y))) if y.size else 0.0, 0.0)
                ok = bool(np.all(np.isclose(x, y, rtol=rtol, atol=atol if atol else 0, equal_nan=True)))
            if ok:
                self.H.nchecks += 1
                return True
            bad = np.argwhere(~np.isclose(x, y, rtol=rtol, atol=atol, equal_nan=True))
            i = tuple(bad[0]) if len(bad) else ()
            bx, by = np.broadcast_arrays(x, y)
            return self.check(False, name, "%s: got %r expected %r at %s %s" % (name, bx[i] if bx.ndim else x[()], by[i] if by.ndim else y[()], tuple(int(q) for q in i), detail))
        except Exception as e:
            return self.check(False, name, "%s: %r vs %r (%s) %s" % (name, a, b, e, detail))

    def raises(self, exc, fn, name, detail=""):
        try:
            fn()
        except exc:
            self.H.nchecks += 1
            return True
        except Exception as e:
            return self.check(False, name, "raised %s instead: %s %s" % (type(e).__name__, e, detail))
        return self.check(False, name, "did not raise %s" % detail)


class Harness:
    def __init__(self, prop, seed):
        self.prop, self.seed = prop, seed
        self.nchecks = 0
        self.cases = 0
        self.failures = []
        self.samples = []
        self.distinct = set()

    def fail(self, case, name, detail):
        self.failures.append({"case": case.idx, "group": case.group, "check": name, "detail": str(detail)[:1500], "input": {k: str(v)[:600] for k, v in case.desc.items()}})


class Skip(Exception):
    """generated input outside the property's domain"""


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--case", type=int)
    ap.add_argument("--group")
    ap.add_argument("--out")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    sys.modules["vk.concrete"] = sys.modules["__main__"]
    H = Harness(a.prop, a.seed)
    err = None
    try:
        importlib.import_module("props." + a.prop.lower() + "_run")
    except ModuleNotFoundError as e:
        if "props." not in str(e):
            H.failures.append({"case": 0, "group": "import", "check": "import", "input": {}, "detail": "importing the module fails: %s" % e})
    except Exception as e:
        H.failures.append({"case": 0, "group": "import", "check": "import", "input": {}, "detail": "importing the module fails: %s" % traceback.format_exc()[-800:]})
    budget = float(os.environ.get("VERIF_CONC_BUDGET", "150" if a.tier == "quick" else "1500"))
    gs = [g for g in _groups.get(a.prop, []) if not a.group or g[0] == a.group]
    t0 = time.time()
    for gi, (name, fn, n, nt) in enumerate(gs):
        tot = n if a.tier == "quick" else nt
        end = t0 + budget * (gi + 1) / len(gs)
        nf = 0
        for idx in ([a.case] if a.case is not None else range(tot)):
            if time.time() > end and idx > 3:
                break
            c = Case(H, name, idx, a.seed)
            try:
                fn(c)
            except Skip:
                continue
            except Exception as e:
                H.fail(c, name + ":exception", "%s: %s | %s" % (type(e).__name__, e, traceback.format_exc(limit=-3)[-700:]))
            H.cases += 1
            key = json.dumps({k: str(v) for k, v in c.desc.items()}, sort_keys=True)
            if c.desc:
                H.distinct.add(key)
                if len(H.samples) < 5 and idx < 2:
                    H.samples.append({"group": name, "case": idx, **{k: str(v)[:300] for k, v in c.desc.items()}})
            nf = len([f for f in H.failures if f["group"] == name])
            if nf > 12:
                break
        if a.v:
            print(name, "failures", nf, "%.1fs" % (time.time() - t0))
    res = {"failures": H.failures, "cases": H.cases, "checks": H.nchecks, "distinct": len(H.distinct), "samples": H.samples, "error": err}
    if a.out:
        json.dump(res, open(a.out, "w"), default=str)
    if a.v or not a.out:
        for f in H.failures[:20]:
            print(f)
        print("cases", H.cases, "checks", H.nchecks, "distinct", len(H.distinct), "failures", len(H.failures), "%.1fs" % (time.time() - t0))


if __name__ == "__main__":
    main()
