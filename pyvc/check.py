"""Check context: obligations, concrete contract evaluation, violations, evidence."""
import json
import math
import os
import signal
import sys
import time
import traceback
import hashlib

import numpy as onp

from . import poly as pl
from .poly import Poly, P, Unsupported, ZERO

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Fail(Exception):
    """a contract clause is false on a concrete execution of the real code"""

    def __init__(self, msg, key=None, **data):
        Exception.__init__(self, msg)
        self.msg, self.key, self.data = msg, key, data


class NotProved(Unsupported):
    """the solver gives a counter-model of the obligation, and replaying it on the real code does not confirm it: reported as a
    violation without failing input unless the concrete layer finds one"""


class Skip(Exception):
    """the scenario does not apply (an anchor was renamed, a library cannot run the case)"""


def jsonable(x, depth=0):
    if isinstance(x, onp.ndarray):
        if x.size > 400:
            return {"shape": list(x.shape), "head": jsonable(x.ravel()[:40])}
        return jsonable(x.tolist(), depth + 1)
    if isinstance(x, (onp.floating, onp.integer, onp.bool_)):
        return x.item()
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in x]
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)[:400]


class CheckCtx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.obls = []               # dict(name, function, status, backend, s, detail)
        self.scen = {}               # scenario -> count
        self.skips = {}
        self.evals = 0
        self.nontrivial = set()
        self.samples = []
        self.violations = []
        self.knownhits = {}
        self.functions = set()
        self.trusted = set()
        self.assumptions = []
        self.bounded = []
        self.notes = []
        self.known = load_known(prop)
        self.replay_only = None
        self.escalate = False
        self.budget = float(os.environ.get("VERIF_BUDGET", "150" if tier == "quick" else "780"))

    @property
    def thorough(self):
        return self.tier == "thorough"

    def left(self):
        return self.budget - (time.time() - self.t0)

    # ------------------------------------------------------------------ deductive part
    def obligation(self, name, function, thunk, bounded=None, timeout=None):
        """thunk() -> None when discharged (may return the name of the back end); raises Refuted / Unsupported"""
        if self.replay_only is not None and self.replay_only != name:
            return True
        t = time.time()
        o = {"name": name, "function": function, "bounded": bounded}
        try:
            if timeout:
                def late(*a):
                    raise Unsupported(f"no answer in {timeout} s")
                signal.signal(signal.SIGALRM, late)
                signal.setitimer(signal.ITIMER_REAL, timeout)
            try:
                be = thunk()
            finally:
                if timeout:
                    signal.setitimer(signal.ITIMER_REAL, 0)
            o["status"], o["backend"] = "discharged", be or "normal-form"
        except Refuted as e:
            o["status"], o["detail"] = "refuted", str(e)[:2000]
            o["s"] = round(time.time() - t, 3)
            self.obls.append(o)
            self.functions.add(function)
            self.violation(name, "obligation refuted: " + str(e)[:1500], e.replay, found=e.replay is not None, key=e.key)
            return False
        except Skip as e:
            o["status"], o["detail"] = "undecided", "anchor not found: " + str(e)[:300]
        except NotProved as e:
            o["status"], o["detail"] = "failed", str(e)[:1500]
        except Unsupported as e:
            o["status"], o["detail"] = "undecided", "outside the verifier's subset: " + str(e)[:600]
        except RecursionError:
            o["status"], o["detail"] = "undecided", "outside the verifier's subset: recursion"
        except Exception as e:
            o["status"] = "undecided"
            tb = traceback.extract_tb(e.__traceback__)
            o["detail"] = "symbolic execution stopped: %s: %s at %s" % (
                type(e).__name__, str(e)[:300], "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-4:]))
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
        o["s"] = round(time.time() - t, 3)
        self.obls.append(o)
        self.functions.add(function)
        return o["status"] == "discharged"

    def undecided(self):
        return [o for o in self.obls if o["status"] in ("undecided", "failed")]

    # ------------------------------------------------------------------ concrete part
    def scenario(self, name, fn, n, key=None, weight=None):
        """run fn(rng) n times with derived seeds on the REAL code"""
        if self.replay_only is not None:
            if self.replay_only[0] != name:
                return
            seeds = [self.replay_only[1]]
        else:
            if self.escalate:
                n = 5 * n      # an obligation was not discharged: search harder for a failing input
            base = int(hashlib.sha256(f"{self.prop}/{name}/{self.seed}".encode()).hexdigest()[:8], 16)
            seeds = [(base + 7919 * k) % (2 ** 31) for k in range(n)]
        bad = 0
        for s in seeds:
            if self.left() < 0:
                self.notes.append(f"budget reached in {name}")
                break
            rng = onp.random.RandomState(s)
            onp.random.seed(s)
            try:
                desc = fn(rng)
            except Skip as e:
                self.skips[name] = self.skips.get(name, 0) + 1
                if len(self.notes) < 40:
                    self.notes.append(f"skip {name}: {str(e)[:160]}")
                continue
            except Fail as e:
                bad += 1
                self.evals += 1
                self.violation(name, e.msg, {"scenario": name, "case_seed": s, "data": jsonable(e.data)}, key=e.key or key)
                if bad >= 2:
                    break
                continue
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                inrepo = [f for f in tb if f.filename.startswith(REPO + "/")]
                last = tb[-1].filename
                mine = last.startswith(VERIF)
                if mine and isinstance(e, (AttributeError, TypeError, ImportError, KeyError)) and not inrepo:
                    self.skips[name] = self.skips.get(name, 0) + 1
                    self.notes.append(f"skip {name}: harness anchor: {type(e).__name__}: {str(e)[:160]}")
                    continue
                if inrepo:
                    bad += 1
                    f = inrepo[-1]
                    self.violation(name, f"{type(e).__name__}: {str(e)[:300]} raised in {os.path.relpath(f.filename, REPO)}:{f.name}"
                                   " on an input inside the precondition",
                                   {"scenario": name, "case_seed": s, "trace": traceback.format_exc()[-1500:]}, key=key)
                    if bad >= 2:
                        break
                    continue
                raise
            self.evals += 1
            self.scen[name] = self.scen.get(name, 0) + 1
            if desc is not None:
                self.nontrivial.add((name, str(desc)))
                if len([x for x in self.samples if x["scenario"] == name]) < 1 and len(self.samples) < 30:
                    self.samples.append({"scenario": name, "case_seed": s, "case": str(desc)[:300]})

    def violation(self, where, msg, replay, found=True, key=None):
        k = key or where
        if k in self.known:
            if k not in self.knownhits:
                self.knownhits[k] = msg
            return
        self.violations.append(dict(where=where, msg=msg, replay=replay, found=found))

    # ------------------------------------------------------------------ report
    def finish(self):
        if not self.violations:
            for o in self.obls:
                if o["status"] == "failed":
                    self.violation(o["name"], "obligation fails: " + o["detail"], {"obligation": o["name"], "verifier": o["detail"]}, found=False)
        for k, e in self.known.items():
            print(f"KNOWN-FINDING: property={self.prop} {e['what']}" + ("" if k in self.knownhits else " (listed; not exercised in this run)"))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        dis = [o for o in self.obls if o["status"] == "discharged"]
        unb = [o for o in self.obls if not o.get("bounded")]
        proved = [o for o in dis if not o.get("bounded")]
        be = {}
        for o in dis:
            be.setdefault(o["backend"], [0, 0.0])
            be[o["backend"]][0] += 1
            be[o["backend"]][1] += o["s"]
        cov = {
            "obligations": len(unb), "discharged": len(proved),
            "bounded_obligations": len(self.obls) - len(unb),
            "bounded_discharged": len(dis) - len(proved),
            "checker_cmd": f"VERIF_SEED={self.seed} VERIF_TIER={self.tier} bash /verif/check.sh {self.prop}",
            "trusted_base": sorted(self.trusted)[:200] or ["CPython", "numpy"],
            "functions_under_contract": sorted(self.functions),
            "backends": {k: {"obligations": v[0], "seconds": round(v[1], 3)} for k, v in be.items()},
            "obligation_list": [{k: o.get(k) for k in ("name", "function", "status", "backend", "s", "bounded", "detail") if o.get(k) is not None}
                                for o in self.obls],
            "evaluations": self.evals, "distinct_nontrivial": len(self.nontrivial),
            "rule": "concrete contract evaluation on the real code; a case is counted non-trivial when its generated "
                    "configuration (scenario, sizes, degenerate features) is distinct",
            "scenarios": self.scen, "skipped": self.skips, "samples": self.samples or ["no concrete case in this run"],
            "notes": self.notes[:60],
            "explanation": "deductive obligations generated from /repo's source on this run, plus run-time evaluation of the "
                           "same contracts on the real code (bounded, never counted as proved)",
        }
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": LEVEL.get(self.prop, "proof"), "coverage": cov,
              "assumptions": self.assumptions or ["machine floats are treated as reals in the deductive part"],
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print(f"{self.prop}: obligations {len(proved)}/{len(unb)} discharged (+{len(dis)-len(proved)}/{len(self.obls)-len(unb)} bounded), "
              f"{self.evals} concrete evaluations ({len(self.nontrivial)} distinct), {len(self.violations)} violation(s), "
              f"{time.time()-self.t0:.1f}s")
        for o in self.undecided():
            print(f"  undecided: {o['name']}: {o['detail'][:200]}")
        if os.environ.get("VERIF_DEBUG"):
            for n in self.notes:
                print("  note:", n)
        if self.violations:
            found = [v for v in self.violations if v["found"]] or self.violations
            v = found[0]
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            rp = os.path.join(d, self.prop + ".json")
            with open(rp, "w") as f:
                json.dump({"property": self.prop, "violations": [jsonable(x) for x in self.violations[:10]],
                           "how": f"bash /verif/check.sh {self.prop} --replay {rp}"}, f, indent=1)
            for x in self.violations[:8]:
                print(f"  {x['where']}: {x['msg'][:600]}")
            print(f"VIOLATION property={self.prop} replay={rp}" + ("" if v["found"] else " no-failing-input-found"))
            return 1
        if not self.obls and not self.evals:
            print("nothing was checked")
            return 2
        return 0


LEVEL = {}


class Refuted(Exception):
    def __init__(self, msg, replay=None, key=None):
        Exception.__init__(self, msg)
        self.replay, self.key = replay, key


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.jsonl")
    r = {}
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith("#") or l.startswith("fixed:"):
                continue
            e = json.loads(l)
            if e["property"] == prop and e.get("status", "open") == "open":
                r[e["key"]] = e
    return r


# ------------------------------------------------------------------ numeric refutation of equalities
class Fn:
    """deterministic pseudo-random real function of integer arguments (values of an uninterpreted array)"""

    def __init__(self, name, seed, lo=-1.0, hi=1.0, sym=None, ints=None):
        self.name, self.seed, self.lo, self.hi, self.sym, self.ints = name, seed, lo, hi, sym, ints

    def __call__(self, *t):
        if self.sym:
            t = list(t)
            for g in self.sym:
                for k, v in zip(g, sorted(t[k] for k in g)):
                    t[k] = v
        h = hashlib.md5(f"{self.name}/{self.seed}/{tuple(t)}".encode()).digest()
        u = int.from_bytes(h[:6], "big") / 2 ** 48
        if self.ints:
            return int(u * self.ints)
        return self.lo + (self.hi - self.lo) * u


def num_env(polys, seed, dims=None, ranges=None):
    """random values for all free names of the polys"""
    rng = onp.random.RandomState(seed)
    env, arrs = {}, {}
    names = set()
    for p in polys:
        names |= P(p).free()
    todo = list(names)
    while todo:
        n = todo.pop()
        if n in pl.RANGE:
            for x in pl.RANGE[n].free():
                if x not in names:
                    names.add(x)
                    todo.append(x)
    for n in sorted(names):
        if n.startswith("@"):
            nm = n[1:]
            lo, hi = (ranges or {}).get(nm, (-1.0, 1.0))
            arrs[nm] = Fn(nm, seed, lo, hi, pl.SYM.get(nm))
        elif n in pl.RANGE or n in env:
            continue
        elif n == "\u03c0":
            env[n] = math.pi
        elif dims and n in dims:
            env[n] = dims[n](rng)
        elif n in pl.INTS:
            env[n] = int(pl.LB.get(n, 0)) + rng.randint(0, 3)
        else:
            lo, hi = (ranges or {}).get(n, (0.3, 1.7))
            env[n] = rng.uniform(lo, hi)
    return rng, env, arrs, names


def prove_equal(lhs, rhs, what="", replay=None, dims=None, ranges=None, tries=6):
    """normal forms are equal, or numeric evaluation tells them apart (refuted), or undecided"""
    lhs, rhs = P(lhs), P(rhs)
    d = lhs - rhs
    if d == ZERO or pl.align_sums(d) == ZERO or pl.align_sums(d, True) == ZERO:
        return
    for s in range(tries):
        rng, env, arrs, names = num_env([lhs, rhs], 1000 + s, dims, ranges)
        for n in sorted(names):
            if n in pl.RANGE and not n.startswith("@"):
                try:
                    m = int(round(pl.evaluate(pl.RANGE[n], env, arrs)))
                except Exception:
                    continue
                if m <= 0:
                    break
                env[n] = int(rng.randint(0, m))
        try:
            a, b = pl.evaluate(lhs, env, arrs), pl.evaluate(rhs, env, arrs)
        except Exception as e:
            continue
        if abs(a - b) > 1e-7 * (1 + abs(a) + abs(b)):
            rp = None
            if replay is not None:
                rp = replay(env, arrs)
            raise Refuted(f"{what}: code gives {a!r}, contract requires {b!r} at {({k: v for k, v in env.items()})}; "
                          f"difference normal form: {pl.pretty(d)[:400]}", rp)
    raise Unsupported(f"{what}: normal forms differ but agree numerically: {pl.pretty(d)[:300]}")
