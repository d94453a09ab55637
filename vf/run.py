"""Check runner: explores every scenario of one property, decides, writes the
evidence file, prints VIOLATION / KNOWN-FINDING / UNDECIDED lines."""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import pickle
import random
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)

SCEN = {}


class Scenario:
    def __init__(self, prop, fn, functions, bound, sym, con, quick_s, conc_n,
                 note, timeout):
        self.timeout = timeout
        self.prop, self.fn, self.name = prop, fn, fn.__name__
        self.functions, self.bound = functions, bound
        self.sym, self.con = sym, con
        self.quick_s, self.conc_n, self.note = quick_s, conc_n, note


def scenario(prop, functions, bound=None, sym=True, con=True, quick_s=60,
             conc_n=60, note="", timeout=8000):
    """Register a contract.  bound: text if the symbolic run is bounded."""
    def d(fn):
        SCEN.setdefault(prop, []).append(Scenario(
            prop, fn, functions, bound, sym, con, quick_s, conc_n, note,
            timeout))
        return fn
    return d


# ------------------------------------------------------------ symbolic side
def new_report(name):
    return dict(name=name, paths=0, dead=0, obs={}, fails=[], unsup={},
                solver_s=0., queries=0, havoc=0, wall=0.)


def merge(rep, r):
    for k in ("paths", "dead", "solver_s", "queries", "havoc", "wall"):
        rep[k] += r[k]
    for k, v in r["unsup"].items():
        rep["unsup"][k] = rep["unsup"].get(k, 0) + v
    for lab, d in r["obs"].items():
        t = rep["obs"].setdefault(lab, dict(
            proved=0, failed=0, unknown=0, vacuous=0, backend={}, t=0.))
        for k in ("proved", "failed", "unknown", "vacuous", "t"):
            t[k] += d[k]
        for b, n in d["backend"].items():
            t["backend"][b] = t["backend"].get(b, 0) + n
    for f in r["fails"]:
        if len([g for g in rep["fails"] if g["label"] == f["label"]]) < 4:
            rep["fails"].append(f)
    return rep


def run_path(sc, prefix, deadline, verbose=False):
    """Execute one path.  Returns (report, new prefixes)."""
    import z3
    from . import engine as G
    from .ctx import SymCtx, extract
    from .terms import Unsupported
    warnings.simplefilter("ignore")
    t0 = time.time()
    rep = new_report(sc.name)
    eng = G.Eng(prefix, timeout=sc.timeout, deadline=deadline)
    G._cur[0] = eng
    cx = None
    try:
        cx = SymCtx(eng)
        sc.fn(cx)
    except G.PathEnd:
        pass
    except Unsupported as ex:
        rep["unsup"][str(ex)] = 1
        if verbose:
            traceback.print_exc()
    except RecursionError:
        rep["unsup"]["recursion"] = 1
    except (Exception, SystemExit) as ex:
        if verbose:
            traceback.print_exc()
        # an exception escaping the contract: the path must be infeasible
        tb = traceback.extract_tb(ex.__traceback__)
        own = [f for f in tb if "/qsonic/" in f.filename]
        vfin = tb[-1].filename if tb else ""
        where = (f"{os.path.basename(own[-1].filename)}:"
                 f"{own[-1].name}" if own else "contract")
        label = f"no-exception[{where}]"
        if "/vf/" in vfin and not isinstance(
                ex, (IndexError, ValueError, OSError)):
            # raised inside the shims: may be the shim's limitation
            rep["unsup"][f"{type(ex).__name__}: {ex}"[:160]] = 1
        else:
            try:
                st, m, _, _ = eng._prove1(z3.BoolVal(False), 5000)
                if st == "failed":
                    eng.obs.append(G.Ob(
                        label, "failed", m,
                        info=f"{type(ex).__name__}: {ex}"[:300]))
                elif st == "unknown":
                    eng.obs.append(G.Ob(label, "unknown", None, info=str(
                        ex)[:200]))
                else:
                    rep["dead"] += 1
                    eng.obs = []
            except Unsupported as ex2:
                rep["unsup"][str(ex2)] = 1
    rep["paths"] = 1
    tr = eng.trace
    new = []
    for i in range(len(tr)):
        if tr[i][1]:
            new.append([(b, s) for b, _, s in tr[:i]]
                       + [(False, tr[i][2])])
    # vacuity: the path must be feasible for its obligations to count
    live = True
    if eng.obs:
        try:
            live = eng.feasible()
        except Unsupported:
            live = True
    if not live:
        rep["dead"] += 1
    if eng.havoc:
        rep["havoc"] += 1
    for o in eng.obs:
        st = o.status
        if st == "failed" and eng.havoc:
            st = "unknown"
        d = rep["obs"].setdefault(
            o.label, dict(proved=0, failed=0, unknown=0, vacuous=0,
                          backend={}, t=0.))
        if not live:
            d["vacuous"] += 1
            continue
        d[st] += 1
        d["backend"][o.backend] = d["backend"].get(o.backend, 0) + 1
        d["t"] += o.t
        if st in ("failed", "unknown"):
            inp = None
            if o.model is not None and cx is not None:
                try:
                    inp = extract(o.model, cx.rec)
                except Exception:
                    inp = None
            if len([f for f in rep["fails"] if f["label"] == o.label]) < 4:
                rep["fails"].append(dict(
                    label=o.label, status=st, inputs=inp,
                    info=str(o.info)[:400],
                    decisions=[(b, s) for b, _, s in tr]))
    rep["solver_s"] = eng.solver_s
    rep["queries"] = eng.nq
    G._cur[0] = None
    rep["wall"] = time.time() - t0
    return rep, new


def run_symbolic(sc, budget, maxpaths=2000, verbose=False):
    """Explore all paths in this process (debugging)."""
    deadline = time.time() + budget
    stack = [[]]
    rep = new_report(sc.name)
    while stack:
        if time.time() > deadline or rep["paths"] >= maxpaths:
            rep["unsup"]["path budget exhausted"] = len(stack)
            break
        r, new = run_path(sc, stack.pop(), deadline, verbose)
        merge(rep, r)
        stack.extend(new)
    return rep


# ------------------------------------------------------------ concrete side
def run_concrete(sc, seed=0, model=None, tmpdir=None):
    """One concrete run.  ('ok', nchecks) | ('discard',) | ('fail', label,
    info, inputs)"""
    import numpy as np
    from .ctx import ConCtx, Discard, CheckFailed
    from .terms import Unsupported
    rnd = random.Random(seed)
    np.random.seed(seed % (2 ** 31))
    cx = ConCtx(rnd, model)
    try:
        with np.errstate(all="ignore"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                sc.fn(cx)
            except Discard:
                return ("discard",)
            except CheckFailed as ex:
                return ("fail", ex.label, ex.info, cx.inputs)
            except Unsupported as ex:
                return ("discard", str(ex))
            except (Exception, SystemExit) as ex:
                tb = traceback.extract_tb(ex.__traceback__)
                own = [f for f in tb if "/qsonic/" in f.filename]
                where = (f"{os.path.basename(own[-1].filename)}:"
                         f"{own[-1].name}" if own else "contract")
                return ("fail", f"no-exception[{where}]",
                        f"{type(ex).__name__}: {ex}"[:300] + "\n" + "".join(
                            traceback.format_exception(ex))[-1500:],
                        cx.inputs)
        return ("ok", cx.nchecks, cx.labels)
    finally:
        cx.cleanup()


def _job(args):
    prop, idx, kind, payload = args
    sc = SCEN[prop][idx]
    import logging
    logging.disable(logging.CRITICAL)
    sys.setrecursionlimit(20000)
    if os.environ.get("VF_DEBUG"):
        import faulthandler
        import signal
        faulthandler.register(signal.SIGUSR1, all_threads=True)
    try:
        if kind == "sym":
            return (idx, kind, run_path(sc, *payload))
        seed0, n, tlim = payload
        t0 = time.time()
        out = dict(runs=0, discard=0, checks=0, fails=[], labels={},
                   why={})
        for k in range(n):
            if time.time() - t0 > tlim:
                break
            r = run_concrete(sc, seed0 + k)
            if r[0] == "ok":
                out["runs"] += 1
                out["checks"] += r[1]
                for a, b in r[2].items():
                    out["labels"][a] = out["labels"].get(a, 0) + b
            elif r[0] == "discard":
                out["discard"] += 1
                if len(r) > 1:
                    out["why"][r[1]] = out["why"].get(r[1], 0) + 1
            else:
                if len(out["fails"]) < 3:
                    out["fails"].append(dict(
                        label=r[1], info=r[2], inputs=r[3], seed=seed0 + k))
                else:
                    break
        return (idx, kind, out)
    except BaseException as ex:
        return (idx, "error", f"{kind}: {type(ex).__name__}: {ex}\n"
                + traceback.format_exc()[-1500:])


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def known_findings(prop):
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("known:"):
                d = json.loads(ln[len("known:"):])
                if d["property"] == prop:
                    out.append(d)
    return out


def is_known(kf, scen, label, info):
    for d in kf:
        if d.get("scenario") == scen and d.get("label") == label and (
                d.get("info", "") in (info or "")):
            return d
    return None


def explore(prop, scs, res, tier, seed, scale, ncpu):
    """All paths of all scenarios (symbolic) and the concrete runs, on a
    process pool; one task per path."""
    import queue
    done = queue.Queue()
    con = []
    for i, sc in enumerate(scs):
        if sc.con:
            n = sc.conc_n * (1 if tier == "quick" else 20)
            parts = 2 if tier == "quick" else 6
            for p in range(parts):
                con.append((prop, i, "con", (
                    seed * 1000003 + p * 10007 + 7 * i,
                    max(1, n // parts), 25 * scale)))
    # one stack of open paths per scenario; budget = worker seconds
    stacks = {i: [[]] for i, sc in enumerate(scs) if sc.sym}
    budget = {i: scs[i].quick_s * scale for i in stacks}
    spent = {i: 0. for i in stacks}
    npaths = {i: 0 for i in stacks}
    out = {i: 0 for i in stacks}
    for i in stacks:
        res[i]["sym"] = new_report(scs[i].name)
    # Everything a worker or the unpickling of its results needs is imported
    # before the pool exists: a process forked by the pool's own thread while
    # another thread is in an import would wait for that import's lock for ever
    for m in ("z3", "numpy", "numpy.random", "numpy.ma", "scipy.interpolate",
              "scipy.optimize", "scipy.special", "healpy", "fitsio",
              "iminuit", "vf.engine", "vf.arr", "vf.symnp", "vf.symlist",
              "vf.sets", "vf.struct", "vf.shims", "vf.solver", "vf.loader",
              "vf.ctx", "vf.world", "tempfile", "traceback", "secrets",
              "multiprocessing.pool", "multiprocessing.queues",
              "multiprocessing.synchronize", "multiprocessing.popen_fork"):
        try:
            importlib.import_module(m)
        except ImportError:
            pass
    t0 = time.time()
    limit = t0 + (500 if tier == "quick" else 7200)
    with mp.get_context("fork").Pool(ncpu, maxtasksperchild=12) as pool:
        busy = 0

        def put(job):
            pool.apply_async(_job, (job,), callback=done.put,
                             error_callback=lambda e: done.put(
                                 (job[1], "error", repr(e))))
        while True:
            while busy < ncpu + 2:
                job = None
                # least-spent scenario first
                for i in sorted(stacks, key=lambda i: spent[i] + out[i]):
                    if not stacks[i]:
                        continue
                    if spent[i] > budget[i] or npaths[i] > 3000 * scale or \
                            time.time() > limit:
                        r = res[i]["sym"]["unsup"]
                        r["path budget exhausted"] = len(stacks[i])
                        stacks[i] = []
                        continue
                    job = (prop, i, "sym", (
                        stacks[i].pop(), time.time() + max(
                            20, min(120 * scale, budget[i]))))
                    out[i] += 1
                    break
                if job is None or (con and busy % 3 == 0):
                    if con:
                        if job is not None:
                            put(job)
                            busy += 1
                        job = con.pop(0)
                if job is None:
                    break
                put(job)
                busy += 1
            if busy == 0:
                break
            try:
                idx, kind, r = done.get(timeout=max(5, min(
                    240 * scale, limit + 150 - time.time())))
            except queue.Empty:
                for i in stacks:
                    if out[i]:
                        res[i]["err"].append("worker lost or too slow")
                break
            busy -= 1
            if kind == "sym":
                rep, new = r
                out[idx] -= 1
                npaths[idx] += 1
                spent[idx] += rep["wall"]
                merge(res[idx]["sym"], rep)
                stacks[idx].extend(new)
            elif kind == "con":
                res[idx]["con"].append(r)
                if r["fails"]:
                    # a violation is certain: finish soon
                    limit = min(limit, time.time() + (
                        40 if tier == "quick" else 600))
            else:
                res[idx]["err"].append(r)
                if idx in out and "sym:" in str(r):
                    out[idx] -= 1
        pool.terminate()


def check(prop, tier, seed):
    t0 = time.time()
    os.environ["VF_TIER"] = tier
    importlib.import_module(f"contracts.{prop.lower()}")
    scs = SCEN.get(prop, [])
    ncpu = min(8, os.cpu_count() or 4)
    scale = 1 if tier == "quick" else 6
    res = {i: dict(sym=None, con=[], err=[]) for i in range(len(scs))}
    explore(prop, scs, res, tier, seed, scale, ncpu)
    kf = known_findings(prop)
    viol, known, undecided = [], {}, []
    rdir = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    tot = dict(obligations=0, discharged=0, solver_s=0., queries=0, paths=0,
               conc_runs=0, conc_checks=0, b_obligations=0, b_discharged=0)
    funcs, bounded, perscen, backends = set(), [], [], {}

    def report(sc, label, info, inputs, how, found):
        d = is_known(kf, sc.name, label, info)
        if d is not None:
            known[json.dumps(d, sort_keys=True)] = d
            return
        h = hashlib.sha1(f"{prop}{sc.name}{label}".encode()).hexdigest()[:10]
        path = os.path.join(rdir, f"{prop}-{h}.json")
        with open(path, "w") as f:
            json.dump(jsonable(dict(
                property=prop, scenario=sc.name, obligation=label,
                functions=sc.functions, verifier_output=info, how=how,
                failing_input=inputs if found else None,
                candidate_input=None if found else inputs,
                replay_cmd=f"cd {ROOT} && ./check {prop} --replay {path}")),
                f, indent=1)
        viol.append((sc.name, label, path, found, info))

    for i, sc in enumerate(scs):
        r = res[i]
        funcs.update(sc.functions)
        ps = dict(scenario=sc.name, functions=sc.functions, bound=sc.bound)
        confail = {}
        cr = cc = 0
        for c in r["con"]:
            cr += c["runs"]
            cc += c["checks"]
            for f in c["fails"]:
                confail.setdefault(f["label"], f)
        tot["conc_runs"] += cr
        tot["conc_checks"] += cc
        ps["concrete_runs"], ps["concrete_checks"] = cr, cc
        ps["concrete_discarded"] = sum(c["discard"] for c in r["con"])
        for lab, f in confail.items():
            report(sc, lab, f["info"], f["inputs"],
                   f"random concrete input (seed {f['seed']}) on the real "
                   "code", True)
        nob = 0
        s = r["sym"]
        full = s is not None
        if s is not None:
            tot["solver_s"] += s["solver_s"]
            tot["queries"] += s["queries"]
            tot["paths"] += s["paths"]
            ps.update(paths=s["paths"], dead_paths=s["dead"],
                      solver_s=round(s["solver_s"], 2),
                      wall_s=round(s["wall"], 2), havoc_paths=s["havoc"])
            if s["unsup"]:
                full = False
                ps["unsupported"] = s["unsup"]
            obs = {}
            for lab, d in s["obs"].items():
                n = d["proved"] + d["failed"] + d["unknown"]
                nob += n
                pre = "b_" if sc.bound else ""
                tot[pre + "obligations"] += n
                tot[pre + "discharged"] += d["proved"]
                for b, k in d["backend"].items():
                    backends[b] = backends.get(b, 0) + k
                obs[lab] = {k: d[k] for k in (
                    "proved", "failed", "unknown", "vacuous")}
                if d["unknown"]:
                    full = False
            ps["obligations"] = obs
            if any(k.startswith("no-exception") for k in confail):
                confail_any = True
            done = set()
            for f in s["fails"]:
                if f["status"] != "failed":
                    full = False
                    if f["inputs"] is None:
                        continue
                if f["label"] in done or f["label"] in confail:
                    continue
                # replay the counterexample on the real code
                hit = None
                if f["inputs"] is not None:
                    rr = run_concrete(sc, 1, f["inputs"])
                    if rr[0] == "fail":
                        hit = rr
                    else:
                        f["replay"] = rr[0]
                if hit is None:
                    hit = search(sc, f, seed, 1 if viol else (
                        6 if f["status"] == "failed" else 2) * (
                            1 if tier == "quick" else 6))
                if hit is not None:
                    done.add(f["label"])
                    report(sc, hit[1], hit[2], hit[3],
                           "solver counterexample replayed on the real code",
                           True)
            for f in s["fails"]:
                if f["status"] == "failed" and f["label"] not in done and \
                        f["label"] not in confail:
                    done.add(f["label"])
                    report(sc, f["label"], "obligation not discharged: "
                           + f["info"], f["inputs"], "verifier only", False)
        else:
            full = False
        if s is not None and nob == 0 and not s["unsup"] and not r["err"]:
            report(sc, "obligations-generated",
                   "the scenario generated no obligation", None,
                   "verifier only", False)
        if r["err"]:
            ps["errors"] = r["err"]
            full = False
        if nob == 0 and cr == 0:
            # neither proof nor bounded check reached the code
            report(sc, "reached", "neither the verifier nor the bounded "
                   "stand-in could run: " + "; ".join(
                       r["err"] + list((s or {}).get("unsup", {}))
                       + [w for c in r["con"] for w in c["why"]])[:600],
                   None, "machinery", False)
        ps["level"] = ("proved" if full and not sc.bound else
                       "bounded: " + sc.bound if full else
                       "bounded: concrete inputs only for the undecided part"
                       )
        if not full and sc.sym:
            undecided.append((sc.name, "; ".join(
                list((s or {}).get("unsup", {}))
                + [f"{f['label']}:{f['status']}" for f in
                   (s or {}).get("fails", [])] + r["err"])[:300]))
        perscen.append(ps)
    if not scs:
        print(f"no scenarios for {prop}")
    seenv = set()
    for name, lab, path, found, info in viol:
        print(f"# {name}: {lab}: {str(info).splitlines()[0] if info else ''}")
    any_found = any(v[3] for v in viol)
    for name, lab, path, found, info in viol:
        if any_found and not found:
            continue
        tail = "" if found else " no-failing-input-found"
        print(f"VIOLATION property={prop} replay={path}{tail}")
    for d in known.values():
        print(f"KNOWN-FINDING: property={prop} {d['what']}")
    # findings listed but not hit on this run are printed all the same
    for d in kf:
        if json.dumps(d, sort_keys=True) not in known:
            print(f"KNOWN-FINDING: property={prop} {d['what']} "
                  "(listed; not reproduced by this run)")
    for n, why in undecided:
        print(f"UNDECIDED {prop}.{n}: {why}")
    mod = sys.modules[f"contracts.{prop.lower()}"]
    lev = getattr(mod, "LEVEL", "proof")
    ev = dict(
        property=prop, tier=tier, seed=seed, level=lev,
        coverage=dict(
            **({} if lev == "proof" else dict(explanation=(
                "Contracts on the real functions; their obligations are "
                "generated for every value of the data but for a stated "
                "number of ranks/rows/subsamples (see scenarios[].bound): "
                "bounded, not counted as proved."))),
            obligations=tot["obligations"], discharged=tot["discharged"],
            bounded_obligations=tot["b_obligations"],
            bounded_discharged=tot["b_discharged"],
            checker_cmd=f"./check {prop} --tier {tier}",
            trusted_base=TRUSTED + getattr(mod, "TRUSTED", []),
            functions_under_contract=sorted(funcs),
            backends=backends, solver_s=round(tot["solver_s"], 2),
            solver_queries=tot["queries"], paths=tot["paths"],
            concrete_runs=tot["conc_runs"],
            concrete_checks=tot["conc_checks"],
            scenarios=perscen,
            undecided=[f"{a}: {b}" for a, b in undecided]),
        assumptions=ASSUME + getattr(mod, "ASSUME", []),
        wall_s=round(time.time() - t0, 2),
        violations=len(viol))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(jsonable(ev), f, indent=1)
    print(f"{prop} [{tier}]: {tot['discharged']}/{tot['obligations']} "
          f"obligations discharged (+ {tot['b_discharged']}/"
          f"{tot['b_obligations']} within a bound) on {tot['paths']} paths, "
          f"{tot['conc_runs']} concrete runs, {len(viol)} violations, "
          f"{time.time() - t0:.1f} s")
    return 1 if viol else 0


def search(sc, f, seed, tlim):
    """Random search around a failed obligation (same choices/lengths)."""
    t0 = time.time()
    k = 0
    inp = f["inputs"] or {}
    import numpy as np
    while time.time() - t0 < tlim:
        k += 1
        mode = k % 3
        model = None
        if mode == 0 and inp:
            model = {a: b for a, b in inp.items()
                     if isinstance(b, (int, bool))}
        elif mode == 1 and inp:
            model = {a: b for a, b in inp.items()
                     if isinstance(b, (int, bool, float))}
        r = run_concrete(sc, seed * 7919 + k, model)
        if r[0] == "fail":
            return r
    return None


TRUSTED = [
    "z3 5.3.2 / cvc5 (solvers)",
    "vf engine: path enumeration, loop rule, and the numpy shim's meaning of "
    "each array operation (cross-checked against real numpy by running every "
    "contract concretely)",
    "CPython executing the repository's own source text",
]
ASSUME = [
    "float64 arithmetic treated as real arithmetic; NaN and +-inf are one "
    "'not a number' state",
    "numba.njit treated as the identity (the decorated Python source is what "
    "is verified)",
]


def replay(prop, path):
    importlib.import_module(f"contracts.{prop.lower()}")
    import numpy as np
    with open(path) as f:
        d = json.load(f)
    sc = [s for s in SCEN[prop] if s.name == d["scenario"]][0]
    inp = d.get("failing_input") or d.get("candidate_input")
    if not inp:
        print("no input recorded; obligation:", d["obligation"])
        print(d["verifier_output"])
        return 1
    m = {k: (np.array(v) if isinstance(v, list) and not (
        len(v) == 2 and isinstance(v[0], list) and not isinstance(v[1], list)
        ) else v) for k, v in inp.items()}
    r = run_concrete(sc, 1, m)
    print(r[0], *(str(x) for x in r[1:3]))
    return 0 if r[0] == "ok" else 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--sym", help="debug: run one scenario symbolically")
    ap.add_argument("--con", help="debug: run one scenario concretely")
    ap.add_argument("-n", type=int, default=200)
    a = ap.parse_args()
    sys.path.insert(0, ROOT)
    import logging
    logging.disable(logging.CRITICAL)
    if a.replay:
        return replay(a.prop, a.replay)
    if a.sym or a.con:
        sys.setrecursionlimit(20000)
        importlib.import_module(f"contracts.{a.prop.lower()}")
        for sc in SCEN[a.prop]:
            if a.sym and (a.sym == "all" or sc.name == a.sym):
                r = run_symbolic(sc, 300, verbose=True)
                print(json.dumps(jsonable(r), indent=1))
            if a.con and (a.con == "all" or sc.name == a.con):
                cnt = {}
                for k in range(a.n):
                    r = run_concrete(sc, a.seed * 1000 + k)
                    cnt[r[0]] = cnt.get(r[0], 0) + 1
                    if r[0] == "fail":
                        print(r[1], r[2])
                        print(r[3])
                        break
                print(sc.name, cnt)
        return 0
    return check(a.prop, a.tier, a.seed)
