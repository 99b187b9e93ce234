"""Check driver: symx/run.py PROPERTY [--only OBLIGATION] [--jobs N]"""
import argparse
import importlib
import importlib.util
import json
import multiprocessing
import os
import random
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYMX_REPO", "/repo")
Z3DIR = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

_G = {}


def load_z3():
    """Import z3's bindings from the tools venv without exposing the rest."""
    sys.path.append(Z3DIR)
    import z3
    import z3.z3core
    sys.path.remove(Z3DIR)
    return z3


def setup(prop, tier):
    sys.dont_write_bytecode = True
    sys.path[:] = [p for p in sys.path if os.path.realpath(p or ".") !=
                   os.path.join(HERE, "symx")]
    for p in (HERE, REPO):
        if p in sys.path:
            sys.path.remove(p)
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter("ignore")
    z3 = load_z3()
    spec = importlib.util.find_spec("oa")
    if spec is None or not spec.origin.startswith(REPO + "/"):
        raise SystemExit("oa is not taken from %s" % REPO)
    from symx import instr, api, core
    core.ENGINE = core.Engine()          # import-time placeholder
    core.ENGINE.begin([])
    instr.install(stdlib=instr.STDLIB)
    # a rewritten copy of these standard library modules replaces the plain one
    import email
    for m in sorted(instr.STDLIB):
        mod = importlib.import_module(m)
        parent, _, leaf = m.rpartition(".")
        if parent:
            setattr(sys.modules[parent], leaf, mod)
    for m, mod in list(sys.modules.items()):
        parent, _, leaf = m.rpartition(".")
        if parent == "email":
            setattr(sys.modules[parent], leaf, mod)
    from symx import vfs
    instr.models.STUBS.update(vfs.MODELS)
    api.TIER = tier
    kf = os.path.join(HERE, "known_findings.json")
    if os.path.exists(kf):
        for e in json.load(open(kf))["known"]:
            api.KNOWN[e["id"]] = e
    mod = importlib.import_module("harness.%s" % prop.lower())
    from symx.state import Snapshot
    _G.update(api=api, core=core, instr=instr, mod=mod,
              snap=Snapshot(("oa", "harness"), instr.STDLIB))
    return mod


class PathTimeout(BaseException):
    pass


def _alarm(sig, frm):
    raise PathTimeout()


def encode(v):
    from symx import replay
    return replay.encode(v)


def explore(item):
    """Explore all paths of one obligation instance."""
    name, params, cfg = item
    api, core = _G["api"], _G["core"]
    ob = api.OBLIGATIONS[name]
    opts = dict(ob["opts"])
    budget = cfg["deadline"]
    e = core.Engine(max_paths=opts.get("max_paths", 60000), deadline=budget,
                    query_ms=opts.get("query_ms", 60000))
    core.ENGINE = e
    api.MODE = "sym"
    snap = _G["snap"]
    rnd = random.Random("%s/%s/%s" % (cfg["seed"], name, params))
    res = {"obligation": name, "params": params, "error": None,
           "violations": [], "models": [], "covers": {}, "labels": set()}
    keep = cfg["keep"]
    seen = 0
    path_s = opts.get("path_s", 60)
    signal.signal(signal.SIGALRM, _alarm)
    funcs = set()
    prof = _G["instr"]

    def tracer(frame, event, arg):
        if event == "call":
            fn = frame.f_code.co_filename
            if fn.startswith(REPO):
                funcs.add("%s:%s" % (fn[len(REPO) + 1:], frame.f_code.co_name))
    t0 = time.time()
    try:
        while e.work:
            prefix = e.work.pop()
            e.begin(prefix)
            completed = False
            from symx import models as _m
            try:
                if e.stats.paths < 6:
                    sys.setprofile(tracer)
                signal.alarm(path_s)
                try:
                    ob["fn"](**params)
                    completed = True
                finally:
                    signal.alarm(0)
                    sys.setprofile(None)
            except core.PathInfeasible:
                e.stats.pruned += 1
            except core.PathDone:
                pass
            except PathTimeout:
                m = e.model()
                e.violations.append(("no-termination", e.input_values(m)))
            except core.Control:
                raise
            except Exception as ex:
                if os.environ.get("SYMX_DEBUG"):
                    traceback.print_exc()
                if api.harness_error(ex):
                    raise core.Unsupported("the harness does not fit the code: "
                                           "%s: %s" % (type(ex).__name__, ex))
                m = e.model()
                e.violations.append(("exception:%s" % type(ex).__name__,
                                     e.input_values(m)))
            finally:
                sys.setprofile(None)
                api.undo_all()
                snap.restore()
            if completed or len(e.violations):
                e.stats.paths += 1
            for c in e.path_covers:
                res["covers"][c] = res["covers"].get(c, 0) + 1
            if completed:
                seen += 1
                # reservoir sample of path models for validation
                take = len(res["models"]) < keep
                slot = None
                if not take:
                    k = rnd.randrange(seen)
                    if k < keep:
                        slot = k
                if take or slot is not None:
                    m = e.model()
                    rec = {"inputs": {k: encode(v) for k, v in
                                      e.input_values(m).items()},
                           "observed": [[k, encode(e.eval_in(m, v))]
                                        for k, v in e.observed]}
                    if take:
                        res["models"].append(rec)
                    else:
                        res["models"][slot] = rec
            if len(e.violations) >= 4:
                break
            if e.stats.paths + e.stats.pruned > e.max_paths:
                raise core.Budget("more than %d paths" % e.max_paths)
            if time.time() > budget:
                raise core.Budget("time budget exhausted")
    except core.Control as c:
        res["error"] = "%s: %s" % (type(c).__name__, c)
        if os.environ.get("SYMX_DEBUG"):
            traceback.print_exc()
    except BaseException as ex:
        res["error"] = "internal %s: %s" % (type(ex).__name__, ex)
        res["trace"] = traceback.format_exc()
    st = e.stats
    res.update(paths=st.paths, pruned=st.pruned, decisions=st.decisions,
               forks=st.forks, queries=st.queries, solver_s=st.solver_s,
               checks=st.checks, check_queries=st.check_queries,
               wall=time.time() - t0, funcs=sorted(funcs),
               violations=[[l, {k: encode(v) for k, v in i.items()}]
                           for l, i in e.violations],
               unmodelled=dict(_G["instr"].models.UNMODELLED),
               known_hit=sorted(api.KNOWN_HIT))
    res["labels"] = []
    if core.FORKLOG:
        for k, n in sorted(core.FORKLOG.items(), key=lambda x: -x[1])[:12]:
            print("forks", n, k, file=sys.stderr)
        core.FORKLOG.clear()
    return res


def approx(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or abs(a - b) <= 1e-6 * max(1, abs(a), abs(b))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(approx(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(approx(a[k], b[k]) for k in a)
    return a == b


def replay_one(path, timeout=60):
    try:
        p = subprocess.run([sys.executable, os.path.join(HERE, "symx/replay.py"),
                            path], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        return {"failed": "no-termination"}, ""
    txt = p.stdout.decode("utf-8", "replace")
    try:
        return json.loads(txt[txt.index("{"):]), txt
    except ValueError:
        return {"failed": None, "crash": True}, txt


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int,
                    default=int(os.environ.get("SYMX_JOBS") or os.cpu_count() or 4))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop, tier = a.property, a.tier
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    limit = 700 if tier == "quick" else 6 * 3600
    deadline = t0 + float(os.environ.get("SYMX_LIMIT", limit))
    mod = setup(prop, tier)
    api = _G["api"]
    items = []
    for name, ob in sorted(api.OBLIGATIONS.items()):
        if a.only and name != a.only:
            continue
        ps = ob["params"]
        if callable(ps):
            ps = ps(tier)
        for p in ps if ps is not None else [{}]:
            one = os.environ.get("SYMX_ONE")
            if one and json.loads(one) != p:
                continue
            cfg = {"seed": seed, "deadline": deadline,
                   "keep": 24 if tier == "quick" else 100}
            items.append((name, p, cfg))
    if a.jobs == 1:
        results = [explore(i) for i in items]
    else:
        with multiprocessing.Pool(min(a.jobs, max(1, len(items)))) as pool:
            results = list(pool.imap_unordered(explore, items, chunksize=1))
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    status = 0
    errors = []
    hard = []            # the engine or a harness is wrong, not only incomplete
    reported = []
    nvalid = nmis = 0
    # 1. violations, confirmed against the real code
    for r in results:
        seen = set()
        for label, inputs in r["violations"]:
            if (label in seen):
                continue
            if len(reported) >= 4 or len(errors) >= 6:
                break
            rec = {"property": prop, "obligation": r["obligation"],
                   "params": r["params"], "inputs": inputs, "label": label,
                   "tier": tier}
            fn = os.path.join(HERE, "replays", "%s-%s-%d.json" % (
                prop, r["obligation"], len(reported) + len(errors)))
            with open(fn, "w") as f:
                json.dump(rec, f, indent=1)
            out, txt = replay_one(fn)
            if out.get("failed"):
                seen.add(label)
                reported.append(fn)
                print("counterexample in %s %s: %s (real code: %s) inputs %s" % (
                    r["obligation"], r["params"], label, out["failed"],
                    json.dumps(inputs)))
                if out.get("info"):
                    print("  observed: %s" % (out["info"],))
                print("VIOLATION property=%s replay=%s" % (prop, fn))
                break
            else:
                errors.append("counterexample not reproduced on the real code: "
                              "%s %s %s inputs=%s\n%s" % (
                                  r["obligation"], r["params"], label,
                                  json.dumps(inputs), txt[-2000:]))
        if r["error"]:
            errors.append("%s %s: %s%s" % (r["obligation"], r["params"],
                                           r["error"], r.get("trace", "")))
    # 2. validation: path models run on the real code
    recs = []
    for r in results:
        for m in r["models"]:
            recs.append({"obligation": r["obligation"], "params": r["params"],
                         "inputs": m["inputs"], "expect": m["observed"],
                         "tier": tier})
    if recs:
        nv, mism, viol = validate(prop, recs, a.jobs)
        nvalid += nv
        for rec, out in viol:
            fn = os.path.join(HERE, "replays", "%s-%s-v%d.json" % (
                prop, rec["obligation"], len(reported)))
            rec["property"] = prop
            with open(fn, "w") as f:
                json.dump(rec, f, indent=1)
            o2, txt = replay_one(fn)
            if o2.get("failed"):
                reported.append(fn)
                print("path model fails on the real code: %s %s: %s inputs %s" % (
                    rec["obligation"], rec["params"], o2["failed"],
                    json.dumps(rec["inputs"])))
                print("VIOLATION property=%s replay=%s" % (prop, fn))
                break
        for mm in mism[:5]:
            nmis += 1
            hard.append(mm)
            errors.append("symbolic and real execution differ: %s" % (mm,))
    # 3. vacuity
    covers = {}
    need = {}
    for r in results:
        for c, n in r["covers"].items():
            covers[(r["obligation"], c)] = covers.get((r["obligation"], c), 0) + n
    if not reported:
        for name, ob in api.OBLIGATIONS.items():
            if a.only and name != a.only:
                continue
            for c in ob["covers"]:
                if not covers.get((name, c)):
                    errors.append("vacuous: %s never reached %r" % (name, c))
        for r in results:
            if not r["error"] and r["paths"] == 0:
                errors.append("vacuous: %s %s completed no path" % (
                    r["obligation"], r["params"]))
    for k in sorted(set(x for r in results for x in r["known_hit"])):
        e = api.KNOWN[k]
        if e["property"] == prop:
            print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
    if reported:
        status = 1
    elif errors and (os.environ.get("SYMX_STRICT") or
                     not any(not r["error"] for r in results)):
        status = 2
    for e in errors:
        print("INCONCLUSIVE: %s" % e)
    wall = time.time() - t0
    tot = lambda k: sum(r[k] for r in results)
    funcs = sorted(set(f for r in results for f in r["funcs"]))
    unm = {}
    for r in results:
        for k, v in r["unmodelled"].items():
            unm[k] = max(unm.get(k, 0), v)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("decisions"),
            "traces_validated_against_impl": nvalid,
            "samples": [{"obligation": r["obligation"], "params": r["params"],
                         "path_model": r["models"][0]}
                        for r in results if r["models"]][:6],
            "explanation": "states = symbolic execution paths (equivalence "
            "classes of inputs) explored to the end; transitions = branch "
            "decisions on symbolic data; every assertion on every path is a "
            "solver query over all values of that path; traces_validated = path "
            "models run on the unmodified code with equal observations",
            "obligations": [{
                "name": r["obligation"], "params": r["params"],
                "paths": r["paths"], "pruned": r["pruned"], "forks": r["forks"],
                "assertions": r["checks"], "assertion_queries": r["check_queries"],
                "solver_queries": r["queries"],
                "solver_s": round(r["solver_s"], 3), "wall_s": round(r["wall"], 2),
                "covers": r["covers"], "error": r["error"]} for r in sorted(
                    results, key=lambda r: (r["obligation"], str(r["params"])))],
            "solver_queries": tot("queries"),
            "assertion_queries": tot("check_queries"),
            "solver_s": round(tot("solver_s"), 2),
            "functions_encoded": funcs,
            "modules_encoded": {k: v[1] for k, v in sorted(
                _G["instr"].LOADED.items()) if k.split(".")[0] == "oa"},
            "bounds": getattr(mod, "BOUNDS", ""),
            "outside": getattr(mod, "OUTSIDE", ""),
            "concretised_calls": unm,
            "exhaustive": not errors and not reported,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", ())),
        "wall_s": round(wall, 2), "violations": len(reported),
    }
    if not a.only:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    if a.v:
        for o in ev["coverage"]["obligations"]:
            print(json.dumps(o))
        print("concretised:", unm)
        print("validated", nvalid, "of", len(recs))
    print("%s: %s paths=%d decisions=%d queries=%d solver=%.1fs validated=%d "
          "wall=%.1fs" % (prop, {0: "ok (incomplete)" if errors else "ok", 1: "VIOLATED",
                                2: "INCONCLUSIVE"}[status],
                          tot("paths"), tot("decisions"), tot("queries"),
                          tot("solver_s"), nvalid, wall))
    return status


def validate(prop, recs, jobs):
    """Run path models on the real code, in several processes."""
    d = os.path.join(HERE, "replays")
    n = max(1, min(jobs, (len(recs) + 99) // 100))
    chunks = [recs[i::n] for i in range(n)]
    procs = []
    for i, c in enumerate(chunks):
        fi = os.path.join(d, "%s-batch%d.in" % (prop, i))
        fo = os.path.join(d, "%s-batch%d.out" % (prop, i))
        with open(fi, "w") as f:
            json.dump({"property": prop, "records": c}, f)
        if os.path.exists(fo):
            os.remove(fo)
        procs.append((c, fi, fo, subprocess.Popen(
            [sys.executable, os.path.join(HERE, "symx/replay.py"), "--batch",
             fi, fo], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    nv = 0
    mism, viol = [], []
    for c, fi, fo, p in procs:
        try:
            txt = p.communicate(timeout=300)[0]
        except subprocess.TimeoutExpired:
            p.kill()
            mism.append("validation batch timed out")
            continue
        if not os.path.exists(fo):
            mism.append("validation batch crashed: %s" %
                        txt.decode("utf-8", "replace")[-1500:])
            continue
        outs = json.load(open(fo))
        os.remove(fi)
        os.remove(fo)
        for rec, out in zip(c, outs):
            if out["failed"]:
                viol.append((rec, out))
            elif out.get("infeasible"):
                mism.append("assumption fails concretely: %s %s %s" % (
                    rec["obligation"], rec["params"], rec["inputs"]))
            elif not approx(out["observed"], rec["expect"]):
                mism.append("%s %s inputs=%s symbolic=%s real=%s" % (
                    rec["obligation"], rec["params"], rec["inputs"],
                    rec["expect"], out["observed"]))
            else:
                nv += 1
    return nv, mism, viol


if __name__ == "__main__":
    sys.exit(main())
