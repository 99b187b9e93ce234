"""Run recorded assignments against the real, unmodified code.

usage: replay.py FILE          (one recorded counterexample; exit 1 if it fails)
       replay.py --batch FILE OUT
"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYMX_REPO", "/repo")


def setup():
    sys.path[:] = [p for p in sys.path if os.path.realpath(p or ".") !=
                   os.path.join(HERE, "symx")]
    for p in (HERE, REPO):
        if p in sys.path:
            sys.path.remove(p)
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    sys.setrecursionlimit(5000)
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter("ignore")


def decode(v):
    if isinstance(v, dict) and "__bytes__" in v:
        return v["__bytes__"].encode("latin-1")
    return v


def encode(v):
    if isinstance(v, bytes):
        return {"__bytes__": v.decode("latin-1")}
    if isinstance(v, dict):
        return {str(k): encode(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [encode(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted((encode(x) for x in v), key=repr)
    if isinstance(v, (str, int, float, bool, type(None))):
        return v
    return repr(v)


def run_one(api, rec):
    api.MODE = "conc"
    api.VALUES = api.Values((k, decode(v)) for k, v in rec["inputs"].items())
    api.OBSERVED = []
    api.FAILED = []
    api.TIER = rec.get("tier", "quick")
    ob = api.OBLIGATIONS[rec["obligation"]]
    out = {"failed": None}
    try:
        ob["fn"](**rec["params"])
    except api.Stop:
        pass
    except api.Infeasible:
        out["infeasible"] = True
    except Exception as e:
        if api.harness_error(e):
            out["harness_error"] = True
        else:
            out["failed"] = "exception:%s" % type(e).__name__
        out["info"] = repr(e)
    finally:
        api.undo_all()
    if api.FAILED:
        out["failed"] = api.FAILED[0][0]
        out["info"] = api.FAILED[0][1]
    out["observed"] = [[k, encode(v)] for k, v in api.OBSERVED]
    return out


def load(prop):
    from symx import api
    kf = os.path.join(HERE, "known_findings.json")
    if os.path.exists(kf):
        for e in json.load(open(kf))["known"]:
            api.KNOWN[e["id"]] = e
    importlib.import_module("harness.%s" % prop.lower())
    return api


def main():
    setup()
    if sys.argv[1] == "--batch":
        recs = json.load(open(sys.argv[2]))
        api = load(recs["property"])
        from symx.state import Snapshot
        snap = Snapshot(("oa", "harness"))
        res = []
        for r in recs["records"]:
            res.append(run_one(api, r))
            snap.restore()
        json.dump(res, open(sys.argv[3], "w"))
        return 0
    rec = json.load(open(sys.argv[1]))
    api = load(rec["property"])
    out = run_one(api, rec)
    print(json.dumps({"obligation": rec["obligation"], "params": rec["params"],
                      "inputs": rec["inputs"], "failed": out["failed"],
                      "info": out.get("info"),
                      "infeasible": out.get("infeasible", False)}, indent=1))
    return 1 if out["failed"] else 0


if __name__ == "__main__":
    sys.exit(main())
