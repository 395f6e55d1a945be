#!/usr/bin/env python3
"""run.py PROPERTY [--facet NAME]... [--replay FILE]    decide one property.

exit 0: held on everything generated; 1: VIOLATION line printed; 2: harness error.
"""
import argparse
import concurrent.futures as cf
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from vlib import bootstrap  # noqa: E402

HARD = {"quick": 300, "thorough": 7200}


def list_facets(prop, inst, scratch):
    code = ("import sys,warnings,logging;warnings.simplefilter('ignore');logging.disable(50);"
            "from vlib import native;native.install();import importlib,json;"
            "importlib.import_module('vlib.props.%s');from vlib import engine;"
            "print('FACETS='+json.dumps(list(engine.FACETS['%s'])))" % (prop.lower(), prop))
    r = subprocess.run([bootstrap.PY, "-W", "ignore", "-c", code], env=bootstrap.child_env(inst, scratch),
                       cwd=scratch, capture_output=True, text=True)
    for line in r.stdout.splitlines():
        if line.startswith("FACETS="):
            return json.loads(line[7:])
    raise bootstrap.BootstrapError("cannot load the facets of %s:\n%s" % (prop, (r.stdout + r.stderr)[-4000:]))


def run_facet(prop, name, inst, root, extra=(), timeout=600):
    scratch = tempfile.mkdtemp(prefix="f_", dir=root)
    out = os.path.join(scratch, "result.json")
    log = os.path.join(scratch, "log.txt")
    with open(log, "w") as fd:
        p = subprocess.Popen([bootstrap.PY, "-W", "ignore", "-m", "vlib.worker", prop, name, out, *extra],
                             env=bootstrap.child_env(inst, scratch), cwd=scratch,
                             stdout=fd, stderr=subprocess.STDOUT)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = None
    with open(log, errors="replace") as fd:
        tail = fd.read()[-5000:]
    res = None
    if os.path.exists(out):
        with open(out) as fd:
            res = json.load(fd)
    shutil.rmtree(scratch, ignore_errors=True)
    return rc, res, tail


def merged(parts):
    """the shards of one facet as one result"""
    out = dict(parts[0])
    hashes = set()
    out["labels"] = {}
    out["samples"] = [s for p in parts for s in p["samples"]][:5]
    for p in parts:
        hashes |= set(p.get("hashes", ()))
        for k, v in p["labels"].items():
            out["labels"][k] = out["labels"].get(k, 0) + v
    out.pop("hashes", None)
    out["distinct_nontrivial"] = len(hashes)
    for k in ("evaluations", "skipped"):
        out[k] = sum(p.get(k) or 0 for p in parts)
    out["wall_s"] = max(p["wall_s"] for p in parts)
    out["known"] = sorted({k for p in parts for k in p["known"]})
    out["timeout"] = any(p.get("timeout") for p in parts)
    out["error"] = next((p["error"] for p in parts if p["error"]), None)
    fails = [p["fail"] for p in parts if p["fail"]]
    out["fail"] = min(fails, key=lambda f: len(f["case"])) if fails else None
    return out


def decide_facet(prop, name, inst, root, timeout, shard=0):
    j = os.path.join(root, "journal_%s_%d" % (name, shard))
    rc, res, tail = run_facet(prop, name, inst, root, ("--journal", j, "--shard", str(shard)), timeout)
    if res is None and (rc is None or rc < 0):
        # native crash or a case that never returns: the journal holds the case being run
        case = open(j).read() if os.path.exists(j) else "None"
        what = "the case did not return within %d s" % timeout if rc is None else "the process died from signal %d" % -rc
        return {"facet": name, "evaluations": 1, "distinct_nontrivial": 0, "samples": [], "labels": {},
                "known": [], "error": None, "rule": "", "wall_s": 0, "timeout": rc is None,
                "fail": {"case": case, "text": what + "\n" + tail[-3000:]}}
    if res is None:
        return {"facet": name, "evaluations": 0, "distinct_nontrivial": 0, "samples": [], "labels": {},
                "known": [], "error": "worker exit %s\n%s" % (rc, tail), "fail": None, "rule": "", "wall_s": 0}
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--facet", action="append")
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--thorough", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    tier = "thorough" if a.thorough else os.environ.get("VERIF_TIER") or "quick"
    if tier not in HARD:
        tier = "quick"
    os.environ["VERIF_TIER"] = tier
    seed = os.environ.get("VERIF_SEED") or "1"
    os.environ["VERIF_SEED"] = seed
    root = tempfile.mkdtemp(prefix="verif_%s_" % a.prop)
    try:
        return body(a, tier, int(seed), root, t0)
    except bootstrap.BootstrapError as e:
        print("HARNESS-ERROR", e)
        return 2
    finally:
        shutil.rmtree(root, ignore_errors=True)


def body(a, tier, seed, root, t0):
    bootstrap.ensure_deps()
    inst, bsec, cached = bootstrap.ensure_build()
    os.makedirs(os.path.join(bootstrap.BUILD, "mpl"), exist_ok=True)
    if a.replay:
        with open(a.replay) as fd:
            rep = json.load(fd)
        cfile = os.path.join(root, "case.txt")
        with open(cfile, "w") as fd:
            fd.write(rep["case"])
        os.environ["VERIF_SEED"] = str(rep["seed"])
        rc, res, tail = run_facet(a.prop, rep["facet"], inst, root, ("--replay", cfile))
        if res is None or res.get("fail"):
            print((res or {}).get("fail", {}).get("text") or tail)
            print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
            return 1
        print("replay: the case passes")
        return 0
    names = list_facets(a.prop, inst, root)
    if a.facet:
        names = [n for n in names if n in a.facet]
    shards = int(os.environ.get("VERIF_SHARDS") or (3 if len(names) <= 5 else 2))
    with cf.ThreadPoolExecutor(8) as ex:
        futs = {n: [ex.submit(decide_facet, a.prop, n, inst, root, HARD[tier], k) for k in range(shards)] for n in names}
        results = [merged([f.result() for f in fs]) for fs in futs.values()]

    known = load_known(a.prop)
    fails, errors = [], []
    for r in results:
        if a.v:
            print("%-34s n=%-6d nt=%-6d skip=%-5s %6.1fs %s" % (
                r["facet"], r["evaluations"], r["distinct_nontrivial"], r.get("skipped"), r["wall_s"],
                json.dumps(r["labels"])[:220]))
        if r["error"]:
            errors.append(r)
        if r["fail"]:
            fails.append(r)
    seen_known = sorted({k for r in results for k in r["known"]})
    unlisted = [k for k in seen_known if k not in known]
    for k in seen_known:
        if k in known:
            print("KNOWN-FINDING: property=%s %s" % (a.prop, known[k]))
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    lines = []
    for r in fails:
        path = os.path.join(VERIF, "replays", "%s_%s.json" % (a.prop, r["facet"]))
        with open(path, "w") as fd:
            json.dump({"property": a.prop, "facet": r["facet"], "seed": seed, "tier": tier,
                       "case": r["fail"]["case"], "observed": r["fail"]["text"]}, fd, indent=1)
        print("--- %s / %s\ncase: %s\n%s" % (a.prop, r["facet"], r["fail"]["case"][:1500], r["fail"]["text"][-2500:]))
        lines.append("VIOLATION property=%s replay=%s" % (a.prop, path))
    if not a.facet or a.v:
        ev = {"property": a.prop, "tier": tier, "seed": seed, "level": "exploration",
              "coverage": {
                  "evaluations": sum(r["evaluations"] for r in results),
                  "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in results),
                  "rule": " | ".join("%s: %s" % (r["facet"], " ".join((r["rule"] or "").split())) for r in results),
                  "samples": [s for r in results for s in r["samples"]][:40],
                  "facets": [{k: r.get(k) for k in ("facet", "evaluations", "distinct_nontrivial", "skipped",
                                                     "labels", "wall_s", "timeout")} for r in results],
                  "native_build": {"seconds": round(bsec, 1), "cached": cached},
              },
              "assumptions": ["Hypothesis-generated cases from fixed seeds; absence of violations is not proof",
                              "the third-party package 'gridded' is replaced by the stand-in in /verif/standin"],
              "wall_s": round(time.time() - t0, 2), "violations": len(fails)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as fd:
            json.dump(ev, fd, indent=1)
    for ln in lines:
        print(ln)
    if lines:
        return 1
    if errors or unlisted:
        for r in errors:
            print("HARNESS-ERROR %s/%s\n%s" % (a.prop, r["facet"], r["error"]))
        for k in unlisted:
            print("HARNESS-ERROR unlisted finding %s" % k)
        return 2
    print("property=%s held: %d cases, %d distinct non-trivial, %.1f s (build %.1f s%s)" % (
        a.prop, sum(r["evaluations"] for r in results), sum(r["distinct_nontrivial"] for r in results),
        time.time() - t0, bsec, ", cached" if cached else ""))
    return 0


def load_known(prop):
    out = {}
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        with open(path) as fd:
            for line in fd:
                line = line.strip()
                if line:
                    d = json.loads(line)
                    if d.get("status") == "known" and d["property"] == prop:
                        out[d["id"]] = d["what"]
    return out


if __name__ == "__main__":
    sys.exit(main())
