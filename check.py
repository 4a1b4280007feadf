#!/usr/bin/env python3
"""check.py --property Cxx [--replay FILE]    (VERIF_TIER=quick|thorough, VERIF_SEED=n)"""
import argparse, json, os, random, shutil, sys, tempfile, time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import models  # noqa
import props  # noqa
import run  # noqa
from run import ToolError, say  # noqa


def known_findings():
    """{property: {scenario id: text}} of findings that are recorded instead of repaired"""
    out = {}
    f = os.path.join(run.V, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            if l.startswith("finding:"):
                _, prop, ident, text = l.split(None, 3)
                out.setdefault(prop.split("=")[1], {})[ident.split("=", 1)[1]] = text.strip()
    return out


def save_replay(prop, scen, line, at, why):
    d = os.path.join(run.V, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.json" % (prop, "".join(c if c.isalnum() or c in "-_" else "_" for c in str(scen["id"]))))
    t = json.loads(line) if line else None
    with open(p, "w") as f:
        json.dump({"property": prop, "why": why, "event": at, "scenario": scen, "trace": t}, f)
    return p


def describe(line, at):
    e = json.loads(line)["ev"][at - 1]
    s = json.dumps(e)
    return s if len(s) < 400 else s[:400] + "..."


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float)
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % a.property, dir=os.environ.get("VERIF_WORK"))
    try:
        rc = check(a, tier, seed, t0, work)
    except ToolError as e:
        say("ERROR: %s" % e)
        rc = 2
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def check(a, tier, seed, t0, work):
    prop = a.property
    spec = props.PROPS[prop]
    exe = run.build()
    say("built in %.1fs" % (time.time() - t0))
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "models": []}
    violations = []

    if a.replay:
        scen = [json.load(open(a.replay))["scenario"]]
        batches = [scen]
    else:
        # 1. the design: model checking the implementation-shaped models against the contract
        for m in spec["models"]:
            for r in models.check(m, tier):
                cov["states"] += r["states"]
                cov["transitions"] += r["transitions"]
                cov["models"].append(r)
                say("model %s: %d states (%.1fs)" % (r["name"], r["states"], time.time() - t0))
        batches = spec["scenarios"](tier, seed, a.scale, t0, work)

    # 2. the code: replaying scenarios and validating the traces against the contract
    known = known_findings().get(prop, {})
    seen_known = {}
    nev = 0
    ops = {}
    for batch in batches:
        ids = set()
        for s in batch:
            s["id"] = "".join(c if c.isalnum() or c in "-_.'" else "_" for c in s["id"])
            while s["id"] in ids:
                s["id"] += "'"
            ids.add(s["id"])
        lines = run.replay(exe, batch, work)
        say("replayed %d scenarios (%.1fs)" % (len(lines), time.time() - t0))
        acc, rej, st, tr = run.validate(lines, work)
        say("validated: %d accepted, %d rejected (%.1fs)" % (len(acc), len(rej), time.time() - t0))
        cov["states"] += st
        cov["transitions"] += tr
        cov["traces_validated_against_impl"] += len(lines)
        by = {}
        for l in lines:
            t = json.loads(l)
            by[t["id"]] = l
            nev += len(t["ev"])
            for e in t["ev"]:
                k = e["op"] + ("/" + e["res"] if "res" in e else "") + ("+fault" if e.get("faults") else "")
                ops[k] = ops.get(k, 0) + 1
        for s in batch[:2]:
            if len(cov["samples"]) < 4 and s["id"] in by:
                cov["samples"].append({"scenario": s, "trace": json.loads(by[s["id"]])["ev"][:6]})
        bs = {s["id"]: s for s in batch}
        for i, at in sorted(rej.items()):
            if i in known:
                seen_known[i] = known[i]
                continue
            p = save_replay(prop, bs[i], by[i], at, "event %d is not allowed by the specification" % at)
            violations.append((p, i, at, describe(by[i], at)))
        if violations:
            break
    cov["events"] = nev
    cov["event_kinds"] = ops
    for i, text in seen_known.items():
        say("KNOWN-FINDING: property=%s %s" % (prop, text))
    for p, i, at, d in violations[:5]:
        say("  scenario %s, event %d: %s" % (i, at, d))
    if not a.replay:
        os.makedirs(os.path.join(run.V, "evidence"), exist_ok=True)
        for s in cov["samples"]:
            for k in ("body", "src"):
                if len(s["scenario"].get(k, [])) > 300:
                    s["scenario"][k] = s["scenario"][k][:300] + ["..."]
            s["trace"] = [e if len(json.dumps(e)) < 1500 else {"op": e["op"], "cut": True} for e in s["trace"]]
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
              "assumptions": spec["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
        with open(os.path.join(run.V, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for p, i, at, d in violations[:5]:
        say("VIOLATION property=%s replay=%s" % (prop, p))
    return 1 if violations else 0


if __name__ == "__main__":
    main()
