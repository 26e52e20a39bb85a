#!/usr/bin/env python3
"""Decides one property on /repo's current tree.

  python3 run.py P05 --tier quick|thorough
  python3 run.py P05 --replay FILE        re-run a reported violation

Exit 0: every obligation that was decided holds and no contract failed.
Exit 1: a line "VIOLATION property=<id> replay=<path>" names what failed.
"""
import argparse, json, os, subprocess, sys, tempfile, threading, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import rtrun

VT = "/opt/veriftools/pyvenv/bin/python"
if not os.path.exists(VT):
    VT = "python3-vt"
LEVELS = json.load(open(os.path.join(HERE, "levels.json")))


def known_findings(prop):
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    for line in open(p) if os.path.exists(p) else []:
        line = line.strip()
        if line.startswith("known: property=%s " % prop):
            name, _, what = line[len("known: property=%s " % prop):].partition(" ")
            out[name] = what
    return out


def prove(prop, tier, seed, root, budget, out):
    """Layer 1 in its own process; returns its report."""
    if not os.path.exists(os.path.join(HERE, "contracts", prop.lower() + ".py")):
        return None
    try:
        p = subprocess.run([VT, "-m", "vf.main", prop, "--root", root, "--tier", tier, "--seed", str(seed),
                            "--budget", str(budget), "--out", out], cwd=HERE,
                           env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0"),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=budget * 2 + 60)
        return json.load(open(out))
    except Exception as e:
        log = ""
        try:
            log = p.stdout.decode(errors="replace")[-2000:]
        except Exception:
            pass
        return {"obligations": [], "functions": [], "assumptions": [], "error": "%s %s" % (e, log)}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    if a.replay:
        d, root = rtrun.make_scratch()
        try:
            code, text = rtrun.replay(root, prop, a.replay)
        finally:
            rtrun.remove_scratch(d)
        print(text)
        return 1 if code else 0
    quick = tier == "quick"
    rt_budget, vc_budget = (25, 150) if quick else (300, 900)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": LEVELS[prop]["level"], "coverage": {},
          "assumptions": [], "wall_s": 0, "violations": 0}
    lines, bad = [], False
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)

    def save(name, obj):
        p = os.path.join(HERE, "replay", "%s-%s.json" % (prop, name))
        json.dump(obj, open(p, "w"), indent=1)
        return p

    d = None
    try:
        try:
            d, root = rtrun.make_scratch()
        except rtrun.BuildError as e:
            # the tree does not build: nothing can be decided
            ev["coverage"] = {"explanation": "the tree does not build", "obligations": 0, "discharged": 0,
                              "evaluations": 0, "distinct_nontrivial": 0}
            print("UNDECIDED: the tree does not build\n" + str(e)[-1500:])
            return finish(ev, t0, [], False)
        box = {}
        th = None
        vc_out = os.path.join(d, "vc.json")
        th = threading.Thread(target=lambda: box.setdefault("vc", prove(prop, tier, seed, root, vc_budget, vc_out)))
        th.start()
        r = rtrun.run(prop, tier, seed, root, d, rt_budget, shards=8 if not quick else 6)
        th.join()
        vc = box.get("vc")

        # layer 2: contracts evaluated on the real code
        known = known_findings(prop)
        seen = {}
        for k in r["known"]:
            if k["finding"] in known:
                seen[k["finding"]] = k["text"]
            else:
                r["violations"].append({"clause": k["clause"], "case": None, "text": k["text"]})
        for n in sorted(seen):
            lines.append("KNOWN-FINDING: property=%s %s %s" % (prop, n, known[n]))
        for i, v in enumerate(r["violations"][:3]):
            p = save(v["clause"], {"property": prop, "clause": v["clause"], "case": v["case"], "text": v["text"],
                                   "replay": "python3 run.py %s --replay <this file>" % prop})
            print("contract %s/%s fails: %s" % (prop, v["clause"], v["text"][:600]))
            if not bad:
                lines.append("VIOLATION property=%s replay=%s" % (prop, p))
            bad = True
            ev["violations"] += 1
        if not bad and r.get("suspect"):
            s = r["suspect"]
            p = save("crash", dict(s, property=prop))
            lines.append("VIOLATION property=%s replay=%s" % (prop, p))
            ev["violations"] += 1
            bad = True
        cl = r["clauses"]
        cov = ev["coverage"]
        cov["evaluations"] = sum(c["evaluations"] for c in cl.values())
        cov["distinct_nontrivial"] = sum(c["distinct_nontrivial"] for c in cl.values())
        cov["rule"] = ("each clause of the contract, stated over the real functions, is evaluated on generated members "
                       "of its domain; a case counts when its precondition held, the clause was evaluated in full and "
                       "no earlier case of the run equals it")
        cov["samples"] = [{"clause": n, "case": s} for n, c in cl.items() for s in c["samples"][:1]]
        cov["clauses"] = {n: {"what": c["what"], "evaluations": c["evaluations"],
                              "distinct_nontrivial": c["distinct_nontrivial"]} for n, c in cl.items()}
        cov["errors"] = [e["why"] for e in r["errors"]]

        # layer 1: obligations
        if vc is not None:
            ob = vc["obligations"]
            cov["obligations"] = len(ob)
            cov["discharged"] = sum(o["status"] == "proved" for o in ob)
            cov["bounded_obligations"] = sum(o["status"] == "bounded" for o in ob)
            cov["undecided"] = [{"name": o["name"], "why": o.get("why", "")[:300]} for o in ob
                                if o["status"] not in ("proved", "bounded", "refuted")]
            cov["checker_cmd"] = "%s -m vf.main %s" % (VT, prop)
            cov["trusted_base"] = vc.get("trusted", [])
            cov["functions_under_contract"] = vc.get("functions", [])
            cov["back_ends"] = vc.get("back_ends", {})
            cov["solver_s"] = vc.get("solver_s", 0)
            cov["obligation_list"] = [{k: o[k] for k in ("name", "status", "backend", "time") if k in o} for o in ob]
            if vc.get("error"):
                cov["engine_error"] = vc["error"][:2000]
                print("UNDECIDED: the deductive layer did not finish: %s" % vc["error"][-800:])
            ev["assumptions"] += vc.get("assumptions", [])
            for o in ob:
                if o["status"] != "refuted":
                    continue
                ev["violations"] += 1
                rec = {"property": prop, "obligation": o["name"], "what": o.get("what", ""), "verifier": o.get("why", ""),
                       "model": o.get("model"), "clause": o.get("clause"), "case": o.get("case")}
                hit = False
                if o.get("case") is not None:
                    p = save("vc", rec)
                    code, text = rtrun.replay(root, prop, p)
                    rec["replayed"] = text
                    hit = code != 0
                p = save("vc", rec)
                print("obligation %s refuted: %s" % (o["name"], o.get("why", "")[:600]))
                if not bad:
                    lines.append("VIOLATION property=%s replay=%s%s" % (prop, p, "" if hit else " no-failing-input-found"))
                bad = True
            for u in cov["undecided"][:5]:
                print("UNDECIDED obligation %s: %s" % (u["name"], u["why"][:200]))
        ev["assumptions"] += LEVELS[prop].get("assumptions", [])
    except Exception:
        # an error of the machinery is not a verdict
        ev["coverage"].setdefault("explanation", "the check did not finish: " + traceback.format_exc()[-1500:])
        traceback.print_exc()
    finally:
        if d:
            rtrun.remove_scratch(d)
    c = ev["coverage"]
    if ev["level"] == "proof" and not (0 < c.get("obligations", 0) == c.get("discharged", 0)):
        # this run did not discharge everything: it is no proof
        ev["level"] = "exploration" if c.get("evaluations") else "other"
        c.setdefault("explanation", "not every obligation was discharged")
    return finish(ev, t0, lines, bad)


def finish(ev, t0, lines, bad):
    ev["wall_s"] = round(time.time() - t0, 2)
    with open(os.path.join(HERE, "evidence", ev["property"] + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for l in lines:
        print(l)
    c = ev["coverage"]
    print("%s: %d contract evaluations, %d of %d obligations discharged, %.1f s" % (
        ev["property"], c.get("evaluations", 0), c.get("discharged", 0), c.get("obligations", 0), ev["wall_s"]))
    sys.stdout.flush()
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
