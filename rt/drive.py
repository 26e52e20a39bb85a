"""Run-time contract checker: evaluates the executable form of a property's
contracts on the real karta code (PyPy side).

Usage: drive.py --prop P05 --tier quick --seed 1 --budget 60 --out OUT --cur CUR
       drive.py --prop P05 --replay FILE
"""
import sys, os, json, time, random, hashlib, importlib, argparse, traceback, mmap

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from core import Fail, Skip


def jd(o):
    import numpy as np
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return float(o)
    if isinstance(o, np.bool_):
        return bool(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    raise TypeError(type(o))


def evaluate(clause, case):
    """(verdict, text): verdict in ok / trivial / fail"""
    try:
        r = clause.check(case)
    except Fail as e:
        return "fail", str(e)
    except Skip:
        return "trivial", ""
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        tb = traceback.format_exc(limit=-6)
        return "fail", "unexpected %s: %s\n%s" % (type(e).__name__, e, tb)
    return ("trivial" if r is False else "ok"), ""


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop", required=True)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=60)
    ap.add_argument("--out")
    ap.add_argument("--cur")
    ap.add_argument("--replay")
    ap.add_argument("--shard", default="0/1")
    a = ap.parse_args()
    mod = importlib.import_module(a.prop.lower())
    clauses = {c.name: c for c in mod.CLAUSES}

    if a.replay:
        d = json.load(open(a.replay))
        c = clauses[d["clause"]]
        v, text = evaluate(c, d["case"])
        print("%s clause=%s: %s %s" % (a.prop, d["clause"], v, text))
        sys.stdout.flush()
        os._exit(1 if v == "fail" else 0)

    k, n = map(int, a.shard.split("/"))
    cur = None
    if a.cur:
        with open(a.cur, "wb") as f:
            f.write(b"\0" * (1 << 20))
        fd = os.open(a.cur, os.O_RDWR)
        cur = mmap.mmap(fd, 1 << 20)

    def note(cl, case):
        if cur is None:
            return
        s = json.dumps({"clause": cl, "case": case}, default=jd).encode()
        if len(s) > (1 << 20) - 16:
            s = json.dumps({"clause": cl, "case": None}).encode()
        cur[0:8] = len(s).to_bytes(8, "little")
        cur[8:8 + len(s)] = s

    t0 = time.time()
    res = {"property": a.prop, "clauses": {}, "violations": [], "known": []}
    total_w = sum(c.weight for c in clauses.values())
    for name, c in clauses.items():
        seen = set()
        st = {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "what": c.what,
              "target": (c.quick if a.tier == "quick" else c.thorough)}
        res["clauses"][name] = st
        rng = random.Random("%s/%s/%d/%d" % (a.prop, name, a.seed, k))
        limit = max(1, (c.quick if a.tier == "quick" else c.thorough) // n)
        tlim = a.budget * c.weight / total_w
        t1 = time.time()
        it = c.cases(rng, k, n)
        while st["evaluations"] < limit and time.time() - t1 < tlim:
            try:
                case = next(it)
            except StopIteration:
                st["exhausted"] = True
                break
            note(name, case)
            v, text = evaluate(c, case)
            st["evaluations"] += 1
            if v == "ok":
                h = hashlib.sha1(json.dumps(case, sort_keys=True, default=jd).encode()).digest()
                if h not in seen:
                    seen.add(h)
                    if len(st["samples"]) < 3:
                        s = json.dumps(case, default=jd)
                        st["samples"].append(s if len(s) < 400 else s[:400] + "...")
            elif v == "fail":
                kf = c.known(case) if c.known else None
                if kf:
                    res["known"].append({"clause": name, "finding": kf, "text": text[:500]})
                    continue
                res["violations"].append({"clause": name, "case": json.loads(json.dumps(case, default=jd)),
                                          "text": text})
                break
        st["distinct_nontrivial"] = len(seen)
        st["wall_s"] = round(time.time() - t1, 2)
        if res["violations"]:
            break
    res["wall_s"] = time.time() - t0
    note("done", None)
    with open(a.out, "w") as f:
        json.dump(res, f, default=jd)
    sys.stdout.flush()
    os._exit(0)


main()
