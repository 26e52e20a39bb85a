"""python -m vf.main PROP --root ROOT --tier T --seed S --budget B --out FILE

Runs the contracts of one property against the source under ROOT and writes the
obligations and their status."""
import argparse, importlib, json, os, sys, time, traceback, multiprocessing, queue
from . import sym


class Contract(object):
    def __init__(self, name, fn, opts):
        self.name, self.fn, self.opts = name, fn, opts


REG = []


def contract(name, **opts):
    """one contract: fn(env) where env has engine, loader and helpers"""
    def d(fn):
        REG.append(Contract(name, fn, opts))
        return fn
    return d


class Env(object):
    def __init__(self, root, eng, size=None):
        from .loader import Loader
        self.root = root
        self.E = eng
        self.size = size
        self.L = Loader(root, eng)
        self.case = None

    def mod(self, name):
        return self.L.load(name)

    def n(self, name, lo=0):
        """a size: arbitrary, or concrete in a bounded run"""
        if self.size is not None:
            return self.size
        return self.E.int(name, lo)


def code_exception(x, root):
    """did the verified code raise (and not the engine)"""
    tb = x.__traceback__
    files = []
    while tb is not None:
        files.append(tb.tb_frame.f_code.co_filename)
        tb = tb.tb_next
    if not any(f.startswith(root) for f in files):
        return False
    if files[-1].startswith(root):
        # a wrong type or a missing name may be due to the stand-ins
        return not isinstance(x, (TypeError, AttributeError, NameError, KeyError, NotImplementedError))
    return isinstance(x, (ZeroDivisionError, ValueError, IndexError)) and "/vf/" in files[-1]


def run_one(con, root, deadline, timeout, size=None, setup=None):
    eng = sym.Engine(root, timeout=timeout, deadline=deadline)
    sym.E = eng
    for k, v in con.opts.items():
        if hasattr(eng, k) and k not in ("sizes",):
            setattr(eng, k, v)
    if size is not None:
        eng.abstract_loops = False
    env = Env(root, eng, size)
    res = dict(name=con.name, obls=[], err=None, size=size)
    try:
        def body(e):
            try:
                con.fn(env)
            except sym.Unsupported:
                raise
            except Exception as x:
                if not code_exception(x, root):
                    raise
                # the verified code raised: this path must be impossible
                e.prove("no %s is raised" % type(x).__name__, False, what=str(x))
        eng.explore(body)
    except sym.Unsupported as x:
        res["err"] = "unsupported: %s" % x
    except sym.TooLong as x:
        res["err"] = "timeout: %s" % x
    except Exception as x:
        res["err"] = "error: %s" % "".join(traceback.format_exception_only(type(x), x)).strip()
        res["tb"] = traceback.format_exc()[-1500:]
    res["eng"] = eng
    res["env"] = env
    # merge the obligations of all paths by name
    by = {}
    rank = {"proved": 0, "unknown": 1, "refuted": 2}
    for o in eng.obls:
        d = by.setdefault(o.name, dict(name=o.name, status="proved", backend=set(), time=0.0, why="", model=None, n=0, case=None, clause=None))
        d["n"] += 1
        d["time"] += o.time
        d["backend"].add(o.backend)
        if rank[o.status] > rank[d["status"]]:
            d["status"], d["why"], d["model"] = o.status, o.why, o.model
            d["case"], d["clause"] = getattr(o, "case", None), getattr(o, "clause", None)
    res["obls"] = [dict(d, backend="+".join(sorted(d["backend"]))) for d in by.values()]
    if not res["obls"] and not res["err"]:
        res["err"] = "error: no obligation was generated"
    return res


def conclude(con, root, deadline, timeout, sizes):
    """the contract for all sizes; when that does not succeed, its bounded
    instances tell a wrong program from a proof that does not go through"""
    r = run_one(con, root, deadline, timeout)
    eng = r["eng"]
    out = dict(contract=con.name, obligations=[], functions=sorted(eng.functions), trusted=sorted(eng.trusted),
               solver_s=eng.solver_s, loops=sorted(eng.loopuses))
    bad = r["err"] or any(o["status"] != "proved" for o in r["obls"])
    has_sizes = bool(con.opts.get("sizes"))
    for o in r["obls"]:
        ob = dict(name="%s / %s" % (con.name, o["name"]), status=o["status"], backend=o["backend"], time=round(o["time"], 3),
                  why=o["why"], model=o["model"], clause=con.opts.get("clause"), case=None, paths=o["n"])
        if o["status"] == "refuted" and con.opts.get("case") and o["model"] is not None:
            try:
                ob["case"] = con.opts["case"](o["model"])
            except Exception:
                pass
        out["obligations"].append(ob)
    if r["err"]:
        kind = "unsupported" if not r["err"].startswith("timeout") else "unknown"
        out["obligations"].append(dict(name="%s / execution" % con.name, status=kind, backend="", time=0, why=r["err"], tb=r.get("tb")))
    if con.opts.get("weak"):
        # a proof through abstraction only: what it does not prove is left open
        for o in out["obligations"]:
            if o["status"] == "refuted":
                o["status"], o["case"] = "unknown", None
    if not has_sizes:
        # refuted through an abstraction only: no counterexample
        for o in out["obligations"]:
            if o["status"] == "refuted" and (o["why"] or "").startswith("(after loop"):
                o["status"], o["case"] = "unknown", None
    if bad and has_sizes:
        # bounded instances
        bo = []
        verdict = "bounded"
        for sz in con.opts["sizes"]:
            b = run_one(con, root, deadline, timeout, size=sz)
            out["functions"] = sorted(set(out["functions"]) | b["eng"].functions)
            out["solver_s"] += b["eng"].solver_s
            for o in b["obls"]:
                ob = dict(name="%s / %s [size %s]" % (con.name, o["name"], sz), status={"proved": "bounded"}.get(o["status"], o["status"]),
                          backend=o["backend"], time=round(o["time"], 3), why=o["why"], model=o["model"], clause=con.opts.get("clause"), case=None)
                if o["status"] == "refuted" and con.opts.get("case") and o["model"] is not None:
                    try:
                        ob["case"] = con.opts["case"](o["model"])
                    except Exception:
                        pass
                bo.append(ob)
            if b["err"]:
                bo.append(dict(name="%s / execution [size %s]" % (con.name, sz), status="unsupported" if "timeout" not in b["err"] else "unknown",
                               backend="", time=0, why=b["err"], tb=b.get("tb")))
        # an obligation refuted only through the loop abstraction is not a
        # counterexample: the bounded instances decide
        for o in out["obligations"]:
            if o["status"] == "refuted":
                o["status"] = "unknown"
                o["why"] = "not established by the inferred loop invariant; bounded instances follow. " + (o["why"] or "")[:200]
                o["case"] = None
        out["obligations"] += bo
    return out


def work(args):
    prop, i, root, deadline, timeout = args
    importlib.import_module("contracts." + prop.lower())
    con = REG[i]
    t0 = time.time()
    try:
        r = conclude(con, root, deadline, timeout, con.opts.get("sizes"))
    except Exception:
        r = dict(contract=con.name, obligations=[dict(name="%s / execution" % con.name, status="unsupported", backend="", time=0,
                 why="engine: " + traceback.format_exc()[-800:])], functions=[], trusted=[], solver_s=0, loops=[])
    r["wall"] = round(time.time() - t0, 2)
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--root", default="/repo")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", default="1")
    ap.add_argument("--budget", type=float, default=120)
    ap.add_argument("--out")
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    mod = importlib.import_module("contracts." + a.prop.lower())
    timeout = 10000 if a.tier == "quick" else 60000
    deadline = t0 + a.budget
    idx = [i for i, c in enumerate(REG) if not a.only or a.only in c.name]
    jobs = [(a.prop, i, a.root, deadline, timeout) for i in idx]
    res = []
    if len(jobs) == 1 or a.v and a.only:
        res = [work(j) for j in jobs]
    else:
        with multiprocessing.get_context("fork").Pool(min(6, len(jobs))) as p:
            its = [p.apply_async(work, (j,)) for j in jobs]
            for j, it in zip(jobs, its):
                try:
                    res.append(it.get(max(1.0, deadline + 30 - time.time())))
                except Exception as x:
                    nm = REG[j[1]].name
                    res.append(dict(contract=nm, obligations=[dict(name="%s / execution" % nm, status="unknown", backend="", time=0,
                               why="time budget exhausted (%s)" % type(x).__name__)], functions=[], trusted=[], solver_s=0, loops=[], wall=0))
            p.terminate()
    extra = getattr(mod, "extra", None)
    if extra is not None and not a.only:
        res.extend(extra(a.root, deadline, a.tier))
    out = dict(obligations=[], functions=set(), assumptions=list(getattr(mod, "ASSUME", [])), trusted=set(), back_ends={}, solver_s=0.0)
    for r in res:
        out["obligations"] += r["obligations"]
        out["functions"] |= set(r["functions"])
        out["trusted"] |= set(r["trusted"])
        out["solver_s"] += r["solver_s"]
        for o in r["obligations"]:
            if o["status"] in ("proved", "bounded"):
                for b in o["backend"].split("+"):
                    out["back_ends"][b] = out["back_ends"].get(b, 0) + 1
    out["functions"] = sorted(out["functions"])
    out["trusted"] = sorted(out["trusted"])
    out["solver_s"] = round(out["solver_s"], 2)
    out["wall_s"] = round(time.time() - t0, 2)
    if a.out:
        json.dump(out, open(a.out, "w"), indent=1, default=str)
    if a.v or not a.out:
        for r in res:
            print("== %s (%.1fs) loops=%s" % (r["contract"], r.get("wall", 0), r["loops"]))
            for o in r["obligations"]:
                print("  %-10s %-12s %6.2fs  %s %s" % (o["status"], o["backend"], o["time"], o["name"], "" if o["status"] in ("proved",) else o["why"]))
                if a.v and o.get("tb"):
                    print(o["tb"])
        print("functions:", len(out["functions"]), out["functions"])
        print("trusted:", out["trusted"], "wall", out["wall_s"], "solver", out["solver_s"])


if __name__ == "__main__":
    # contracts import vf.main: make it this module
    sys.modules["vf.main"] = sys.modules["__main__"]
    main()
