"""Builds a scratch copy of /repo's current tree and evaluates the run-time
contracts of a property on it (PyPy)."""
import os, sys, json, time, shutil, subprocess, tempfile, hashlib, glob

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv-pypy/bin/python"
ENV = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
       "PIP_NO_INDEX": "1", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0",
       "HOME": "/tmp", "LC_ALL": "C.UTF-8", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"}


class BuildError(Exception):
    pass


def _hashes(root):
    out = {}
    for top in ("karta", "setup.py", "ez_setup.py", "setup.cfg"):
        p = os.path.join(root, top)
        files = [p] if os.path.isfile(p) else [os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs]
        for f in files:
            if f.endswith((".pyx", ".pxd", ".h")) or os.path.dirname(f) == root:
                out[os.path.relpath(f, root)] = hashlib.sha256(open(f, "rb").read()).hexdigest()
    return out


def make_scratch():
    """Copy /repo's working tree and bring the extension modules up to date by
    content (never by time stamp)."""
    d = tempfile.mkdtemp(prefix="kartaverif")
    root = os.path.join(d, "repo")
    shutil.copytree(REPO, root, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__", "tests", "doc"))
    cur = _hashes(root)
    old = {}
    try:
        for line in open(os.path.join(root, "build", "vp-hashes")):
            h, f = line.split(None, 1)
            old[f.strip()] = h
    except (OSError, ValueError):
        old = {}
    pyx = [os.path.relpath(f, root) for f in
           glob.glob(os.path.join(root, "karta", "**", "*.pyx"), recursive=True)]
    changed = set(f for f in set(cur) | set(old) if cur.get(f) != old.get(f))
    if any(not f.endswith((".pyx", ".h")) for f in changed):
        again = list(pyx)
    else:
        again = [f for f in changed if f.endswith(".pyx") and f in pyx]
    comp = list(pyx) if any(f.endswith(".h") for f in changed) else list(again)
    for f in pyx:
        if not glob.glob(os.path.join(root, f[:-4] + ".*.so")) and f not in comp:
            comp.append(f)
    if comp:
        shutil.rmtree(os.path.join(root, "build"), ignore_errors=True)
        for f in set(again) | set(comp):
            for g in [os.path.join(root, f[:-4] + ".c")] + glob.glob(os.path.join(root, f[:-4] + ".*.so")):
                if os.path.exists(g):
                    os.remove(g)
        env = dict(ENV, PYTHONPATH=root)
        # make every other .c / .so look newer than its source
        now = time.time()
        keep = [f for f in pyx if f not in comp]
        for f in keep:
            for g in [os.path.join(root, f[:-4] + ".c")]:
                if os.path.exists(g):
                    os.utime(g, (now, now))
            for g in glob.glob(os.path.join(root, f[:-4] + ".*.so")):
                os.utime(g, (now + 5, now + 5))
        p = subprocess.run([PY, "setup.py", "build_ext", "--inplace"], cwd=root, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        missing = [f for f in pyx if not glob.glob(os.path.join(root, f[:-4] + ".*.so"))]
        if p.returncode != 0 or missing:
            shutil.rmtree(d, ignore_errors=True)
            raise BuildError(p.stdout.decode(errors="replace")[-3000:])
    return d, root


def remove_scratch(d):
    if os.path.basename(d).startswith("kartaverif"):
        shutil.rmtree(d, ignore_errors=True)


def _env(root):
    return dict(ENV, PYTHONPATH=root, MALLOC_PERTURB_="85")


def _limit():
    # memory the code under test runs away with ends as MemoryError, in this process
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def replay(root, prop, rfile, timeout=120):
    """(code, text): code 1 = contract fails, 0 = holds, other = crash / timeout"""
    try:
        p = subprocess.run([PY, "-W", "ignore", os.path.join(HERE, "rt", "drive.py"), "--prop", prop,
                            "--replay", rfile], cwd="/", env=_env(root), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout, preexec_fn=_limit)
        return p.returncode, p.stdout.decode(errors="replace")[-4000:]
    except subprocess.TimeoutExpired:
        return 124, "no result within %d s" % timeout


def run(prop, tier, seed, root, d, budget, shards=8, stall=90):
    """Evaluate the contracts of *prop*; returns a merged result."""
    procs = []
    for k in range(shards):
        out = os.path.join(d, "out%d.json" % k)
        cur = os.path.join(d, "cur%d" % k)
        log = open(os.path.join(d, "log%d" % k), "wb")
        p = subprocess.Popen([PY, "-W", "ignore", os.path.join(HERE, "rt", "drive.py"), "--prop", prop,
                              "--tier", tier, "--seed", str(seed), "--budget", str(budget), "--out", out,
                              "--cur", cur, "--shard", "%d/%d" % (k, shards)],
                             cwd="/", env=_env(root), stdout=log, stderr=subprocess.STDOUT, preexec_fn=_limit)
        procs.append({"p": p, "out": out, "cur": cur, "log": log.name, "last": None, "t": time.time()})
    merged = {"clauses": {}, "violations": [], "known": [], "errors": []}
    pending = list(procs)
    while pending:
        time.sleep(0.2)
        for q in list(pending):
            rc = q["p"].poll()
            if rc is None:
                try:
                    with open(q["cur"], "rb") as f:
                        n = int.from_bytes(f.read(8), "little")
                        b = hashlib.sha1(f.read(n)).digest()
                except OSError:
                    b = None
                if b != q["last"]:
                    q["last"], q["t"] = b, time.time()
                elif time.time() - q["t"] > stall:
                    q["p"].kill()
                    q["p"].wait()
                    _abnormal(q, merged, root, prop, d, "no result within %d s" % stall)
                    pending.remove(q)
                continue
            pending.remove(q)
            if rc == 0 and os.path.exists(q["out"]):
                r = json.load(open(q["out"]))
                for n, st in r["clauses"].items():
                    m = merged["clauses"].setdefault(n, {"evaluations": 0, "distinct_nontrivial": 0,
                                                        "samples": [], "what": st["what"], "wall_s": 0.0})
                    m["evaluations"] += st["evaluations"]
                    m["distinct_nontrivial"] += st["distinct_nontrivial"]
                    m["wall_s"] = max(m["wall_s"], st.get("wall_s", 0))
                    m["samples"] = (m["samples"] + st["samples"])[:3]
                    if st.get("exhausted"):
                        m["exhausted"] = True
                merged["violations"] += r["violations"]
                merged["known"] += r["known"]
            else:
                _abnormal(q, merged, root, prop, d, "process ended with status %s" % rc)
        if merged["violations"]:
            for q in pending:
                q["p"].kill()
                q["p"].wait()
            break
    return merged


def _abnormal(q, merged, root, prop, d, why):
    """The interpreter crashed or stalled: re-run the case it was on."""
    log = open(q["log"], "rb").read().decode(errors="replace")[-2000:]
    try:
        with open(q["cur"], "rb") as f:
            n = int.from_bytes(f.read(8), "little")
            case = json.loads(f.read(n).decode()) if n else None
    except Exception:
        case = None
    if not case or case.get("case") is None:
        merged["errors"].append({"why": why, "log": log})
        return
    rf = os.path.join(d, "crash.json")
    json.dump(dict(case, property=prop), open(rf, "w"))
    code, text = replay(root, prop, rf)
    if code == -9:
        # ended from outside (the sandbox ran out of memory): says nothing about the code
        merged["errors"].append({"why": why + "; run alone: ended from outside", "log": log, "case": case})
    elif code == 0:
        merged["errors"].append({"why": why, "log": log, "case": case})
        # memory damage need not show when the case runs alone
        if why.startswith("process ended with status -") and not why.endswith((" -9", " -15", " -2")):
            merged["suspect"] = dict(case, text="%s (does not recur when the case is run alone)\n%s" % (why, log))
    else:
        merged["violations"].append({"clause": case["clause"], "case": case["case"],
                                     "text": "%s; run alone: status %s %s" % (why, code, text[-1500:])})


if __name__ == "__main__":
    # development helper: rtrun.py P01 [budget] [tier]
    prop = sys.argv[1]
    budget = float(sys.argv[2]) if len(sys.argv) > 2 else 20
    tier = sys.argv[3] if len(sys.argv) > 3 else "quick"
    t0 = time.time()
    d, root = make_scratch()
    t1 = time.time()
    try:
        r = run(prop, tier, int(os.environ.get("VERIF_SEED", "1")), root, d, budget)
    finally:
        remove_scratch(d)
    print("build %.1f run %.1f" % (t1 - t0, time.time() - t1))
    for n, st in r["clauses"].items():
        print("  %-14s evals %6d distinct %6d wall %.1f" % (n, st["evaluations"], st["distinct_nontrivial"], st["wall_s"]))
    for v in r["violations"][:4]:
        print("VIOLATION", v["clause"], v["text"][:1500], "\n  case:", json.dumps(v["case"])[:900])
    for e in r["errors"][:3]:
        print("ERROR", e)
    if r["known"]:
        print("known", len(r["known"]), r["known"][0])
