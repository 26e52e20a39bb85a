"""P13: attribute tables against a list-of-records model, over operation histories."""
from core import *
from karta.vector.table import Table, Indexer, merge

FN = ["a", "b", "c", "d", "e"]


def val(rng):
    return rng.choice([rng.randint(-5, 5), rng.randint(-8, 8) / 4.0, rng.choice(["x", "yy", ""]), None, [1, 2]])


def gen_table(rng, maxn=6, minf=0):
    f = rng.sample(FN, rng.randint(minf, 4))
    n = rng.randint(0 if f else 0, maxn)
    return {"f": f, "rows": [[val(rng) for _ in f] for _ in range(n)], "ctor": rng.choice(["dict", "fields", "copy"])}


def build(t):
    f, rows = t["f"], [tuple(r) for r in t["rows"]]
    if t["ctor"] == "dict" and f and rows:
        return Table({k: [r[i] for r in rows] for i, k in enumerate(f)})
    T = Table(list(rows), fields=tuple(f))
    if t["ctor"] == "copy":
        T = Table(T)
    return T


def model(t):
    return {"f": list(t["f"]), "rows": [dict(zip(t["f"], r)) for r in t["rows"]]}


def agree(T, m, what):
    ensure(len(T) == len(m["rows"]), "%s: %d rows, expected %d", what, len(T), len(m["rows"]))
    ensure(T.fields == set(m["f"]), "%s: fields %s, expected %s", what, T.fields, m["f"])
    ensure(sorted(T._fields) == sorted(set(m["f"])), "%s: field listed twice %s", what, T._fields)
    for i, r in enumerate(m["rows"]):
        ensure(T.get(i) == r, "%s: row %d is %r, expected %r", what, i, T.get(i), r)
        ensure(T.get(i - len(m["rows"])) == r, "%s: row %d from the end differs", what, i)
        ensure(len(T[i]) == len(m["f"]), "%s: row %d has %d cells", what, i, len(T[i]))
    for k in m["f"]:
        ensure(list(T.getfield(k)) == [r[k] for r in m["rows"]], "%s: column %s is %r", what, k, T.getfield(k))
        ensure(k in T, "%s: field %s not reported", what, k)
    raises(KeyError, T.getfield, "nope")


def gen_hist(rng):
    ops = []
    for _ in range(rng.randint(1, 7)):
        o = rng.choice(["setfield", "setfield", "updated", "updatedtab", "extend", "setitem", "delitem", "slice", "copy", "badset", "badupd"])
        ops.append([o, rng.randint(0, 10**6)])
    return {"t": gen_table(rng), "ops": ops}


def check_hist(c):
    import random
    T, m = build(c["t"]), model(c["t"])
    agree(T, m, "constructor")
    for o, s in c["ops"]:
        r = random.Random(s)
        n = len(m["rows"])
        prevT, prevm = T, {"f": list(m["f"]), "rows": [dict(x) for x in m["rows"]]}
        if o == "setfield":
            k = r.choice(FN)
            vs = [val(r) for _ in range(n if n else r.randint(1, 3))]
            T.setfield(k, vs)
            if n == 0:
                m = {"f": [k], "rows": [{k: v} for v in vs]}
            else:
                if k not in m["f"]:
                    m["f"].append(k)
                for row, v in zip(m["rows"], vs):
                    row[k] = v
        elif o in ("updated", "updatedtab"):
            if n == 0:
                continue
            ks = r.sample(FN, r.randint(1, 3))
            d = {k: [val(r) for _ in range(n)] for k in ks}
            arg = dict(d) if o == "updated" else Table(d)
            T2 = T.updated(arg)
            agree(T, m, "the table updated from")
            if o == "updatedtab":
                agree(arg, {"f": ks, "rows": [{k: d[k][i] for k in ks} for i in range(n)]}, "the argument of updated")
            m = {"f": m["f"] + [k for k in ks if k not in m["f"]],
                 "rows": [dict(row, **{k: d[k][i] for k in ks}) for i, row in enumerate(m["rows"])]}
            T = T2
        elif o == "extend":
            t2 = gen_table(r)
            O = build(t2)
            T.extend(O)
            agree(O, model(t2), "the argument of extend")
            m["rows"] += [{k: row.get(k) for k in m["f"]} for row in model(t2)["rows"]]
        elif o == "setitem":
            if n == 0:
                continue
            i = r.randrange(-n, n)
            row = [val(r) for _ in m["f"]]
            T[i] = tuple(dict(zip(m["f"], row))[k] for k in T._fields)
            m["rows"][i] = dict(zip(m["f"], row))
        elif o == "delitem":
            if n == 0:
                continue
            i = r.randrange(-n, n)
            del T[i]
            del m["rows"][i]
        elif o == "slice":
            a, b, st = r.choice([None, r.randint(-7, 7)]), r.choice([None, r.randint(-7, 7)]), r.choice([None, 1, 2, -1, -2])
            g = T.get(slice(a, b, st))
            e = m["rows"][slice(a, b, st)]
            ensure(g == {k: [x[k] for x in e] for k in m["f"]}, "slice [%r:%r:%r] gives %r", a, b, st, g)
            ensure(Indexer(T)[slice(a, b, st)] == g, "Indexer slice differs")
            if m["f"]:
                ensure(Indexer(T)[m["f"][0]] == [x[m["f"][0]] for x in m["rows"]], "Indexer column differs")
            if n:
                ensure(Indexer(T)[0] == m["rows"][0], "Indexer row differs")
        elif o == "copy":
            T2 = Table(T)
            agree(T2, m, "copy")
            ensure(T2 == T, "a copy is not equal")
            T2.setfield("e", [0] * max(n, 1))
            agree(T, m, "the original after changing its copy")
        elif o == "badset":
            if n == 0:
                continue
            raises(ValueError, T.setfield, r.choice(FN), [0] * (n + 1))
        elif o == "badupd":
            if n == 0:
                continue
            raises(ValueError, T.updated, {r.choice(FN): [0] * (n + 1)})
        agree(T, m, o)


def gen_merge(rng):
    items = []
    for _ in range(rng.randint(1, 4)):
        if rng.random() < .4:
            f = rng.sample(FN, rng.randint(0, 4))
            items.append({"d": {k: val(rng) for k in f}})
        else:
            items.append({"t": gen_table(rng, minf=1)})
    return {"items": items}


def check_merge(c):
    args, ms = [], []
    for it in c["items"]:
        if "d" in it:
            args.append(dict(it["d"]))
            ms.append({"f": list(it["d"]), "rows": [dict(it["d"])]})
        else:
            args.append(build(it["t"]))
            ms.append(model(it["t"]))
    keys = set.intersection(*[set(m["f"]) for m in ms])
    T = merge(args)
    agree(T, {"f": sorted(keys), "rows": [{k: r[k] for k in keys} for m in ms for r in m["rows"]]}, "merge")
    for a, m in zip(args, ms):
        if isinstance(a, Table):
            agree(a, m, "an argument of merge")
        else:
            ensure(a == m["rows"][0], "merge changed an argument")


CLAUSES = [
    Clause("history", "after every operation the table agrees, row by row and column by column, with a list of records; arguments and copies are independent",
           gen_hist, check_hist, quick=16000, thorough=800000),
    Clause("merge", "merge keeps exactly the shared fields and every row of every item in order", gen_merge, check_merge, quick=6000, thorough=200000),
]
