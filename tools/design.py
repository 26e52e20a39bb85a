"""Writes DESIGN.md: the text of tools/design.txt with, per property, its
contracts, clauses and planted bugs taken from the sources (python3 tools/design.py)."""
import json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from levels_table import TABLE
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
catches = json.load(open(os.path.join(HERE, "tools", "catches.json")))


def read(*p):
    p = os.path.join(HERE, *p)
    return open(p).read() if os.path.exists(p) else ""


def strings(src, head):
    """the leading string arguments of every call of `head`"""
    out = []
    for m in re.finditer(re.escape(head) + r"\(", src):
        s, args, i = src[m.end():], [], 0
        while True:
            k = re.match(r'\s*,?\s*((?:"(?:[^"\\]|\\.)*"\s*)+)', s)
            if not k:
                break
            args.append("".join(re.findall(r'"((?:[^"\\]|\\.)*)"', k.group(1))))
            s = s[k.end():]
            if not s.startswith(","):
                break
        if args:
            out.append(args)
    return out


o = []
for p in props:
    i = p["id"].lower()
    t = TABLE.get(p["id"], {})
    o.append("### %s %s\n" % (p["id"], p["title"]))
    con = strings(read("contracts", i + ".py"), "@contract")
    con = [c[0].replace("%s", "(each kind of key)") for c in con]
    if con:
        o.append("Level: %s. Contracts discharged on the current source, for all inputs:\n" % t.get("level", "exploration"))
        o += ["- %s" % c for c in con]
        o.append("")
    else:
        o.append("Level: exploration (bounded). No deductive contract; every clause below is a contract evaluated on the compiled code.\n")
    if t.get("note"):
        o.append(t["note"].strip() + "\n")
    o.append("Clauses evaluated on the compiled code (bounded):\n")
    for a in strings(read("rt", i + ".py"), "Clause"):
        o.append("- `%s`: %s" % (a[0], a[1] if len(a) > 1 else ""))
    seeds = sorted(d for d in os.listdir(os.path.join(HERE, "seeded")) if json.loads(read("seeded", d, "meta.json") or "{}").get("property") == p["id"])
    if seeds:
        o.append("\nPlanted bugs:\n")
        for s in seeds:
            m = json.loads(read("seeded", s, "meta.json"))
            o.append("- %s: %s (needs: %s). Caught by: %s" % (s, m["what_it_breaks"], m["needs"], catches.get(s, "see below")))
    o.append("")
text = read("tools", "design.txt").replace("@@PROPERTIES@@", "\n".join(o))
open(os.path.join(HERE, "DESIGN.md"), "w").write(text)
