"""Fill the tables of DESIGN.md (between markers) from the monitors, the evidence and seeded/ (documentation only)."""
import importlib, json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, "/repo"]
sys.dont_write_bytecode = True
man = {c["property"]: c for c in json.load(open(ROOT + "/MANIFEST.json"))["checks"]}
rows = ["| property | workload and oracle | deciding method | cases | s |", "|---|---|---|---|---|"]
for l in open(ROOT + "/properties.jsonl"):
    p = json.loads(l)
    m = importlib.import_module("rv.props." + p["id"].lower())
    ev = f"{ROOT}/evidence/{p['id']}.json"
    s = json.load(open(ev))["wall_s"] if os.path.exists(ev) else 0
    rows.append(f"| **{p['id']}** {p['title']} | {m.RULE} | {man[p['id']]['technique'].replace('runtime monitoring: ', '')} | {m.N['quick']}/{m.N['thorough']} | {s:.0f} |")
cat = ["| planted bug | breaks | needs | caught by |", "|---|---|---|---|"]
res = json.load(open(ROOT + "/tools/catches.json")) if os.path.exists(ROOT + "/tools/catches.json") else {}
for d in sorted(os.listdir(ROOT + "/seeded")):
    m = json.load(open(f"{ROOT}/seeded/{d}/meta.json"))
    r = res.get(d, {})
    yes, no = [k for k, v in r.items() if v == 1], [k for k, v in r.items() if v != 1]
    cat.append(f"| {d} | {m['property']} | {m['needs']} | {', '.join(yes) or '-'}" + (f" (not by {', '.join(no)})" if no else "") + " |")
f = ROOT + "/DESIGN.md"
s = open(f).read()
for name, tab in (("TABLE", rows), ("CATCH", cat)):
    body = f"<!-- {name} -->\n" + "\n".join(tab) + f"\n<!-- /{name} -->"
    s = s.replace(f"@{name}@", body)
    s = re.sub(rf"<!-- {name} -->.*?<!-- /{name} -->", lambda _: body, s, flags=re.S)
open(f, "w").write(s)
