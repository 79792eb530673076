"""DESIGN.md from the contracts, the properties and the planted changes (not used by any check)"""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "tools")]
ns = {"NOTES": {}}
exec(open(os.path.join(V, "tools", "level_notes.py")).read(), ns)
NOTES = ns["NOTES"]
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
out = [open(os.path.join(V, "tools", "design_head.md")).read().rstrip(), "", "## 2. Properties and their contracts", ""]
nf = set()
for p in props:
    m = importlib.import_module("contracts." + p["id"].lower())
    out += ["### %s %s" % (p["id"], p["title"]), "", p["statement"], "", "*Reach*: " + NOTES[p["id"]][2], ""]
    for o in m.REG:
        sym = "proved for all values" if o.symbolic else "bounded: %d samples quick, %d thorough" % (o.samples, o.thorough or o.samples)
        doc = " ".join((o.fn.__doc__ or "").split())
        fs = [f.replace("concentrations_emissions_handler.ConcentrationsEmissionsHandler", "CEH").replace("formattingtools.", "") for f in o.functions]
        if o.symbolic:
            nf.update(o.functions)
        out.append("* **%s** (%s) — %s *On:* %s" % (o.name, sym, doc, ", ".join("`%s`" % f for f in fs)))
    out.append("")
out += ["(CEH: concentrations_emissions_handler.ConcentrationsEmissionsHandler. %d functions are under a proved contract.)" % len(nf), ""]
out += ["## 3. Planted changes", "", "Each was written from the property's text, passes the existing tests, has a demonstration that fails with it, and is caught by the check of its own property",
        "with a concrete failing input on the real code.", "", "| change | property | needs | breaks |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    j = json.load(open(d))
    out.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), j["property"], j["needs"].replace("|", "/"), j["what_it_breaks"].replace("|", "/")))
out += ["", open(os.path.join(V, "tools", "design_tail.md")).read()]
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
