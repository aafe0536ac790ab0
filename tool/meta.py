"""Single source of properties.jsonl and MANIFEST.json (python3 tool/meta.py regenerates both)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []; NA = []
def P(id, title, statement, over, qtext, why, files, mech, technique, note, level="other"):
    PROPS.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                       anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])), technique, level, note))
def N(id, title, statement, over, qtext, why, files, mech, reason):
    P(id, title, statement, over, qtext, why, files, mech, None, None); NA.append(dict(property=id, reason=reason))
exec(open(V + "/tool/properties.py").read())
with open(V + "/properties.jsonl", "w") as f:
    for p, t, l, n in PROPS: f.write(json.dumps(p) + "\n")
na = {x["property"] for x in NA}
m = dict(version=1, setup_cmd="bash tool/setup.sh",
         checks=[dict(property=p["id"], quick_cmd="python3 checks/%s.py" % p["id"], thorough_cmd="VERIF_TIER=thorough python3 checks/%s.py" % p["id"],
                      technique=t, level=l, level_note=n, evidence_file="evidence/%s.json" % p["id"]) for p, t, l, n in PROPS if p["id"] not in na],
         not_applicable=NA,
         notes="Every check re-extracts /repo/source's current tree with a libTooling extractor (tool/extract.cpp) and decides by static rules; nothing from /repo is compiled to run or executed. KNOWN_FINDINGS.txt lists recorded and fixed defects.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
print(len(PROPS), "properties,", len(NA), "not applicable")
