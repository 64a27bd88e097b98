"""Regenerates the generated parts of DESIGN.md: the list of repaired defects and the table of planted bugs."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(R + "/DESIGN.md").read()


def part(s, name, body):
    return re.sub(r"(<!-- %s -->\n).*?(<!-- end -->)" % name, lambda m: m.group(1) + body + m.group(2), s, flags=re.S)


k = json.load(open(R + "/KNOWN_FINDINGS.json"))
s = part(s, "fixed", "".join("* " + x.replace("fixed: property=", "") + "\n" for x in k["fixed"]))
res = json.load(open(R + "/tools/seeds.json"))
rows = "| bug | needs | what it breaks | result |\n|---|---|---|---|\n"
for d in sorted(os.listdir(R + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (R, d)))
    rows += "| %s (%s) | %s | %s | %s |\n" % (d, m["property"], m["needs"], m["what_it_breaks"], res.get(d, ""))
s = part(s, "seeds", rows)
open(R + "/DESIGN.md", "w").write(s)
