"""The table of seeded changes in DESIGN.md, from seeded/*/meta.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
first_missed = {
    "P06-u16-strings": "the huge leg", "P24-batches": "large failure", "P25-missing": "a document on stdin",
    "P13-empty-close": "own close cases", "P27-shared-cache": "a crash counts without being seen twice",
}
extra = os.path.join(root, "tools", "missed.json")
if os.path.exists(extra):
    first_missed.update(json.load(open(extra)))
rows = []
for i in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", i, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (i, m["needs"].split(". ")[0].rstrip(".").replace("|", "/"), m["property"],
        ("not at first; since: " + first_missed[i]) if i in first_missed else "at once"))
text = "\n".join(["<!-- seeded -->", "| change | needs | check which catches it | caught |", "|---|---|---|---|"] + rows + ["<!-- /seeded -->"])
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
if "<!-- seeded -->" in s:
    a, b = s.index("<!-- seeded -->"), s.index("<!-- /seeded -->") + len("<!-- /seeded -->")
    s = s[:a] + text + s[b:]
else:
    s = s.replace("SEEDED\n", "## Seeded changes\n\nEach breaks one property; the check named is that property's own (others may see it too).\n\n" + text + "\n")
open(p, "w").write(s)
