"""rewrite the tables at the end of DESIGN.md (repaired defects, planted changes) from recorded data"""
import json, os, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
head = open(R + "/DESIGN.md").read().split("## 7. ")[0]
o = ["## 7. Defects found and repaired\n\nOne `fix:` commit each; a check reports the violation again if it returns.\n",
     "| property | commit | what failed |\n|---|---|---|"]
for l in open(R + "/known_findings.jsonl"):
    d = json.loads(l)
    if d["status"] == "fixed":
        o.append("| %s | %s | %s |" % (d["property"], d["commit"], d["record"].split(" ", 3)[3].replace("|", "\\|")))
o.append("""
## 8. Planted changes and the checks that catch them

All were confirmed: they build, pass the 120 tests, fail their demonstration with the change only, and the check named
ends with 1 and its VIOLATION line.

| planted change | breaks | needs | caught by |\n|---|---|---|---|""")
for f in sorted(glob.glob(R + "/seeded/*/meta.json")):
    m = json.load(open(f))
    o.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["what_it_breaks"].replace("|", "\\|"), m["needs"].replace("|", "\\|"), m["property"]))
open(R + "/DESIGN.md", "w").write(head + "\n".join(o) + "\n")
