"""Rewrite the seed table of DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| seed | caught by | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"],
                                        m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
p = root + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!--seeds-->.*<!--/seeds-->", lambda _: "<!--seeds-->\n" + "\n".join(rows) + "\n<!--/seeds-->", s, flags=re.S)
open(p, "w").write(s)
