#!/usr/bin/env python3
# rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json
import json, os, re
top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(top + "/seeded"), key=lambda x: (len(x), x)):
    m = json.load(open("%s/seeded/%s/meta.json" % (top, d)))
    f = lambda s: s.replace("|", "\\|").replace("\n", " ")
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], f(m["what_it_breaks"]), f(m["needs"])))
t = "| Bug | Caught by | Breaks | Needs |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
p = top + "/DESIGN.md"
s = open(p).read()
if "\nCATCHES\n" in s:
    s = s.replace("\nCATCHES\n", "\n<!-- bugs -->\n<!-- /bugs -->\n")
s = re.sub(r"<!-- bugs -->\n.*<!-- /bugs -->", lambda _: "<!-- bugs -->\n" + t + "<!-- /bugs -->", s, flags=re.S)
open(p, "w").write(s)
