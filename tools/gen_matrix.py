"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json.  Not a check."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
starred = set(re.findall(r"`([\w-]+)`\*", s)) | {l.strip() for l in open(os.path.join(ROOT, "tools", "missed_at_first.txt"))}
rows = []
for m in glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json")):
    d = json.load(open(m))
    n = os.path.basename(os.path.dirname(m))
    rows.append((d["property"], n, d["needs"]))
t = "\n".join("| %s | `%s`%s | %s |" % (a, b, "*" if b in starred else "", c) for a, b, c in sorted(rows))
head = "| caught by | bug | needs |\n|---|---|---|\n"
i = s.index(head) + len(head)
j = s.index("\n\n", i)
open(p, "w").write(s[:i] + t + s[j:])
