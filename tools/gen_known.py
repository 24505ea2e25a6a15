"""Writes ../KNOWN_FINDINGS.json: the fixed entries come from the fix: commits of /repo (property by commit below)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = {"098d28a": "C01", "3f18166": "C03", "31aaf6c": "C08", "1505e1f": "C09", "4f9a0ad": "C09", "2d73f6d": "C22", "10d5327": "C10", "199edbb": "C16",
     "6c725fa": "C15", "89d456c": "C16", "1d655cf": "C13", "55c6d0d": "C08", "879fc0d": "C23", "601ad62": "C18", "e9a36e2": "C18", "12ba7ba": "C02",
     "22b5907": "C12", "a132bee": "C05", "ebc3e94": "C10", "45993a2": "C11", "22bb307": "C10", "c53804f": "C09", "726a8b3": "C07", "2a80ed1": "C18",
     "6aaf413": "C18", "fb7dc5f": "C08", "cce0810": "C06", "8521206": "C01", "3260500": "C23", "c17d5f8": "C10", "0316b5f": "C17",
     "88f770a": "C24", "ae52597": "C24", "bd977b9": "C24", "fcb9c11": "C04",
     "f46f17d": "C24", "63da071": "C24", "b2aaa39": "C24", "e1509cc": "C10", "f694503": "C10"}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "9db9e63.."], capture_output=True, text=True).stdout
fixed = []
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if s.startswith("fix: ") and h in P:      # f3ead79 was no repair and has been taken back
        fixed.append("fixed: property=%s %s %s" % (P[h], h, s[5:]))
p = os.path.join(V, "KNOWN_FINDINGS.json")
known = json.load(open(p)).get("known", []) if os.path.exists(p) else []
json.dump(dict(known=known, fixed=fixed), open(p, "w"), indent=1)
