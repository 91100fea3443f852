"""Writes the table of rules into DESIGN.md."""
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.rules import RULES  # noqa: E402

rows = {}
for prop, rules in sorted(RULES.items()):
    for r in rules:
        rows.setdefault(f"{r.__module__.rsplit('.', 1)[-1]}.{r.__name__}", ((r.__doc__ or "").strip(), []))[1].append(prop)
text = "| rule | properties | statement |\n|---|---|---|\n" + "".join(f"| {k} | {' '.join(p)} | {d} |\n" for k, (d, p) in sorted(rows.items()))
path = os.path.join(HERE, "DESIGN.md")
s = open(path).read()
a, b = s.index("<!-- rules -->") + len("<!-- rules -->\n"), s.index("<!-- /rules -->")
open(path, "w").write(s[:a] + text + s[b:])
print(len(rows), "rules; properties without a rule:", sorted(set(f"C{i:02}" for i in range(1, 31)) - set(RULES)))
