"""Add the rows of kept seeds that DESIGN.md lacks (caught by: the property it was written against)."""
import json
import os
import re
from pathlib import Path

V = Path(__file__).resolve().parent.parent
s = (V / 'DESIGN.md').read_text()
rows = {m[1]: m[0] for m in re.finditer(r'(?m)^\| (c\d\d-[\w-]+) \|.*\n', s)}
start = s.index(min(rows.values(), key=s.index))
end = s.index(max(rows.values(), key=s.index)) + len(max(rows.values(), key=s.index))
for name in os.listdir(V / 'seeded'):
    if name not in rows:
        m = json.loads((V / 'seeded' / name / 'meta.json').read_text())
        rows[name] = '| %s | %s | %s |\n' % (name, m['property'], m['needs'])
(V / 'DESIGN.md').write_text(s[:start] + ''.join(rows[k] for k in sorted(rows)) + s[end:])
