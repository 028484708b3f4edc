#!/usr/bin/env python3
"""Writes the table of planted changes in DESIGN.md from seeded/ and detections.json."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
det = json.loads((V/'tools/detections.json').read_text())
rows = ['| change | what it breaks | needs | quick check | scenario | s |', '| --- | --- | --- | --- | --- | --- |']
for d in sorted((V/'seeded').iterdir()):
    m = json.loads((d/'meta.json').read_text())
    r = det.get(d.name, {})
    esc = lambda s: s.replace('|', '\\|').replace('\n', ' ')
    rows.append(f"| {d.name} | {esc(m['what_it_breaks'])} | {esc(m['needs'])} | {'caught' if r.get('caught') else 'MISSED' if r else '?'} | {r.get('scenario','')} | {r.get('seconds','')} |")
p = V/'DESIGN.md'
s = p.read_text()
i = s.index('<!-- table -->'); j = s.index('<!-- end -->')
p.write_text(s[:i] + '<!-- table -->\n' + '\n'.join(rows) + '\n' + s[j:])
