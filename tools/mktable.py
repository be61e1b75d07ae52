"""Rewrite the table of planted changes at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| change | caught by | what it does | needs |', '|---|---|---|---|']
for b in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, b)))
    rows.append('| %s | %s | %s | %s |' % (b, m['property'], m['what_it_breaks'].replace('|', '/').replace('\n', ' '), m['needs'].replace('|', '/').replace('\n', ' ')))
p = V + '/DESIGN.md'
t = open(p).read()
h = '## Planted changes (seeded/) and which checks catch them'
t = t[:t.index(h)] + h + '''

Each passes all stable tests and has a demonstration; the check named catches it at seed 1 in the quick tier (most are
caught by several checks, e.g. wrong dirty bits by C01, C04, C06 and C12).

''' + '\n'.join(rows) + '''

Tried and dropped, because the existing tests catch them: AMO that leaves its line's dirty bit, FLUSH answered before the last
acknowledgement, INV that clears any tag, LRU updated in the wrong stage, refill ignoring the invalid-dirty mask, wrong ack count,
wrong length for INIT. `tools/mutgen.py` and `tools/mutone.py` make and run random mutants (operators, constants, deleted
statements, negated conditions) of the RTL; the survivors looked at were equivalent (default assignments repeated, don't-care table columns).
'''
open(p, 'w').write(t)
