"""Writes the table of planted bugs of DESIGN.md from seeded/, and the costs from a log of `./check --all` if one is given."""
import json
import os
import re
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    path = os.path.join(VERIF, 'DESIGN.md')
    with open(path) as f:
        s = f.read()
    head = '| bug | check | needs | breaks |\n|---|---|---|---|\n'
    i = s.index(head) + len(head)
    j = s.index('\n\nBesides', i)
    rows = []
    for d in sorted(os.listdir(os.path.join(VERIF, 'seeded'))):
        with open(os.path.join(VERIF, 'seeded', d, 'meta.json')) as f:
            m = json.load(f)
        rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'], m['what_it_breaks']))
    s = s[:i] + '\n'.join(rows) + s[j:]
    if len(sys.argv) > 1:
        cost = {}
        with open(sys.argv[1]) as f:
            for l in f:
                m = re.match(r'OK property=(\w+) .*wall=([\d.]+)s', l)
                if m:
                    cost[m[1]] = float(m[2])
        out = []
        for l in s.split('\n'):
            m = re.match(r'\| ([A-Z]\d\d) .*(\| \d+ s \|)$', l)
            if m and m[1] in cost:
                l = l[:len(l) - len(m[2])] + '| %d s |' % max(1, round(cost[m[1]]))
            out.append(l)
        s = '\n'.join(out)
    with open(path, 'w') as f:
        f.write(s)


if __name__ == '__main__':
    main()
