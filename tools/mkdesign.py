#!/usr/bin/env python3
"""Rewrites the generated parts of DESIGN.md: the line of each property, and the table of planted bugs

The table comes from tools/caught.txt (lines "<bug> <property> <what the check said>", written by plant.py runs)."""
import ast, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def rule(id):
    for n in ast.parse(open('%s/harness/props/%s.py' % (V, id.lower())).read()).body:
        if isinstance(n, ast.Assign) and n.targets[0].id == 'RULE':
            return ast.literal_eval(n.value)


def main():
    out = []
    for l in open(V + '/properties.jsonl'):
        p = json.loads(l)
        out.append('* **%s %s.** Quantifier: %s. Workload and oracle: %s' % (p['id'], p['title'], p['quantifier']['text'], rule(p['id'])))
    s = open(V + '/DESIGN.md').read()
    s = re.sub(r'(?s)\n\* \*\*C01 .*?\n(?=\n## )', lambda m: '\n' + '\n'.join(out) + '\n', s)
    said = {}
    for l in open(V + '/tools/caught.txt'):
        b, p, t = l.rstrip('\n').split(' ', 2)
        said[b] = t
    rows = ['| bug | property | needs | breaks | caught by |', '|---|---|---|---|---|']
    for b in sorted(os.listdir(V + '/seeded')):
        m = json.load(open('%s/seeded/%s/meta.json' % (V, b)))
        esc = lambda t: t.replace('|', '\\|').replace('\n', ' ')
        rows.append('| %s | %s | %s | %s | %s |' % (b, m['property'], esc(m['needs']), esc(m['what_it_breaks']), esc(said.get(b, '?'))))
    s = re.sub(r'(?s)<!-- seeded -->.*', lambda m: '<!-- seeded -->\n' + '\n'.join(rows) + '\n', s)
    open(V + '/DESIGN.md', 'w').write(s)


main()
