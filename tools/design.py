"""Writes the per-property part of DESIGN.md (between the markers) from
tools/design_sections.py and properties.jsonl."""
import json
import os
import textwrap
from design_sections import S

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BEGIN, END = '<!-- properties: begin -->\n', '<!-- properties: end -->\n'


def main():
    m = json.load(open(V + '/MANIFEST.json'))
    na = {x['property']: x['reason'] for x in m['not_applicable']}
    out = ''
    for line in open(V + '/properties.jsonl'):
        p = json.loads(line)
        out += '### %s — %s\n\n' % (p['id'], p['title'])
        if p['id'] in na:
            out += textwrap.fill('Not claimed: ' + na[p['id']], 80) + '\n\n'
            continue
        how, oracle, why, limits = S[p['id']]
        for k, v in (('Enumerated', how), ('Right is', oracle),
                     ('Beyond tests', why), ('Limits', limits)):
            if v:
                out += textwrap.fill('*%s:* %s' % (k, v), 80) + '\n\n'
    t = open(V + '/DESIGN.md').read()
    a, b = t.index(BEGIN) + len(BEGIN), t.index(END)
    open(V + '/DESIGN.md', 'w').write(t[:a] + '\n' + out + t[b:])


if __name__ == '__main__':
    main()
