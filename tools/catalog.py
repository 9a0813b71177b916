"""The single source of properties.jsonl and MANIFEST.json (run me to rewrite both)."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, observe,
         check=None, technique='', level_note='', level='model_checking',
         na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  qtext=qtext, why=why, files=files, mechanism=mechanism,
                  observe=observe, check=check, technique=technique,
                  level_note=level_note, level=level, na=na, state=state))


TRUST = (' Trusted: the reference model (lib/, checks/), the Clang 20 libraries '
         'and the build overlay (one copied Clang header; validated by IWYU\'s '
         'own 213 acceptance tests).')
PYTRUST = (' Trusted: the reference model in the check and CPython; the real '
           'script from /repo is imported or executed unchanged.')

exec(open(os.path.join(VERIF, 'tools', 'entries.py')).read())


def main():
    with open(VERIF + '/properties.jsonl', 'w') as f:
        for p in P:
            anchors = {
                'files': p['files'],
                'mechanism': [{'name': n, 'where': w}
                              for n, w in p['mechanism']],
                'observe_at': p['observe'],
                'hook_needed': None,
            }
            if p['state']:
                anchors['state'] = [dict(name=a, meaning=b, where=c)
                                    for a, b, c in p['state']]
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'],
                'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['qtext']},
                'why_tests_cant': p['why'],
                'anchors': anchors}) + '\n')
    checks, na = [], []
    for p in P:
        path = VERIF + '/checks/%s.py' % (p['check'] or '')
        if p['na']:
            na.append({'property': p['id'], 'reason': p['na']})
        elif not os.path.exists(path):
            na.append({'property': p['id'],
                       'reason': 'check not built yet (work in progress)'})
        else:
            checks.append({
                'property': p['id'],
                'quick_cmd': 'VERIF_TIER=quick python3 checks/%s.py' % p['check'],
                'thorough_cmd':
                    'VERIF_TIER=thorough python3 checks/%s.py' % p['check'],
                'evidence_file': 'evidence/%s.json' % p['id'],
                'technique': p['technique'],
                'level': p['level'],
                'level_note': p['level_note'],
            })
    manifest = {
        'version': 1,
        'setup_cmd': 'python3 tools/setup.py',
        'hooks': {'guard': 'IWYU_VERIF_HOOKS',
                  'enable': 'No hooks were needed: the checks build /repo '
                            'unmodified and the define is used nowhere.',
                  'source_commits': []},
        'checks': checks,
        'not_applicable': na,
        'notes': 'All checks enumerate a finite space completely and run the '
                 'real code on every case; see DESIGN.md. No check samples.',
    }
    with open(VERIF + '/MANIFEST.json', 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')
    print('%d properties, %d checks, %d not claimed' %
          (len(P), len(checks), len(na)))


if __name__ == '__main__':
    main()
