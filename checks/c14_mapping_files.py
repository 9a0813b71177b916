"""C14: mapping files mean what they say, or are refused.

World 1: two mapping lines spread over three files that refer to each other in
every possible way (all 512 reference graphs), and over directories.  World 2: one
mapping in every layout the format allows, and every order of its lines.
World 3: every one-token mutation and every truncation of a mapping file.
"""
import functools
import itertools
import json
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                '..', 'lib'))
from harness import *  # noqa
import cxx

PROP = 'C14'
ARGS = ('-std=c++17', '-I.', '-Xiwyu', '--mapping_file=m.imp', 't.cc')
N = 3
PROGRAM = {'h%d.h' % i: cxx.guard('h%d.h' % i, 'struct C%d { int m; };\n' % i)
           for i in range(N)}
PROGRAM['t.cc'] = ''.join('#include "h%d.h"\n' % i for i in range(N)) + ''.join(
    'C%d v%d;\n' % (i, i) for i in range(N))
ENTRIES = [['include', ['"h0.h"', 'private', '"p0.h"', 'public']],
           ['symbol', ['C1', 'private', '"p1.h"', 'public']],
           ['include', ['"h2.h"', 'private', '"p2.h"', 'public']]]


def analyse(files, args=ARGS):
    """(indices of the headers that are replaced, output)"""
    files = dict(PROGRAM, **files)
    rc, rep, out = cxx.analyse(files, args, must_compile=False)
    if rc:
        raise Violation('the exit status is %d' % rc,
                        {'files': files, 'args': args, 'output': out})
    f = rep.files['t.cc']
    gone, added = [r[0] for r in f.remove], f.adds()
    res = []
    for i in range(N):
        there = '#include "h%d.h"' % i in gone
        if there != ('#include "p%d.h"' % i in added):
            raise Violation('header %d is neither replaced nor kept' % i,
                            {'files': files, 'args': args, 'output': out})
        if there:
            res.append(i)
    if len(gone) != len(res) or len(added) != len(res):
        raise Violation('unexpected lines',
                        {'files': files, 'args': args, 'output': out})
    return tuple(res), out


def must(files, want, why, args=ARGS, quiet=True):
    got, out = analyse(files, args)
    if got != tuple(want):
        raise Violation('%s: mappings %s apply instead of %s' %
                        (why, list(got), list(want)),
                        {'files': files, 'args': args, 'output': out})
    if quiet and re.search(r'error|Warning|Cannot', out):
        raise Violation('%s: complaint about a good file' % why,
                        {'files': files, 'args': args, 'output': out})
    return out


def entry(i):
    return {ENTRIES[i][0]: ENTRIES[i][1]}


# -- topologies --------------------------------------------------------------
def topology(item):
    edges, where = item
    names = ('m.imp', 'n.imp', 'o.imp')
    text = {}
    for f in range(3):
        objs = [entry(i) for i in range(2) if where[i] == f]
        refs = [{'ref': names[b]} for a, b in edges if a == f]
        # Refs before and after the entries.
        text[names[f]] = json.dumps(refs[:1] + objs + refs[1:])
    graph = {a: [b for x, b in edges if x == a] for a in range(3)}
    reached = cxx.reach(graph, {0})
    must(text, [i for i in range(2) if where[i] in reached], 'refs %s' % (edges,))
    return 1


DIRS = ('', 'd/', 'd/e/', 'f/')


def rel(frm, to):
    return os.path.relpath(to, frm or '.')


def placed(item):
    """m.imp -> a file -> another (or back), in any directories."""
    d0, d1, d2, style1, style2, shape = item
    paths = [d0 + 'm.imp', d1 + 'n.imp', d2 + 'o.imp']
    spell = lambda a, b, s: paths[b] if s == 'cwd' else \
        rel(os.path.dirname(paths[a]), paths[b])
    objs = [[entry(0)], [entry(1)], [entry(2)]]
    if shape == 'chain':
        objs[0].append({'ref': spell(0, 1, style1)})
        objs[1].append({'ref': spell(1, 2, style2)})
    elif shape == 'fork':
        objs[0].insert(0, {'ref': spell(0, 1, style1)})
        objs[0].append({'ref': spell(0, 2, style2)})
    else:
        objs[0].append({'ref': spell(0, 1, style1)})
        objs[1].insert(0, {'ref': spell(1, 2, style2)})
        objs[2].append({'ref': spell(2, 0, style1)})
    files = {p: json.dumps(o) for p, o in zip(paths, objs)}
    args = tuple('--mapping_file=' + paths[0] if a.startswith('--mapping') else a
                 for a in ARGS)
    must(files, (0, 1, 2), 'files %s' % paths, args)
    return 1


def shadow(item):
    """The current directory comes first, then that of the referring file."""
    here, there = item
    files = {'d/m.imp': json.dumps([{'ref': 'n.imp'}, entry(0)])}
    if here:
        files['n.imp'] = json.dumps([entry(1)])
    if there:
        files['d/n.imp'] = json.dumps([entry(2)])
    args = tuple('--mapping_file=d/m.imp' if a.startswith('--mapping') else a
                 for a in ARGS)
    want = [0] + ([1] if here else [2] if there else [])
    out = must(files, want, 'n.imp in %s' % (item,), args, quiet=here or there)
    if not (here or there) and 'n.imp' not in out:
        raise Violation('a missing ref is not diagnosed',
                        {'files': files, 'output': out})
    return 1


def lookup(item):
    """A chain of files in directories; the last one refers to leaf.imp, which is in
    some of the directories.  That of the referring file counts, unless there is
    one in the current directory."""
    dirs, there, spell = item
    files = {}
    paths = [d + 'f%d.imp' % i for i, d in enumerate(dirs)]
    for i, p in enumerate(paths[:-1]):
        files[p] = json.dumps([{'ref': rel(os.path.dirname(p), paths[i + 1])
                                if spell == 'referrer' else paths[i + 1]}])
    files[paths[-1]] = json.dumps([{'ref': 'leaf.imp'}])
    places = [d for d in dict.fromkeys(('',) + dirs)]
    # The entry that applies says which file was read.
    right = '' if '' in there else dirs[-1]
    for d in there:
        files[d + 'leaf.imp'] = json.dumps([entry(0 if d == right else 1)])
    args = tuple('--mapping_file=' + paths[0] if a.startswith('--mapping') else a
                 for a in ARGS)
    must(files, (0,), 'leaf.imp in %s' % (there,), args)
    return 1


# -- layouts -----------------------------------------------------------------
def layouts():
    q = json.dumps
    single = lambda s: "'%s'" % s.replace("'", "''")
    orders = list(itertools.permutations(range(N)))
    res = []
    seps = [', ', ',', ' ,\n', ',\n\n  ', ', # c\n', ' , ']
    for order in orders:
        for quote in (q, single):
            for sep in seps:
                for trail in ('', ',', ' ,\n'):
                    for key in ('%s: ', '%s : ', '%s:\n   '):
                        objs = []
                        for i in order:
                            k, v = ENTRIES[i]
                            objs.append('{ ' + key % quote(k) + '[' +
                                        sep.join(quote(x) for x in v) + trail +
                                        ']' + trail + ' }')
                        res.append('[' + sep.join(objs) + trail + ']\n')
    for order in orders:
        es = [ENTRIES[i] for i in order]
        flow = [q(dict([e])) for e in es]
        res.append('# c\n\n[\n  # c\n' + ',\n# c\n'.join(flow) + '\n# c\n]  # c\n')
        res.append('\n\n\n' + '[' + ','.join(flow) + ']')
        res.append('[\r\n' + ',\r\n'.join(flow) + '\r\n]\r\n')
        res.append('---\n[' + ','.join(flow) + ']\n')
        res.append('[' + ','.join(flow) + ']\n...\n')
        res.append('\ufeff[' + ','.join(flow) + ']\n')
        res.append(''.join('- ' + f + '\n' for f in flow))
        res.append(''.join('- %s: %s\n' % (k, q(v)) for k, v in es))
        res.append(''.join('- %s:\n%s' % (k, ''.join(
            '    - %s\n' % single(x) for x in v)) for k, v in es))
        # Bare words where YAML allows them.
        res.append('[' + ', '.join('{%s: [%s]}' % (k, ', '.join(
            x if re.fullmatch(r'\w+', x) else single(x) for x in v))
            for k, v in es) + ']')
        # Twice the same line.
        res.append('[' + ','.join(flow + flow) + ']')
    return list(dict.fromkeys(res))


def layout(text):
    must({'m.imp': text}, (0, 1, 2), 'layout')
    return 1


def options(item):
    kind, split = item
    objs = [[], []]
    for i, s in enumerate(split):
        objs[s].append(entry(i))
    files = {'m.imp': json.dumps(objs[0]), 'n.imp': json.dumps(objs[1])}
    give = {'eq': lambda m: ('-Xiwyu', '--mapping_file=' + m),
            'two': lambda m: ('-Xiwyu', '--mapping_file', '-Xiwyu', m),
            'short': lambda m: ('-Xiwyu', '-m', '-Xiwyu', m),
            'dot': lambda m: ('-Xiwyu', '--mapping_file=./' + m),
            'twice': lambda m: ('-Xiwyu', '--mapping_file=' + m) * 2,
            'bare': lambda m: ('-Xiwyu', '--mapping_file=' + m, '-Xiwyu',
                               '--no_default_mappings')}[kind]
    for order in (('m.imp', 'n.imp'), ('n.imp', 'm.imp')):
        args = ARGS[:2] + tuple(x for m in order for x in give(m)) + ('t.cc',)
        must(files, (0, 1, 2), 'options %s' % kind, args)
    return 2


# -- broken files ------------------------------------------------------------
GOOD = '[{"include":["@\\"h(0).h\\"","private","\\"p0.h\\"","public"]},' \
    '{"symbol":["C1","private","\\"p1.h\\"","public"]},{"ref":"n.imp"},]'
REST = {'n.imp': json.dumps([entry(2)])}
TOKEN = re.compile(r'"(?:\\.|[^"\\])*"|[\[\]{},:]')
VOCAB = ['[', ']', '{', '}', ',', ':', '"x"', '""', '1', 'null', '@', '"', "'",
         '[]', '{}', '"include"', '"symbol"', '"ref"', '"private"', '"public"',
         '"\\"h1.h\\""', '"<p3.h>"', '"@["', '"@("', '"n.imp"', '"m.imp"', '-', '\x00',
         '\xff', '|', '>', '*a', '&a', '!x', '?', '`', '---', '...', '#', '\t']


def mutations():
    toks = TOKEN.findall(GOOD)
    res = {}

    def add(new, at):
        res.setdefault(' '.join(new), at)
    for i in range(len(toks)):
        add(toks[:i] + toks[i + 1:], i)
        add(toks[:i] + [toks[i]] * 2 + toks[i + 1:], i)
        if i:
            add(toks[:i - 1] + [toks[i], toks[i - 1]] + toks[i + 1:], i - 1)
        for v in VOCAB:
            add(toks[:i] + [v] + toks[i + 1:], i)
            add(toks[:i] + [v] + toks[i:], i)
    for v in VOCAB:
        add(toks + [v], len(toks))
    full = ' '.join(toks)
    del res[full]
    res = [(t, sum(len(x) + 1 for x in toks[:a])) for t, a in res.items()]
    res += [(GOOD[:k], k) for k in range(len(GOOD))]
    res += [(GOOD[:k] + GOOD[k + 1:], k) for k in range(len(GOOD))]
    return sorted(set(res))


class Wrong(Exception):
    pass


def meaning(text):
    """The entries that apply; Wrong if the file is surely broken; None if only
    the YAML parser can tell."""
    bare = re.sub(r'"(?:\\.|[^"\\])*"', '', text)
    if "'" not in bare and '"' not in bare and '#' not in bare:
        depth = []
        for ch in bare:
            if ch in '[{':
                depth.append(ch)
            elif ch in ']}':
                if not depth or depth.pop() + ch not in ('[]', '{}'):
                    raise Wrong()
        if depth:
            raise Wrong()
    try:
        doc = json.loads(re.sub(r',(\s*[\]}])', r'\1', text) if ', ,' not in text
                         and ',,' not in text else text,
                         object_pairs_hook=lambda p: ('object', p))
    except ValueError:
        return None
    if not isinstance(doc, list):
        raise Wrong()
    res = set()
    for obj in doc:
        if not isinstance(obj, tuple):
            raise Wrong()
        for k, v in obj[1]:
            if k == 'ref':
                if not isinstance(v, (str, int, type(None))):
                    raise Wrong()
                if v == 'n.imp':
                    res.add(2)
                elif v != 'm.imp':
                    raise Wrong()
                continue
            if k not in ('include', 'symbol') or not isinstance(v, list) or \
                    len(v) != 4:
                raise Wrong()
            frm, fv, to, tv = v
            if any(isinstance(x, (list, tuple)) for x in (frm, to, tv)) or \
                    frm == '':
                raise Wrong()
            if tv not in ('private', 'public') or \
                    k == 'include' and fv not in ('private', 'public'):
                raise Wrong()
            quoted = lambda x: isinstance(x, str) and \
                re.fullmatch(r'".*"|<.*>', x)
            if not quoted(to):
                raise Wrong()
            if k == 'include' and not quoted(frm) and \
                    not str(frm).startswith('@'):
                raise Wrong()
            if str(frm).startswith('@') and k == 'include' and not valid(frm[1:]):
                raise Wrong()
            if isinstance(frm, str) and k == 'include' and to == '"p0.h"' and \
                    frm == '@"h(0).h"' and (fv, tv) == ('private', 'public'):
                res.add(0)
            elif (k, frm, to, tv) == ('symbol', 'C1', '"p1.h"', 'public'):
                res.add(1)
            elif (k, to, tv) == ('symbol', '"p1.h"', 'private') or \
                    (k, tv) == ('include', 'private'):
                return None
            elif frm not in ('x', 'C1', 'include', 'symbol', 'ref', 'private',
                             'public', 'n.imp', 'm.imp'):
                return None
            elif frm == 'C1':
                return None
    return res


def valid(pattern):
    try:
        re.compile(pattern)
        return bool(pattern)
    except re.error:
        return False


def broken(item):
    text, at = item
    files = dict(PROGRAM, **REST)
    files['m.imp'] = text
    why = 'mapping file'
    rc, rep, out = cxx.analyse(files, ARGS, must_compile=False)
    named = re.search(r'm\.imp:\d+:\d+: error|Cannot open mapping file', out)
    try:
        want = meaning(text)
    except Wrong:
        if not named:
            raise Violation('a broken mapping file is accepted silently',
                            {'files': files, 'args': ARGS, 'output': out})
        want = None
    if want is not None:
        must({'m.imp': text, **REST}, sorted(want), why)
    if rc:
        raise Violation('exit status %s' % rc, {'files': files, 'output': out})
    return bool(named)


def absent(item):
    name, files = item
    args = tuple('--mapping_file=' + name if a.startswith('--mapping') else a
                 for a in ARGS)
    got, out = analyse(files, args)
    if name not in out or got:
        raise Violation('a missing or empty mapping file is not diagnosed',
                        {'files': files, 'args': args, 'output': out})
    return 1


def contradiction(item):
    """Two lines about the visibility of one header."""
    kind, a, b, swap = item
    first = {'include': ['"h0.h"', a, '"p0.h"', 'public']}
    second = {'include': ['"h0.h"', b, '"p0.h"', 'public']} \
        if kind == 'include' else {'symbol': ['C9', 'private', '"h0.h"', b]}
    files = {'m.imp': json.dumps([second, first] if swap else [first, second])}
    rc, rep, out = cxx.analyse(dict(PROGRAM, **files), ARGS)
    if a == b:
        must(files, [0] if a == 'private' else [], 'visibilities', quiet=False)
    elif '"h0.h"' not in out.split('t.cc ')[0]:
        raise Violation('a contradiction is not diagnosed',
                        {'files': files, 'args': ARGS, 'output': out})
    return 1


def directive(text):
    files = dict(PROGRAM, **{'m.imp': text + '[]'})
    rc, out = box().iwyu(files, ARGS)
    if rc is None or rc < 0:
        raise Violation('the analysis dies of a mapping file',
                        {'files': files, 'args': ARGS}, key='yaml-directive')
    return 1


def main():
    c = Check(PROP)
    deep = TIER == 'thorough'
    pairs = list(itertools.product(range(3), repeat=2))
    c.explore('topologies', topology, [
        (e, w) for e in cxx.subsets(pairs)
        for w in itertools.product(range(3), repeat=2)
        if deep or w in ((0, 1), (1, 2), (2, 2), (2, 0))])
    c.explore('directories', placed, [
        (a, b, d, s, t, shape) for a in DIRS for b in DIRS for d in DIRS
        for s in ('cwd', 'referrer') for t in ('cwd', 'referrer')
        for shape in ('chain', 'fork', 'cycle')])
    c.explore('lookup', shadow, list(itertools.product((False, True), repeat=2)))
    chains = [(dirs, there, spell) for n in (1, 2, 3, 4)
              for dirs in itertools.product(('', 'd/', 'e/', 'd/g/'), repeat=n)
              for there in cxx.subsets(tuple(dict.fromkeys(('',) + dirs)))
              if {'', dirs[-1]} & set(there) for spell in ('cwd', 'referrer')
              if deep or n < 4 or dirs[0] == 'd/']
    c.explore('directories of referring files', lookup, chains)
    ls = layouts()
    c.explore('layouts', layout, ls)
    c.explore('options', options, [
        (k, s) for k in ('eq', 'two', 'short', 'dot', 'twice', 'bare')
        for s in itertools.product(range(2), repeat=N)])
    ms = mutations()
    named = c.explore('mutations', broken, ms)
    c.explore('absent', absent, [
        ('none.imp', {}), ('d', {'d/x.imp': '[]'}), ('d/none.imp', {}),
        ('m.imp', {'m.imp': ''}), ('m.imp', {'m.imp': '# nothing\n'})])
    c.explore('contradictions', contradiction, list(itertools.product(
        ('include', 'symbol'), ('private', 'public'), ('private', 'public'),
        (False, True))))
    c.explore('directives', directive, ['%', '%YAML 1.2\n---\n', '%TAG'])
    c.confirm_binding([(dict(PROGRAM, **{'m.imp': t}), ARGS)
                       for t in ls[::len(ls) // 5]])
    c.sample({'mutation': ms[len(ms) // 2][0]})
    c.finish(states=2 ** 9 + len(ls) + len(ms),
             transitions=sum(1 for n in named if n), layouts=len(ls),
             mutations=len(ms), refused=sum(1 for n in named if n))


if __name__ == '__main__':
    main()
