"""C13: symbol mappings, visibilities and regular expressions apply exactly.

World 1: all mapping files of up to two lines over exact and nearly right symbol
names and over targets that are the declaring header, other headers of the
program, mapped on or absent, all visibilities and all sets of headers already
included, for every kind of symbol.  World 2: all pairs of header patterns with
their visibilities and replacements against headers with similar names, in both
dialects.  The models are a table lookup and full matching.
"""
import itertools
import json
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                '..', 'lib'))
from harness import *  # noqa
import cxx

PROP = 'C13'
BATCH = 10
ARGS = ('-std=c++17', '-I.', '-Xiwyu', '--mapping_file=m.imp')
# kind: (declaration in the header, use, name, names that are not its name)
KINDS = {
    'class': ('struct W#C { int m; };', 'W#C w#v;', 'W#C',
              ('W#', '::W#C', 'W#CC', 'n::W#C', 'w#c', 'struct W#C', 'W#C*')),
    'nested': ('namespace n { namespace k { struct W#C { int m; }; } }',
               'n::k::W#C w#v;', 'n::k::W#C',
               ('W#C', 'k::W#C', 'n::W#C', 'n::k', 'n::k::', '::n::k::W#C')),
    'function': ('void w#f(int);', 'void w#r() { w#f(1); }', 'w#f',
                 ('w#', 'w#f(int)', '::w#f', 'n::w#f', 'W#F')),
    'macro': ('#define W#M 1', 'int w#v = W#M;', 'W#M',
              ('W#', '::W#M', 'W#M()', 'w#m')),
    'enum': ('enum W#E { w#e };', 'W#E w#v;', 'W#E', ('w#e', 'W#E::w#e', '::W#E')),
    'typedef': ('typedef int W#T;', 'W#T w#v;', 'W#T', ('int', 'W#', '::W#T')),
    'template': ('template <class T> struct W#P { T m; };', 'W#P<int> w#v;',
                 'W#P', ('W#P<int>', 'W#P<T>', 'W#', '::W#P')),
    'variable': ('extern int w#x;', 'int& w#v = w#x;', 'w#x', ('::w#x', 'w#')),
    'variable template': ('template <class T> T w#z = 1;', 'int w#v = w#z<int>;',
                          'w#z', ('w#z<int>', '::w#z')),
}
# own declares the symbol; pub and two include own; on is mapped to two.
HEADERS = ('own', 'pub', 'two', 'far')
INCLUDES = {'own': (), 'pub': ('own',), 'two': ('own',)}


def worlds(kinds, deep):
    res = []
    for kind in kinds:
        names = [('exact', 0)] + [('miss', i)
                                  for i in range(len(KINDS[kind][3]))]
        sym = [('s', n, t) for n in names for t in HEADERS]
        inc = [('i', 'own', 'two'), ('i', 'pub', 'two'), ('i', 'own', 'far')]
        tail = ('i', 'two', 'far')
        main = [l for l in sym if l[1] == ('exact', 0)] + inc
        misses = [l for l in sym if l[1] != ('exact', 0) and l[2] == 'pub']
        files = [(a,) for a in sym + inc] + list(itertools.product(main, repeat=2))
        files += [(m, a) for m in misses for a in main[:4]]
        # Chains of two includes, in any order.
        for a, b in itertools.product(main, inc):
            if a != b:
                files += [(a, b, tail), (tail, b, a)]
        if deep:
            files += list(itertools.product(main, repeat=3))
            files += [(a, m) for m in misses for a in main[:4]]
        for lines in files:
            named = sorted({x for l in lines for x in l[1 if l[0] == 'i' else 2:]})
            missed = any(l[0] == 's' and l[1] != ('exact', 0) for l in lines)
            for private in cxx.subsets(named) if not missed else [()]:
                for direct in cxx.subsets(('own', 'pub', 'two')) \
                        if not missed or deep else [('own',), ('pub',)]:
                    if direct:
                        res.append((kind, lines, private, direct))
    return res


def model(item):
    """(allowed, the ones that may be suggested if none is there)"""
    _, lines, private, _ = item

    def reach(start):
        res, todo = [], list(start)
        while todo:
            x = todo.pop(0)
            if x not in res:
                res.append(x)
                todo = [l[2] for l in lines if l[0] == 'i' and l[1] == x] + todo
        return [x for x in res if x not in private]
    targets = [l[2] for l in lines if l[0] == 's' and l[1] == ('exact', 0)]
    if targets:
        cands = reach(targets)
        if cands:
            first = {cands[0]} | set([t for t in targets if t in cands][:1])
            return cands, first
    cands = reach(['own'])
    return (cands, {cands[0]}) if cands else (['own'], {'own'})


def program(batch):
    files, lines, text, body = {}, [], '', ''
    for w, (kind, rules, private, direct) in enumerate(batch):
        name = lambda h: 'w%d_%s.h' % (w, h)
        fill = lambda s: s.replace('#', str(w)) if not s.startswith('#') else \
            '#' + s[1:].replace('#', str(w))
        decl, use, sym, misses = KINDS[kind]
        vis = lambda h: 'private' if h in private else 'public'
        for h, incs in INCLUDES.items():
            files[name(h)] = cxx.guard(name(h), ''.join(
                '#include "%s"\n' % name(i) for i in incs) +
                (fill(decl) if h == 'own' else '') + '\n')
        for l in rules:
            if l[0] == 's':
                n = sym if l[1][0] == 'exact' else misses[l[1][1]]
                lines.append({'symbol': [fill(n), 'private',
                                         '"%s"' % name(l[2]), vis(l[2])]})
            else:
                lines.append({'include': ['"%s"' % name(l[1]), vis(l[1]),
                                          '"%s"' % name(l[2]), vis(l[2])]})
        text += ''.join('#include "%s"\n' % name(d) for d in direct)
        body += fill(use) + '\n'
    files['t.cc'] = text + body
    files['m.imp'] = '[' + ',\n'.join(map(json.dumps, lines)) + ']\n'
    return files


def case(batch):
    try:
        return run_batch(batch)
    except Violation:
        for item in batch if len(batch) > 1 else ():
            run_batch((item,))
        raise


def run_batch(batch):
    files, args = program(batch), ARGS + ('t.cc',)
    rc, rep, out = cxx.analyse(files, args)
    f = rep.files['t.cc']
    gone, added = [r[0] for r in f.remove], f.adds()
    left = set(gone + added)
    for w, item in enumerate(batch):
        line = lambda h: '#include "w%d_%s.h"' % (w, h)
        allowed, firsts = model(item)
        direct = item[3]

        def fail(what):
            raise Violation('%s: %s (allowed: %s)' % (item[0], what, allowed), {
                'files': files, 'args': args, 'world': item,
                'report': f.summary(), 'output': out})
        left -= {line(h) for h in HEADERS}
        new = [h for h in HEADERS if line(h) in added]
        end = [h for h in direct if line(h) not in gone] + new
        if len(end) != 1 or end[0] not in allowed:
            fail('%s are included' % end)
        if new and set(allowed) & set(direct):
            fail('%s is added although there is %s' % (new, direct))
        if new and new[0] not in firsts:
            fail('%s is suggested and not the first' % new)
    if left:
        raise Violation('unexpected lines: %s' % sorted(left),
                        {'files': files, 'args': args, 'report': f.summary()})
    return len(batch)


# -- patterns ----------------------------------------------------------------
NAMES = ('a.h', 'ab.h', 'd/a.h', 'ba.h')
# pattern -> the same for Python
PATTERNS = ['"a\\.h"', '"a.*"', '".*a\\.h"', 'a\\.h', '"a', '"a\\.', '.*', '"a.h|"b.h"',
            '("a\\.h"|"d/a\\.h")', '"a.*|"b.h"', '"(.*)\\.h"', '"d/(.*)"', '^"a.*"$',
            '"[a-b]+\\.h"', '"a|"ab.h"', '"a\\.h$', '"ab?\\.h"', '"(a)(b)?.h"',
            '""', '"d.a.h"', '"A.h"', '<a.h>']
TARGETS = {'llvm': ['"pub.h"', '"x/\\1.h"', '"\\0"'],
           'ecmascript': ['"pub.h"', '"x/$1.h"', '"$$.h"']}


def replacement(dialect, target, m):
    group = lambda i: (m.group(i) or '') if i <= m.re.groups else ''
    if dialect == 'llvm':
        return re.sub(r'\\(\d)', lambda k: group(int(k.group(1))), target)
    return re.sub(r'\$(\$|\d)', lambda k: '$' if k.group(1) == '$' else
                  group(int(k.group(1))), target)


def pattern_case(item):
    dialect, rules, direct, pubs = item
    files = {n: cxx.guard(n, 'struct C%d { int m; };\n' % i)
             for i, n in enumerate(NAMES)}
    files['all.h'] = cxx.guard('all.h', ''.join(
        '#include "%s"\n' % n for n in NAMES))
    for p in pubs:
        files[p] = '#pragma once\n#include "all.h"\n'
    files['t.cc'] = '#include "all.h"\n' + ''.join(
        '#include "%s"\n' % p for p in pubs) + ''.join(
        '#include "%s"\n' % NAMES[d] for d in direct) + ''.join(
        'C%d v%d;\n' % (i, i) for i in range(len(NAMES)))
    files['m.imp'] = json.dumps([{'include': ['@' + p, 'private', t, 'public']}
                                 for p, t in rules])
    args = ARGS + ('-Xiwyu', '--regex=' + dialect, 't.cc')
    rc, rep, out = cxx.analyse(files, args)
    f = rep.files['t.cc']

    def fail(what):
        raise Violation('%s %s: %s' % (dialect, rules, what), {
            'files': files, 'args': args, 'report': f.summary(), 'output': out})
    gone, added = [r[0] for r in f.remove], f.adds()
    there = {'#include "%s"' % d for d in [NAMES[d] for d in direct] + list(pubs)}
    end = there - set(gone) | set(added)
    wanted = []
    for n in NAMES:
        quoted = '"%s"' % n
        hits = []
        for p, t in rules:
            m = re.fullmatch(p, quoted)
            if m and t != quoted:
                hits.append(replacement(dialect, t, m))
        wanted.append({h for h in hits} or {quoted})
    for n, w in zip(NAMES, wanted):
        if not {'#include ' + x for x in w} & end:
            fail('none of %s is included for %s' % (sorted(w), n))
    for e in end:
        if not any(e == '#include ' + x for w in wanted for x in w):
            fail('%s is included for no reason' % e)
    # What is there is not replaced by another header.
    for e in added:
        if not any(e in ['#include ' + x for x in w] and
                   not {'#include ' + x for x in w} & there
                   for w in wanted):
            fail('%s is added although there is another' % e)
    return 1


def main():
    c = Check(PROP)
    deep = TIER == 'thorough'
    items = worlds(KINDS, deep)
    # Neighbours in a batch are of different kinds.
    items = [x for k in range(len(items) // 97 + 1)
             for x in [items[i] for i in range(k, len(items),
                                               len(items) // 97 + 1)]]
    jobs = [tuple(items[k:k + BATCH]) for k in range(0, len(items), BATCH)]
    c.explore('symbols', case, jobs)
    pats = []
    for d in ('llvm', 'ecmascript'):
        single = [(p, t) for p in PATTERNS for t in TARGETS[d]
                  if valid(d, p, t)]
        for s in single:
            for direct in ((), (0,), (0, 1, 2, 3)):
                pats.append((d, (s,), direct, ()))
            pats.append((d, (s,), (), ('pub.h',)))
        plain = [s for s in single if s[1] == TARGETS[d][0]]
        other = [(p, '"two.h"') for p, _ in plain]
        for a, b in itertools.product(plain, other):
            if a[0] != b[0] or deep:
                pats.append((d, (a, b), (0, 1), ()))
            for pubs in (('two.h',), ('pub.h',), ('pub.h', 'two.h')):
                if a[0] == b[0] or pubs == ('two.h',) or deep:
                    pats.append((d, (a, b), (), pubs))
        if deep:
            for a, b, e in itertools.product(plain[:8], other[:8], single[:16]):
                pats.append((d, (a, b, e), (0, 2), ()))
    c.explore('patterns', pattern_case, pats)
    c.confirm_binding([(program(j), ARGS + ('t.cc',))
                       for j in jobs[::len(jobs) // 6]][:8])
    c.sample({'world': repr(jobs[-1][0])})
    c.finish(states=len(items) + len(pats), transitions=len(items) + len(pats),
             kinds=len(KINDS), patterns=len(PATTERNS))


def valid(dialect, p, t):
    """POSIX has no group 1 without a group 1."""
    groups = re.compile(p).groups
    if '1' in t and groups < 1:
        return False
    # A replacement must come out as a name in quotes.
    if '\\0' in t:
        return False
    return True


if __name__ == '__main__':
    main()
