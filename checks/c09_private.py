"""C09: private headers are replaced by their public ones, except for friends.

World: three headers, each public, private, or private in favour of any other
header (chains, cycles, several at once), all include sets of the user, friend
patterns and places.  The model is reachability over the declared relations.
"""
import itertools
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                '..', 'lib'))
from harness import *  # noqa
import cxx

PROP = 'C09'
ARGS = ('-std=c++17', '-I.', 't.cc')
BODY = 'struct C# { int m; };\nvoid f#();\n#define M# 1\n'
USES = ['C# a;', 'void r() { f#(); }', 'int a = M#;']
TARGETS = ('p0', 'p1', 'p2', 'pub', 'pub2', 'far')
# Who includes whom.
INCLUDES = {'p0': (), 'p1': ('p0',), 'p2': ('p1',), 'pub': ('p2',),
            'pub2': ('p0',), 'all': ('p2', 'pub', 'pub2')}
POSITIONS = ('top', 'guard', 'includes', 'end', 'comment')


def header(name, rule, pos='guard', friends=()):
    """rule: None (public), () (private), or the names it is private for."""
    if rule is None:
        marks = ''
    elif rule == ():
        marks = '// IWYU pragma: private\n'
    else:
        marks = ''.join('// IWYU pragma: private, include "%s.h"\n' % t
                        for t in rule)
    marks += ''.join('// IWYU pragma: friend %s\n' % f for f in friends)
    if pos == 'comment':
        marks = re.sub('// (.*)\n', r'/* \1 */\n', marks)
    incs = ''.join('#include "%s.h"\n' % i for i in INCLUDES[name])
    body = BODY.replace('#define', '\1').replace('#', name).replace(
        '\1', '#define')
    text = cxx.guard(name + '.h', {
        'top': incs + body, 'guard': marks + incs + body,
        'comment': marks + incs + body,
        'includes': incs + marks + body, 'end': incs + body + marks}[pos])
    return marks + text if pos == 'top' else text


def final(rep, name, direct, fail, form='#include "%s.h"'):
    """(names included in the end, names added)"""
    f = rep.files[name]
    ids = {form % n: n for n in list(INCLUDES) + ['far', 't']}
    for l in f.adds() + [r[0] for r in f.remove]:
        if l not in ids:
            fail('unexpected line ' + l)
    gone = [ids[r[0]] for r in f.remove]
    added = [ids[l] for l in f.adds()]
    return [d for d in direct if d not in gone] + added, added


def candidates(rules, used, seen):
    """What may stand in for a header."""
    def rule(n):
        return rules.get(n) if n in seen else None
    graph = {n: rule(n) or () for n in rules}
    reached = set()
    todo = list(graph.get(used, ()))
    while todo:
        n = todo.pop()
        if n not in reached:
            reached.add(n)
            todo += graph.get(n, ())
    cand = {n for n in reached if rule(n) is None}
    if rule(used) is None:
        cand.add(used)
    if not cand:
        # Nothing public: any of the private ones will do.
        cand = reached | {used}
    return cand


def case(item):
    rules3, direct, used, use, pos, place = item
    rules = dict(zip(('p0', 'p1', 'p2'), rules3))
    files = {n + '.h': header(n, rules.get(n), pos) for n in INCLUDES}
    files['far.h'] = cxx.guard('far.h', 'int far;\n')
    text = ''.join('#include "%s.h"\n' % d for d in direct)
    text += USES[use].replace('#', used) + '\n'
    name = 't.cc'
    if place == 'header':
        name = 't.h'
        files['t.h'] = cxx.guard('t.h', text)
        files['t.cc'] = '#include "t.h"\n'
    else:
        files['t.cc'] = text
    rc, rep, out = cxx.analyse(files, ARGS)
    cxx.algebra(files, rep, ARGS)

    def fail(what):
        raise Violation('%s: %s' % (name, what), {
            'files': files, 'args': ARGS, 'candidates': sorted(cand),
            'report': rep.files[name].summary()})
    seen = cxx.reach(INCLUDES, direct)
    cand = candidates(rules, used, seen)
    end, added = final(rep, name, direct, fail)
    if len(end) != 1 or end[0] not in cand:
        fail('%s are included for %s' % (end, used))
    warned = 'No public header found' in out
    public = [n for n in cand if n not in seen or rules.get(n) is None]
    if public and cand & set(direct) and added:
        fail('an include is added although there is a suitable one')
    if warned and public or not warned and cand == {used} and not public:
        fail('warning about a missing public header: %s' % warned)
    return len(added)


# -- friends -----------------------------------------------------------------
# pattern as written -> what it has to match in full
FRIENDS = {
    't\\.cc': r'"(t\.cc)"', '"t\\.cc"': r'"t\.cc"', 't.*': r'"(t.*)"',
    '.*\\.h': r'"(.*\.h)"', 's/.*': r'"(s/.*)"', 'u\\.cc': r'"(u\.cc)"',
    't': r'"(t)"', '\\.cc': r'"(\.cc)"', 't\\.c': r'"(t\.c)"',
    'T\\.cc': r'"(T\.cc)"', 'u\\.cc|t\\.cc': r'"(u\.cc|t\.cc)"',
    't\\.cc|u\\.cc': r'"(t\.cc|u\.cc)"', '(t|u)\\.(cc|h)': r'"((t|u)\.(cc|h))"',
    '"t x"': r'"t x"', '<t\\.cc>': r'<t\.cc>', '.*': r'"(.*)"',
    's/t\\.h': r'"(s/t\.h)"', 't.cc': r'"(t.cc)"', '"t.cc"': r'"t.cc"',
    's/t.h': r'"(s/t.h)"', 't x': r'"(t x)"', '.*/t\\.cc': r'"(.*/t\.cc)"',
}


def friend_case(item):
    friends, where, direct, style = item
    files = {n + '.h': header(n, ('pub',) if n == 'p0' else None, 'guard',
                              friends if n == 'p0' else ())
             for n in ('p0', 'pub', 'p1', 'p2')}
    form = '#include "%s.h"'
    text = ''.join('#include "%s.h"\n' % d for d in direct) + 'Cp0 a;\n'
    main = where if where.endswith('.cc') else where[:-1] + 'cc'
    d = os.path.dirname(where) + '/' if '/' in where else ''
    if style == 'relative':
        files = {d + k: v for k, v in files.items()}
    if main != where:
        files[where] = cxx.guard(where, text)
        files[main] = '#include "%s"\n' % os.path.basename(where)
    else:
        files[main] = text
    args = ('-std=c++17', '-I.', main)
    rc, rep, out = cxx.analyse(files, args)
    cxx.algebra(files, rep, args)
    is_friend = any(re.fullmatch(FRIENDS[f], '"%s"' % where) for f in friends)

    def fail(what):
        raise Violation('%s: %s' % (where, what), {
            'files': files, 'args': args, 'friend': is_friend,
            'report': rep.files[where].summary()})
    f = rep.files[where]
    private = ['#include "p0.h"', '#include "%sp0.h"' % d]
    gone = [r[0] for r in f.remove]
    stays = [x for x in ['#include "%s.h"' % x for x in direct] if x not in gone]
    end = stays + f.adds()
    if is_friend and 'p0' in direct:
        if end != ['#include "p0.h"']:
            fail('a friend has to include %s' % end)
    elif is_friend:
        if len(end) != 1 or end[0] not in private + ['#include "pub.h"']:
            fail('a friend has to include %s' % end)
    else:
        if len(end) != 1 or end[0] != '#include "pub.h"':
            fail('a stranger has to include %s' % end)
    return is_friend


def two_friends_case(item):
    """Two private headers with friends of their own."""
    f0, f1, where, direct = item
    fs = {'p0': f0, 'p1': f1}
    files = {n + '.h': header(n, ('pub',) if n in fs else None, 'guard',
                              fs.get(n, ()))
             for n in ('p0', 'pub', 'p1', 'p2')}
    text = ''.join('#include "%s.h"\n' % d for d in direct) + 'Cp0 a;\nCp1 b;\n'
    main = where if where.endswith('.cc') else where[:-1] + 'cc'
    if main != where:
        files[where] = cxx.guard(where, text)
        files[main] = '#include "%s"\n' % os.path.basename(where)
    else:
        files[main] = text
    args = ('-std=c++17', '-I.', main)
    rc, rep, out = cxx.analyse(files, args)
    cxx.algebra(files, rep, args)
    f = rep.files[where]
    gone = [r[0] for r in f.remove]
    end = {x for x in ['#include "%s.h"' % x for x in direct]
           if x not in gone} | set(f.adds())
    want = set()
    for p in fs:
        ok = any(re.fullmatch(FRIENDS[x], '"%s"' % where) for x in fs[p])
        want.add('#include "%s.h"' % (p if ok else 'pub'))
    if end != want:
        raise Violation('%s: has to include %s instead of %s' % (
            where, sorted(end), sorted(want)), {
                'files': files, 'args': args, 'report': f.summary()})
    return len(want)


# -- directories called internal ---------------------------------------------
def internal_case(item):
    sub, where, direct, used = item
    h = sub + '/p.h'
    files = {h: cxx.guard('p.h', 'struct P {};\n'),
             's/pub.h': cxx.guard('pub.h', '#include "%s"\n' % h),
             'o/pub.h': cxx.guard('opub.h', '#include "s/pub.h"\n')}
    names = {'p': h, 'pub': 's/pub.h', 'opub': 'o/pub.h'}
    files[where] = ''.join('#include "%s"\n' % names[d] for d in direct) + \
        'P a;\n'
    args = ('-std=c++17', '-I.', where)
    rc, rep, out = cxx.analyse(files, args)
    cxx.algebra(files, rep, args)
    f = rep.files[where]
    gone = [r[0] for r in f.remove]
    end = [x for x in ['#include "%s"' % names[d] for d in direct]
           if x not in gone] + f.adds()
    private = 'internal' in sub.split('/')
    is_friend = private and where.startswith(sub[:sub.index('internal')])
    if private and not is_friend:
        # Whoever includes it directly counts as one of its public headers.
        ok = set(end) - {'#include "%s"' % h} == {'#include "s/pub.h"'} or (
            end == ['#include "%s"' % h])
        ok = ok and ('p' in direct or len(end) == 1 and 'pub' in end[0])
    elif is_friend and 'p' not in direct:
        ok = end in (['#include "%s"' % h], ['#include "s/pub.h"'])
    else:
        ok = end == ['#include "%s"' % h]
    if not ok:
        raise Violation('%s has to include %s' % (where, end), {
            'files': files, 'args': args, 'friend': is_friend,
            'report': f.summary()})
    return is_friend


# -- headers that name the header to include instead ---------------------------
# (the part after the file name, the public headers it names)
NAMES = {
    '@file p.h\n *  @headername{pub.h}': ('pub',),
    '@file p.h\n *  Do not use @headername{pub.h}': ('pub',),
    '@file p.h\n *  @headername{pub.h,pub2.h}': ('pub', 'pub2'),
    '@file p.h\n *  @headername{pub.h, pub2.h}': ('pub', 'pub2'),
    '@file p.h\n *  @headername{ pub2.h , pub.h }': ('pub2', 'pub'),
    '@file\n *  @headername{pub2.h}': ('pub2',),
    '@headername{pub.h}': (), '@file p.h\n * headername{pub.h}': (),
    '@headername{pub2.h}\n * @file p.h\n * @headername{pub.h}': ('pub',),
    '@file p.h\n * @headername{pub.h}\n * @headername{pub2.h}': ('pub',),
}


def headername_case(item):
    text, direct, system = item
    public = NAMES[text]
    d = 'y/'
    files = {d + 'p.h': '/** %s\n */\n' % text + cxx.guard(
        'p.h', 'struct P {};\n')}
    for h in ('pub', 'pub2'):
        files[d + h + '.h'] = cxx.guard(h, '#include <p.h>\n')
    files[d + 'all.h'] = cxx.guard('all', '#include "pub.h"\n#include "pub2.h"\n')
    form = '#include <%s.h>' if system else '#include "%s.h"'
    files['t.cc'] = ''.join(form % h + '\n' for h in direct) + 'P a;\n'
    args = ('-std=c++17',) + ('-isystem' if system else '-I', 'y', 't.cc')
    rc, rep, out = cxx.analyse(files, args)
    cxx.algebra(files, rep, args)
    f = rep.files['t.cc']
    gone = [r[0] for r in f.remove]
    end = [x for x in [form % d for d in direct] if x not in gone] + f.adds()
    allowed = [form % h for h in public or ('p',)]
    if len(end) != 1 or end[0] not in allowed or \
            set(allowed) & {form % d for d in direct} and f.adds():
        raise Violation('t.cc has to include %s' % end, {
            'files': files, 'args': args, 'allowed': allowed,
            'report': f.summary()})
    return 1


# -- the public header itself ------------------------------------------------
def facade_case(item):
    rules3, facade, incs, place = item
    rules = dict(zip(('p0', 'p1', 'p2'), rules3))
    files = {n + '.h': header(n, rules.get(n)) for n in INCLUDES}
    files[facade + '.h'] = cxx.guard(facade + '.h', ''.join(
        '#include "%s.h"\n' % i for i in incs))
    if place == 'checked':
        files['t.cc'] = '#include "%s.h"\n' % facade
        args = ('-std=c++17', '-I.', '-Xiwyu', '--check_also=*%s.h' % facade,
                't.cc')
    else:
        files[facade + '.cc'] = '#include "%s.h"\n' % facade
        args = ('-std=c++17', '-I.', facade + '.cc')
    rc, rep, out = cxx.analyse(files, args)
    seen = cxx.reach(dict(INCLUDES, **{facade: incs}), [facade])
    graph = {n: (r if n in seen and r else ()) for n, r in rules.items()}
    want = set()
    for i in incs:
        if facade in cxx.reach(graph, graph.get(i, ())):
            want.add('#include "%s.h"' % i)
    cxx.verdict(files, facade + '.h', rep, want, args)
    return len(want)


def main():
    c = Check(PROP)
    deep = TIER == 'thorough'
    rules = [None, ()] + [(t,) for t in TARGETS] + [('pub', 'pub2')]
    few = [None, (), ('p1',), ('p2',), ('pub',), ('pub', 'far')]
    directs = [d for d in cxx.ordered_subsets(
        ['p0', 'p1', 'p2', 'pub', 'pub2', 'all'], 2 if not deep else 3)
        if d and 'p0' in cxx.reach(INCLUDES, d)]
    one = [('all',), ('pub',), ('pub2', 'p0'), ('p0', 'p2'), ('p2',), ('p0',)]
    items = []
    for r in itertools.product(rules, repeat=3):
        for d in (directs if deep else one):
            items.append((r, d, 'p0', 0, 'guard', 'source'))
    for r in itertools.product(few, repeat=3):
        for d in (directs if deep else directs[:16]):
            items.append((r, d, 'p0', 0, 'guard', 'source'))
    for r in itertools.product(few, repeat=3):
        for d in one[:4]:
            for p in ('source', 'header'):
                if 'p1' in cxx.reach(INCLUDES, d):
                    items.append((r, d, 'p1', 1, 'guard', p))
    for r in ((('pub',), None, None), (('p1',), ('pub',), None), ((), (), ())):
        for d in directs:
            for u in range(3):
                for p in POSITIONS:
                    items.append((r, d, 'p0', u, p, 'header'))
    items = list(dict.fromkeys(items))
    r1 = c.explore('relations', case, items)
    fr, fr2 = [], []
    for n in (1, 2):
        for fs in itertools.permutations(FRIENDS, n):
            if n == 2 and not deep and not {'t\\.cc', 'u\\.cc', '.*\\.h'} & \
                    set(fs):
                continue
            for where in ('t.cc', 't.h', 's/t.cc', 's/t.h', 's/x.cc'):
                for d in [('p0',), ('pub',), ('p0', 'pub'), ('pub', 'p0')]:
                    if n == 2 and d not in (('p0',), ('pub', 'p0')):
                        continue
                    fr.append((fs, where, d, 'reachable'))
            for where in ('s/t.cc', 's/t.h'):
                if n == 1:
                    fr.append((fs, where, ('p0',), 'relative'))
    r2 = c.explore('friends', friend_case,
                   [f for f in fr if f[3] == 'reachable' or any(
                       re.fullmatch(FRIENDS[x], '"%s"' % f[1]) for x in f[0])])
    sets = [()] + [(x,) for x in ('t\\.cc', '"t\\.cc"', 't.*', 's/t\\.h', 's/.*',
                                  '.*\\.h', 't x', 'u\\.cc', 't\\.cc|u\\.cc',
                                  '.*', 't.cc', '"t.cc"', 's/t.h')]
    for f0, f1 in itertools.product(sets, repeat=2):
        for where in ('t.cc', 't.h', 's/t.cc', 's/t.h'):
            for d in (('p0', 'p1'), ('p1', 'p0'), ('pub', 'p0', 'p1')):
                if deep or len(d) == 2:
                    fr2.append((f0, f1, where, d))
    c.explore('friends of two headers', two_friends_case, fr2)
    internal = [(sub, where, d, 0)
                for sub in ('s/internal', 'internal', 's/internals', 'o/internal',
                            's/k/internal', 's/internal/k', 's/myinternal',
                            's/internal/k/internal', 's/k/internal/internal')
                for where in ('s/t.cc', 't.cc', 'o/t.cc', 's/k/t.cc',
                              's/internal/t.cc', 's/internal/k/t.cc')
                for d in cxx.ordered_subsets(['p', 'pub', 'opub']) if d]
    r3 = c.explore('internal', internal_case, internal)
    named = [(t, d, s) for t in NAMES for s in (False, True)
             for d in cxx.ordered_subsets(['p', 'pub', 'pub2', 'all'],
                                          3 if deep else 2) if d]
    c.explore('named headers', headername_case, named)
    fac = [(r, f, i, p) for r in itertools.product(few, repeat=3)
           for f in ('pub', 'far') for i in (('p0',), ('p1',), ('p0', 'p2'),
                                             ('p2', 'p1', 'p0'))
           for p in (('checked', 'associated') if deep else ('checked',))]
    r4 = c.explore('facades', facade_case, fac)
    c.confirm_binding([(dict({n + '.h': header(n, dict(zip(
        ('p0', 'p1', 'p2'), i[0])).get(n)) for n in INCLUDES}, **{
            't.cc': '#include "all.h"\nCp0 a;\n'}), ARGS)
        for i in items[::301]][:8])
    c.sample({'p0, p1, p2 are private for': items[-1][0],
              'includes': items[-1][1]})
    n = len(items) + len(fr) + len(fr2) + len(named) + len(internal) + len(fac)
    c.finish(states=n, transitions=n, relations=len(rules) ** 3,
             friends=len(FRIENDS), friendly=sum(1 for r in r2 if r))


if __name__ == '__main__':
    main()
