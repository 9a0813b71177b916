"""C18: suggested include lines are spelled so that they find the header.

World 1 (suggestions): every list of up to two (deep: three) search options of the
kinds -I, -iquote, -isystem, -idirafter over five directories, some inside others x
where the source is x where the header is x where another header of that name is x
how the header in between spells it.  Every line the report adds is resolved by the
documented search rules (a model confirmed against the compiler), and has to find
the header that is meant.
World 2 (written): the header is already included, in each spelling that finds it,
once or twice: it stays under the first of them and is listed once.
"""
import itertools
import os
import posixpath
import re
import subprocess
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                '..', 'lib'))
from harness import *  # noqa
import cxx
import report

PROP = 'C18'
DIRS = ('.', 'i', 'i/l', 's', 'y')
KINDS = ('-I', '-iquote', '-isystem', '-idirafter')
OPTS = [(k, d) for k in KINDS for d in DIRS]


def norm(p):
    return posixpath.normpath(p)


def chain(opts):
    """(quote chain, bracket chain, system directories) as the compiler builds
    them: duplicates are dropped, a system directory beats a user directory."""
    quote = [d for k, d in opts if k == '-iquote']
    user = [d for k, d in opts if k == '-I']
    system = [d for k, d in opts if k == '-isystem'] + \
        [d for k, d in opts if k == '-idirafter']
    user = [d for d in user if d not in system]
    first = lambda ds: list(dict.fromkeys(ds))
    return first(quote), first(user) + first(system), set(system)


def resolve(line, includer, opts, files):
    """The file that an include line in `includer` finds, or None."""
    m = re.match(r'#include ([<"])(.*)[>"]$', line)
    angle, name = m.group(1) == '<', m.group(2)
    if name.startswith('/'):
        return name
    quote, rest, _ = chain(opts)
    dirs = ([] if angle else [posixpath.dirname(includer) or '.'] + quote) + rest
    for d in dirs:
        p = norm(posixpath.join(d, name))
        if p in files:
            return p
    return None


def same(found, target):
    return found is not None and (found == target or found.startswith('/') and
                                  found.endswith('/' + target))


def spellings(target, includer, opts, files):
    """All lines that find the target from `includer`: through each directory of
    the search path, relative to the includer, and with a detour."""
    res = []
    cands = []
    for d in DIRS:
        rel = posixpath.relpath(target, d)
        if not rel.startswith('..'):
            cands.append(rel)
    rel = posixpath.relpath(target, posixpath.dirname(includer) or '.')
    cands += [rel, './' + rel]
    for c in dict.fromkeys(cands):
        for q in ('"%s"', '<%s>'):
            l = '#include ' + q % c
            if resolve(l, includer, opts, files) == target:
                res.append(l)
    return res


def usual(target, src, opts, files):
    """The line by the rule that the deepest search directory names a header."""
    quote, rest, system = chain(opts)
    dirs = [d for d in quote + rest if any(
        d == '.' or f.startswith(d + '/') for f in files)]
    inside = [d for d in dirs if d == '.' or target.startswith(d + '/')]
    if inside:
        d = max(inside, key=lambda d: 0 if d == '.' else len(d))
        name = target if d == '.' else target[len(d) + 1:]
        return '#include ' + ('<%s>' if d in system else '"%s"') % name
    return None


def fixed_args(opts, src):
    res = ['-std=c++17']
    for k, d in opts:
        res += [k + d] if k == '-I' else [k, d]
    return tuple(res + [src])


def program(item):
    opts, src, target, decoy, how = item
    files = {target: cxx.guard('target', 'struct T { int m; };\n')}
    if decoy:
        files[decoy] = cxx.guard('decoy', 'struct U { int m; };\n')
    sdir = posixpath.dirname(src)
    via = posixpath.join(sdir, 'via.h')
    files[src] = files[via] = ''
    sp = spellings(target, via, opts, files)
    if how >= len(sp):
        return None
    files[via] = '#pragma once\n%s\n' % sp[how]
    return files, via


def suggest(item):
    opts, src, target, decoy, how = item
    r = program(item)
    if r is None:
        return 0
    files, via = r
    files[src] = '#include "via.h"\nT v;\n'
    args = fixed_args(opts, src)
    rc, rep, out = cxx.analyse(files, args)
    f = rep.files[src]
    adds = f.adds()
    rm = [t for t, _, _ in f.remove]
    if len(adds) != 1 or rm != ['#include "via.h"']:
        raise Violation('one line should be added and one removed', {
            'files': files, 'args': args, 'report': f.summary()})
    found = resolve(adds[0], src, opts, files)
    if not same(found, target):
        raise Violation('the suggested line finds %s' % (
            'nothing' if found is None else 'another header'), {
                'files': files, 'args': args, 'line': adds[0], 'found': found,
                'meant': target},
            # (Known: the usual line, although a header in front shadows it.)
            key='shadowed' if decoy and found == decoy and
            adds[0] == usual(target, src, opts, files) else None)
    angle = '<' in adds[0]
    name = adds[0][10:-1]
    if not name.startswith('/'):
        system = chain(opts)[2]
        where = norm(target[:-len(name)] or '.')
        if angle != (where in system):
            raise Violation('the delimiters do not fit the search path',
                            {'files': files, 'args': args, 'line': adds[0]})
    return 1


def standin(item):
    """The header is found through the public one that includes it."""
    opts, src, place, how = item
    hidden = norm(posixpath.join(place, 'internal/p.h'))
    pub = norm(posixpath.join(place, 'pub.h'))
    via = posixpath.join(posixpath.dirname(src), 'via.h')
    files = {hidden: cxx.guard('hidden', 'struct T { int m; };\n'), pub: '', via: '',
             src: ''}
    files[pub] = cxx.guard('pub', '#include "internal/p.h"\n')
    sp = spellings(pub, via, opts, files)
    if how >= len(sp):
        return 0
    files[via] = '#pragma once\n%s\n' % sp[how]
    files[src] = '#include "via.h"\nT v;\n'
    args = fixed_args(opts, src)
    rc, rep, out = cxx.analyse(files, args)
    f = rep.files[src]
    adds = f.adds()
    rm = [t for t, _, _ in f.remove]
    if len(adds) != 1 or rm != ['#include "via.h"']:
        raise Violation('one line should be added and one removed', {
            'files': files, 'args': args, 'report': f.summary()})
    found = resolve(adds[0], src, opts, files)
    if not same(found, pub) and not same(found, hidden):
        raise Violation('the suggested line finds %s' % (
            'nothing' if found is None else 'another header'), {
                'files': files, 'args': args, 'line': adds[0], 'found': found,
                'meant': pub})
    if adds[0][10] == '/':
        # As long as there is a relative name, nobody wants the absolute one.
        sdir = posixpath.dirname(src)
        inside = [d for d in sum(map(list, chain(opts)[:2]), [sdir])
                  if d in ('', '.') or pub.startswith(d + '/')]
        if inside:
            raise Violation('an absolute path is suggested', {
                'files': files, 'args': args, 'line': adds[0]})
    return 1


def written(item):
    opts, src, target, decoy, used, picks = item
    files = {target: cxx.guard('target', 'struct T { int m; };\n')}
    if decoy:
        files[decoy] = cxx.guard('decoy', 'struct U { int m; };\n')
    files[src] = ''
    sp = spellings(target, src, opts, files)
    if any(p >= len(sp) for p in picks):
        return 0
    lines = [sp[p] for p in picks]
    files[src] = ''.join(l + '\n' for l in lines) + (
        {'full': 'T v;\n', 'fwd': 'T* v;\n', 'none': ''}[used])
    args = fixed_args(opts, src)
    rc, rep, out = cxx.analyse(files, args)
    cxx.algebra(files, rep, args)
    f = rep.files[src]
    rm = {(t, a) for t, a, _ in f.remove}
    left = [(t, n) for t, n in cxx.lines_of(files[src]) if (t, n) not in rm]
    adds = f.adds()
    if used == 'full':
        ok = len(left) == 1 and not adds and left[0][0] in lines
    elif used == 'none':
        ok = not left and not adds
    else:
        ok = not left and adds == ['struct T;']
    if not ok:
        raise Violation('the included header is %s' % (
            'listed more than once' if len(left) + len(adds) > 1 else
            'not treated by its use'), {
                'files': files, 'args': args, 'report': f.summary()})
    return 1


def confirm_model(items):
    """The compiler agrees with resolve()."""
    bad = 0
    work = os.path.join(scratch_root(), 'model')
    n = 0
    for item in items:
        opts, src, target, decoy = item[:4]
        files = {target: '#define FOUND target\n', src: ''}
        if decoy:
            files[decoy] = '#define FOUND decoy\n'
        names = ['h.h', 'l/h.h', 'i/h.h', 's/h.h', './h.h', '../h.h', '../i/h.h']
        for name in names:
            for q in ('"%s"', '<%s>'):
                n += 1
                d = os.path.join(work, str(n))
                for f, t in files.items():
                    os.makedirs(os.path.join(d, os.path.dirname(f)),
                                exist_ok=True)
                    if f != src:
                        with open(os.path.join(d, f), 'w') as h:
                            h.write(t)
                for x in DIRS:
                    os.makedirs(os.path.join(d, x), exist_ok=True)
                line = '#include ' + q % name
                with open(os.path.join(d, src), 'w') as h:
                    h.write(line + '\nFOUND\n')
                p = subprocess.run(['clang', '-E', '-P', '-nostdinc'] +
                                   list(fixed_args(opts, src))[1:], cwd=d,
                                   stdout=subprocess.PIPE,
                                   stderr=subprocess.DEVNULL, text=True)
                got = p.stdout.strip() if p.returncode == 0 else None
                found = resolve(line, src, opts, set(files))
                want = {target: 'target', decoy: 'decoy', None: None}[found]
                if got != want:
                    raise SystemExit('model of the search rules is wrong: %s %s: '
                                     '%s, %s' % (opts, line, got, want))
    return n


def main():
    c = Check(PROP)
    deep = TIER == 'thorough'
    lists = [p for n in range(0, 4 if deep else 3)
             for p in itertools.permutations(OPTS, n)]
    if deep:
        # Three options: at least two kinds, no directory three times.
        lists = [l for l in lists if len(l) < 3 or
                 len({d for _, d in l}) > 1 and '-idirafter' not in
                 {k for k, _ in l}]
    targets = [norm(posixpath.join(d, 'h.h')) for d in DIRS]
    items = []
    for opts in lists:
        for src in ('t.cc', 's/t.cc'):
            for t in targets:
                decoys = [None] + [x for x in targets if x != t]
                if not deep and len(opts) == 2:
                    decoys = decoys[:1]
                for d in decoys:
                    for how in range(6 if deep and len(opts) < 3 else 2):
                        item = (opts, src, t, d, how)
                        if program(item):
                            items.append(item)
    c.explore('suggestions', suggest, items)
    stand = [(opts, src, p, how) for opts in lists if deep or len(opts) < 2 or
             '.' in {d for _, d in opts} for src in ('t.cc', 's/t.cc')
             for p in DIRS for how in (0, 1)]
    c.explore('stand-ins', standin, stand)
    writ = [(opts, src, t, d, used, picks)
            for opts in lists if len(opts) < (3 if deep else 2)
            for src in ('t.cc', 's/t.cc') for t in targets
            for d in [None] + ([x for x in targets if x != t][:2] if deep else [])
            for used in ('full', 'fwd', 'none')
            for picks in [(i,) for i in range(5)] +
            list(itertools.product(range(4), repeat=2))]
    writ = [w for w in writ if max(w[5]) < len(spellings(
        w[2], w[1], w[0], {w[2]: 1, w[1]: 1, **({w[3]: 1} if w[3] else {})}))]
    c.explore('written', written, writ)
    n = confirm_model([i for i in items[::len(items) // 12]])
    f, via = program(items[-1])
    f[items[-1][1]] = '#include "via.h"\nT v;\n'
    c.confirm_binding([(f, fixed_args(items[-1][0], items[-1][1]))])
    c.sample({'args': fixed_args(items[-1][0], items[-1][1]), 'files': f})
    c.finish(states=len(lists), transitions=len(items) + len(writ) + len(stand),
             search_paths=len(lists), model_lookups_confirmed=n)


if __name__ == '__main__':
    main()
