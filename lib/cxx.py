"""Small C++ programs, their analysis by the real program, and what every report
must look like whatever the program."""
import itertools
import re

import report
from harness import Violation, box

INC = re.compile(r'^\s*#\s*include\s*([<"][^>"]+[>"])')
FWD = re.compile(r'^((?:namespace \w+ \{ )*(?:template ?<[^>]*> )?'
                 r'(?:class|struct|union|enum(?: class)?) \w+(?: : \w+(?: \w+)*)?;(?: \})*)'
                 r'\s*(?://.*)?$')


def lines_of(text):
    """[(printed form, line number)] of the include and declaration lines."""
    res = []
    for n, l in enumerate(text.split('\n'), 1):
        m = INC.match(l)
        if m:
            res.append(('#include ' + m.group(1), n))
            continue
        m = FWD.match(l)
        if m:
            res.append((m.group(1), n))
    return res


def analyse(files, args=('t.cc',), must_compile=True):
    """(exit status, Report, raw output). A crash, a hang or an unreadable report
    is a violation of whatever property is being checked."""
    rc, out = box().iwyu(files, args)
    if rc is None or rc < 0:
        raise Violation('the analysis %s' % ('does not end' if rc is None else
                                             'dies with signal %d' % -rc),
                        {'files': files, 'args': args, 'output': out})
    if 'Assertion' in out or 'CHECK' in out and 'failed' in out:
        raise Violation('the analysis stops on an internal check',
                        {'files': files, 'args': args, 'output': out})
    if must_compile and re.search(r'(^|\s)(fatal )?error: ', out):
        # Every program of the world compiles with the unchanged analyser.
        raise Violation('errors for a program that compiles',
                        {'files': files, 'args': args, 'output': out[:2000]})
    try:
        rep = report.parse(out)
    except report.Malformed as e:
        raise Violation('the report is malformed: %s' % e,
                        {'files': files, 'args': args, 'output': out})
    return rc, rep, out


def algebra(files, rep, args=None, names=None):
    """The invariants every record satisfies (C05), on plain files."""
    for name in rep.order:
        f = rep.files[name]
        text = files.get(names[name] if names else name)
        if text is None:
            continue
        present = lines_of(text)

        def fail(what):
            raise Violation('%s: %s' % (name, what),
                            {'files': files, 'args': args,
                             'report': f.summary()})
        if f.correct:
            continue
        if not f.add and not f.remove:
            fail('a record without edits')
        texts = [t for t, _ in present]
        for t in f.adds():
            if f.adds().count(t) > 1:
                fail('added twice: ' + t)
            if t in texts and t.startswith('#'):
                fail('added although present: ' + t)
        left = sorted(present)
        for t, a, b in f.remove:
            if a != b or (t, a) not in left:
                fail('removal of something that is not there: %s, lines %d-%d' %
                     (t, a, b))
            left.remove((t, a))
        want = sorted([t for t, _ in left] + f.adds())
        if want != f.fulls():
            fail('the full list is not what the edits give: %s' % want)


def verdict(files, name, rep, desired, args=None, keep_dups=()):
    """Compares the record of one file with the lines it should end up with.

    desired: set of printed lines.  Lines present more than once are wanted once,
    the first time."""
    want_rm, seen = [], set()
    present = lines_of(files[name])
    for t, n in present:
        if t not in desired or (t in seen and t not in keep_dups):
            want_rm.append((t, n))
        seen.add(t)
    want_add = sorted(set(desired) - {t for t, _ in present})
    f = rep.files.get(name)
    if f is None:
        raise Violation('no record for ' + name, {'files': files, 'args': args})
    got_add = f.adds()
    got_rm = sorted((t, a) for t, a, b in f.remove)
    if (got_add, got_rm) != (want_add, sorted(want_rm)):
        raise Violation(
            '%s: %s' % (name, difference(got_add, got_rm, want_add, want_rm)),
            {'files': files, 'args': args, 'wanted': {
                'add': want_add, 'remove': sorted(want_rm)},
             'got': {'add': got_add, 'remove': got_rm}})
    if not f.correct:
        left = [t for t, n in present if (t, n) not in want_rm]
        if f.fulls() != sorted(left + want_add):
            raise Violation('%s: wrong full include-list' % name,
                            {'files': files, 'args': args,
                             'wanted': sorted(left + want_add),
                             'got': f.fulls()})
    elif want_add or want_rm:
        raise Violation('%s: wrongly called correct' % name, {'files': files})


def difference(ga, gr, wa, wr):
    wr = sorted(wr)
    res = []
    for what, got, want in (('added', ga, wa), ('removed', gr, wr)):
        for x in got:
            if x not in want:
                res.append('%s is wrongly %s' % (x, what))
        for x in want:
            if x not in got:
                res.append('%s is not %s' % (x, what))
    return '; '.join(map(str, res)) or 'duplicate lines'


def guard(name, body):
    g = re.sub(r'\W', '_', name).upper()
    return '#ifndef %s\n#define %s\n%s#endif\n' % (g, g, body)


def ordered_subsets(xs, maxlen=None):
    n = len(xs) if maxlen is None else maxlen
    return [p for k in range(n + 1) for p in itertools.permutations(xs, k)]


def subsets(xs):
    return [c for k in range(len(xs) + 1) for c in itertools.combinations(xs, k)]


def reach(graph, start):
    """Nodes reachable from start (a set) over graph: node -> successors."""
    seen, todo = set(start), list(start)
    while todo:
        for y in graph.get(todo.pop(), ()):
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return seen


def dags(n, edges=None):
    """All graphs on 0..n-1 with edges from lower to higher numbers."""
    all_edges = [(i, j) for i in range(n) for j in range(i + 1, n)]
    for sub in subsets(all_edges):
        g = {i: tuple(j for a, j in sub if a == i) for i in range(n)}
        yield g


def apply(files, rep):
    """The files after exactly the recommended edits."""
    res = dict(files)
    for name in rep.order:
        f = rep.files[name]
        if f.correct or name not in files:
            continue
        lines = files[name].split('\n')
        dead = set()
        for t, a, b in f.remove:
            dead.update(range(a, b + 1))
        lines = [l for n, l in enumerate(lines, 1) if n not in dead]
        at = 0
        if len(lines) > 1 and lines[0].startswith('#ifndef') and \
                lines[1].startswith('#define'):
            at = 2
        adds = [re.sub(r'\s+//.*', '', a[0] if isinstance(a, tuple) else a)
                for a in f.adds()]
        lines[at:at] = ([a for a in adds if a.startswith('#')] +
                        [a for a in adds if not a.startswith('#')])
        res[name] = '\n'.join(lines)
    return res
