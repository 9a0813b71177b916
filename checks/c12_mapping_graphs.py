"""C12: header mappings lead to every public header they reach.

World: all mapping files of up to three lines between four headers (chains,
diamonds, cycles, self loops, repeated lines) in every order, with all
visibilities and sets of headers already included, up to renaming of the three
headers that are not used.  The model is reachability in the mapping graph.
Several such worlds, with headers of their own, are analysed in one run.
"""
import collections
import itertools
import json
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                '..', 'lib'))
from harness import *  # noqa
import cxx

PROP = 'C12'
BATCH = 12
BASE = ('-std=c++17', '-I.', '-Xiwyu', '--mapping_file=m.imp')
FORMS = {'quote': '"%s"', 'angle': '<%s>'}


def rename(item, perm):
    edges, private, direct = item
    f = lambda i: perm[i]
    return (tuple((f(a), f(b)) for a, b in edges),
            frozenset(map(f, private)), frozenset(map(f, direct)))


def key(item):
    return item[0], sorted(item[1]), sorted(item[2])


def canonical(item, n):
    """Is this the least of its renamings that leave header 0 alone?"""
    mine = key(item)
    return all(key(rename(item, (0,) + p)) >= mine
               for p in itertools.permutations(range(1, n)))


def worlds(n, length, max_direct):
    edges = list(itertools.product(range(n), repeat=2))
    for k in range(length + 1):
        for seq in itertools.product(edges, repeat=k):
            nodes = sorted({x for e in seq for x in e})
            if seq and 0 not in nodes:
                continue
            for private in cxx.subsets(nodes):
                for direct in cxx.subsets(range(n)):
                    if len(direct) > max_direct:
                        continue
                    item = (seq, frozenset(private), frozenset(direct))
                    if canonical(item, n):
                        yield item


def model(item):
    """(candidates in depth-first order, the ones that may be taken first)"""
    edges, private, _ = item
    graph = collections.OrderedDict()
    for a, b in edges:
        graph.setdefault(a, []).append(b)

    def walk(breadth):
        seen, order, todo = set(), [], list(graph.get(0, ()))
        while todo:
            x = todo.pop(0)
            if x not in seen:
                seen.add(x)
                order.append(x)
                kids = graph.get(x, [])
                todo = todo + kids if breadth else kids + todo
        return order
    firsts, cands = set(), []
    for breadth in (False, True):
        order = [x for x in walk(breadth) if x not in private]
        if 0 not in private:
            order = [0] + [x for x in order if x != 0]
        cands = order
        firsts |= set(order[:1])
    return cands, firsts


def program(batch, style, n):
    files, lines, text, body = {}, [], '#include "all.h"\n', ''
    name = lambda w, i: 'w%d_h%d.h' % (w, i)
    form = lambda w, i: FORMS[style] % name(w, i)
    for w, (edges, private, direct) in enumerate(batch):
        vis = lambda i: 'private' if i in private else 'public'
        for i in range(n):
            files[name(w, i)] = cxx.guard(name(w, i),
                                          'struct W%dC%d { int m; };\n' % (w, i))
        lines += [json.dumps({'include': [form(w, a), vis(a), form(w, b), vis(b)]})
                  for a, b in edges]
        for i in sorted(direct):
            text += '#include %s\n' % form(w, i)
        body += 'W%dC0 v%d;\n' % (w, w)
    files['all.h'] = cxx.guard('all.h', ''.join(
        '#include "%s"\n' % h for h in sorted(files)))
    files['t.cc'] = text + body
    files['m.imp'] = '[' + ',\n'.join(lines) + ']\n'
    return files


def args_of(style):
    if style == 'quote':
        return BASE + ('t.cc',)
    # <h> is what a header found only by -isystem is called.
    return tuple('-isystem.' if a == '-I.' else a for a in BASE) + ('t.cc',)


def case(job):
    style, n, batch = job
    try:
        return run_batch(batch, style, n)
    except Violation:
        for item in batch if len(batch) > 1 else ():
            run_batch((item,), style, n)
        raise


def run_batch(batch, style, n):
    files, args = program(batch, style, n), args_of(style)
    rc, rep, out = cxx.analyse(files, args)
    f = rep.files['t.cc']
    gone = [r[0] for r in f.remove]
    added = f.adds()
    warned = set(re.findall(r'to replace the private header (?:\./)?(\S+)', out))
    left = set(gone + added) - {'#include "all.h"'}
    for w, item in enumerate(batch):
        line = lambda i: '#include ' + FORMS[style] % ('w%d_h%d.h' % (w, i))
        cands, firsts = model(item)
        direct = item[2]

        def fail(what):
            raise Violation('%s (stand-ins of header 0: %s)' % (what, cands), {
                'files': files, 'args': args, 'world': key(item),
                'report': f.summary(), 'output': out})
        left -= {line(i) for i in range(n)}
        new = [i for i in range(n) if line(i) in added]
        end = [i for i in sorted(direct) if line(i) not in gone] + new
        ok = cands or [0]
        if len(end) != 1 or end[0] not in ok:
            fail('%s are included' % end)
        if new and set(ok) & direct:
            fail('%s is added although there is %s' % (new, sorted(direct)))
        if new and new[0] not in (firsts or {0}):
            fail('%s is suggested and not the first' % new)
        if (not cands) != ('w%d_h0.h' % w in warned):
            fail('warning about a missing public header: %s' % sorted(warned))
    if left:
        raise Violation('unexpected lines: %s' % sorted(left),
                        {'files': files, 'args': args, 'report': f.summary()})
    return len(batch)


def chains(n, deep):
    """Long chains and cycles, every visibility, every rotation of the lines."""
    res = []
    for closing in [None] + list(range(n)):
        edges = [(i, i + 1) for i in range(n - 1)]
        if closing is not None:
            edges.append((n - 1, closing))
        turns = range(len(edges)) if deep else (0, len(edges) - 1)
        for seq in {tuple(edges[k:] + edges[:k]) for k in turns} | {
                tuple(reversed(edges))}:
            for private in cxx.subsets(range(n)):
                for direct in [()] + [(i,) for i in range(n)]:
                    res.append((seq, frozenset(private), frozenset(direct)))
    return res


def main():
    c = Check(PROP)
    deep = TIER == 'thorough'
    jobs, states = [], 0

    def add(items, n, styles=('quote',)):
        nonlocal states
        items = list(items)
        states += len(items) * len(styles)
        for s in styles:
            for k in range(0, len(items), BATCH):
                jobs.append((s, n, tuple(items[k:k + BATCH])))
    add(worlds(4, 2, 4), 4, ('quote', 'angle'))
    add((w for w in worlds(4, 3, 4 if deep else 1) if len(w[0]) > 2), 4)
    if deep:
        add((w for w in worlds(3, 4, 3) if len(w[0]) > 3), 3)
    else:
        add((w for w in worlds(3, 4, 0) if len(w[0]) > 3), 3)
    for n in (5, 6) if deep else (5,):
        add(chains(n, deep), n)
    c.explore('graphs', case, jobs)
    c.confirm_binding([(program(j[2], j[0], j[1]), args_of(j[0]))
                       for j in jobs[::len(jobs) // 6]][:8])
    c.sample({'world': key(jobs[-1][2][0])})
    c.finish(states=states, transitions=states,
             batches=len(jobs), batch_size=BATCH)


if __name__ == '__main__':
    main()
