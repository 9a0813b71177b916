"""Applying every report to every small file with the real fix_includes.py."""
import functools
import itertools
import os

import fixer
import fixspace
from harness import Violation, box


def apply(seq, rem, adds, name, flags):
    """Returns (before, report, after)."""
    d = box().dir
    path = os.path.join(d, name)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    lines = fixspace.layout(seq)
    text = ''.join(l.text + '\n' for l in lines)
    with open(path, 'w') as f:
        f.write(text)
    report = fixspace.build_report(name, lines, rem, adds)
    rc, out, crash = fixer.call(list(flags), report, d)
    with open(path) as f:
        after = f.read()
    if crash or rc:
        raise Violation('fix_includes.py failed: %s' % (crash or rc),
                        {'before': text, 'report': report, 'output': out})
    return text, report, after


def is_source(name):
    return os.path.splitext(name)[1] in ('.c', '.C', '.cc', '.CC', '.cxx',
                                         '.CXX', '.cpp', '.CPP', '.c++',
                                         '.C++', '.cp')


def run_judged(topics, item):
    seq, rem, adds, name, flags = item
    text, report, after = apply(seq, rem, adds, name, flags)
    dele = is_source(name) or '--nosafe_headers' in flags
    if not seq:
        return False
    bad = [m for t, m in fixspace.judge(seq, rem if dele else (), adds,
                                        after, dele, name) if t in topics]
    if bad:
        raise Violation(bad[0], {'all': bad, 'before': text,
                                 'report': report, 'after': after,
                                 'flags': list(flags)})
    return after != text


def judged(topics):
    return functools.partial(run_judged, topics)


def wanted(seq):
    """Files outside the reference model: two barriers, two normalised
    declarations, two pragma once lines."""
    return seq.count('l') < 2 and seq.count('Y') < 2 and seq.count('p') < 2


def cases(seqs, adds, name='t.cc', flags=(), rem='all'):
    for seq in seqs:
        if not wanted(seq):
            continue
        mov = [i for i, t in enumerate(seq)
               if fixspace.TOK[t][0] in ('inc', 'fwd')]
        if rem == 'all':
            sub = [r for k in range(len(mov) + 1)
                   for r in itertools.combinations(mov, k)]
        elif rem == 'ends':        # none, each single one, all
            sub = {(), tuple(mov)} | {(m,) for m in mov}
            sub = sorted(sub)
        for r in sub:
            for a in adds:
                if a or r:
                    yield (seq, r, a, name, flags)


def with_frame(frames, seqs):
    for a, b in frames:
        for s in seqs:
            yield tuple(a) + tuple(s) + tuple(b)
