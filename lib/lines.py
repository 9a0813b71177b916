"""Files made of include and declaration lines, and which of these stay.

A line is (text, what, printed form, first, last): what is ('inc', header),
('fwd', name) or None; first and last are relative to the line's own start.
"""
import cxx
from harness import Violation


def compose(lines, tail=()):
    """(text of the file, line number at which each line starts)"""
    text, at = '', []
    for n, l in enumerate(lines):
        at.append(text.count('\n') + 1)
        text += l[0].replace('@', str(n)) + '\n'
    for n, u in enumerate(tail):
        text += u.replace('@', 'u%d' % n) + '\n'
    return text, at


def removed(lines, at, stays):
    """The removals that leave exactly the lines n with stays[n]."""
    return sorted((l[2], a + l[3], a + l[4])
                  for l, a, s in zip(lines, at, stays) if l[1] and not s)


def compare(name, files, args, rep, lines, at, stays, added, out=''):
    """The record of a file must have exactly these edits."""
    f = rep.files.get(name)
    want = removed(lines, at, stays)
    added = sorted(added)
    if f is None or (f.adds(), sorted(f.remove)) != (added, want):
        raise Violation(
            '%s: %s' % (name, cxx.difference(f.adds(), sorted(f.remove), added,
                                             want) if f else 'no record'),
            {'files': files, 'args': args,
             'wanted': {'remove': want, 'add': added},
             'got': f and {'remove': f.remove, 'add': f.adds()},
             'output': out})
    if bool(f.correct) != (not want and not added):
        raise Violation(name + ': called correct or not, wrongly',
                        {'files': files, 'args': args})
    left = sorted([l[2] for l, s in zip(lines, stays) if l[1] and s] + added)
    if not f.correct and f.fulls() != left:
        raise Violation(name + ': the full list is not the lines that stay',
                        {'files': files, 'args': args, 'wanted': left,
                         'got': f.fulls()})
