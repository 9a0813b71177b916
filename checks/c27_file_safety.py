"""C27: files are never damaged.

Spaces, all enumerated completely:
  endings    every small file x every assignment of line endings to its lines x
             with and without a final newline x edits x dry run
  encodings  every small file x encodings, byte-order marks, undecodable bytes x
             edits, including additions the encoding cannot express
  stale      every small file x every report made for a file shifted by up to
             three lines either way, or cut off
  faults     every order of a good, a faulty and another good file x every fault
             (missing, a directory, unreadable, read-only, undecodable,
             unencodable addition, stale) x options
The yardstick is the result for the same text in plain ASCII with LF ends.
"""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                '..', 'lib'))
from harness import *  # noqa
import fixer
import fixspace

PROP = 'C27'
TOK = dict(fixspace.TOK)
MARK = 'QQ'
OLD = 10 ** 18


def text_lines(seq):
    res = []
    for i, t in enumerate(seq):
        kind, text = TOK[t]
        for j, l in enumerate(text.split('\n')):
            res.append((l.replace('%', str(i)), kind, i, j))
    return res


def report(name, lines, rem, adds, shift=0):
    """A report for these lines as if they stood shift lines further down."""
    removes, keeps, fwds = [], [], []
    pos = sorted({p for _, k, p, _ in lines if k in ('inc', 'fwd')})
    for p in pos:
        idx = [i for i, l in enumerate(lines) if l[2] == p]
        k = lines[idx[0]][1]
        text = ' '.join(lines[i][0] for i in idx).split('  //')[0]
        e = (text, idx[0] + 1 + shift, idx[-1] + 1 + shift)
        if p in rem:
            removes.append(e)
        elif k == 'inc':
            keeps.append(text + '  // for K')
        else:
            fwds.append(e)
    return fixer.record(name, adds, removes, keeps, fwds)


def write(path, data):
    with open(path, 'wb') as f:
        f.write(data)
    os.utime(path, ns=(OLD, OLD))


def apply(data, rep, opts, name='t.cc'):
    """Returns (bytes after, was the file written?, output)."""
    d = box().dir
    path = os.path.join(d, name)
    write(path, data)
    rc, out, crash = fixer.call(list(opts), rep, d)
    with open(path, 'rb') as f:
        after = f.read()
    if crash or rc:
        raise Violation('fix_includes.py failed: %s' % (crash or rc),
                        {'before': repr(data), 'report': rep, 'output': out})
    return after, os.stat(path).st_mtime_ns != OLD, out


_plain = {}


def plain_result(seq, rem, adds, opts):
    key = (seq, rem, adds, opts)
    if key not in _plain:
        lines = text_lines(seq)
        data = ''.join(l[0] + '\n' for l in lines).encode()
        _plain[key] = apply(data, report('t.cc', lines, rem, adds), opts)[0]
    return _plain[key]


def check_untouched(data, after, written, rep, why):
    if after != data:
        raise Violation('a file was changed: ' + why,
                        {'before': repr(data), 'after': repr(after),
                         'report': rep})
    if written:
        raise Violation('a file was written although nothing changed: ' + why,
                        {'before': repr(data), 'report': rep})


def endings(item):
    seq, eols, final, rem, adds, opts = item
    lines = text_lines(seq)
    if not lines:
        return None
    ends = [b'\r\n' if e else b'\n' for e in eols]
    raw = [l[0].encode() + ends[i % len(ends)] for i, l in enumerate(lines)]
    if not final:
        raw[-1] = lines[-1][0].encode()
    data = b''.join(raw)
    if not data:
        return None
    rep = report('t.cc', lines, rem, adds)
    after, written, out = apply(data, rep, opts)
    if '-n' in opts:
        check_untouched(data, after, written, rep, 'dry run')
        return 'dry'
    if not rem and not adds:
        check_untouched(data, after, written, rep, 'nothing to do')
        return 'none'
    if after == data:
        check_untouched(data, after, written, rep, 'no difference')
    crlf = data.count(b'\r\n')
    lf = data.count(b'\n') - crlf
    if (not crlf or not lf) and final:
        want = plain_result(seq, rem, adds, opts)
        if crlf:
            want = want.replace(b'\n', b'\r\n')
        if after != want:
            raise Violation('the line endings change the result',
                            {'before': repr(data), 'report': rep,
                             'after': repr(after), 'wanted': repr(want)})
    # Lines that are not includes or declarations keep their bytes.
    out_lines = after.splitlines(keepends=True)
    for i, l in enumerate(lines):
        if l[1] == 'code' and raw[i] not in out_lines:
            raise Violation('a line changed its bytes: %r' % raw[i],
                            {'before': repr(data), 'report': rep,
                             'after': repr(after)})
    if lines[-1][1] == 'code' and not after.endswith(raw[-1]):
        raise Violation('the end of the file changed',
                        {'before': repr(data), 'after': repr(after)})
    if crlf != lf and not opts:
        for a in adds:
            t = a.split('  //')[0].encode()
            want = t + (b'\r\n' if crlf > lf else b'\n')
            if t in after and want not in out_lines and \
                    t not in [r.rstrip() for r in raw]:
                raise Violation('an addition has the wrong line ending',
                                {'before': repr(data), 'after': repr(after)})
    # No bytes of a line end may be left alone.
    if after.replace(b'\r\n', b'').count(b'\r'):
        raise Violation('a stray carriage return', {'before': repr(data),
                                                    'after': repr(after)})
    return 'edit'


ENC = [('ascii', b'', b'plain'), ('utf-8', b'', '\u00e9\u4e2d'.encode()),
       ('utf-8-sig', b'\xef\xbb\xbf', b'plain'),
       ('utf-8-sig', b'\xef\xbb\xbf', '\u00e9\u4e2d'.encode()),
       ('windows-1250', b'', b'\xe9\xff'), ('windows-1252', b'', b'\x83\xe9'),
       (None, b'', b'\x81\xe9'), (None, b'\xef\xbb\xbf', b'\xe9'),
       ('utf-8', b'', 'a\u2028b\u0085c\x0cd'.encode())]


def encodings(item):
    seq, enc, where, crlf, rem, adds, opts = item
    lines = text_lines(seq)
    codec, bom, payload = ENC[enc]
    if not lines:
        return None

    def build(mark):
        res = []
        for i, l in enumerate(lines):
            s = l[0].encode()
            if l[1] == where and not l[3] and not l[0].endswith('/*'):
                s += (b'  // ' if l[1] != 'com' else b' ') + mark
            res.append(s)
        eol = b'\r\n' if crlf else b'\n'
        return b''.join(s + eol for s in res)
    if where not in [l[1] for l in lines]:
        return None
    data = bom + build(payload)
    rep = report('t.cc', lines, rem, adds)
    after, written, out = apply(data, rep, opts)
    if '-n' in opts or (not rem and not adds):
        check_untouched(data, after, written, rep, 'dry run or nothing to do')
        return 'none'
    if codec is None:
        check_untouched(data, after, written, rep, 'it cannot be decoded')
        if 't.cc' not in out:
            raise Violation('a file that cannot be decoded is not mentioned',
                            {'output': out})
        return 'undecodable'
    try:
        [a.encode(codec) for a in adds]
    except UnicodeError:
        check_untouched(data, after, written, rep, 'the addition cannot be '
                        'written in its encoding')
        return 'unencodable'
    key = ('enc', seq, where, crlf, rem, adds, opts)
    if key not in _plain:
        ad = tuple(a.encode('ascii', 'replace').decode().replace('?', 'Z')
                   for a in adds)
        _plain[key] = apply(build(MARK.encode()), report('t.cc', lines, rem, ad),
                            opts)[0]
    want = bom + _plain[key].replace(MARK.encode(), payload)
    for a in adds:
        b = a.split('  //')[0]
        want = want.replace(b.encode('ascii', 'replace').replace(b'?', b'Z'),
                            b.encode(codec if codec != 'utf-8-sig' else 'utf-8'))
    if after != want:
        raise Violation('the encoding changes the result',
                        {'before': repr(data), 'report': rep,
                         'after': repr(after), 'wanted': repr(want)})
    return 'edit'


def stale(item):
    seq, rem, shift, cut, adds = item
    lines = text_lines(seq)
    rep = report('t.cc', lines, rem, adds, shift)
    have = lines[:len(lines) - cut]
    # Does the report fit what is there?  Every include it removes must be at an
    # include or declaration line.
    fits, decided = True, True
    for p in rem:
        i = [j for j, l in enumerate(lines) if l[2] == p][0]
        if lines[i][1] != 'inc':
            decided = False              # declarations are trusted
            continue
        at = i + shift
        kind = have[at][1] if 0 <= at < len(have) else None
        if kind in ('inc', 'fwd'):
            decided = decided and at == i
        elif not 0 <= at < len(have) or kind in ('code', 'com', 'blank', 'if',
                                                 'endif', 'ns', 'end'):
            fits = False
    if fits:
        return None
    data = ''.join(l[0] + '\n' for l in have).encode()
    d = box().dir
    others = {'a.cc': b'#include "z.h"\nint a;\n', 'z.cc': b'#include "z.h"\nint z;\n'}
    for n, s in others.items():
        write(os.path.join(d, n), s)
    fix = [fixer.record(n, ['#include "n.h"'], [('#include "z.h"', 1, 1)])
           for n in others]
    after, written, out = apply(data, fix[0] + rep + fix[1], ())
    check_untouched(data, after, written, rep, 'the report does not fit it')
    for n, s in others.items():
        got = open(os.path.join(d, n), 'rb').read()
        if b'#include "n.h"\n' not in got or b'z.h' in got:
            raise Violation('a stale report for another file stops ' + n,
                            {'report': rep, 'before': repr(data), 'output': out})
    return 'refused'


GOOD = b'#include "z.h"\nint good;\n'
FAULTS = ('missing', 'directory', 'dangling', 'loop', 'unreadable', 'readonly',
          'undecodable', 'unencodable', 'stale', 'past', 'empty', 'noname')


def faults(item):
    order, opts, user = item
    d = os.path.join(box().dir, 'faults')
    os.makedirs(d, exist_ok=True)
    os.chmod(d, 0o777)
    rep = ''
    before = {}
    for i, f in enumerate(order):
        n = 'f%d.cc' % i
        p = os.path.join(d, n)
        if os.path.islink(p) or os.path.isfile(p):
            os.unlink(p)
        elif os.path.isdir(p):
            os.rmdir(p)
        data, adds, rem = GOOD, ['#include "n.h"'], [('#include "z.h"', 1, 1)]
        if f == 'missing':
            data = None
        elif f == 'directory':
            os.mkdir(p)
            data = None
        elif f == 'dangling':
            os.symlink('nowhere', p)
            data = None
        elif f == 'loop':
            os.symlink(n, p)
            data = None
        elif f == 'undecodable':
            data = GOOD + b'// \x81\xe9\n'
        elif f == 'unencodable':
            adds = ['#include "\u4e2d.h"']
        elif f == 'stale':
            rem = [('#include "z.h"', 2, 2)]
        elif f == 'past':
            rem = [('#include "z.h"', 9, 9)]
        elif f == 'empty':
            data = b''
        if data is not None:
            write(p, data)
            os.chmod(p, {'unreadable': 0, 'readonly': 0o444}.get(f, 0o666))
        before[n] = data
        rep += fixer.record('' if f == 'noname' else n, adds, rem)
    cwd = os.getcwd()
    os.chdir(d)
    try:
        if user:
            os.seteuid(65534)
        rc, out, crash = fixer.call(list(opts), rep)
    finally:
        if user:
            os.seteuid(0)
        os.chdir(cwd)
    if crash or rc:
        raise Violation('the run ended early: %s' % (crash or rc),
                        {'order': order, 'output': out})
    for i, f in enumerate(order):
        n = 'f%d.cc' % i
        if before[n] is None:
            if f == 'missing' and os.path.lexists(os.path.join(d, n)):
                raise Violation('a missing file was created', {'order': order})
            continue
        got = open(os.path.join(d, n), 'rb').read()
        if f == 'good' or (f in ('unreadable', 'readonly') and not user):
            if '-n' in opts:
                if got != before[n]:
                    raise Violation('a dry run changed a file', {'order': order})
            elif b'#include "n.h"\n' not in got or b'z.h' in got or \
                    not got.endswith(b'int good;\n'):
                raise Violation('%s was not processed although nothing is wrong '
                                'with it' % n, {'order': order, 'output': out,
                                                'got': repr(got)})
        elif got != before[n]:
            raise Violation('the contents of %s (%s) are not kept' % (n, f),
                            {'order': order, 'before': repr(before[n]),
                             'after': repr(got), 'output': out})
    return tuple(order)


def rems(seq):
    mov = [i for i, t in enumerate(seq) if TOK[t][0] in ('inc', 'fwd')]
    return sorted({(), tuple(mov)} | {(m,) for m in mov})


def main():
    c = Check(PROP, binary=False)
    deep = TIER == 'thorough'
    S = fixspace.sequences
    A = [(), ('#include "n.h"  // for N',), ('class N;', '#include <n>')]
    items = []
    for seq in list(S('abvfgcmxwHN_', 3)) + list(S('avfcx_' if not deep else
                                                   'abvfgcxw_IN', 4, 4)):
        n = len(text_lines(seq))
        pats = list(itertools.product((0, 1), repeat=n)) if n <= 4 else \
            [(0,), (1,), (0, 1), (1, 0), (0, 1, 1), (0, 0, 1)]
        if len(seq) == 4 and not deep:
            pats = [p for p in pats if len(set(p)) == 1]
        for eols in pats:
            for final in (True, False):
                for r in rems(seq):
                    for a in A:
                        for o in ((), ('-n',), ('--update_comments',)):
                            if o and (len(seq) > 2 or len(a) > 1):
                                continue
                            if o == ('--update_comments',) and not a and not r:
                                continue
                            items.append((seq, eols, final, r, a, o))
    r1 = c.explore('endings', endings, items, chunk=300)
    enc = []
    A2 = [(), ('#include "n.h"',), ('#include "\u00e9.h"',),
          ('#include "\u4e2d.h"', 'class N;')]
    for seq in list(S('avfcmxw_', 4 if deep else 3)):
        for e in range(len(ENC)):
            for where in ('com', 'code', 'inc', 'fwd'):
                for crlf in (0, 1):
                    for r in rems(seq):
                        for a in A2:
                            if len(seq) == 4 and (crlf or len(r) > 1):
                                continue
                            enc.append((seq, e, where, crlf, r, a, ()))
                    enc.append((seq, e, where, crlf, (), A2[1], ('-n',)))
    enc = [e for e in enc if e[2] in [TOK[t][0] for t in e[0]]]
    r2 = c.explore('encodings', encodings, enc, chunk=300)
    st = []
    for seq in list(S('avfgcx_HNSTm', 4 if deep else 3)) + \
            list(S('afcx_', 5 if deep else 4, 4)):
        for r in rems(seq):
            if not r:
                continue
            for shift in range(-3, 4):
                for cut in range(0, 4):
                    if shift or cut:
                        for a in A[:2]:
                            st.append((seq, r, shift, cut, a))
    r3 = c.explore('stale', stale, st, chunk=300)
    try:
        os.seteuid(65534)
        os.seteuid(0)
        users = (0, 1)
    except OSError:
        users = (0,)
    kinds = ('good',) + FAULTS
    fl = [(o, opts, u) for n in ((1, 2, 3, 4) if deep else (1, 2, 3))
          for o in itertools.product(kinds, repeat=n)
          for opts in ((), ('-n',), ('--nosafe_headers', '--reorder'))
          for u in users if n < 4 or (u and not opts)]
    r4 = c.explore('faults', faults, fl, chunk=100)
    c.sample({'fault order': fl[len(fl) // 2]})
    c.sample({'endings': items[len(items) // 2]})
    c.finish(states=len({(i[0], i[1], i[2]) for i in items}) +
             len({e[:4] for e in enc}) + len({s[:4] for s in st}) + len(fl),
             transitions=len(items) + len(enc) + len(st) + len(fl),
             edits=sum(1 for r in r1 + r2 if r == 'edit'),
             undecodable=r2.count('undecodable'),
             unencodable=r2.count('unencodable'),
             stale_refused=r3.count('refused'), fault_runs=len(r4),
             unprivileged=len(users) > 1)


main()
