"""Small source files, reports about them, and what may happen to them.

A file is a sequence of tokens, each one or more physical lines.  The reference
model below knows only the documented contract of fix_includes.py; it shares no
code with it.
"""
import itertools
import os

# token -> (kind, text with % for a per-position number)
TOK = {
    'a': ('inc', '#include "a.h"'),
    'b': ('inc', '#include "b.h"  // for B'),
    'v': ('inc', '#include <v>'),
    's': ('inc', '#  include <s.h>'),
    'l': ('inc', '#include <linux/l.h>'),
    'f': ('fwd', 'class F;'),
    'g': ('fwd', 'template <class T>\nclass G;'),
    'c': ('com', '// comment %'),
    'o': ('com', '/* comment % */'),
    'm': ('com', '/* comment %\n   more % */'),
    '_': ('blank', ''),
    'x': ('code', 'int x%;'),
    'D': ('code', '#define D%'),
    'U': ('code', 'using U%;'),
    'q': ('code', '/* lead */ int q%;'),
    'w': ('code', 'int w%;  // trail'),
    'p': ('once', '#pragma once'),
    'I': ('if', '#ifdef I%'),
    'J': ('if', '#if J%'),
    'E': ('else', '#else'),
    'N': ('endif', '#endif'),
    'S': ('ns', 'namespace n {'),
    'A': ('ns', 'namespace n\n{'),
    'T': ('end', '}'),
    'G': ('fn', 'void g%() {'),
    'K': ('fn', 'extern "C" {'),
    'H': ('if', '#ifndef H%\n#define H%'),
    'P': ('code', '#pragma pack(push)'),
    'Q': ('code', '#pragma pack(pop)'),
    'h': ('inc', '#include "t.h"'),
    'd': ('inc', '#include "d/t.h"'),
    'i': ('inc', '#include "a-inl.h"'),
    'r': ('inc', '#include "r.h"  // IWYU pragma: associated'),
    'k': ('inc', '#include "k.h"  // IWYU pragma: keep'),
    'e': ('inc', '#include <e>'),
    't': ('inc', '#\tinclude\t"t/t.h"'),
    'M': ('code', '#include M%'),
    'X': ('code', '#import "i%.h"'),
    'y': ('code', 'namespace y% = n;'),
    'u': ('code', 'using namespace u%;'),
    'W': ('else', '#elif W%'),
    'L': ('ns', 'namespace  k {'),
    'V': ('ns', 'namespace  n { namespace  k {'),
    'Z': ('end', '} }'),
    'B': ('ns', 'namespace {'),
    'Y': ('fwd', 'namespace y { class Y; }'),
    'O': ('com', '// #include "gone%.h"'),
    'R': ('com', '/* %\n#include "gone%.h"\n   % */'),
}
INC_KEY = {'a': '"a.h"', 'b': '"b.h"', 'v': '<v>', 's': '<s.h>',
           'l': '<linux/l.h>', 'h': '"t.h"', 'd': '"d/t.h"', 'i': '"a-inl.h"',
           'r': '"r.h"', 'k': '"k.h"', 'e': '<e>', 't': '"t/t.h"'}
FWDS = 'fgY'
CLOSER = {'V': 'Z'}


class Line:
    __slots__ = ('text', 'kind', 'tok', 'pos', 'removed', 'cont')

    def __init__(self, text, kind, tok, pos, cont):
        self.text, self.kind, self.tok, self.pos = text, kind, tok, pos
        self.removed = False
        self.cont = cont          # a continuation line of a multi-line token


def layout(seq):
    lines = []
    for pos, t in enumerate(seq):
        kind, text = TOK[t]
        for i, l in enumerate(text.split('\n')):
            lines.append(Line(l.replace('%', str(pos)), kind, t, pos, i > 0))
    return lines


def balanced(seq):
    """Properly nested conditionals, namespaces and braces."""
    st = []
    for t in seq:
        k = TOK[t][0]
        if k in ('if', 'ns', 'fn'):
            st.append([k, False])
        elif k == 'else':
            if not st or st[-1][0] != 'if' or st[-1][1]:
                return False
            st[-1][1] = True
        elif k == 'endif':
            if not st or st.pop()[0] != 'if':
                return False
        elif k == 'end':
            if not st or st.pop()[0] not in ('ns', 'fn'):
                return False
        elif k in ('inc', 'fwd', 'once') and any(s[0] == 'fn' for s in st):
            return False
    return not st


def sequences(alphabet, maxlen, minlen=0):
    """Every balanced sequence, shortest first."""
    closers = {'if': 'N', 'ns': 'T', 'fn': 'T'}

    def rec(prefix, st, left):
        if len(st) > left:
            return
        if left == 0:
            yield tuple(prefix)
            return
        for t in alphabet:
            k = TOK[t][0]
            if k in ('if', 'ns', 'fn'):
                if len(st) + 1 > left - 1:
                    continue
                st.append([k, False, CLOSER.get(t, closers[k])])
                prefix.append(t)
                yield from rec(prefix, st, left - 1)
                prefix.pop()
                st.pop()
            elif k == 'else':
                if not st or st[-1][0] != 'if' or st[-1][1] == 'else':
                    continue
                before = st[-1][1]
                st[-1][1] = 'else' if t == 'E' else True
                prefix.append(t)
                yield from rec(prefix, st, left - 1)
                prefix.pop()
                st[-1][1] = before
            elif k == 'endif' or k == 'end':
                if not st or st[-1][2] != t:
                    continue
                top = st.pop()
                prefix.append(t)
                yield from rec(prefix, st, left - 1)
                prefix.pop()
                st.append(top)
            else:
                if k in ('inc', 'fwd', 'once') and any(s[0] == 'fn' for s in st):
                    continue
                prefix.append(t)
                yield from rec(prefix, st, left - 1)
                prefix.pop()
    for n in range(minlen, maxlen + 1):
        yield from rec([], [], n)


def fwd_text(tok):
    return TOK[tok][1].replace('\n', ' ')


def build_report(name, lines, removed_pos, adds):
    """The report include-what-you-use would print for these edits."""
    import fixer
    removes, keeps, fwds = [], [], []
    seen = set()
    for i, l in enumerate(lines):
        if l.kind not in ('inc', 'fwd') or l.cont:
            continue
        last = i
        while last + 1 < len(lines) and lines[last + 1].pos == l.pos:
            last += 1
        if l.kind == 'inc':
            text = '#include ' + INC_KEY[l.tok]
        else:
            text = fwd_text(l.tok)
        if l.pos in removed_pos:
            removes.append((text, i + 1, last + 1))
        elif l.kind == 'inc':
            if text not in seen:
                keeps.append(text + '  // for K')
            seen.add(text)
        else:
            fwds.append((text, i + 1, last + 1))
    return fixer.record(name, adds, removes, keeps, fwds)


def mark_removed(lines, removed_pos):
    for l in lines:
        if l.pos in removed_pos and l.kind in ('inc', 'fwd'):
            l.removed = True


def reduce_groups(tokens):
    """Drops conditionals and namespaces with nothing in them, repeatedly.

    tokens: list of (kind, payload, origin); returns the survivors.
    """
    toks = list(tokens)
    changed = True
    while changed:
        changed = False
        for i, (k, _, _) in enumerate(toks):
            if k == 'if':
                j = i + 1
                while j < len(toks) and toks[j][0] == 'else':
                    j += 1
                if j < len(toks) and toks[j][0] == 'endif':
                    del toks[i:j + 1]
                    changed = True
                    break
            elif k == 'ns':
                if i + 1 < len(toks) and toks[i + 1][0] == 'end':
                    del toks[i:i + 2]
                    changed = True
                    break
    return toks


NORMAL_Y = ['namespace y {', 'class Y;', '}  // namespace y']
NS_TEXTS = {TOK[t][1].split('\n')[0] for t in TOK if TOK[t][0] == 'ns'}

# ---- what the output looks like ---------------------------------------------
import re
_INC = re.compile(r'\s*#\s*include\s+([<"][^">]+[>"])')


class Out:
    __slots__ = ('text', 'kind', 'key')

    def __init__(self, text, kind, key=None):
        self.text, self.kind, self.key = text, kind, key


def classify(out_lines, lines, added_fwds):
    """Recognises every line of the output by its text."""
    known = {}
    elifs = {l.text for l in lines if l.tok == 'W'}
    for l in lines:
        if l.kind in ('com', 'code', 'once', 'fn'):
            known[l.text] = l.kind
        elif l.kind == 'if':
            known[l.text] = 'if' if l.text.startswith('#if') else 'code'
    fw = {}
    for t in FWDS:
        parts = TOK[t][1].split('\n')
        for i, p in enumerate(parts):
            fw[p] = ('fwd', t) if i == len(parts) - 1 else ('fwdpart', t)
    for a in added_fwds:
        fw[a] = ('fwd', a)
        if a.startswith('namespace k { ') and '{ class' in a[12:]:
            # May be written inside a namespace k of the file, or normalised.
            fw[a[len('namespace k { '):-2]] = ('fwd', a)
    res = []
    texts = [s.rstrip('\r\n') for s in out_lines]
    skip = 0
    for at, s in enumerate(texts):
        if skip:
            skip -= 1
            continue
        if texts[at:at + 3] == NORMAL_Y:
            res.append(Out(TOK['Y'][1], 'fwd', 'Y'))
            skip = 2
            continue
        m = _INC.match(s)
        if s in known:
            res.append(Out(s, known[s]))
        elif not s.strip():
            res.append(Out(s, 'blank'))
        elif m:
            res.append(Out(s, 'inc', m.group(1)))
        elif s in fw:
            res.append(Out(s, *fw[s]))
        elif s == '#else' or s in elifs:
            res.append(Out(s, 'else'))
        elif s == '#endif':
            res.append(Out(s, 'endif'))
        elif s in NS_TEXTS:
            res.append(Out(s, 'ns'))
        elif s == '{':
            res.append(Out(s, 'cont'))
        elif s in ('}', '} }'):
            res.append(Out(s, 'end'))
        elif s == 'namespace k {':
            res.append(Out(s, 'newns'))
        elif s == '}  // namespace k':
            res.append(Out(s, 'newend'))
        else:
            res.append(Out(s, '?'))
    return res


def in_kind(l):
    """The kind of an input line in skeletons."""
    if l.kind == 'if':
        return 'code' if l.cont else 'if'
    if l.kind == 'ns':
        return 'cont' if l.cont else 'ns'
    return l.kind


def skeleton_in(lines):
    """Contentful tokens of the input after the removals: (kind, text, index)."""
    sk = []
    for i, l in enumerate(lines):
        k = in_kind(l)
        if l.removed or k in ('com', 'blank', 'cont'):
            continue
        if k == 'inc':
            sk.append(('inc', INC_KEY[l.tok], i))
        elif k == 'fwd':
            if not l.cont:
                sk.append(('fwd', l.tok, i))
        else:
            sk.append((k, l.text, i))
    return sk


def skeleton_out(outs):
    sk = []
    for i, o in enumerate(outs):
        if o.kind in ('com', 'blank', 'cont', 'newns', 'newend', 'fwdpart'):
            continue
        if o.kind in ('inc', 'fwd'):
            sk.append((o.kind, o.key, i))
        else:
            sk.append((o.kind, o.text, i))
    return sk


BARRIER = '<linux/l.h>'


def is_code(t):
    return t[0] not in ('inc', 'fwd') or t[1] == BARRIER


def segments(sk):
    """Code tokens, and the movable lines between them."""
    code, segs = [], [[]]
    for t in sk:
        if is_code(t):
            code.append((t[0] if t[1] != BARRIER else 'barrier', t[1]))
            segs.append([])
        else:
            segs[-1].append((t[0], t[1]))
    return code, segs


def guard_of(sk_or_kinds):
    """(open, close) positions of a conditional that covers the whole file."""
    ks = sk_or_kinds
    i = 0
    while i < len(ks) and ks[i] == 'once':
        i += 1
    if i >= len(ks) or ks[i] != 'if':
        return None
    depth = 0
    for j in range(i, len(ks)):
        if ks[j] == 'if':
            depth += 1
        elif ks[j] == 'endif':
            depth -= 1
            if depth == 0:
                return (i, j) if j == len(ks) - 1 else None
    return None


def toplevel_flags(kinds):
    """For each token: at top level (a whole-file guard does not count)?"""
    g = guard_of(kinds)
    depth, res = 0, []
    for i, k in enumerate(kinds):
        opening = k in ('if', 'ns', 'fn')
        closing = k in ('endif', 'end')
        ing = g and (i == g[0] or i == g[1])
        if closing and not ing:
            depth -= 1
        res.append(depth == 0)
        if opening and not ing:
            depth += 1
    return res


def lost_comments_allowed(lines, survivors, dup_idx):
    """Indexes of comment lines that may vanish along with what they describe."""
    ok = set()

    def run_before(i):
        j = i - 1
        while j >= 0 and lines[j].kind == 'com':
            ok.add(j)
            j -= 1

    for i, l in enumerate(lines):
        if (l.removed and not l.cont) or i in dup_idx:
            run_before(i)
    # Deleted groups: the tokens of the reduced skeleton that are gone.
    alive = {t[2] for t in survivors}
    opens = []
    for i, l in enumerate(lines):
        k = in_kind(l)
        if k in ('if', 'ns', 'fn'):
            opens.append(i)
        elif k in ('endif', 'end'):
            a = opens.pop()
            if a not in alive and not lines[a].kind == 'fn':
                run_before(a)
                for j in range(a, i):
                    if lines[j].kind == 'com':
                        ok.add(j)
    return ok


def judge(seq, removed_pos, adds, out_text, deletes_allowed, name='t.cc'):
    """All complaints about this output: list of (topic, message).

    Topics: code, edits, comments, blanks, place.
    """
    bad = []
    lines = layout(seq)
    guarded = guard_of([t[0] for t in skeleton_in(lines)]) is not None
    if deletes_allowed:
        mark_removed(lines, removed_pos)
    add_keys = [_INC.match(a).group(1) for a in adds if _INC.match(a)]
    add_fwds = [a for a in adds if not _INC.match(a)]
    outs = classify(out_text.splitlines(), lines, add_fwds)
    for o in outs:
        if o.kind == '?':
            bad.append(('code', 'a line that was never in the file: %r' % o.text))
    ski, sko = skeleton_in(lines), skeleton_out(outs)
    full_in = ski
    if deletes_allowed:
        ski, sko = reduce_groups(ski), reduce_groups(sko)
    ci, si = segments(ski)
    co, so = segments(sko)
    top = toplevel_flags([t[0] for t in full_in])
    toplines = {t[2] for t, f in zip(full_in, top) if f}

    # Duplicates at top level may be dropped in favour of the first.
    dup_idx, seen = set(), set()
    if deletes_allowed:
        for t in full_in:
            if t[0] in ('inc', 'fwd') and t[2] in toplines:
                if (t[0], t[1]) in seen:
                    dup_idx.add(t[2])
                seen.add((t[0], t[1]))

    if ci != co:
        bad.append(('code', 'code lines changed: %s -> %s' % (ci, co)))
        return bad

    # Movable lines stay between the code lines they were between.
    dup_keys = {}
    for t in full_in:
        if t[2] in dup_idx:
            dup_keys[(t[0], t[1])] = dup_keys.get((t[0], t[1]), 0) + 1
    extra_total, missing_total = {}, {}
    for a, b in zip(si, so):
        for k in set(a) | set(b):
            d = b.count(k) - a.count(k)
            if d > 0:
                extra_total[k] = extra_total.get(k, 0) + d
            elif d < 0:
                missing_total[k] = missing_total.get(k, 0) - d
    for k, n in missing_total.items():
        if n > dup_keys.get(k, 0):
            bad.append(('edits', '%s lost or moved past code' % (k,)))
    allowed_new = [('inc', k) for k in add_keys] + [('fwd', f) for f in add_fwds]
    allowed_new = [(k, {'class F;': 'f'}.get(v, v)) for k, v in allowed_new]
    for k, n in extra_total.items():
        if n > allowed_new.count(k):
            bad.append(('edits', '%s appears where it was not' % (k,)))
    have = [(t[0], t[1]) for t in skeleton_out(outs)]
    for k in allowed_new:
        if k not in have:
            bad.append(('edits', 'addition %s is missing' % (k,)))
    if deletes_allowed:
        want_gone = {(l.kind, INC_KEY.get(l.tok, l.tok)) for l in lines
                     if l.removed}
        still = {(t[0], t[1]) for t in full_in}
        for k in want_gone - still - set(allowed_new):
            if k in have:
                bad.append(('edits', 'removal of %s was not carried out' % (k,)))

    # Comments.
    maylose = lost_comments_allowed(lines, ski, dup_idx) if deletes_allowed else set()
    out_texts = [o.text for o in outs]
    for i, l in enumerate(lines):
        if l.kind != 'com':
            continue
        n = out_texts.count(l.text)
        if n > 1 or (n == 0 and i not in maylose):
            bad.append(('comments', 'comment %r appears %d times' % (l.text, n)))
        if n == 1 and not l.cont and i + 1 < len(lines) and lines[i + 1].cont:
            j = out_texts.index(l.text)
            if j + 1 >= len(outs) or out_texts[j + 1] != lines[i + 1].text:
                bad.append(('code', 'a comment was split open'))
    # Attachment: a comment run that does not start the file goes with the
    # kept include or declaration right below it.
    i = 0
    while i < len(lines):
        if lines[i].kind != 'com':
            i += 1
            continue
        j = i
        while j < len(lines) and lines[j].kind == 'com':
            j += 1
        if (i > 0 and j < len(lines) and lines[j].kind in ('inc', 'fwd') and
                not lines[j].removed and j not in dup_idx):
            run = [l.text for l in lines[i:j]]
            if run[0] in out_texts:
                p = out_texts.index(run[0])
                after = outs[p + len(run)] if p + len(run) < len(outs) else None
                key = INC_KEY.get(lines[j].tok, lines[j].tok)
                if out_texts[p:p + len(run)] != run or after is None or \
                        after.key != key:
                    bad.append(('comments', 'the comment above %s was parted from '
                                'it' % key))
        i = j

    # Blank lines between adjacent code lines.
    codeidx = [i for i, l in enumerate(lines)
               if in_kind(l) not in ('com', 'blank', 'inc', 'fwd', 'cont')]
    outcode = [i for i, o in enumerate(outs)
               if o.kind not in ('com', 'blank', 'inc', 'fwd', 'fwdpart', 'cont',
                                 'newns', 'newend')]
    if len(codeidx) == len(outcode):
        for a, b, p, q in zip(codeidx, codeidx[1:], outcode, outcode[1:]):
            mid = lines[a + 1:b]
            if all(l.kind == 'blank' for l in mid):
                got = outs[p + 1:q]
                if all(o.kind == 'blank' for o in got) and len(got) != len(mid):
                    bad.append(('blanks', 'blank lines between code lines: '
                                '%d -> %d' % (len(mid), len(got))))

    # Where additions went.
    sk = skeleton_out(outs)
    kinds = [t[0] for t in sk]
    tops = toplevel_flags(kinds)
    scopes = scopes_of(outs)
    g = guard_of(kinds)
    newkeys = {k for k in allowed_new
               if k not in [(t[0], t[1]) for t in full_in]}
    lead = 0
    while lead < len(lines) and lines[lead].kind == 'com':
        lead += 1
    leadtexts = [l.text for l in lines[:lead]]
    for pos, (t, f) in enumerate(zip(sk, tops)):
        if (t[0], t[1]) not in newkeys:
            continue
        want = ['k'] if t[1].startswith('namespace k') else []
        got = scopes[t[2]]
        if got != want and not outs[t[2]].text.startswith('namespace k {'):
            bad.append(('place', '%s was put into scope %s' % (t[1], got)))
        if not f and not (want and enclosing_only_k(sk, pos, g)):
            bad.append(('place', '%s was put inside a conditional, namespace '
                        'or function' % t[1]))
        if g and not g[0] < pos < g[1] and not parted_once(lines):
            bad.append(('place', '%s was put outside the header guard' % t[1]))
        if g and pos == g[0] + 1 and sk[pos + 1][1].startswith('#define H'):
            bad.append(('place', '%s was put inside the guard but before its '
                        'define' % t[1]))
        before = [o.text for o in outs[:t[2]]]
        if leadtexts and leadtexts[0] in out_texts and \
                not set(leadtexts) <= set(before):
            bad.append(('place', '%s was put before the comment that starts the '
                        'file' % t[1]))
        if want and outs[t[2]].text == 'class N;':
            continue        # inside a namespace
        if dup_idx or parted_once(lines):
            continue        # which copy goes, or where the frame ends, is open
        exp = expected_segment(ski, t, name, guarded)
        if exp is None:
            continue
        seg = sum(1 for u in sk[:pos] if is_code(u))
        if ci == [(u[0] if u[1] != BARRIER else 'barrier', u[1])
                  for u in sk if is_code(u)] and seg != exp:
            bad.append(('place', '%s was put after %d code lines, not next to its '
                        'kind after %d' % (t[1], seg, exp)))
    return bad


def parted_once(lines):
    """Is a comment between '#pragma once' and what follows it?"""
    for i, l in enumerate(lines):
        if l.kind == 'once':
            j = i + 1
            while j < len(lines) and lines[j].kind == 'blank':
                j += 1
            if j < len(lines) and lines[j].kind == 'com':
                return True
    return False


def scopes_of(outs):
    """Names of the namespaces around each output line ('?': anything else)."""
    res, st = [], []
    for o in outs:
        if o.kind in ('end', 'newend'):
            for _ in range(o.text.count('}')):
                if st:
                    st.pop()
        res.append([x for x in st])
        if o.kind in ('ns', 'newns'):
            for part in o.text.split('namespace')[1:]:
                st.append(part.strip(' {'))
        elif o.kind == 'fn':
            st.append('?')
    return res


def enclosing_only_k(sk, pos, g):
    st = []
    for i, t in enumerate(sk[:pos]):
        if g and i in g:
            continue
        if t[0] in ('if', 'ns', 'fn'):
            st.append(t[1])
        elif t[0] in ('end', 'endif'):
            st.pop()
    return st == [TOK['L'][1]]


def line_kind(key, name, first):
    """1 main, 2 C system, 3 C++ system, 4 other; 6 forward declaration."""
    stem = os.path.splitext(name)[0]
    if key[0] != 'inc':
        return 6
    k = key[1]
    if k[0] == '<':
        return 2 if '.' in k else 3
    if k == '"r.h"':
        return 1
    c = re.sub(r'(-inl\.h|\.h)$', '', k.strip('"'))
    if c == stem or (first and os.path.basename(c) == os.path.basename(stem)):
        return 1
    return 4


def expected_segment(ski, t, name, guarded):
    """How many code lines precede the place where t belongs, per the
    documented preference: the first group of its own kind, else the last group
    of the nearest lower kind, else the first group of the nearest higher kind,
    else after guards.  None: not decided by the documentation."""
    kinds = [u[0] for u in ski]
    tops = toplevel_flags(kinds)
    kind = line_kind(t, name, False)
    first, last = {}, {}
    seg = 0
    seeninc = False
    for u, f in zip(ski, tops):
        if u[1] == BARRIER:
            return None
        if is_code(u):
            seg += 1
            continue
        lk = line_kind(u, name, u[0] == 'inc' and not seeninc)
        seeninc = seeninc or u[0] == 'inc'
        if not f:
            continue
        if lk == 6:
            return None          # depends on what counts as content before it
        first.setdefault(lk, seg)
        last[lk] = seg
    if kind in first:
        return first[kind]
    for k in range(kind - 1, 0, -1):
        if k in last:
            return last[k]
    for k in range(kind + 1, 6):
        if k in first:
            return first[k]
    g = guard_of(kinds) if guarded else None
    n = 0
    for i, u in enumerate(ski):
        if u[0] == 'once' or (g and i == g[0]) or \
                (g and i == g[0] + 1 and u[1].startswith('#define')):
            if i == (g or [-2])[0] + 1 and u[2] != ski[i - 1][2] + 1:
                return None      # is it the guard's define?
            n += 1
        else:
            break
    return n
