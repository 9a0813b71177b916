"""C29: running many analyses in parallel, under every completion schedule.

Model: invocations 0..n-1, a limit of j running at once, and optionally a load
average that the environment switches between low and high.  The environment's
moves: let any one or two of the running analyses (or all of them) end, or
switch the load.  Every path of the model is replayed on the real iwyu_tool.py,
with real processes standing in for the analyses; each stays blocked until the
explorer releases it, so the completion order is the explorer's choice.
"""
import itertools
import os
import shutil
import signal
import subprocess
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                '..', 'lib'))
from harness import *  # noqa
import toolbox

PROP = 'C29'
WAIT = 20.0      # how long a start the model predicts may take
SETTLE = 0.02    # how long to watch for a start the model forbids


# ---- the model -------------------------------------------------------------
# state: (running frozenset, next index, load high?)
def settle(n, j, running, nxt, high, use_load):
    """The starts that must follow from here, and the resulting state."""
    started = []
    running = set(running)
    while nxt < n:
        if len(running) >= j:
            break
        if use_load and high and running:
            break
        running.add(nxt)
        started.append(nxt)
        nxt += 1
    return frozenset(running), nxt, started


def moves(state, toggles_left, use_load):
    running, nxt, high = state
    run = sorted(running)
    for i in run:
        yield ('end', (i,))
    for p in itertools.combinations(run, 2):
        yield ('end', p)
    if len(run) > 2:
        yield ('end', tuple(run))
    if use_load and toggles_left:
        yield ('load', not high)


def paths(n, j, use_load, toggles, high0=False):
    """All complete move sequences; also collects states and transitions."""
    states, trans = set(), set()

    def rec(state, left, prefix):
        running, nxt, high = state
        states.add((n, j, use_load, state, left))
        if not running and nxt == n:
            yield prefix
            return
        for m in moves(state, left, use_load):
            if m[0] == 'end':
                r, x, _ = settle(n, j, running - set(m[1]), nxt, high, use_load)
                new, nl = (r, x, high), left
            else:
                r, x, _ = settle(n, j, running, nxt, m[1], use_load)
                new, nl = (r, x, m[1]), left - 1
            trans.add((n, j, use_load, state, left, m))
            yield from rec(new, nl, prefix + (m,))

    r, x, _ = settle(n, j, frozenset(), 0, high0, use_load)
    return list(rec((r, x, high0), toggles, ())), states, trans


# ---- replay on the real tool -----------------------------------------------
def expected_exit(codes):
    neg = [c for c in codes if c < 0]
    return (min(neg) if neg else max(codes)) & 0xff


def block(i, nbytes):
    parts = ['<%d stdout>\n' % i, '<%d stderr>\n' % i, '<%d resumed>\n' % i]
    left = nbytes
    while left > 0:
        k = min(61, left)
        parts.append('x' * (k - 1) + '\n')
        left -= k
    parts.append('<%d end>\n' % i)
    return ''.join(parts)


def replay(item):
    n, j, jarg, use_load, high0, path, codes, sizes = item
    d = box().dir
    ctl = toolbox.Ctl(d + '/ctl')
    src = d + '/src'
    os.makedirs(src, exist_ok=True)
    fifos = [ctl.fifo(i) for i in range(n)]
    if use_load:
        def set_load(high):
            with open(d + '/ctl/load.new', 'w') as f:
                f.write('100' if high else '0')
            os.rename(d + '/ctl/load.new', d + '/ctl/load')
        set_load(high0)
    toolbox.write_db(d + '/db.json', [
        {'directory': src, 'file': 'f%d.cc' % i,
         'arguments': ['clang++', '-DID=%d' % i, '-c', 'f%d.cc' % i]}
        for i in range(n)])
    args = ['-p', d + '/db.json'] + jarg
    if use_load:
        args += ['-l', '5']
    outf = open(d + '/stdout', 'wb+')
    errf = open(d + '/stderr', 'wb+')
    p = toolbox.start_tool(args, d, toolbox.tool_env(FAKES, d + '/ctl', use_load),
                           outf, errf)

    def bad(what):
        raise Violation('%s (n=%d, %s, path %s)' % (what, n, jarg, path),
                        {'moves': path, 'codes': codes,
                         'started': [r[0] for r in ctl.records]})

    try:
        running, nxt, started = settle(n, j, frozenset(), 0, high0, use_load)
        high = high0
        done = []
        ever = set()

        def sync(quiet):
            want = len(done) + len(running)

            def got():
                for rec in ctl.poll():
                    if int(rec[0]) in ever:
                        bad('analysis %s was run twice' % rec[0])
                    ever.add(int(rec[0]))
                return len(ever) >= want
            if not toolbox.wait_for(lambda: got() or p.poll() is not None, WAIT):
                bad('%d analyses running where %d should be' %
                    (len(ever) - len(done), len(running)))
            if quiet:
                toolbox.wait_for(lambda: False, SETTLE)
            got()
            if len(ever) > want:
                bad('%d analyses running at once' % (len(ever) - len(done)))
            if ever != running | set(done):
                bad('started %s, should be %s' %
                    (sorted(ever), sorted(running | set(done))))

        sync(nxt < n)
        for kind, arg in path:
            if kind == 'load':
                set_load(arg)
                high = arg
                running, nxt, started = settle(n, j, running, nxt, high, use_load)
                sync(high and nxt < n)
                continue
            if use_load and high and nxt < n:
                quiet = True
            else:
                quiet = False
            for i in arg:
                os.write(fifos[i], b'%d %d\n' % (codes[i], sizes[i]))
            done += arg
            running, nxt, started = settle(n, j, running - set(arg), nxt, high,
                                           use_load)
            sync(quiet)
        try:
            rc = p.wait(WAIT)
        except subprocess.TimeoutExpired:
            bad('the tool does not end although every analysis has')
        ctl.poll()
        if sorted(r[0] for r in ctl.records) != sorted(str(i) for i in range(n)):
            bad('analyses run: %s' % [r[0] for r in ctl.records])
        outf.seek(0)
        out = outf.read().decode()
        rest = out
        for i in range(n):
            b = block(i, sizes[i]) + '\n'
            if rest.count(b) != 1:
                bad('output of analysis %d printed %d times intact'
                    % (i, rest.count(b)))
            rest = rest.replace(b, '')
        if rest:
            bad('output that no analysis wrote: %r' % rest[:200])
        if j == 1:
            want = ''.join(block(i, sizes[i]) + '\n' for i in range(n))
            if out != want:
                bad('sequential output out of order')
        if rc != expected_exit(codes[:n] or [0]):
            bad('exit status %d for analyses that ended with %s; want %d' %
                (rc, codes, expected_exit(codes)))
        return (n, j, len(path), rc)
    finally:
        for f in fifos:
            os.close(f)
        p.kill()
        p.wait()
        for r in ctl.records:
            try:
                os.kill(r[1], signal.SIGKILL)
            except OSError:
                pass
        outf.close()
        errf.close()
        shutil.rmtree(d + '/ctl')


c = None
FAKES = None


def main():
    global FAKES, c
    thorough = TIER == 'thorough'
    root = scratch_root()
    FAKES = toolbox.compile_fakes(root)
    c = Check(PROP, binary=False)
    states, trans = set(), set()

    def gather(configs, codes, sizes, use_load, toggles):
        items = []
        for n, j, jarg, high0 in configs:
            ps, s, t = paths(n, j, use_load, toggles, high0)
            states.update(s)
            trans.update(t)
            for k, path in enumerate(ps):
                items.append((n, j, jarg, use_load, high0, path,
                              codes(n, k), sizes(n, k)))
        return items

    def codes(n, k):
        menu = [0, 1, 2, -9, 5, -6]
        return [menu[(k + i) % len(menu)] for i in range(n)]

    def sizes(n, k):
        return [150000 if (i + k) % 5 == 0 else i * 10 for i in range(n)]

    cfg = [(n, 1, jarg, False) for n in range(0, 4)
           for jarg in ([], ['-j', '1'], ['-j1'])]
    cfg += [(n, 2, ['-j', '2'], False) for n in range(1, 6)]
    cfg += [(n, 3, ['-j', '3'], False) for n in range(1, 5)]
    cfg += [(6, 2, ['-j', '2'], False), (3, 4, ['--jobs', '4'], False)]
    ncpu = os.cpu_count() or 1
    cfg += [(3, ncpu, ['-j', '0'], False), (2, ncpu, ['-j'], False)]
    if thorough:
        cfg += [(7, 2, ['-j', '2'], False), (8, 2, ['-j', '2'], False),
                (5, 3, ['-j', '3'], False), (4, 4, ['-j', '4'], False)]
    r = c.explore('every completion schedule', replay,
                  gather(cfg, codes, sizes, False, 0), chunk=4)
    outcomes = set(r)

    lcfg = [(n, 2, ['-j', '2'], h) for n in (1, 2, 3) for h in (False, True)]
    lcfg += [(3, 3, ['-j', '3'], h) for h in (False, True)]
    if thorough:
        lcfg += [(4, 2, ['-j', '2'], h) for h in (False, True)]
        lcfg += [(4, 3, ['-j', '3'], h) for h in (False, True)]
    r = c.explore('every completion and load schedule', replay,
                  gather(lcfg, codes, sizes, True, 3 if thorough else 2), chunk=4)
    outcomes |= set(r)

    # Exit status: all combinations of outcomes, in every completion order.
    menu = [0, 1, 2, 255, -9, -6]
    items = []
    for combo in itertools.product(menu, repeat=3):
        for order in (itertools.permutations(range(3)) if thorough
                      else [(0, 1, 2), (2, 0, 1), (1, 2, 0)]):
            items.append((3, 3, ['-j', '3'], False, False,
                          tuple(('end', (i,)) for i in order), list(combo),
                          [0, 0, 0]))
        items.append((3, 1, ['-j', '1'], False, False,
                      tuple(('end', (i,)) for i in range(3)), list(combo),
                      [0, 0, 0]))
    r = c.explore('exit status of every combination', replay, items, chunk=8)
    outcomes |= set(r)
    for it in items[:2]:
        states.add(('exit', tuple(it[6])))
    c.sample({'invocations': 3, 'jobs': 2, 'example path': paths(3, 2, False, 0)[0][:3]})
    c.sample({'exit combinations': len(menu) ** 3, 'menu': menu})
    c.finish(len(states) + len(menu) ** 3, len(trans),
             distinct_outcomes=len(outcomes),
             bounds='up to %d invocations, up to 4 at a time; one, two or all '
                    'running analyses end per step; load switched at most %d '
                    'times' % (8 if thorough else 6, 3 if thorough else 2))


main()
