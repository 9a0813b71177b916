"""Common machinery of the checks: scratch space, workers, evidence, verdicts.

Every check enumerates a finite space of cases completely, computes what the
property demands for each case from a reference model, and runs the real
include-what-you-use (or the real Python tools) on it.
"""
import atexit
import hashlib
import json
import multiprocessing
import os
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
sys.dont_write_bytecode = True

import build  # noqa: E402

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


def scratch_root():
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else tempfile.gettempdir()
    d = tempfile.mkdtemp(prefix='iwyu-verif-', dir=base)
    pid = os.getpid()

    def cleanup():
        if os.getpid() == pid:
            shutil.rmtree(d, ignore_errors=True)
    atexit.register(cleanup)
    return d


class Server:
    """One fork server: runs the real program once per job."""

    def __init__(self, binary, outfile, timeout=60, env=()):
        self.p = subprocess.Popen([binary, str(timeout)],
                                  stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE,
                                  env={'PATH': '/usr/bin:/bin', 'LC_ALL': 'C',
                                       **dict(env)})
        self.outfile = outfile

    def run(self, cwd, argv):
        """Returns (exit status, output bytes). Negative status: signal; None: hang."""
        payload = b''.join(os.fsencode(s) + b'\0'
                           for s in [cwd, self.outfile] + list(argv))
        self.p.stdin.write(struct.pack('<I', len(payload)) + payload)
        self.p.stdin.flush()
        raw = self.p.stdout.read(4)
        if len(raw) != 4:
            raise RuntimeError('the fork server died')
        st = struct.unpack('<i', raw)[0]
        with open(self.outfile, 'rb') as f:
            out = f.read()
        if st == -1:
            return None, out
        if os.WIFSIGNALED(st):
            return -os.WTERMSIG(st), out
        return os.WEXITSTATUS(st), out


def plain_run(binary, cwd, argv, timeout=120):
    p = subprocess.run([binary] + list(argv), cwd=cwd, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout,
                       env={'PATH': '/usr/bin:/bin', 'LC_ALL': 'C'})
    return p.returncode, p.stdout


class Box:
    """A worker's directory plus its server. Files are written only when they
    differ from what is there."""

    def __init__(self, root, name, server_binary):
        self.dir = os.path.join(root, name)
        os.makedirs(self.dir)
        self.present = {}
        self.binary = server_binary
        self.out = os.path.join(root, name + '.out')
        self.server = Server(server_binary, self.out) if server_binary else None
        self.others = {}

    def put(self, files):
        for rel in [r for r in self.present if r not in files]:
            os.unlink(os.path.join(self.dir, rel))
            del self.present[rel]
        for rel, text in files.items():
            if self.present.get(rel) == text:
                continue
            p = os.path.join(self.dir, rel)
            d = os.path.dirname(p)
            if not os.path.isdir(d):
                os.makedirs(d)
            with open(p, 'wb') as f:
                f.write(text.encode() if isinstance(text, str) else text)
            self.present[rel] = text

    def iwyu(self, files, args, cwd='', env=()):
        """env: sorted pairs; every environment gets a server of its own."""
        self.put(files)
        server = self.server
        if env:
            if env not in self.others:
                self.others[env] = Server(self.binary, '%s%d' % (
                    self.out, len(self.others)), env=env)
            server = self.others[env]
        rc, out = server.run(os.path.join(self.dir, cwd),
                                  ['include-what-you-use'] + list(args))
        return rc, out.decode('utf-8', 'replace')


_box = None
_root = None


def box():
    return _box


def _init(root, server_binary, counter):
    global _box
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    with counter.get_lock():
        n = counter.value
        counter.value += 1
    _box = Box(root, 'w%d' % n, server_binary)


class Violation(Exception):
    """A case on which the property fails."""

    def __init__(self, what, detail=None, key=None):
        Exception.__init__(self, what)
        self.what = what
        self.detail = detail
        self.key = key


def _guard(args):
    fn, item = args
    try:
        return ('ok', fn(item))
    except Violation as v:
        return ('bad', item, v.what, v.detail, v.key)
    except (KeyError, IndexError, AttributeError, ValueError, TypeError,
            AssertionError, StopIteration, subprocess.TimeoutExpired):
        # The outcome does not have the shape every outcome of the unchanged
        # program has (a record is missing, say).
        return ('bad', item, 'the outcome has no expected shape',
                traceback.format_exc(), None)
    except Exception:
        return ('err', item, traceback.format_exc())


class Check:
    """One run of one check."""

    def __init__(self, prop, level='model_checking', binary=True, jobs=None):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.root = scratch_root()
        self.jobs = jobs or min(8, os.cpu_count() or 1)
        self.plain = self.server = None
        if binary:
            try:
                self.plain, self.server = build.get(self.root + '/build')
            except build.BuildError as e:
                print('cannot build include-what-you-use: %s' % e)
                sys.exit(3)
        self.counter = multiprocessing.Value('i', 0)
        self.replayer = None
        self.pool = self._workers(self.jobs)
        self.violations = []
        self.known_hit = {}
        self.coverage = {'samples': []}
        self.states = set()
        self.ntransitions = 0
        self.ntraces = 0
        self.known = self._load_known()

    def _workers(self, n):
        return multiprocessing.get_context('fork').Pool(
            n, _init, (self.root, self.server, self.counter))

    def _load_known(self):
        known = {}
        p = os.path.join(VERIF, 'known-findings.txt')
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line.startswith('known: property=%s ' % self.prop):
                    rest = line.split(' ', 2)[2]
                    key, _, what = rest.partition(' ')
                    known[key[len('key='):]] = what
        return known

    # -- exploring -----------------------------------------------------------
    def explore(self, name, fn, items, chunk=16,
                stop_after=int(os.environ.get('VERIF_STOP', 5))):
        """Runs fn on every item (no sampling); fn raises Violation or returns
        a small summary. Returns the summaries in order."""
        t = time.time()
        items = list(items)
        results = []
        nbad = 0
        for item, r in zip(items, self.pool.imap(
                _guard, [(fn, i) for i in items], chunk)):
            if r[0] == 'ok':
                results.append(r[1])
                continue
            if r[0] == 'err':
                # An exception is not a verdict: give up on the run as a whole.
                print('internal error in %s on %r:\n%s' % (name, item, r[2]))
                self.pool.terminate()
                sys.exit(4)
            if r[4] is not None and r[4] in self.known:
                self.known_hit.setdefault(r[4], r[2])
                results.append(None)
                continue
            # Replay before reporting, without waiting for the other workers.
            if self.replayer is None:
                self.replayer = self._workers(1)
            r2 = self.replayer.apply(_guard, ((fn, item),))
            if r2[0] != 'bad':
                print('not reproducible in %s: %r: %s' % (name, item, r[2]))
                self.coverage.setdefault('unreproduced', []).append(repr(item))
                results.append(None)
                continue
            self.violations.append((name, item, r2[2], r2[3]))
            results.append(None)
            nbad += 1
            if nbad >= stop_after:
                print('# stopping %s after %d violations' % (name, nbad))
                # Drop what is still queued.
                self.pool.terminate()
                self.pool = self._workers(self.jobs)
                break
        self.ntraces += len(items)
        print('# %s: %d cases in %.1fs, %d bad' %
              (name, len(items), time.time() - t, nbad))
        sys.stdout.flush()
        return results

    def sample(self, s):
        if len(self.coverage['samples']) < 6:
            self.coverage['samples'].append(s)

    def confirm_binding(self, cases):
        """Runs (files, args) cases through the plainly linked program and the
        fork server, and requires the same bytes."""
        n = 0
        for files, args in cases:
            a = self.pool.apply(_run_case, ((files, args),))
            b = self.pool.apply(_run_plain, ((self.plain, files, args),))
            if tuple(a) != tuple(b) and self.violations:
                print('# the fork server and the plain program differ')
            elif tuple(a) != tuple(b):
                print('the fork server and the plain program differ on %r' %
                      (args,))
                print(a, b)
                sys.exit(5)
            n += 1
        self.coverage['fork_server_vs_exec_agreements'] = n

    # -- ending --------------------------------------------------------------
    def finish(self, states, transitions, exhaustive=True, **extra):
        cov = self.coverage
        if self.level == 'model_checking':
            cov['states'] = int(states)
            cov['transitions'] = int(transitions)
            cov['traces_validated_against_impl'] = int(self.ntraces)
        else:
            cov['evaluations'] = int(self.ntraces)
            cov['distinct_nontrivial'] = int(states)
        cov['exhaustive_within_bounds'] = bool(exhaustive)
        cov.update(extra)
        cov['known_findings_seen'] = sorted(self.known_hit)
        self.pool.terminate()
        self.pool.join()
        ev = {
            'property': self.prop, 'tier': TIER, 'seed': SEED,
            'level': self.level, 'coverage': cov,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(self.violations),
        }
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        with open('%s/evidence/%s.json' % (VERIF, self.prop), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True, default=str)
            f.write('\n')
        for key in sorted(self.known):
            if key in self.known_hit:
                print('KNOWN-FINDING: property=%s %s' %
                      (self.prop, self.known[key]))
        print('# states=%s transitions=%s traces=%s wall=%.1fs' %
              (states, transitions, self.ntraces, ev['wall_s']))
        if not self.violations:
            print('OK property=%s' % self.prop)
            sys.exit(0)
        rdir = VERIF + '/evidence/replays'
        os.makedirs(rdir, exist_ok=True)
        for i, (name, item, what, detail) in enumerate(self.violations):
            path = '%s/%s-%d.json' % (rdir, self.prop, i)
            with open(path, 'w') as f:
                json.dump({'property': self.prop, 'space': name, 'case': item,
                           'what': what, 'detail': detail}, f, indent=1,
                          default=str)
            print('--- %s: %s' % (name, what))
            if i < 3:
                print('    case: %s' % repr(item)[:1500])
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
        sys.exit(1)


def _run_case(c):
    files, args = c
    return box().iwyu(files, args)


def _run_plain(c):
    plain, files, args = c
    box().put(files)
    # argv[0] reaches diagnostics, so give both the same.
    p = subprocess.run(['include-what-you-use'] + list(args), executable=plain,
                       cwd=box().dir, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       env={'PATH': '/usr/bin:/bin', 'LC_ALL': 'C'})
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def digest(x):
    return hashlib.sha1(repr(x).encode()).hexdigest()[:12]
