"""Driving the real iwyu_tool.py with a stand-in for include-what-you-use."""
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')


def compile_fakes(outdir):
    os.makedirs(outdir, exist_ok=True)
    subprocess.run(['gcc', '-O1', '-o', outdir + '/fake-iwyu',
                    HERE + '/fake_iwyu.c'], check=True)
    subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o',
                    outdir + '/fake-load.so', HERE + '/fake_load.c'],
                   check=True)
    return outdir


class Ctl:
    """A control directory for the stand-ins of one run."""

    def __init__(self, path):
        self.path = path
        shutil.rmtree(path, ignore_errors=True)
        os.makedirs(path)
        self.pos = 0
        self.buf = b''
        self.records = []

    def fifo(self, ident):
        os.mkfifo('%s/go.%s' % (self.path, ident))
        # Keep a read-write handle so neither side ever blocks in open().
        return os.open('%s/go.%s' % (self.path, ident), os.O_RDWR)

    def poll(self):
        """Reads new START records: (id, pid, cwd, argv)."""
        try:
            with open(self.path + '/log', 'rb') as f:
                f.seek(self.pos)
                data = f.read()
        except FileNotFoundError:
            return []
        self.pos += len(data)
        self.buf += data
        new = []
        while b'\0\1\n' in self.buf:
            rec, self.buf = self.buf.split(b'\0\1\n', 1)
            fields = [x.decode('utf-8', 'surrogateescape')
                      for x in rec.split(b'\0')]
            assert fields[0] == 'START', fields
            new.append((fields[1], int(fields[2]), fields[3], fields[4:]))
        self.records += new
        return new


def tool_env(fakes, ctl, load=False):
    env = {'PATH': '/usr/bin:/bin', 'LC_ALL': 'C.UTF-8',
           'PYTHONDONTWRITEBYTECODE': '1',
           'IWYU_BINARY': fakes + '/fake-iwyu', 'FAKE_CTL': ctl}
    if load:
        env['LD_PRELOAD'] = fakes + '/fake-load.so'
    return env


def start_tool(args, cwd, env, stdout, stderr):
    return subprocess.Popen([sys.executable, '-S', '-E', REPO + '/iwyu_tool.py']
                            + list(args), cwd=cwd, env=env,
                            stdin=subprocess.DEVNULL, stdout=stdout,
                            stderr=stderr)


def write_db(path, entries):
    with open(path, 'w') as f:
        json.dump(entries, f)


def wait_for(cond, seconds, step=0.0005):
    end = time.time() + seconds
    while True:
        if cond():
            return True
        if time.time() > end:
            return False
        time.sleep(step)
