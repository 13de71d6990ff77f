"""Talks to a PyPy worker that has the code under test loaded."""
import json, os, select, shutil, signal, subprocess, time

HERE = os.path.dirname(os.path.abspath(__file__))
PYPY = os.environ.get('VERIF_PYPY', '/opt/venv/bin/python')


class HarnessError(Exception):
    pass


def build_copy(repo, lib):
    """Lay the working tree's sources out as package `sppl` (what setup.py does)."""
    ign = shutil.ignore_patterns('__pycache__', '*.pyc')
    shutil.copytree(os.path.join(repo, 'src'), os.path.join(lib, 'sppl'), ignore=ign)
    shutil.copytree(os.path.join(repo, 'magics'), os.path.join(lib, 'sppl', 'magics'), ignore=ign)


def worker_env(lib, extra=None):
    env = {
        'PATH': '/usr/local/bin:/usr/bin:/bin', 'HOME': os.environ.get('HOME', '/root'),
        'LC_ALL': 'C.UTF-8', 'PYTHONHASHSEED': '0', 'PYTHONNOUSERSITE': '1',
        'PYTHONDONTWRITEBYTECODE': '1', 'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1',
        'PYTHONPATH': lib + os.pathsep + os.path.join(HERE, 'wk'),
        'PYTHONWARNINGS': 'ignore', 'VF_PARENT': str(os.getpid()),
        'TMPDIR': os.environ.get('TMPDIR', '/tmp'),
        'IPYTHONDIR': os.path.join(os.path.dirname(lib), 'ipython'),
    }
    env.update(extra or {})
    return env


class Worker:
    def __init__(self, lib, prop, cwd=None, extra=None):
        self.lib, self.prop, self.cwd, self.extra = lib, prop, cwd, extra
        self.p = None
        self.buf = b''

    def start(self):
        self.buf = b''
        self.errpath = os.path.join(self.cwd or '/tmp', 'worker-%d-%d.err' % (os.getpid(), id(self)))
        self.p = subprocess.Popen(
            [PYPY, os.path.join(HERE, 'wk', 'worker.py'), self.prop, self.lib],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=open(self.errpath, 'w'),
            cwd=self.cwd, env=worker_env(self.lib, self.extra), start_new_session=True)
        hello = self._read(120)
        if hello is None or hello.get('status') != 'ready':
            err = open(self.errpath).read()[-2000:]
            self.stop()
            raise HarnessError('worker did not start: %s %s' % (hello, err))

    def _read(self, timeout):
        fd = self.p.stdout.fileno()
        end = time.time() + timeout
        while b'\n' not in self.buf:
            left = end - time.time()
            if left <= 0:
                return None
            r, _, _ = select.select([fd], [], [], left)
            if not r:
                return None
            data = os.read(fd, 1 << 16)
            if not data:
                return {'status': 'died'}
            self.buf += data
        line, self.buf = self.buf.split(b'\n', 1)
        return json.loads(line)

    def run(self, case, timeout=60):
        """Result dict, or None when the worker timed out (and was killed)."""
        if self.p is None:
            self.start()
        self.p.stdin.write(json.dumps(case).encode() + b'\n')
        self.p.stdin.flush()
        res = self._read(timeout)
        if res is None:
            self.stop()
            return None
        if res['status'] == 'died':
            err = open(self.errpath).read()[-2000:]
            rc = self.p.wait()
            self.stop()
            if rc in (-9, 137):       # memory guard of the sandbox: inconclusive
                return None
            raise HarnessError('worker died rc=%s %s' % (rc, err))
        return res

    def stop(self):
        if self.p is None:
            return
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        self.p.wait()
        self.p.stdin.close()
        self.p.stdout.close()
        self.p = None
