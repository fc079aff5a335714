"""Runs a case in a process of its own in which the functions of the code under
test are compiled (the other processes run them interpreted)."""

import ctypes
import os
import pickle
import select
import signal
import struct
import subprocess
import sys
import time

_worker = None


class Died(Exception):
    pass


def _bound():
    # ends together with the process which started it
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)


class Worker:
    def __init__(self):
        env = dict(os.environ, NUMBA_DISABLE_JIT='0')
        self.owner = os.getpid()
        self.p = subprocess.Popen(
            [sys.executable, '-W', 'ignore', '-m', 'vlib.jit'], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, env=env, preexec_fn=_bound, bufsize=0,
        )

    def read(self, n, until):
        out = b''
        while len(out) < n:
            left = until - time.time()
            if left <= 0 or not select.select([self.p.stdout], [], [], left)[0]:
                raise TimeoutError
            got = os.read(self.p.stdout.fileno(), n - len(out))
            if not got:
                raise Died('the process of the compiled run ended (%s)' % self.p.wait())
            out += got
        return out

    def call(self, task, limit):
        until = time.time() + limit
        data = pickle.dumps(task)
        try:
            self.p.stdin.write(struct.pack('<Q', len(data)) + data)
            n = struct.unpack('<Q', self.read(8, until))[0]
            return pickle.loads(self.read(n, until))
        except BrokenPipeError:
            raise Died('the process of the compiled run ended (%s)' % self.p.wait())

    def stop(self):
        self.p.kill()
        self.p.wait()


def compiled(module, function, case, limit=200.0):
    """('ok', result) or ('raised', text) of function(case), compiled."""
    global _worker
    if _worker is None or _worker.owner != os.getpid():
        _worker = Worker()
    w, _worker = _worker, None  # dropped unless it answers
    try:
        out = w.call((module, function, case), limit)
    except BaseException as exc:
        w.stop()
        if isinstance(exc, Died):
            return 'raised', str(exc)
        if isinstance(exc, TimeoutError):
            return 'raised', 'no result of the compiled run after %d s' % limit
        raise
    _worker = w
    return out


def main():
    import importlib
    import traceback

    fin, fout = os.dup(0), os.dup(1)
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 0)
    os.dup2(null, 1)
    fin, fout = os.fdopen(fin, 'rb'), os.fdopen(fout, 'wb')
    while True:
        head = fin.read(8)
        if len(head) < 8:
            break
        module, function, case = pickle.loads(fin.read(struct.unpack('<Q', head)[0]))
        try:
            out = 'ok', getattr(importlib.import_module(module), function)(case)
        except Exception as exc:
            out = 'raised', '%s: %s [%s]' % (
                type(exc).__name__, ' '.join(str(exc).split())[:500],
                ' <- '.join('%s:%s %s' % (os.path.basename(f.filename), f.lineno, f.name) for f in traceback.extract_tb(exc.__traceback__)[::-1][:6]),
            )
        data = pickle.dumps(out)
        fout.write(struct.pack('<Q', len(data)) + data)
        fout.flush()


if __name__ == '__main__':
    main()
    os._exit(0)
