'''A process that has imported the library and done nothing else; it forks a
child for each request, so that every request runs in a fresh process.'''
import importlib
import os
import pickle
import select as _select
import signal
import struct
import time


class Died(Exception):
    pass


class Zygote:
    def __init__(self):
        self.start()

    def start(self):
        a, b = os.pipe()
        c, d = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                os.close(b)
                os.close(c)
                serve(a, d)
            finally:
                os._exit(0)
        os.close(a)
        os.close(d)
        self.pid, self.w, self.r = pid, b, c

    def call(self, module, func, *args, timeout=200.0):
        _write(self.w, (module, func, args))
        out = _read(self.r, timeout)
        if out is None:
            self.stop()
            self.start()
            raise Died('no answer within %d s' % timeout)
        kind, v = out
        if kind != 'ok':
            raise Died(v)
        return v

    def stop(self):
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(self.pid, 0)
        os.close(self.w)
        os.close(self.r)


def _write(fd, x):
    b = pickle.dumps(x)
    b = struct.pack('<Q', len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _exact(fd, n, end):
    out = b''
    while len(out) < n:
        if end is not None:
            left = end - time.monotonic()
            if left <= 0 or not _select.select([fd], [], [], left)[0]:
                return None
        x = os.read(fd, min(1 << 20, n - len(out)))
        if not x:
            return None
        out += x
    return out


def _read(fd, timeout=None):
    end = None if timeout is None else time.monotonic() + timeout
    h = _exact(fd, 8, end)
    if h is None:
        return None
    b = _exact(fd, struct.unpack('<Q', h)[0], end)
    return None if b is None else pickle.loads(b)


def serve(r, w):
    signal.setitimer(signal.ITIMER_PROF, 0)
    while True:
        req = _read(r)
        if req is None:
            return
        a, b = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(a)
                m, f, args = req
                try:
                    v = ('ok', getattr(importlib.import_module(m), f)(*args))
                except Exception as e:
                    import traceback
                    v = ('error', '%s: %s\n%s' % (
                        type(e).__name__, e, traceback.format_exc()[-900:]))
                _write(b, v)
            finally:
                os._exit(0)
        os.close(b)
        v = _read(a)
        os.close(a)
        os.waitpid(pid, 0)
        _write(w, v if v is not None else ('error', 'the process died'))
