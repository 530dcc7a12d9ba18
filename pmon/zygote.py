"""A process forked before anything ran, that runs jobs in fresh children of
its own: what a job sees is what a newly started interpreter with the same
modules imported would see."""
import os
import pickle
import struct
import traceback


class Zygote:
    def __init__(self):
        self.r_out, w_out = os.pipe()
        r_in, self.w_in = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(self.r_out)
            os.close(self.w_in)
            try:
                self._serve(r_in, w_out)
            finally:
                os._exit(0)
        os.close(r_in)
        os.close(w_out)

    def _serve(self, r_in, w_out):
        while True:
            job = _recv(r_in)
            if job is None:
                return
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(rd)
                try:
                    fn, args = job
                    mod, name = fn.rsplit(":", 1)
                    f = getattr(__import__(mod, fromlist=["x"]), name)
                    res = ("ok", f(*args))
                except BaseException as e:
                    res = ("error", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-2500:]))
                _send(wr, res)
                os._exit(0)
            os.close(wr)
            res = _recv(rd)
            os.close(rd)
            os.waitpid(pid, 0)
            _send(w_out, res if res is not None else ("error", "job ended without a result"))

    def call(self, fn, *args):
        _send(self.w_in, (fn, args))
        return _recv(self.r_out)

    def close(self):
        os.close(self.w_in)
        os.close(self.r_out)
        os.waitpid(self.pid, 0)


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack("<q", len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


def _recv(fd):
    h = _read(fd, 8)
    if h is None:
        return None
    return pickle.loads(_read(fd, struct.unpack("<q", h)[0]))


def _read(fd, n):
    out = b""
    while len(out) < n:
        b = os.read(fd, min(1 << 20, n - len(out)))
        if not b:
            return None
        out += b
    return out
