"""One virtual rank: an operating system process with its own hash seed.

Runs rank functions from mc.rankfns on the real code; every communication call
is sent to the explorer (mc.vmpi), which decides when it returns.
"""

import contextlib
import io
import os
import pickle
import struct
import sys
import traceback


class Pipe:
    def __init__(self, rfd, wfd):
        self.r, self.w = os.fdopen(rfd, "rb"), os.fdopen(wfd, "wb")

    def send(self, obj):
        b = pickle.dumps(obj, protocol=pickle.HIGHEST_PROTOCOL)
        self.w.write(struct.pack("<Q", len(b)) + b)
        self.w.flush()

    def recv(self):
        h = self.r.read(8)
        if len(h) < 8:
            raise EOFError
        return pickle.loads(self.r.read(struct.unpack("<Q", h)[0]))


FRESH = {"eigen", "report", "main"}


class Abort(BaseException):
    pass


class RemoteClient:
    def __init__(self, pipe, rank, size):
        self.pipe, self.rank, self.size = pipe, rank, size

    def call(self, op):
        self.pipe.send(("op", op))
        kind, value = self.pipe.recv()
        if kind == "abort":
            raise Abort(value)
        return value


def main():
    pipe = Pipe(int(sys.argv[1]), int(sys.argv[2]))
    rank = int(sys.argv[3])
    from mc import env, mpicore

    env.setup()
    import numpy  # noqa: F401
    import scipy.sparse.linalg  # noqa: F401
    import sympy.physics.wigner  # noqa: F401
    from mc import rankfns

    size = None
    while True:
        try:
            msg = pipe.recv()
        except EOFError:
            return
        _, newsize, fn, args = msg
        # The iterative eigensolver has hidden state: start from the same one on all ranks.
        child = os.fork() if fn in FRESH else 0
        if child:
            os.waitpid(child, 0)
            continue
        try:
            if newsize != size:
                size = newsize
                mpicore.client = RemoteClient(pipe, rank, size)
                env.forget()
            mpicore.client.watched = []
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                res = getattr(rankfns, fn)(rank, size, *args)
                sys.modules["mpi4py.MPI"]._flush() if mpicore.client.watched else None
            pipe.send(("done", res))
        except Abort:
            pipe.send(("aborted", None))
        except EOFError:
            return
        except BaseException as e:
            pipe.send(("exc", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-4))))
        if fn in FRESH:
            os._exit(0)


if __name__ == "__main__":
    main()
