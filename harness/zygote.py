"""A pristine process that runs each request in its own fork: 'another Python process, later'.

Started once per worker, with nothing but mcpyrate imported, so no state of the worker is in it.
Protocol: length-prefixed pickles on stdin/stdout.
"""

import marshal
import os
import pickle
import struct
import subprocess
import sys


class Zygote:
    def __init__(self):
        self.proc = subprocess.Popen([sys.executable, "-m", "harness.zygote"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                     cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

    def request(self, obj):
        send(self.proc.stdin, obj)
        return recv(self.proc.stdout)


def send(f, obj):
    blob = pickle.dumps(obj)
    f.write(struct.pack("<I", len(blob)) + blob)
    f.flush()


def recv(f):
    head = f.read(4)
    if len(head) < 4:
        raise EOFError("zygote closed the connection")
    return pickle.loads(f.read(struct.unpack("<I", head)[0]))


def evaluate(codes, globs, separate):
    """Run marshalled code objects in order; canonical value of `R` after each."""
    from harness import vals
    out = []
    for blob, sep in zip(codes, separate):
        ns = dict(globs)
        ns["__name__"] = "elsewhere"
        try:
            exec(marshal.loads(blob), ns)
            out.append(("ok", [vals.canon(x) for x in ns["R"]] if sep else vals.canon(ns["R"])))
        except Exception as err:
            out.append(("error", repr(err)))
    return out


def serve():
    from harness import sut  # noqa: F401
    inp, out = sys.stdin.buffer, sys.stdout.buffer
    while True:
        try:
            req = recv(inp)
        except EOFError:
            return
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                try:
                    res = evaluate(*req)
                except BaseException as err:
                    res = ("error", repr(err))
                with os.fdopen(w, "wb") as f:
                    f.write(pickle.dumps(res))
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            blob = f.read()
        os.waitpid(pid, 0)
        send(out, pickle.loads(blob))


if __name__ == "__main__":
    serve()
