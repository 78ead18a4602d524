"""A second process with another backend: answers pickled requests of a check module.

  python -m nnv.server   (NANNOS_BACKEND in the environment)
Requests on stdin are pickles (module, function, argument); answers on stdout are pickles
("ok", result) / ("library", message) / ("skip", reason) / ("violation", msg) / ("harness", traceback).
"""
import importlib
import os
import pickle
import struct
import subprocess
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def read(f):
    h = f.read(8)
    if len(h) < 8:
        return None
    n = struct.unpack("<q", h)[0]
    return pickle.loads(f.read(n))


def write(f, obj):
    b = pickle.dumps(obj)
    f.write(struct.pack("<q", len(b)) + b)
    f.flush()


class Server:
    def __init__(self, backend, cmd=None, env=None):
        from nnv import common
        from nnv.run import backend_env

        e = backend_env(backend)
        e.update(env or {})
        self.p = subprocess.Popen(
            cmd or [sys.executable, "-W", "ignore", "-m", "nnv.server"],
            env=e, cwd=common.VERIF, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
        )

    def send(self, module, function, arg):
        write(self.p.stdin, (module, function, arg))

    def recv(self):
        return read(self.p.stdout)

    def call(self, module, function, arg):
        self.send(module, function, arg)
        return self.recv()

    def close(self):
        self.p.kill()
        self.p.wait()


def main():
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)  # whatever the library prints must not mix with the answers
    from nnv import common

    try:
        nn = common.import_nannos()
    except Exception:
        nn = None
        err = traceback.format_exc()[-1500:]
    while True:
        r = read(sys.stdin.buffer)
        if r is None:
            return
        if nn is None:
            write(out, ("library", "import failed: " + err))
            continue
        try:
            mod = importlib.import_module(r[0])
            write(out, ("ok", getattr(mod, r[1])(r[2])))
        except common.Skip as s:
            write(out, ("skip", str(s)))
        except common.Violation as s:
            write(out, ("violation", str(s)))
        except Exception as e:
            if common.from_code_under_test(e):
                tb = traceback.extract_tb(e.__traceback__)
                where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-3:])
                write(out, ("library", f"{type(e).__name__}: {str(e)[:200]} ({where})"))
            else:
                write(out, ("harness", traceback.format_exc()[-2000:]))


if __name__ == "__main__":
    main()
