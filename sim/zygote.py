"""A freshly started Python process with the library imported, another hash seed and nothing loaded yet.  For every
request it forks a child - a machine that has just booted - which restores a checkpoint and answers questions."""
import os
import pickle
import select
import signal
import socket
import struct
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_name = None
_keep = []


def start():
    """Start it (once per check); children of this process share it."""
    global _name
    if _name is not None:
        return
    _name = "verif-zygote-%d-%d" % (os.getpid(), time.monotonic_ns())
    r, w = os.pipe()
    os.set_inheritable(r, True)
    env = dict(os.environ, PYTHONHASHSEED="4242", PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.Popen([sys.executable, "-m", "sim.zygote", _name, str(r), str(w)], cwd=ROOT, env=env, close_fds=True,
                         pass_fds=[r], stdin=subprocess.DEVNULL)
    os.close(r)
    _keep.append((p, w))      # when the last holder of w is gone the zygote ends


def _send(s, data):
    s.sendall(struct.pack("<Q", len(data)) + data)


def _recv(s):
    def n(k):
        b = bytearray()
        while len(b) < k:
            x = s.recv(min(1 << 20, k - len(b)))
            if not x:
                raise EOFError
            b += x
        return bytes(b)
    return n(struct.unpack("<Q", n(8))[0])


def request(req, timeout=100):
    """req: dict(data=bytes, how=str, seed=int, deep=..., resave=how or None) -> dict"""
    from .core import HarnessError
    start()
    t0 = time.monotonic()
    while True:
        s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        s.settimeout(timeout)
        try:
            s.connect("\0" + _name)
            break
        except OSError:
            s.close()
            if time.monotonic() - t0 > timeout:
                raise HarnessError("the fresh process did not come up")
            time.sleep(0.05)
    try:
        _send(s, pickle.dumps(req))
        return pickle.loads(_recv(s))
    except (EOFError, socket.timeout) as e:
        raise HarnessError("the fresh process died or hung: %r" % e)
    finally:
        s.close()


def serve(conn):
    req = pickle.loads(_recv(conn))
    from . import ckpt
    import io
    import traceback
    out = {}
    try:
        try:
            obj = ckpt.restore(req["data"], req["how"])
        except BaseException as e:  # noqa: BLE001
            out["refused"] = "%s: %s" % (type(e).__name__, str(e)[:200])
            obj = None
        if obj is not None:
            if req["resave"]:
                b = io.BytesIO()
                ckpt.save(obj, req["resave"], b)
                out["data"] = b.getvalue()
            out["answers"] = ckpt.both(obj, req["seed"], req["deep"])
    except BaseException:  # noqa: BLE001
        out["error"] = traceback.format_exc()
    _send(conn, pickle.dumps(out))


def main():
    name, ctl = sys.argv[1], int(sys.argv[2])
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    from . import base  # noqa: F401
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    ls = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
    ls.bind("\0" + name)
    ls.listen(128)
    while True:
        rs, _, _ = select.select([ls, ctl], [], [])
        if ctl in rs:
            os._exit(0)
        c, _ = ls.accept()
        if os.fork() == 0:
            try:
                ls.close()
                signal.alarm(120)
                serve(c)
            finally:
                os._exit(0)
        c.close()


if __name__ == "__main__":
    main()
