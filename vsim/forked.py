"""Run a function in a forked child of this process and get its (picklable) value."""

import os
import pickle
import select
import signal
import struct
import time

from .kernel import Inconclusive


def call(fn, timeout=60.0):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = ("ok", fn())
            except BaseException as e:
                out = ("exc", f"{type(e).__name__}: {e}")
            b = pickle.dumps(out)
            b = struct.pack("<Q", len(b)) + b
            mv = memoryview(b)
            while mv:
                n = os.write(w, mv[: 1 << 20])
                mv = mv[n:]
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    end = time.monotonic() + timeout
    buf = bytearray()
    try:
        while True:
            left = end - time.monotonic()
            if left <= 0:
                raise Inconclusive("reference process did not finish")
            rs, _, _ = select.select([r], [], [], left)
            if not rs:
                continue
            c = os.read(r, 1 << 20)
            if not c:
                break
            buf += c
            if len(buf) >= 8 and len(buf) >= 8 + struct.unpack("<Q", buf[:8])[0]:
                break
    finally:
        os.close(r)
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
    if len(buf) < 8:
        raise RuntimeError("reference process died")
    kind, v = pickle.loads(bytes(buf[8:]))
    if kind != "ok":
        raise RuntimeError(f"in reference process: {v}")
    return v
