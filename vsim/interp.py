"""Fresh interpreters with their own hash seed, clock, random source, locale,
time zone, environment and working directory (property C11).

Each is a process started with exec that imports the repository, listens on a
socket and forks one child per request."""

import ctypes
import json
import os
import random
import signal
import socket
import subprocess
import sys
import tempfile
import time

from . import boot

ROOT = os.path.dirname(boot.HERE)
SHIM = None


def build_shim():
    """The clock/randomness shim, built into a scratch directory; None if impossible."""
    d = tempfile.mkdtemp(prefix="vsim-shim-")
    out = os.path.join(d, "shim.so")
    try:
        subprocess.run(
            ["gcc", "-O1", "-shared", "-fPIC", "-o", out, os.path.join(ROOT, "native", "shim.c")],
            check=True, capture_output=True, timeout=60,
        )
    except (OSError, subprocess.SubprocessError):
        os.rmdir(d)
        return None, None
    return out, d


class Farm:
    """A set of interpreters; `ask(k, request)` runs one request in the k-th."""

    def __init__(self, seeds):
        self.paths, self.procs = [], []
        self.shim, self.shimdir = build_shim()
        self.dir = tempfile.mkdtemp(prefix="vsim-interp-")
        tzs = ["UTC", "Asia/Kathmandu", "America/St_Johns", "Pacific/Kiritimati", "XXX-13:45YYY", ""]
        langs = ["C.UTF-8", "C", "POSIX", "en_US.UTF-8", "C.utf8"]
        self.configs = []
        for k, hs in enumerate(seeds):
            env = {a: b for a, b in os.environ.items() if not a.startswith("VSIM_BOOTED")}
            env.update(boot.ENV)
            env["PYTHONHASHSEED"] = str(hs)
            env["TZ"] = tzs[k % len(tzs)]
            env["LC_ALL"] = langs[k % len(langs)]
            env["LANG"] = langs[(k + 1) % len(langs)]
            env["HOME"] = self.dir if k % 2 else "/root"
            env["VSIM_BOOTED"] = "1"
            if self.shim:
                env["LD_PRELOAD"] = self.shim
                env["VSIM_SHIM"] = self.shim
            path = os.path.join(self.dir, f"s{k}")
            cwd = os.path.join(self.dir, f"cwd {k} \u00e9" if k % 2 else f"cwd{k}")
            os.mkdir(cwd)
            p = subprocess.Popen(
                [sys.executable, "-W", "ignore", "-c", f"import sys; sys.path.insert(0, {ROOT!r}); from vsim import interp; interp.serve({path!r})"],
                env=env, cwd=cwd, stdin=subprocess.PIPE, stdout=subprocess.DEVNULL,
                stderr=subprocess.DEVNULL if not os.environ.get("VSIM_DEBUG") else None,
            )
            self.paths.append(path)
            self.procs.append(p)
            self.configs.append({"hash_seed": hs, "TZ": env["TZ"], "LC_ALL": env["LC_ALL"], "clock_shim": bool(self.shim)})
        try:
            self.wait()
        except BaseException:
            self.close()
            raise

    def wait(self):
        end = time.monotonic() + 120
        for path, p in zip(self.paths, self.procs):
            while not os.path.exists(path + ".ready"):
                if p.poll() is not None:
                    raise RuntimeError(f"interpreter ended with {p.returncode}")
                if time.monotonic() > end:
                    raise RuntimeError("interpreter did not start")
                time.sleep(0.05)

    def ask(self, k, req, timeout=80.0):
        s = socket.socket(socket.AF_UNIX)
        s.settimeout(timeout)
        with s:
            s.connect(self.paths[k])
            s.sendall(json.dumps(req).encode())
            s.shutdown(socket.SHUT_WR)
            b = b""
            while True:
                c = s.recv(1 << 16)
                if not c:
                    break
                b += c
        if not b:
            raise RuntimeError("interpreter's child died")
        return json.loads(b)

    def close(self):
        for p in self.procs:
            try:
                p.kill()
                p.wait()
            except OSError:
                pass
        for d in (self.dir, self.shimdir):
            if d:
                for base, _, files in os.walk(d, topdown=False):
                    for f in files:
                        os.unlink(os.path.join(base, f))
                    os.rmdir(base)


def apply(env):
    """The part of the surroundings that can change inside a running process."""
    import locale

    import numpy as np

    lib = None
    if os.environ.get("VSIM_SHIM"):
        lib = ctypes.CDLL(os.environ["VSIM_SHIM"])
        lib.vsim_clock.argtypes = [ctypes.c_int64, ctypes.c_int64]
        lib.vsim_random.argtypes = [ctypes.c_uint64]
    if env.get("tz") is not None:
        os.environ["TZ"] = env["tz"]
        time.tzset()
    if env.get("rng") is not None:
        random.seed(env["rng"])
        np.random.seed(env["rng"])
    for k, v in (env.get("vars") or {}).items():
        os.environ[k] = v
    if env.get("locale"):
        try:
            locale.setlocale(locale.LC_ALL, env["locale"])
        except locale.Error:
            pass
    if env.get("cwd"):
        os.chdir(env["cwd"])
    if lib is not None:
        if env.get("clock") is not None:
            lib.vsim_clock(int(env["clock"][0] * 1e9), int(env["clock"][1] * 1e9))
        if env.get("rng") is not None:
            lib.vsim_random(env["rng"])
    return lib


def serve(path):
    from vsim import boot as b, compare
    from vsim.props import c11

    b.warm()
    srv = socket.socket(socket.AF_UNIX)
    srv.bind(path)
    srv.listen(64)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    import gc
    import threading

    def watch():  # the parent holds our stdin open
        os.read(0, 1)
        os._exit(0)

    threading.Thread(target=watch, daemon=True).start()
    gc.collect()
    gc.freeze()
    open(path + ".ready", "w").close()
    while True:
        c, _ = srv.accept()
        if os.fork():
            c.close()
            continue
        signal.signal(signal.SIGCHLD, signal.SIG_DFL)
        srv.close()
        b_ = b""
        while True:
            x = c.recv(1 << 16)
            if not x:
                break
            b_ += x
        try:
            out = c11.answer(json.loads(b_))
        except BaseException as e:
            out = {"harness": f"{type(e).__name__}: {e}"}
        c.sendall(json.dumps(out).encode())
        c.close()
        os._exit(0)

