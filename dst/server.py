"""A second kind of process: another hash seed, another time zone.

`start(prop, envs)` boots one process per environment; `ask(num, request)`
makes process `num` fork a child that answers `<check>.answer(request)`.
"""
import json
import os
import signal
import socket
import subprocess
import sys
import time

from dst import core
from dst.seams import HarnessError

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PATHS = []


def start(prop, envs):
    """Boot the processes; returns when all of them listen."""
    procs = []
    for num, extra in enumerate(envs):
        path = os.path.join(os.environ["DST_BOOTED"], "s{:d}-{:d}".format(
            os.getpid(), num))
        env = dict(os.environ)
        env.update(extra)
        procs.append(subprocess.Popen(
            [sys.executable, "-m", "dst.server", prop, path,
             str(os.getpid())], env=env, cwd=HERE, stdin=subprocess.DEVNULL,
            stdout=subprocess.DEVNULL))
        PATHS.append(path)
    give_up = time.monotonic() + 300
    for path, proc in zip(PATHS, procs):
        while not os.path.exists(path):
            if proc.poll() is not None or time.monotonic() > give_up:
                raise HarnessError("server process did not start")
            time.sleep(.05)


def ask(num, request):
    """What process `num` answers."""
    with socket.socket(socket.AF_UNIX) as sock:
        sock.connect(PATHS[num])
        sock.sendall(json.dumps(request).encode())
        sock.shutdown(socket.SHUT_WR)
        data = _all(sock)
    return core.unpack(data)


def _all(sock):
    out = bytearray()
    while True:
        chunk = sock.recv(1 << 20)
        if not chunk:
            return bytes(out)
        out += chunk


def serve(prop, path, parent):
    import ctypes
    import gc
    ctypes.CDLL(None).prctl(1, 9, 0, 0, 0)
    if os.getppid() != parent:
        return
    from dst import boot, runner, seams
    boot.load(prop)
    mod = runner.load_check(prop)
    mod.prepare_server()
    gc.collect()
    gc.freeze()
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    sock = socket.socket(socket.AF_UNIX)
    sock.bind(path + ".new")
    sock.listen(64)
    os.rename(path + ".new", path)
    while True:
        conn, _ = sock.accept()
        if os.fork():
            conn.close()
            continue
        try:
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            sock.close()
            request = json.loads(_all(conn).decode())
            devnull = os.open(os.devnull, os.O_WRONLY)
            if not os.environ.get("DST_DEBUG"):
                os.dup2(devnull, 2)

            def work():
                with seams.Memory(1, 1):
                    return mod.answer(request)
            conn.sendall(core.packed(work))
            conn.close()
        finally:
            os._exit(0)


if __name__ == "__main__":
    serve(sys.argv[1], sys.argv[2], int(sys.argv[3]))
