"""Runs a function of the check in a process in which the library has not been
used yet: forked from a copy of this process made before its first use."""
import importlib
import os
import pickle
import struct

from .core import Violation

_zygote = None


def _read(fd, n):
    out = b""
    while len(out) < n:
        b = os.read(fd, n - len(out))
        if not b:
            raise EOFError
        out += b
    return out


def _receive(fd):
    return pickle.loads(_read(fd, struct.unpack("<q", _read(fd, 8))[0]))


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack("<q", len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _serve(inp, out):
    while True:
        try:
            module, name, arg = _receive(inp)
        except EOFError:
            return
        pid = os.fork()
        if pid == 0:
            try:
                try:
                    got = ("ok", getattr(importlib.import_module(module), name)(arg))
                except Violation as v:
                    got = ("violation", str(v))
                except BaseException as e:                  # noqa: BLE001
                    got = ("error", "%s: %s" % (type(e).__name__, e))
                _send(out, got)
            finally:
                os._exit(0)
        _, status = os.waitpid(pid, 0)
        if status:
            _send(out, ("error", "ended with status %d" % status))


def ready():
    """call before this process uses the library for the first time"""
    global _zygote
    if _zygote and _zygote[0] == os.getpid():
        return
    a, b = os.pipe(), os.pipe()
    if os.fork() == 0:
        try:
            os.close(a[1])
            os.close(b[0])
            _serve(a[0], b[1])
        finally:
            os._exit(0)
    os.close(a[0])
    os.close(b[1])
    _zygote = (os.getpid(), a[1], b[0])


def alone(f, arg):
    ready()
    _send(_zygote[1], (f.__module__, f.__name__, arg))
    kind, what = _receive(_zygote[2])
    if kind == "violation":
        raise Violation(what)
    if kind == "error":
        raise RuntimeError("in a fresh process: " + what)
    return what
