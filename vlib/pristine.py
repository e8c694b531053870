"""Reference reports from a process in which no slope has existed before.

A reference computed in the process under observation shares its module and
class state (caches, defaults, palettes), so leaks between slopes would show on
both sides.  Each worker keeps an untouched copy of itself from before its
first case; every reference is computed in a new fork of that copy."""
import os
import pickle
import struct

from .core import REPO, Violation

_z = dict(pid=None, w=None, r=None)


def start():
    """once per worker, before anything is built"""
    if _z["pid"] == os.getpid():
        return
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    if os.fork() == 0:
        try:
            os.close(w1)
            os.close(r2)
            _serve(r1, w2)
        finally:
            os._exit(0)
    os.close(r1)
    os.close(w2)
    _z.update(pid=os.getpid(), w=w1, r=r2)


def _read(fd, n):
    out = b""
    while len(out) < n:
        b = os.read(fd, n - len(out))
        if not b:
            raise EOFError
        out += b
    return out


def _write(fd, b):
    b = struct.pack("<Q", len(b)) + b
    while b:
        k = os.write(fd, b)
        b = b[k:]


def _serve(r, w):
    import signal

    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    while True:
        try:
            n = struct.unpack("<Q", _read(r, 8))[0]
            req = _read(r, n)
        except EOFError:
            return
        pid = os.fork()
        if pid == 0:
            try:
                out = pickle.dumps(_answer(*pickle.loads(req)))
            except BaseException as e:
                import traceback

                tb = traceback.extract_tb(e.__traceback__)
                out = pickle.dumps(dict(
                    failed=f"{type(e).__name__}: {e}",
                    in_repo=any(f.filename.startswith(REPO + "/") for f in tb),
                    trace=traceback.format_exc(),
                ))
            try:
                _write(w, out)
            finally:
                os._exit(0)
        os.waitpid(pid, 0)


def _answer(spec, planes, table, crit, readers):
    from . import drive

    s = drive.build(spec, planes)
    out = dict(
        top=s.get_top_coordinates(), bot=s.get_bottom_coordinates(),
        ext=s._external_length,
    )
    out["boundary"] = drive.figure(s.plot_boundary(material_table=table))
    s.analyse_slope()
    res = [dict(x) for x in drive.results(s)]
    out["results"] = res
    if res:
        out["min"] = s.get_min_FOS()
        out["circle"] = s.get_min_FOS_circle()
        out["ends"] = s.get_min_FOS_end_points()
        if crit:
            out["critical"] = drive.figure(s.plot_critical(material_table=False))
    return out


class Frozen:
    """what a slope of this specification reports on its own"""

    def __init__(self, spec, planes=(), table=False, crit=True):
        self.spec, self.table = spec, table
        _write(_z["w"], pickle.dumps((spec, list(planes), table, crit, None)))
        n = struct.unpack("<Q", _read(_z["r"], 8))[0]
        o = pickle.loads(_read(_z["r"], n))
        if "failed" in o:
            if o["in_repo"]:
                raise Violation(
                    f"building and analysing a new slope fails: {o['failed']}",
                    spec=spec, planes=list(planes), trace=o["trace"],
                )
            raise RuntimeError(o["trace"])
        self.o = o
        self._search = o["results"]
        self._external_length = o["ext"]

    def analyse_slope(self):
        pass

    def get_top_coordinates(self):
        return self.o["top"]

    def get_bottom_coordinates(self):
        return self.o["bot"]

    def _need(self, k):
        if k not in self.o:
            raise IndexError(k)
        return self.o[k]

    def get_min_FOS(self):
        return self._need("min")

    def get_min_FOS_circle(self):
        return self._need("circle")

    def get_min_FOS_end_points(self):
        return self._need("ends")

    def plot_boundary(self, material_table=False):
        assert material_table == self.table
        return self.o["boundary"]

    def plot_critical(self, material_table=False):
        assert not material_table
        return self._need("critical")
