"""Failing outputs: the operating system refuses the write after k bytes (file size limit), for every k of every output, and
destinations that cannot be opened; the export must fail, the tool must exit unsuccessfully, and exporting again without
the fault must give the complete output."""
import builtins
import errno
import fcntl
import io
import itertools
import json
import os
import resource
import select
import shutil
import signal
import stat
import subprocess
import sys
import threading

from .. import ref, sut
from ..engine import Family, fail
from .c05 import member

LEVEL = "fault_enumeration"
RULE = ("a case is one output of one song whose writing is refused after k bytes (k below the size of the complete output) "
        "or whose destination cannot be opened; it is non-trivial when the complete output is longer than k")
ASSUMPTIONS = ["the fault is a file size limit (EFBIG from the write call); /dev/full and unusable paths are further faults",
               "the state is observed by exporting and by reading its events and instruments"]


def tune(n):
    s = b""
    for i in range(n):
        s += ref.w(0x60 + (i & 7), i & 0x7F) + ref.w(0x28 + (i & 7), i * 5 & 0x7F) + ref.key(i & 7) + ref.wait(1500)
        s += ref.key(i & 7, 0) + ref.wait(1500)
    return s + b"\x66"


SONGS = {"empty": b"\x66", "one": tune(1), "some": tune(4), "many": tune(30), "long": tune(120)}
KINDS = ("json", "xrns", "csv")
_cache = {}


def prepared(name):
    """(state, chip, {kind: complete output})"""
    if name not in _cache:
        st = sut.extract(ref.vgm(SONGS[name]))
        chip = ref.play(SONGS[name])
        outs = {}
        for kind in KINDS:
            path = "full." + kind
            export(st, kind, path)
            with open(path, "rb") as f:
                outs[kind] = f.read()
            os.unlink(path)
        if json.loads(outs["json"]) != ref.instruments_json(chip):
            fail(f"the instruments of song '{name}' are wrong before any fault")
        _cache[name] = (st, chip, outs)
    return _cache[name]


def export(st, kind, path):
    if kind == "json":
        sut.extractors.extract_instruments(path, st)
    elif kind == "xrns":
        sut.extractors.extract_tracks_to_xrns(st, path, 1000)
    else:
        sut.extractors.extract_tracks(st, path, 1000)


class Limit:
    """no file may grow beyond k bytes inside the block (the interpreter ignores SIGXFSZ, the write fails)"""

    def __init__(self, k):
        self.k = k

    def __enter__(self):
        self.old = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (self.k, self.old[1]))

    def __exit__(self, *a):
        resource.setrlimit(resource.RLIMIT_FSIZE, self.old)


def content(kind, data):
    return sut.song_xml(data) if kind == "xrns" else data


def complete(name, kind, path, st, outs, what):
    try:
        export(st, kind, path)
    except Exception as e:  # noqa
        fail(f"{what}: exporting again to a working destination fails: {type(e).__name__}: {e}")
    with open(path, "rb") as f:
        data = f.read()
    if content(kind, data) != content(kind, outs[kind]):
        fail(f"{what}: exporting again gives {len(data)} bytes, not the complete output of {len(outs[kind])}")


def run_cut(case, ctx):
    """every byte position of one output in a range"""
    name, kind, lo = case
    st, chip, outs = prepared(name)
    size = len(outs[kind])
    path = os.path.join(ctx.scratch, "o." + kind)
    for k in range(lo, min(lo + STEP, size)):
        what = f"song '{name}', {kind} output refused after {k} of {size} bytes"
        ok = False
        try:
            with Limit(k):
                export(st, kind, path)
            ok = True
        except Exception:  # noqa: any error is a reported failure
            pass
        ctx.ops()
        ctx.trace()
        ctx.nontriv((name, kind, k))
        if ok:
            fail(f"{what}: the export returns normally, {os.path.getsize(path)} bytes are there")
        if ctx.tier == "thorough" or k % 16 in (0, 5) or k == size - 1:
            complete(name, kind, path, st, outs, what)
        if k % 64 == 0 or k == size - 1:
            for other in KINDS:
                if other != kind:
                    complete(name, other, os.path.join(ctx.scratch, "p." + other), st, outs, what)
            if sut.events(st) != chip.events or sut.instruments(st) != ref.instruments_json(chip):
                fail(f"{what}: the extraction result changed")
            ctx.state((name, kind, k))
    # the exact size is enough
    if lo + STEP >= size:
        try:
            with Limit(size + 64):
                export(st, kind, path)
        except Exception as e:  # noqa
            fail(f"song '{name}', {kind} output: fails with room for the whole output: {e!r}")


STEP = 64


class Passing:
    """a file may not grow beyond k bytes until one write was refused; writes after it succeed"""

    def __init__(self, k):
        self.k = k

    def lift(self, *_):
        resource.setrlimit(resource.RLIMIT_FSIZE, self.old)

    def __enter__(self):
        self.old = resource.getrlimit(resource.RLIMIT_FSIZE)
        self.handler = signal.signal(signal.SIGXFSZ, self.lift)
        resource.setrlimit(resource.RLIMIT_FSIZE, (self.k, self.old[1]))

    def __exit__(self, *a):
        self.lift()
        signal.signal(signal.SIGXFSZ, self.handler)


def run_passing(case, ctx):
    """one write is refused, later ones succeed: an error, or the complete output"""
    name, kind, lo = case
    st, chip, outs = prepared(name)
    size = len(outs[kind])
    path = os.path.join(ctx.scratch, "o." + kind)
    for k in range(lo, min(lo + STEP, size)):
        if ctx.tier != "thorough" and k % (5 if size < 8192 else 61) and k % 4096 > 2 and k < size - 9:
            continue
        what = f"song '{name}', {kind} output refused once, after {k} of {size} bytes"
        ok = False
        try:
            with Passing(k):
                export(st, kind, path)
            ok = True
        except Exception:  # noqa: any error is a reported failure
            pass
        ctx.ops()
        ctx.trace()
        ctx.nontriv((name, kind, k, "once"))
        if ok:
            with open(path, "rb") as f:
                data = f.read()
            try:
                same = content(kind, data) == content(kind, outs[kind])
            except Exception:  # noqa: not even an archive
                same = False
            if not same:
                fail(f"{what}: the export returns normally, but {len(data)} bytes are there that are not the complete output")
        if k % 35 == 0:
            complete(name, kind, path, st, outs, what)


def run_unopenable(case, ctx):
    name, kind, where = case
    st, chip, outs = prepared(name)
    d = os.path.join(ctx.scratch, "u")
    os.mkdir(d)
    try:
        with open(os.path.join(d, "file"), "wb") as f:
            f.write(b"x")
        path = {"no directory": os.path.join(d, "none", "out"), "directory": d, "under a file": os.path.join(d, "file", "o"),
                "too long": os.path.join(d, "n" * 300), "nul": os.path.join(d, "a\0b"), "full": "/dev/full",
                "loop": os.path.join(d, "loop")}[where]
        if where == "loop":
            os.symlink("loop", path)
        what = f"song '{name}', {kind} output to a bad destination ({where})"
        ok = False
        try:
            export(st, kind, path)
            ok = True
        except Exception:  # noqa
            pass
        ctx.ops()
        ctx.trace()
        ctx.nontriv((name, kind, where))
        ctx.state((name, kind, where))
        if ok:
            fail(f"{what}: the export returns normally")
        complete(name, kind, os.path.join(d, "good"), st, outs, what)
        if sut.events(st) != chip.events or sut.instruments(st) != ref.instruments_json(chip):
            fail(f"{what}: the extraction result changed")
    finally:
        shutil.rmtree(d)


def run_repeated(case, ctx):
    """several failures in a row, of several outputs, then everything complete"""
    name, seq = case
    st, chip, outs = prepared(name)
    what = f"song '{name}', failures {seq}"
    for kind, part in seq:
        k = len(outs[kind]) * part // 4 if part < 4 else len(outs[kind]) - 1
        ok = False
        try:
            with Limit(k):
                export(st, kind, os.path.join(ctx.scratch, "r." + kind))
            ok = True
        except Exception:  # noqa
            pass
        ctx.ops()
        if ok:
            fail(f"{what}: {kind} output refused after {k} bytes returns normally")
    for kind in KINDS:
        complete(name, kind, os.path.join(ctx.scratch, "r." + kind), st, outs, what)
    ctx.trace()
    ctx.nontriv(case)
    ctx.state(str(case))


def run_tool(case, ctx):
    """the command line with an output that fails after k bytes"""
    name, opts, k, form = case
    _st, _chip, outs = prepared(name)
    d = os.path.join(ctx.scratch, "t")
    os.mkdir(d)
    try:
        src = os.path.join(d, "in.vgm")
        data = ref.vgm(SONGS[name])
        with open(src, "wb") as f:
            f.write(member(data) if form else data)
        args = [src, "-tn", "1000"]
        for o, n in (("i", "o.json"), ("t", "o.xrns")):
            if o in opts:
                args += ["-" + o, os.path.join(d, n)]
        sizes = [len(outs[k2]) for o, k2 in (("i", "json"), ("t", "xrns")) if o in opts]
        if k >= max(sizes):
            return
        with Limit(k):
            code, _ = sut.cli(args)
        ctx.ops()
        ctx.trace()
        ctx.nontriv(case)
        ctx.state((name, opts, k, code))
        what = f"song '{name}', arguments {args}, files limited to {k} bytes"
        if code == 0:
            fail(f"{what}: the tool reports success")
        code, _ = sut.cli(args)
        if code != 0:
            fail(f"{what}, then without limit: the tool fails with {code}")
        for o, kind, n in (("i", "json", "o.json"), ("t", "xrns", "o.xrns")):
            if o in opts:
                with open(os.path.join(d, n), "rb") as f:
                    if content(kind, f.read()) != content(kind, outs[kind]):
                        fail(f"{what}, then without limit: {n} is not complete")
    finally:
        shutil.rmtree(d)


def run_tool_bad(case, ctx):
    """the command line with a destination that cannot be opened, in this process and (full device) in its own"""
    which, where = case
    d = os.path.join(ctx.scratch, "t")
    os.mkdir(d)
    try:
        src = os.path.join(d, "in.vgm")
        with open(src, "wb") as f:
            f.write(ref.vgm(SONGS["some"]))
        bad = {"no directory": os.path.join(d, "none", "o"), "directory": d, "full": "/dev/full"}[where]
        good = os.path.join(d, "good")
        args = [src, "-tn", "1000"]
        if which == "i":
            args += ["-i", bad, "-t", good]
        elif which == "t":
            args += ["-i", good, "-t", bad]
        elif which == "both":
            args += ["-i", bad, "-t", bad]
        else:
            args += ["-i", bad] if which == "only i" else ["-t", bad]
        code, _ = sut.cli(args)
        if code != 0:
            r = subprocess.run([sys.executable, "-B", os.path.join(sut.SRC, "main.py")] + args, stdin=subprocess.DEVNULL,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            code = r.returncode
        ctx.ops(2)
        ctx.trace()
        ctx.nontriv(case)
        ctx.state(case)
        if code == 0:
            fail(f"arguments {args}: the tool reports success")
    finally:
        shutil.rmtree(d)


def run_stdout(case, ctx):
    """instruments to a standard output that is full, in an own process"""
    name, = case
    d = os.path.join(ctx.scratch, "t")
    os.mkdir(d)
    try:
        src = os.path.join(d, "in.vgm")
        with open(src, "wb") as f:
            f.write(ref.vgm(SONGS[name]))
        with open("/dev/full", "wb") as full:
            r = subprocess.run([sys.executable, "-B", os.path.join(sut.SRC, "main.py"), src, "-i", "-", "-tn", "1000"],
                               stdin=subprocess.DEVNULL, stdout=full, stderr=subprocess.DEVNULL)
        ctx.ops()
        ctx.trace()
        ctx.nontriv(case)
        ctx.state(case)
        if r.returncode == 0:
            fail(f"instruments of song '{name}' to a full standard output: the tool reports success")
    finally:
        shutil.rmtree(d)


CAPACITY = 4096  # the smallest pipe


class Reader(threading.Thread):
    """takes exactly k bytes from a pipe and goes away"""

    def __init__(self, fd, k):
        super().__init__(daemon=True)
        self.fd, self.left, self.done = fd, k, threading.Event()

    def run(self):
        while self.left and not self.done.is_set():
            if select.select([self.fd], [], [], 0.02)[0]:
                got = os.read(self.fd, self.left)
                if not got:
                    self.done.wait(0.002)
                self.left -= len(got)
        os.close(self.fd)


def run_pipe(case, ctx):
    """the reader of the output goes away after k bytes"""
    name, kind, k = case
    st, chip, outs = prepared(name)
    if len(outs[kind]) <= k + 2 * CAPACITY:
        return
    path = os.path.join(ctx.scratch, "pipe." + kind)
    os.mkfifo(path)
    try:
        fd = os.open(path, os.O_RDONLY | os.O_NONBLOCK)
        fcntl.fcntl(fd, 1031, CAPACITY)
        r = Reader(fd, k)
        r.start()
        what = f"song '{name}', {kind} output of {len(outs[kind])} bytes to a reader that leaves after {k}"
        ok = False
        try:
            export(st, kind, path)
            ok = True
        except Exception:  # noqa
            pass
        finally:
            r.done.set()
            r.join()
        ctx.ops()
        ctx.trace()
        ctx.nontriv(case)
        ctx.state(case)
        if ok and stat.S_ISFIFO(os.stat(path).st_mode):
            fail(f"{what}: the export returns normally")
    finally:
        os.unlink(path)
    complete(name, kind, os.path.join(ctx.scratch, "good." + kind), st, outs, what)
    if sut.events(st) != chip.events or sut.instruments(st) != ref.instruments_json(chip):
        fail(f"{what}: the extraction result changed")


def run_stdout_pipe(case, ctx):
    """instruments to a standard output whose reader leaves after k bytes, in an own process"""
    name, k, form = case
    _st, _chip, outs = prepared(name)
    if len(outs["json"]) <= k + 2 * CAPACITY + 200:
        return
    src = os.path.join(ctx.scratch, "in.vgm")
    with open(src, "wb") as f:
        f.write(member(ref.vgm(SONGS[name])) if form else ref.vgm(SONGS[name]))
    # unbuffered text output drops the rest of a short write inside the interpreter: not the tool's doing
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    a, b = os.pipe()
    fcntl.fcntl(b, 1031, CAPACITY)
    p = subprocess.Popen([sys.executable, "-B", os.path.join(sut.SRC, "main.py"), src, "-i", "-", "-tn", "1000"],
                         stdin=subprocess.DEVNULL, stdout=b, stderr=subprocess.DEVNULL, env=env)
    os.close(b)
    left = k
    while left:
        got = os.read(a, left)
        if not got:
            break
        left -= len(got)
    os.close(a)
    code = p.wait()
    ctx.ops()
    ctx.trace()
    ctx.nontriv(case)
    ctx.state(case)
    if code == 0:
        fail(f"instruments of song '{name}' ({len(outs['json'])} bytes) to a standard output whose reader leaves after {k} bytes: "
             "the tool reports success")


OPEN_ERRORS = ("EACCES", "EPERM", "ENOENT", "EISDIR", "ENOTDIR", "EROFS", "ETXTBSY", "EMFILE", "ENFILE", "ENOSPC", "EEXIST", "ELOOP",
               "ENAMETOOLONG", "EBUSY", "EIO", "EINTR", "EAGAIN", "ETIMEDOUT", "ENODEV", "ENXIO", "EOVERFLOW", "ECONNREFUSED", "EDQUOT",
               "EPIPE", "ECHILD", "ESRCH", "ECONNRESET", "EINVAL", "ESTALE", "EOPNOTSUPP", "none", "memory")
WRITE_ERRORS = ("ENOSPC", "EDQUOT", "EIO", "EFBIG", "EROFS", "EPERM", "EACCES", "EBADF", "EPIPE", "ESTALE", "ENXIO", "ETIMEDOUT",
                "ECONNRESET", "EINVAL", "ENOMEM", "ENOTCONN", "none", "memory")
CLOSE_ERRORS = ("EIO", "ENOSPC", "EDQUOT", "EBADF", "EACCES", "ESTALE", "none")


def error(name):
    if name == "memory":
        return MemoryError()
    if name == "none":
        return OSError("the output is gone")
    n = getattr(errno, name)
    return OSError(n, os.strerror(n))


class Raw(io.FileIO):
    """a file whose write or close calls fail as the fault says"""

    def __init__(self, path, mode, fault):
        self.fault = fault
        self.counts = "w" in mode or "a" in mode or "x" in mode or "+" in mode
        super().__init__(path, mode)

    def write(self, b):
        f = self.fault
        b = memoryview(b).cast("B")
        if f.kind in ("write", "write once") and not f.spent:
            if len(b) > f.left:
                n = super().write(b[:f.left]) if f.left else 0
                f.left -= n
                if n:
                    return n
                f.hit()
            f.left -= len(b)
        return super().write(b)

    def close(self):
        if self.closed:
            return
        if self.fault.kind == "close" and not self.fault.spent:
            try:
                self.truncate(self.fault.left)  # the system loses what it had not stored yet
            except OSError:
                pass
            super().close()
            self.fault.hit()
        super().close()


class Injected:
    """opening a path for writing fails, or gives a file that fails"""

    def __init__(self, path, kind, name, left=0):
        self.path, self.kind, self.name, self.left = os.path.realpath(path), kind, name, left
        self.hits, self.spent = 0, False

    def hit(self):
        self.hits += 1
        if self.kind in ("write once", "close", "open once"):
            self.spent = True
        raise error(self.name)

    def mine(self, file):
        try:
            return not isinstance(file, int) and os.path.realpath(os.fsdecode(file)) == self.path
        except (TypeError, ValueError):
            return False

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if not self.mine(file) or not set(mode) & set("wax+") or opener is not None:
            return self.real(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if self.kind in ("open", "open once") and not self.spent:
            self.hit()
        raw = Raw(file, mode.replace("b", "").replace("t", ""), self)
        if buffering == 0:
            return raw
        buf = (io.BufferedRandom if "+" in mode else io.BufferedWriter)(raw, buffering if buffering > 1 else 8192)
        return buf if "b" in mode else io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)

    def os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        if self.mine(path) and flags & (os.O_WRONLY | os.O_RDWR) and self.kind in ("open", "open once") and not self.spent:
            self.hit()
        return self.real_os(path, flags, mode, dir_fd=dir_fd)

    def __enter__(self):
        self.real, self.real_os = io.open, os.open
        builtins.open = io.open = self.open
        os.open = self.os_open
        return self

    def __exit__(self, *a):
        builtins.open = io.open = self.real
        os.open = self.real_os


def run_injected(case, ctx):
    """an export whose opening, writing or closing fails with each error the system knows"""
    name, kind, fault, err, part, existing = case
    st, chip, outs = prepared(name)
    d = os.path.join(ctx.scratch, "j")
    os.mkdir(d)
    try:
        path = os.path.join(d, "o." + kind)
        if existing:
            with open(path, "wb") as f:
                f.write(b"older " * 2000)
        size = len(outs[kind])
        left = (0, size // 2, size - 1)[part]
        what = (f"song '{name}', {kind} output, {fault} fails with {err}" + (f" after {left} of {size} bytes" if fault[0] != "o" else "")
                + (", over an older file" if existing else ""))
        ok = False
        with Injected(path, fault, err, left) as j:
            try:
                export(st, kind, path)
                ok = True
            except Exception:  # noqa: any error is a reported failure
                pass
        ctx.ops()
        ctx.trace()
        if j.hits:
            ctx.nontriv(case)
            ctx.state(case)
        if ok and j.hits and not holds(kind, path, outs):
            fail(f"{what}: the export returns normally, but the complete output is not there")
        complete(name, kind, path, st, outs, what)
        if part == 1 and (sut.events(st) != chip.events or sut.instruments(st) != ref.instruments_json(chip)):
            fail(f"{what}: the extraction result changed")
    finally:
        shutil.rmtree(d)


def holds(kind, path, outs):
    """the complete output is there"""
    try:
        with open(path, "rb") as f:
            return content(kind, f.read()) == content(kind, outs[kind])
    except Exception:  # noqa: missing or not even an archive
        return False


def run_tool_injected(case, ctx):
    """the tool when one of its outputs fails with each error"""
    opts, which, fault, err, part = case
    if which not in opts:
        return
    name = "some"
    _st, _chip, outs = prepared(name)
    d = os.path.join(ctx.scratch, "j")
    os.mkdir(d)
    try:
        src = os.path.join(d, "in.vgm")
        with open(src, "wb") as f:
            f.write(ref.vgm(SONGS[name]))
        out = {"i": ("json", os.path.join(d, "o.json")), "t": ("xrns", os.path.join(d, "o.xrns"))}
        args = [src, "-tn", "1000"]
        for o in opts:
            args += ["-" + o, out[o][1]]
        kind, path = out[which]
        size = len(outs[kind])
        with Injected(path, fault, err, (0, size // 2, size - 1)[part]) as j:
            code, _ = sut.cli(args)
        ctx.ops()
        ctx.trace()
        if j.hits:
            ctx.nontriv(case)
            ctx.state(case)
        what = f"arguments {args}, {fault} of {os.path.basename(path)} fails with {err}"
        if code == 0 and j.hits and not holds(kind, path, outs):
            fail(f"{what}: the tool reports success, but the complete output is not there")
        code, _ = sut.cli(args)
        if code != 0:
            fail(f"{what}, then again without fault: the tool fails with {code}")
        for o in opts:
            if not holds(out[o][0], out[o][1], outs):
                fail(f"{what}, then again without fault: {out[o][1]} is not complete")
    finally:
        shutil.rmtree(d)


def injections():
    for e in OPEN_ERRORS:
        for f in ("open", "open once"):
            yield f, e, 1
    for e in WRITE_ERRORS:
        for f in ("write", "write once"):
            for part in range(3):
                yield f, e, part
    for e in CLOSE_ERRORS:
        for part in range(3):
            yield "close", e, part


def families(tier):
    th = tier == "thorough"
    # upper bounds of the sizes only decide how many ranges are enumerated; ranges beyond the end are empty
    names = list(SONGS) if th else ["one", "some"]

    def ranges():
        for name in names + ([] if th else ["many"]):
            for kind in KINDS:
                if name == "many" and not th and kind != "json":
                    continue
                if name == "some" and not th and kind == "xrns":
                    continue
                for lo in range(0, 65536, STEP):
                    yield (name, kind, lo)

    def seqs():
        parts = [(k, p) for k in KINDS for p in (0, 2, 4)]
        for name in ("some", "many"):
            for n in (1, 2, 3) if th else (1, 2):
                for s in itertools.product(parts, repeat=n):
                    yield (name, s)

    ks = sorted(set(range(0, 20000, 16 if th else 331)) | {0, 1, 2, 3, 4095, 4096, 8191, 8192, 8193})
    return [
        Family("every byte", ranges, run_cut, f"every byte position of the outputs of the songs {names} (and more)"),
        Family("refused once", lambda: ((n, k, lo) for n in ("one", "some", "many") + (("long",) if th else ()) for k in KINDS
                                        for lo in range(0, 1 << 17, STEP)), run_passing,
               "writes refused once at " + ("every" if th else "every fifth (long outputs: every 61st)") + " byte position"),
        Family("bad destinations", lambda: itertools.product(SONGS, KINDS, ("no directory", "directory", "under a file",
                                                                            "too long", "nul", "full", "loop")),
               run_unopenable, "seven destinations that cannot be used"),
        Family("repeated failures", seqs, run_repeated, f"all sequences of up to {3 if th else 2} of 9 failures"),
        Family("tool", lambda: itertools.product(("some", "many"), ("i", "t", "it"), ks, (0, 1) if th else (0,)), run_tool,
               "the command line with files limited to k bytes"),
        Family("tool, bad destinations", lambda: itertools.product(("i", "t", "both", "only i", "only t"),
                                                                   ("no directory", "directory", "full")), run_tool_bad,
               "the command line with unusable destinations", cpu_s=120),
        Family("reader leaves", lambda: ((n, k, b) for n in ("some", "many", "long") for k in KINDS for b in
                                         ([1, 2, 10, 100, 511, 512, 1000] + [i * (512 if th else 4096) + d for i in range(1, 200) for d in (-1, 0, 1)])),
               run_pipe, "outputs to a pipe whose reader leaves after k bytes"),
        Family("reader of standard output leaves", lambda: itertools.product(("many", "long"), (0, 1, 100, 4096, 5000, 8192, 20000)
                                                                             + (tuple(range(0, 70000, 3000)) if th else ()), (0, 1)),
               run_stdout_pipe, "instruments to a standard output whose reader leaves after k bytes", cpu_s=120),
        Family("injected errors", lambda: ((n, k, f, e, p, x) for n in (SONGS if th else ("empty", "some", "many")) for k in KINDS
                                           for f, e, p in injections() for x in (False, True)), run_injected,
               f"{len(OPEN_ERRORS)} errors when the output is opened, {len(WRITE_ERRORS)} when it is written (for good or once, at three "
               f"places), {len(CLOSE_ERRORS)} when it is closed"),
        Family("tool, injected errors", lambda: ((o, w) + i for o in ("i", "t", "it", "ti") for w in "it" for i in injections()),
               run_tool_injected, "the same errors for each output of the tool's script"),
        Family("full standard output", lambda: ((n,) for n in SONGS), run_stdout, "instruments to a full standard output",
               cpu_s=120),
    ]
