"""smart_open: all combinations of names, modes, ways of leaving the block and nestings to a depth, on the real function with
recording standard streams; the same operations on plain files and streams are the oracle."""
import io
import itertools
import os
import shutil
import subprocess
import sys

from .. import ref, sut
from ..engine import Family, fail, sequences

LEVEL = "model_checking"
ASSUMPTIONS = ["append and update modes are not judged for a standard stream: the statement does not say what they mean there"]

STD = ("-", "", None)
FILES = ("f.txt", "--", "-.txt", "-x", " -", "- ", "\u2014", "\u00e9 \u4e2d", "sub/-", "./-", "_", "0", "stdin", "stdout",
         "~", "~x", "~/h", "$VPX", "${VPX}", "%VPX%", "*", "f?txt", "[f]", "f.gz", "f.zip", "file:f", "two\nlines", "a\\b", "F.TXT",
         "f.", ".f", "sub/../g", "%66", "n" * 200)


class Oops(Exception):
    pass


EXITS = {
    "normal": None,
    "error": lambda: Oops("x"),
    "OSError": lambda: OSError(5, "x"),
    "value": lambda: ValueError("I/O operation"),
    "stop": lambda: StopIteration("x"),
    "interrupt": lambda: KeyboardInterrupt(),
    "exit": lambda: SystemExit(3),
    "assertion": lambda: AssertionError(),
    "generator exit": lambda: GeneratorExit(),
    "runtime": lambda: RuntimeError("generator didn't stop"),
    "stop async": lambda: StopAsyncIteration("x"),
    "unicode": lambda: UnicodeEncodeError("ascii", "\u00e9", 0, 1, "x"),
    "key": lambda: KeyError("-"),
    "memory": lambda: MemoryError(),
    "recursion": lambda: RecursionError(),
    "timeout": lambda: TimeoutError(110, "x"),
    "pipe": lambda: BrokenPipeError(32, "x"),
    "bare pipe": lambda: BrokenPipeError(),
    "no file": lambda: FileNotFoundError(2, "x"),
    "exists": lambda: FileExistsError(17, "x"),
    "no space": lambda: OSError(28, "x"),
    "directory": lambda: IsADirectoryError(21, "x"),
    "permission": lambda: PermissionError(13, "x"),
    "interrupted": lambda: InterruptedError(4, "x"),
    "blocking": lambda: BlockingIOError(11, "x"),
    "unsupported": lambda: io.UnsupportedOperation("x"),
    "end of file": lambda: EOFError(),
    "type": lambda: TypeError("x"),
    "attribute": lambda: AttributeError("close"),
    "exit zero": lambda: SystemExit(0),
    "exit none": lambda: SystemExit(),
    "group": lambda: ExceptionGroup("x", [OSError(5, "x")]),
    "warning": lambda: ResourceWarning("x"),
}
READS = ("r", "rb", "rt", "br")
WRITES = ("w", "wb", "wt")
CONTENT = b"\xef\xbb\xbfline 1\nline \xc3\xa9\r\nline 3\r\n\rend\x1a\x00\x0c \n\n"
CONTENT_TEXT = CONTENT.decode().replace("\r\n", "\n").replace("\r", "\n")


class Streams:
    """recording standard streams while a block runs"""

    def __enter__(self):
        self.saved = sys.stdin, sys.stdout
        self.raw = io.BytesIO()
        self.out = sys.stdout = io.TextIOWrapper(self.raw, encoding="utf-8", write_through=True)
        self.inp = sys.stdin = io.TextIOWrapper(io.BytesIO(CONTENT), encoding="utf-8")
        return self

    def __exit__(self, *a):
        sys.stdin, sys.stdout = self.saved

    def check(self, what):
        if sys.stdin is not self.inp or sys.stdout is not self.out:
            fail(f"{what}: a standard stream was replaced")
        for s, n in ((self.inp, "input"), (self.out, "output"), (self.inp.buffer, "input buffer"),
                     (self.out.buffer, "output buffer")):
            if s.closed:
                fail(f"{what}: standard {n} was closed")

    def written(self):
        self.out.flush()
        return self.raw.getvalue()


def fds():
    return len(os.listdir("/proc/self/fd"))


def use(fh, mode, what, tag):
    """read or write through the handle -> the bytes that must have been written"""
    if mode[0] == "w" or "w" in mode:
        if "b" in mode:
            fh.write(tag)
            return tag
        fh.write(tag.decode())
        return tag
    got = fh.read()
    want = CONTENT if "b" in mode else CONTENT_TEXT
    if type(got) is not type(want) or got != want:
        fail(f"{what}: reads {got!r}, expected {want!r}")
    return b""


def block(path, mode, exit_, what, tag, inner=None):
    """one use of smart_open left in a given way -> (handle, bytes written)"""
    make = EXITS[exit_]
    exc = make() if make else None
    handle, wrote = None, b""
    caught = None
    try:
        with sut.tools.smart_open(path, mode) as fh:
            handle = fh
            if fh.closed:
                fail(f"{what}: the handle is closed inside the block")
            wrote = use(fh, mode, what, tag)
            if inner:
                inner()
            if exc is not None:
                raise exc
    except BaseException as e:  # noqa: whatever comes out is compared
        caught = e
        if type(e).__name__ in ("Violation", "Hang"):
            raise
    if caught is not exc:
        fail(f"{what}: left with {exc!r}, but {caught!r} came out")
    return handle, wrote


def run_std(case, ctx):
    """a standard stream, all modes and exits"""
    name, mode, exit_ = case
    what = f"smart_open({name!r}, {mode!r}), {exit_} exit"
    n0 = fds()
    with Streams() as s:
        _h, wrote = block(name, mode, exit_, what, "x\u00e9\n\r\ny\t\ufeff".encode())
        s.check(what)
        got = s.written()
        print("after", end="")
        again = s.written()
        s.check(what)
    ctx.ops()
    ctx.trace()
    ctx.state((name, mode, exit_))
    if got != wrote or again != wrote + b"after":
        fail(f"{what}: standard output got {got!r} then {again!r}, expected {wrote!r}")
    if fds() != n0:
        fail(f"{what}: {fds() - n0} file descriptors left open")
    if os.listdir("."):
        fail(f"{what}: created {os.listdir('.')}")


def run_refused(case, ctx):
    """modes that neither read nor write are refused for a standard stream, before the block runs"""
    name, mode = case
    what = f"smart_open({name!r}, {mode!r})"
    entered = False
    with Streams() as s:
        try:
            with sut.tools.smart_open(name, mode):
                entered = True
        except Exception:  # noqa: any refusal
            pass
        else:
            fail(f"{what} is accepted")
        s.check(what)
    ctx.ops()
    ctx.trace()
    ctx.state(case)
    if entered:
        fail(f"{what} runs the block")


def run_file(case, ctx):
    """a named file: like open(), and closed afterwards"""
    name, mode, exit_, existing, absolute = case
    what = f"smart_open({name!r}, {mode!r}), {exit_} exit, file {'present' if existing else 'absent'}"
    d = os.path.join(ctx.scratch, "o")
    os.makedirs(os.path.join(d, "sub"))
    cwd = os.getcwd()
    os.chdir(d)
    env = dict(os.environ)
    os.environ.update(HOME=os.path.join(d, "sub"), VPX=os.path.join(d, "sub", "expanded"))
    try:
        if existing and os.path.isdir(os.path.dirname(os.path.join(d, name))):
            with open(name, "wb") as f:
                f.write(CONTENT)
        try:
            with open(name, mode) as f:
                want_mode = f.mode
            error = None
        except Exception as e:  # noqa: what open() itself does
            error = type(e)
        if existing and not error or os.path.exists(name) and existing:
            with open(name, "wb") as f:
                f.write(CONTENT)
        elif os.path.exists(name):
            os.unlink(name)
        path = os.path.join(d, name) if absolute else name
        n0 = fds()
        with Streams() as s:
            if error:
                try:
                    with sut.tools.smart_open(path, mode):
                        fail(f"{what}: opens although open() raises {error.__name__}")
                except error:
                    pass
            else:
                wrote = b""
                h = None
                if mode in READS + WRITES:
                    h, wrote = block(path, mode, exit_, what, b"new\n\r\n\rz \n\n")
                else:
                    def inner_use(fh):
                        if fh.mode != want_mode:
                            fail(f"{what}: opened in mode {fh.mode}, open() gives {want_mode}")
                        if fh.writable():
                            fh.write(b"+" if "b" in mode else "+")
                    with sut.tools.smart_open(path, mode) as h:
                        inner_use(h)
                if not h.closed:
                    fail(f"{what}: the file is left open")
                now = None
                with open(name, "rb") as f:
                    now = f.read()
                if mode in WRITES and now != wrote:
                    fail(f"{what}: the file holds {now!r}, expected {wrote!r}")
                if mode in READS and now != CONTENT:
                    fail(f"{what}: the file was changed to {now!r}")
                if mode == "a" and now != (CONTENT if existing else b"") + b"+":
                    fail(f"{what}: the file holds {now!r} after appending")
                if mode == "x" and now != b"+":
                    fail(f"{what}: the file holds {now!r} after creating")
            s.check(what)
            if s.written():
                fail(f"{what}: wrote {s.written()!r} to standard output")
        left = sorted(os.path.relpath(os.path.join(b, f), d) for b, _d, fs in os.walk(d) for f in fs)
        if left not in ([os.path.normpath(name)], [] if error else None):
            fail(f"{what}: files {left}")
        if fds() != n0:
            fail(f"{what}: {fds() - n0} file descriptors left open")
        ctx.ops()
        ctx.trace()
        ctx.state(case)
    finally:
        os.chdir(cwd)
        os.environ.clear()
        os.environ.update(env)
        shutil.rmtree(d)


USES = [("-", "w", "normal"), ("-", "w", "error"), (None, "wb", "normal"), ("", "r", "normal"), ("-", "rb", "error"),
        ("a", "w", "normal"), ("a", "w", "error"), ("a", "rb", "normal"), ("b", "wb", "interrupt"), ("b", "r", "stop")]


def run_nested(seq, ctx):
    """blocks one inside the other, each left in its own way; everything inside out as expected"""
    what = f"nested {[USES[i] for i in seq]}"
    d = os.path.join(ctx.scratch, "n")
    os.mkdir(d)
    cwd = os.getcwd()
    os.chdir(d)
    try:
        for n in range(len(seq)):
            for f in "ab":
                with open(f"{f}{n}", "wb") as fh:
                    fh.write(CONTENT)
        n0 = fds()
        handles = []
        with Streams() as s:
            def go(k):
                name, mode, exit_ = USES[seq[k]]
                path = name + str(k) if name in ("a", "b") else name
                if path in STD and "r" in mode:
                    sys.stdin.seek(0)
                inner = (lambda: go(k + 1)) if k + 1 < len(seq) else None
                h, _ = block(path, mode, exit_, what, b"T%d;" % k, inner)
                handles.append((path, h, k, mode))
            go(0)
            s.check(what)
            out = s.written()
        want = b"".join(b"T%d;" % k for k, i in enumerate(seq) if USES[i][0] in STD and "w" in USES[i][1])
        if sorted(out.split(b";")) != sorted(want.split(b";")):
            fail(f"{what}: standard output got {out!r}, expected {want!r}")
        for path, h, k, mode in handles:
            if path not in STD:
                if not h.closed:
                    fail(f"{what}: {path} is left open")
                with open(path, "rb") as f:
                    now = f.read()
                if now != (b"T%d;" % k if "w" in mode else CONTENT):
                    fail(f"{what}: {path} holds {now!r}")
        if fds() != n0:
            fail(f"{what}: {fds() - n0} file descriptors left open")
        ctx.ops(len(seq))
        ctx.trace()
        ctx.state(seq)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)


def run_sequence(seq, ctx):
    """uses one after the other in one process, on the same files and streams"""
    what = f"one after the other {[USES[i] for i in seq]}"
    d = os.path.join(ctx.scratch, "n")
    os.mkdir(d)
    cwd = os.getcwd()
    os.chdir(d)
    try:
        n0 = fds()
        want = b""
        with Streams() as s:
            for k, i in enumerate(seq):
                name, mode, exit_ = USES[i]
                if name in STD and "r" in mode:
                    sys.stdin.seek(0)
                if name not in STD and "r" in mode:
                    with open(name, "wb") as f:
                        f.write(CONTENT)
                h, wrote = block(name, mode, exit_, what, b"T%d;" % k)
                if name in STD:
                    want += wrote
                elif not h.closed:
                    fail(f"{what}: {name} is left open")
                s.check(what)
            if s.written() != want:
                fail(f"{what}: standard output got {s.written()!r}, expected {want!r}")
        if fds() != n0:
            fail(f"{what}: {fds() - n0} file descriptors left open")
        ctx.ops(len(seq))
        ctx.trace()
        ctx.state(("s",) + seq)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)


def run_closed(case, ctx):
    """the block closes the file itself"""
    mode, exit_ = case
    path = os.path.join(ctx.scratch, "c.txt")
    with open(path, "wb") as f:
        f.write(CONTENT)
    n0 = fds()
    exc = EXITS[exit_]() if EXITS[exit_] else None
    caught = None
    try:
        with sut.tools.smart_open(path, mode) as fh:
            fh.close()
            if exc:
                raise exc
    except BaseException as e:  # noqa
        caught = e
    os.unlink(path)
    ctx.ops()
    ctx.trace()
    ctx.state(case)
    if caught is not exc:
        fail(f"a block that closes its file itself ({mode!r}, {exit_} exit) ends with {caught!r}")
    if fds() != n0:
        fail(f"a block that closes its file itself ({mode!r}, {exit_} exit) leaves descriptors open")


def run_full(case, ctx):
    """a device that takes nothing: the failure comes out, whenever it shows, and nothing stays open"""
    mode, size, flush, exit_ = case
    what = f"smart_open('/dev/full', {mode!r}), {size} bytes written{', flushed' if flush else ''}, {exit_} exit"
    data = b"x" * size if "b" in mode else "x" * size
    n0 = fds()
    exc = EXITS[exit_]() if EXITS[exit_] else None
    handle = caught = None
    try:
        with sut.tools.smart_open("/dev/full", mode) as fh:
            handle = fh
            fh.write(data)
            if flush:
                fh.flush()
            if exc:
                raise exc
    except BaseException as e:  # noqa
        caught = e
    ctx.ops()
    ctx.trace()
    ctx.state(case)
    if caught is None or not isinstance(caught, OSError) and caught is not exc:
        fail(f"{what}: {caught!r} came out")
    if not handle.closed:
        fail(f"{what}: the handle is left open")
    del handle, fh
    caught = exc = None
    if fds() != n0:
        fail(f"{what}: descriptors left open")


BAD = ("sub", "sub/", ".", "./", "sub/..", "sub/.", "none/f", "none/", "f/", "f/g", "f/.", "n" * 300, "a\0b", "loop", "sub/none/x",
       "-/", "-/f", "/-none-/f", "locked/f")


def run_bad(case, ctx):
    """names that cannot be opened: what open() raises, nothing made or changed"""
    name, mode = case
    what = f"smart_open({name!r}, {mode!r})"
    d = os.path.join(ctx.scratch, "o")
    os.makedirs(os.path.join(d, "sub"))
    cwd = os.getcwd()
    os.chdir(d)
    try:
        with open("f", "wb") as f:
            f.write(CONTENT)
        os.symlink("loop", "loop")

        def tree():
            return sorted((b, tuple(sorted(ds)), tuple((f, None if os.path.islink(os.path.join(b, f)) else open(os.path.join(b, f), "rb").read())
                                                       for f in sorted(fs))) for b, ds, fs in os.walk("."))
        before = tree()
        try:
            open(name, mode).close()
            error = None
        except Exception as e:  # noqa: what open() itself does
            error = e
        n0 = fds()
        if error is None or tree() != before:
            return
        with Streams() as s:
            entered = False
            try:
                with sut.tools.smart_open(name, mode):
                    entered = True
            except Exception as e:  # noqa
                if type(e) is not type(error) or getattr(e, "errno", None) != getattr(error, "errno", None):
                    fail(f"{what}: {e!r}, open() raises {error!r}")
            else:
                fail(f"{what}: no error, open() raises {error!r}")
            if entered:
                fail(f"{what}: runs the block although open() raises {error!r}")
            s.check(what)
            if s.written():
                fail(f"{what}: wrote {s.written()!r} to standard output")
        now = tree()
        if now != before:
            fail(f"{what}: files {now}, before {before}")
        if fds() != n0:
            fail(f"{what}: {fds() - n0} file descriptors left open")
        ctx.ops()
        ctx.trace()
        ctx.state(case)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)


DEVICES = """
import os, sys
sys.path.insert(0, sys.argv[1])
import tools
name, mode, exit_ = sys.argv[3:6]
other = os.open(sys.argv[6], os.O_RDWR)
os.dup2(other, 31)
report = open(sys.argv[2], "w")
try:
    open(name, "rb" if "r" in mode else "r+b").close()
except OSError:  # no such devices here
    report.write("no devices")
    report.close()
    sys.exit()
n0 = len(os.listdir("/proc/self/fd"))
data = b"from the block" if "b" in mode else "from the block"
got = None
try:
    with tools.smart_open(name, mode) as fh:
        same = fh in (sys.stdin, sys.stdout, sys.stdin.buffer, sys.stdout.buffer)
        if "w" in mode:
            fh.write(data)
        else:
            got = fh.read()
        if exit_ == "error":
            raise KeyError("x")
except KeyError:
    pass
print("same" if same else "own", "closed" if fh.closed else "open",
      "alive" if not (sys.stdin.closed or sys.stdout.closed or sys.stdin.buffer.closed or sys.stdout.buffer.closed) else "dead",
      len(os.listdir("/proc/self/fd")) - n0, len(got) if got is not None else "-", file=report)
for f in (0, 1, 31):
    os.fstat(f)
report.write("fine")
report.close()
"""


def run_device(case, ctx):
    """names of the process's own open files: named files like any other, not the standard streams"""
    name, mode, exit_ = case
    what = f"smart_open({name!r}, {mode!r}), {exit_} exit"
    d = os.path.join(ctx.scratch, "o")
    os.mkdir(d)
    try:
        paths = {n: os.path.join(d, n) for n in ("in", "out", "other", "report")}
        for n in ("in", "out", "other"):
            with open(paths[n], "wb") as f:
                f.write(b"A" * 100)
        with open(paths["in"], "rb") as i, open(paths["out"], "r+b") as o:
            r = subprocess.run([sys.executable, "-B", "-c", DEVICES, sut.SRC, paths["report"], name, mode, exit_, paths["other"]],
                               stdin=i, stdout=o, stderr=subprocess.PIPE, cwd=d)
        ctx.ops()
        ctx.trace()
        ctx.state(case)
        if r.returncode:
            fail(f"{what}: {r.stderr.decode()[-300:]}")
        with open(paths["report"]) as f:
            got = f.read()
        want = f"own closed alive 0 {'-' if 'w' in mode else 100}\nfine"
        if got == "no devices":
            return
        if got != want:
            fail(f"{what}: handle, its end, standard streams, descriptors, characters read: {got!r}, expected {want!r}")
        target = "out" if name.endswith(("stdout", "/1")) else "other" if name.endswith("31") else None
        if "w" in mode:
            with open(paths[target], "rb") as f:
                if f.read() != b"from the block":
                    fail(f"{what}: the file does not hold what the block wrote")
    finally:
        shutil.rmtree(d)


def run_tool(case, ctx):
    """'-' on the command line, in an own process: song from standard input, instruments to standard output"""
    form, opts = case
    song = ref.w(0x20, 0xC7) + ref.key(0) + ref.wait(3000) + ref.key(1, 3) + b"\x66"
    data = ref.vgm(song)
    if form == "gzip":
        from .c05 import member
        data = member(data)
    d = os.path.join(ctx.scratch, "t")
    os.mkdir(d)
    try:
        with open(os.path.join(d, "in"), "wb") as f:
            f.write(data)
        outs = {}
        for dash in (False, True):
            src = "-" if dash and "s" in opts else "in"
            dst = "-" if dash and "i" in opts else "out.json"
            with open(os.path.join(d, "in"), "rb") as stdin:
                r = subprocess.run([sys.executable, "-B", os.path.join(sut.SRC, "main.py"), src, "-i", dst, "-tn", "1000"],
                                   cwd=d, stdin=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if r.returncode:
                fail(f"main.py {src} -i {dst} ({form}): exit {r.returncode}: {r.stderr.decode()[-300:]}")
            if dst != "-":
                with open(os.path.join(d, dst), "rb") as f:
                    outs[dash] = f.read()
                os.unlink(os.path.join(d, dst))
            else:
                outs[dash] = r.stdout
        ctx.ops(2)
        ctx.trace()
        ctx.state(case)
        if outs[False].strip() not in outs[True]:
            fail(f"instruments of a {form} song with '-' for {opts}: {outs[True][-300:]!r} does not hold "
                 f"{outs[False][:300]!r}")
        if os.listdir(d) != ["in"]:
            fail(f"'-' for {opts}: files {os.listdir(d)}")
    finally:
        shutil.rmtree(d)


PRINTABLE = [chr(c) for c in range(0x20, 0x7F) if chr(c) not in "/."] + ["\u00e9", "\u2013", "\u2014", "\u2212", "\uff0d", "\U0001f3b5", "\t", "\n"]
NP = 97


def run_short_names(first, ctx):
    """all names of one and two characters"""
    for name in [first] + [first + c for c in PRINTABLE + ["."]] + [c + first for c in "."]:
        for mode in ("r", "wb"):
            run_file((name, mode, "normal", mode == "r", False), ctx) if name != "-" else None


def run_name_pairs(s, ctx):
    """names whose length and characters, modes, ways to leave and presence are factors of an orthogonal array"""
    exits = list(EXITS)
    modes = READS + WRITES + ("a", "x")
    for t in range(NP):
        def f(k):
            return (s + t * k) % NP
        name = "".join(PRINTABLE[f(10 + k)] if f(10 + k) < len(PRINTABLE) else "." for k in range(1 + f(1) % 60))
        if name.strip(".") == "" or len(name.encode()) > 200 or name == "-":
            continue
        run_file((name, modes[f(2) % len(modes)], exits[f(3) % len(exits)], f(4) % 2 == 0, f(5) % 3 == 0), ctx)


def families(tier):
    th = tier == "thorough"
    return [
        Family("standard streams", lambda: itertools.product(STD, READS[:3] + WRITES, EXITS), run_std,
               "three names x six modes x all exits"),
        Family("refused modes", lambda: itertools.product(STD, ("", "z", "b", "t", "q", "-", "B", "Z")), run_refused,
               "modes that neither read nor write"),
        Family("files", lambda: itertools.product(FILES, READS + WRITES + ("a", "ab", "x", "r+", "w+b", "q"), EXITS,
                                                  (False, True), (False, True) if th else (False,)), run_file,
               f"{len(FILES)} names x 13 modes x all exits x present or not"),
        Family("short names", lambda: PRINTABLE, run_short_names, f"all names of one or two of {len(PRINTABLE)} characters, read and written"),
        Family("pairwise names", lambda: range(0, NP), run_name_pairs, "9409 names in which every two of length, characters, mode, exit and presence "
               "take every pair of values"),
        Family("nested", lambda: sequences(len(USES), 4 if th else 3, 2), run_nested,
               f"all nestings of up to {4 if th else 3} of {len(USES)} uses"),
        Family("sequences", lambda: sequences(len(USES), 4 if th else 3, 1), run_sequence,
               f"all sequences of up to {4 if th else 3} uses"),
        Family("closed inside", lambda: itertools.product(READS + WRITES, EXITS), run_closed,
               "blocks that close their file themselves"),
        Family("full device", lambda: itertools.product(WRITES, (1, 100, 8191, 8192, 8193, 100000, 1 << 20), (0, 1), EXITS), run_full,
               "a device that takes nothing: the failure comes out"),
        Family("bad names", lambda: itertools.product(BAD, READS + WRITES + ("a", "x", "r+", "w+b")), run_bad,
               f"{len(BAD)} names that cannot be opened x 11 modes: open()'s own error, nothing made"),
        Family("devices", lambda: itertools.chain(
            itertools.product(("/dev/stdin", "/dev/fd/0", "/proc/self/fd/0", "/dev/fd/31", "/proc/self/fd/31"), ("r", "rb"), ("normal", "error")),
            itertools.product(("/dev/stdout", "/dev/fd/1", "/proc/self/fd/1", "/dev/fd/31", "/proc/self/fd/31"), ("w", "wb"), ("normal", "error"))),
               run_device, "names of the process's own open files, in an own process", cpu_s=120),
        Family("tool", lambda: itertools.product(("raw", "gzip"), ("s", "i", "si")), run_tool,
               "'-' on the command line", cpu_s=120),
    ]
