"""Determinism: the tool is run in its own interpreter under every environment of a bounded configuration space (hash seed,
locale, time zone, clock, interpreter flags, current and home directory, standard input, kind of standard output, umask, input
name and metadata, byte code cache, path of the sources, processors, limits: all single and pairs of deviations) and after
every history of earlier runs; every output byte must be the same."""
import itertools
import json
import os
import pty
import resource
import shutil
import subprocess
import sys
import termios
import threading

from .. import ref, sut
from ..engine import Family, check_eq, fail
from .c08 import tree
from .c23 import FORMS, STREAMS, verify_instruments, verify_song

LEVEL = "model_checking"
ASSUMPTIONS = ["the clock is varied as Python's time and datetime modules report it", "of the song archive only Song.xml is compared (zip entries carry a time)"]

SONGS = [("tune", "raw", None), ("instruments", "raw", 735), ("other chips", "gzip", None), ("patterns", "two members", 2205),
         ("empty", "raw", None), ("late note", "1.51", None), ("tag", "1.01", 1000), ("offs only", "gzip", 1),
         ("no end", "raw", 44100), ("rich", "raw", None)]

DIMS = {
    "hash seed": ["0", "1", "2", "3", "7", "4242"],
    "locale": [{}, {"LC_ALL": "C"}, {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, {"LC_ALL": "C.UTF-8"},
               {"LANG": "de_DE.UTF-8", "LC_NUMERIC": "de_DE.UTF-8"}, {"PYTHONIOENCODING": "latin-1"},
               {"LC_ALL": "POSIX", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0", "PYTHONIOENCODING": "ascii"}],
    "flags": [[], ["-O"], ["-OO"], ["-X", "dev"], ["-u"], ["-X", "utf8"], ["-W", "ignore"]],
    "input": ["song.vgm", "song.vgz", "song", "a b/c d.gz", "link", "song.json", "-1"],
    "cwd": ["work", "/", "decoys"],
    "time zone": [None, "UTC", "Asia/Tokyo", "EST5EDT", "XXX-14"],
    "home": ["home", None, "/nonexistent", "decoys"],
    "stdin": ["null", "song", "closed", "empty"],
    "umask": [0o22, 0o77, 0o0],
    "metadata": [None, 0, 1 << 33, "read-only"],
    "bytecode": ["shared", "cold", "none", "warm"],
    "variables": [{}, {"TERM": "dumb", "COLUMNS": "5", "LINES": "1"}, {"NO_COLOR": "1", "DEBUG": "1", "VERBOSE": "1"},
                  {"SOURCE_DATE_EPOCH": "1"}, {"CI": "true", "USER": "x", "LOGNAME": "y"}],
    # dates a zip entry can carry: a leap day, the first of them, past 2^31 s, the century without a leap day; a clock that
    # goes backwards at every reading
    "clock": [None, "951825600 0", "315964800 0", "2148595201 0", "4107542399 0", "1700000000 -3", "1735689599 1"],
    "stdout": ["pipe", "file", "tty"],
    "processors": ["all", "one"],
    "source": ["real", "link", "relative"],
    "limits": [None, "files", "stack"],
}
KEYS = list(DIMS)


def rich():
    """every register written, onsets at the limits of the estimate's window, all channels, silences"""
    s, now = b"", 0
    for i in range(81):
        t = i * 500
        s += ref.wait(t - now)
        now = t
        s += ref.w(i * 3 & 0xFF, i * 7 & 0xFF) if i * 3 & 0xFF != 8 else b""
        s += ref.w(0x28 + (i & 7), i * 5 & 0x7F) + ref.w(0x60 + (i & 7), i & 0x7F) + ref.key(i & 7, 1 + i % 15)
    return s + ref.w(0x20, 0) + ref.key(0) + ref.wait(100000) + ref.key(7, 3) + b"\x66"


STREAMS = dict(STREAMS, rich=rich())
STRONG = KEYS[:4]
FAILING = ("damaged", "not a song", "disk full", "disk filling")


def decoys(d):
    os.makedirs(d, exist_ok=True)
    for n in ("vgm", "xrns", "xsdata"):
        os.makedirs(os.path.join(d, n), exist_ok=True)
        with open(os.path.join(d, n, "__init__.py"), "w") as f:
            f.write("raise SystemExit(77)\n")
    for n in ("main.py", "tools.py", "extractors.py", "json.py", "gzip.py"):
        with open(os.path.join(d, n), "w") as f:
            f.write("raise SystemExit(77)\n")
    for n in ("config.json", "template.xml", "Song.xml", ".vgm_extractor", "song.json", "vgm.ini"):
        with open(os.path.join(d, n), "w") as f:
            f.write("{}")


def place(root, cfg, songs, tag=""):
    """input files -> jobs"""
    jobs = []
    for n, (name, form, tn) in enumerate(songs):
        d = os.path.join(root, "in", str(n))
        path = os.path.join(d, cfg["input"])
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if os.path.lexists(path):
            os.unlink(path)
        real = path
        if cfg["input"] == "link":
            real = os.path.join(d, "target.bin")
            os.symlink("target.bin", path)
        if os.path.exists(real):
            os.unlink(real)
        with open(real, "wb") as f:
            f.write(FORMS[form](STREAMS[name]))
        for end in (".lock", ".tmp", ".bak", "~", ".part", ".cache", ".json", ".xrns"):  # neighbours, somebody's files
            with open(path + end, "wb") as f:
                f.write(b"mine")
        m = cfg["metadata"]
        if m == "read-only":
            os.chmod(real, 0o400)
        elif m is not None:
            os.utime(real, (m, m))
        jobs.append((path, os.path.join(root, "out", f"{n}{tag}"), tn))
    return jobs


def run(root, cfg, jobs):
    """one interpreter -> (exit status, text printed, stderr)"""
    env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "PYTHONHASHSEED": cfg["hash seed"], "PYTHONNOUSERSITE": "1"}
    env["TMPDIR"] = os.path.join(root, "tmp")
    env.update(cfg["locale"])
    env.update(cfg["variables"])
    if cfg["time zone"]:
        env["TZ"] = cfg["time zone"]
    if cfg["home"]:
        env["HOME"] = os.path.join(root, cfg["home"])
    cwd = os.path.join(root, cfg["cwd"])
    flags = list(cfg["flags"])
    if cfg["bytecode"] == "none":
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        flags += ["-X", "pycache_prefix=/dev/null/pycache"]
    else:
        flags += ["-X", "pycache_prefix=" + os.path.join(os.path.dirname(root) if cfg["bytecode"] == "shared" else root, "pyc")]
    jf = os.path.join(root, "jobs.json")
    with open(jf, "w") as f:
        json.dump(jobs, f)
    data = FORMS["raw"](STREAMS["late note"]) if cfg["stdin"] == "song" else b""

    src = sut.SRC
    if cfg["source"] != "real":
        link = os.path.join(root, "source")
        if not os.path.lexists(link):
            os.symlink(sut.SRC, link)
        src = link if cfg["source"] == "link" else os.path.relpath(link, cwd)
    if cfg["clock"]:
        env["VP_CLOCK"] = cfg["clock"]

    def setup():
        os.umask(cfg["umask"])
        if cfg["processors"] == "one":
            os.sched_setaffinity(0, {min(os.sched_getaffinity(0))})
        if isinstance(cfg["limits"], int):
            resource.setrlimit(resource.RLIMIT_FSIZE, (cfg["limits"], cfg["limits"]))
        if cfg["limits"] == "files":
            resource.setrlimit(resource.RLIMIT_NOFILE, (32, 32))
        if cfg["limits"] == "stack":
            resource.setrlimit(resource.RLIMIT_STACK, (1 << 20, 1 << 20))
        if cfg["stdin"] == "closed":
            os.close(0)
    stdin = {"input": data} if cfg["stdin"] in ("song", "empty") else {"stdin": subprocess.DEVNULL}
    script = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "envrun.py")
    text, reader, master, to = [], None, None, subprocess.PIPE
    if cfg["stdout"] == "file":
        to = open(os.path.join(root, "printed.txt"), "w+b")
    elif cfg["stdout"] == "tty":
        master, to = pty.openpty()
        attr = termios.tcgetattr(to)
        attr[1] &= ~termios.OPOST  # no \r before \n
        termios.tcsetattr(to, termios.TCSANOW, attr)
        reader = threading.Thread(target=drain, args=(master, text))
        reader.start()
    try:
        r = subprocess.run([sys.executable] + flags + [script, src, jf], cwd=cwd, env=env, preexec_fn=setup, stdout=to,
                           stderr=subprocess.PIPE, timeout=300, **stdin)
        out = r.stdout
        if cfg["stdout"] == "file":
            to.seek(0)
            out = to.read()
    finally:
        if cfg["stdout"] == "file":
            to.close()
        elif reader:
            os.close(to)
            reader.join()
            os.close(master)
            out = b"".join(text)
    return r.returncode, out.decode("utf-8"), r.stderr.decode("utf-8", "replace")


def drain(fd, parts):
    while True:
        try:
            data = os.read(fd, 65536)
        except OSError:  # the last writer has closed it
            return
        if not data:
            return
        parts.append(data)


def outputs(root, jobs, text):
    out = {}
    for n, (path, base, _) in enumerate(jobs):
        for ext in (".json", ".csv", ".xrns") + ((".script.json", ".script.xrns") if n == 0 else ()):
            try:
                with open(base + ext, "rb") as f:
                    data = f.read()
            except FileNotFoundError:
                data = None
            if data and ext.endswith(".xrns"):
                data = sut.song_xml(data)
            out[n, ext] = data
        text = text.replace(path, f"<input {n}>").replace(base + ".", f"<output {n}>.").replace(
            "# " + os.path.basename(base) + "\n", f"# {n}\n")
    out["printed"] = text
    return out


def world(root):
    for d in ("work", "home", "out", "tmp"):
        os.makedirs(os.path.join(root, d))
    decoys(os.path.join(root, "decoys"))


def default():
    return {k: DIMS[k][0] for k in KEYS}


BASE = {}


def baseline(ctx):
    """outputs in the plain environment, verified against the reference"""
    if "x" not in BASE:
        root = os.path.join(ctx.scratch, "base")
        world(root)
        cfg = dict(default(), bytecode="none")
        jobs = place(root, cfg, SONGS)
        code, text, err = run(root, cfg, jobs)
        if code != 0:
            fail(f"plain environment: exit status {code}: {err[-500:]}")
        out = outputs(root, jobs, text)
        for n, (name, _form, tn) in enumerate(SONGS):
            chip = ref.play(STREAMS[name])
            verify_instruments(out[n, ".json"], chip, f"plain environment, '{name}'")
            with open(jobs[n][1] + ".xrns", "rb") as f:
                verify_song(f.read(), chip, tn or ref.note_length(chip.onsets), f"plain environment, '{name}'")
        BASE["x"] = out
        shutil.rmtree(root)
    return BASE["x"]


def compare(got, what, ctx, only=None):
    want = baseline(ctx)
    for k in want:
        if only is not None and (k == "printed" or k[0] != only[1]):
            continue
        g = got["printed"] if k == "printed" else got[k if only is None else (only[0], k[1])]
        if g != want[k]:
            name = "printed text" if k == "printed" else f"{k[1]} of '{SONGS[k[0]][0]}'"
            if g is None:
                fail(f"{what}: {name} is not written")
            a, b = (x if isinstance(x, str) else x.decode("utf-8", "replace") for x in (g, want[k]))
            check_eq(a.split("\n"), b.split("\n"), f"{what}: {name} (lines)")
            fail(f"{what}: {name} differs")
    ctx.trace()


def run_env(case, ctx):
    """one environment: the plain one with some deviations"""
    cfg = default()
    for k, i in case:
        cfg[k] = DIMS[k][i]
    what = "environment " + str({k: cfg[k] for k, _ in case})
    baseline(ctx)
    root = os.path.join(ctx.scratch, "env")
    world(root)
    try:
        jobs = place(root, cfg, SONGS)
        for again in range(2 if cfg["bytecode"] == "warm" else 1):
            before = {d: tree(os.path.join(root, d)) for d in ("in", "work", "home", "decoys", "tmp")}
            code, text, err = run(root, cfg, jobs)
            ctx.ops(len(jobs))
            if code != 0:
                fail(f"{what}: exit status {code}: {err[-500:]}")
            compare(outputs(root, jobs, text), what, ctx)
            for d, t in before.items():
                now = tree(os.path.join(root, d))
                if now != t:
                    fail(f"{what}: the run changed {sorted(k for k in set(now) | set(t) if now.get(k) != t.get(k))} in {d}")
        ctx.state(tuple(map(tuple, case)))
    finally:
        shutil.rmtree(root)


def run_history(case, ctx):
    """earlier runs on other songs under the same name, with the same time stamp, home and current directory"""
    full = baseline(ctx)
    room = {"disk full": 40, "disk filling": len(full[0, ".json"]) + 1}  # bytes a file may have
    cfg = default()
    cfg.update(metadata=1600000000)
    root = os.path.join(ctx.scratch, "hist")
    world(root)
    try:
        for step, i in enumerate(case):
            what = f"runs on {[j if isinstance(j, str) else SONGS[j][0] for j in case[:step + 1]]} under one name"
            name, form, tn = SONGS[i if i not in FAILING else 0]
            jobs = place(root, cfg, [(name, form, tn)])
            if i in ("damaged", "not a song"):
                data = FORMS["gzip"](STREAMS["patterns"])
                with open(jobs[0][0], "wb") as f:
                    f.write(data[:len(data) // 2] if i == "damaged" else b"not a song\n" * 20)
                os.utime(jobs[0][0], (cfg["metadata"],) * 2)
            code, text, err = run(root, dict(cfg, limits=room.get(i)), jobs)
            ctx.ops()
            if i in FAILING:
                if code == 0 and i != "disk filling":  # there, a compressed archive may fit
                    fail(f"{what}: exit status 0")
                continue
            if code != 0:
                fail(f"{what}: exit status {code}: {err[-500:]}")
            out = outputs(root, jobs, text)
            want = baseline(ctx)
            for ext in (".json", ".csv", ".xrns"):
                if out[0, ext] != want[i, ext]:
                    fail(f"{what}: {ext} is not the one of '{name}' alone")
            ctx.trace()
        if any(tree(os.path.join(root, x)) for x in ("home", "work", "tmp")):
            fail(f"{what}: files in the home, current or temporary directory")
        ctx.state(tuple(case))
    finally:
        shutil.rmtree(root)


def run_order(case, ctx):
    """the songs of one process in another order"""
    baseline(ctx)
    root = os.path.join(ctx.scratch, "order")
    world(root)
    try:
        order = list(case)
        jobs = place(root, default(), [SONGS[i] for i in order])
        code, text, err = run(root, default(), jobs)
        what = f"songs in the order {[SONGS[i][0] for i in order]}"
        if code != 0:
            fail(f"{what}: exit status {code}: {err[-500:]}")
        out = outputs(root, jobs, text)
        want = baseline(ctx)
        for n, i in enumerate(order):
            for ext in (".json", ".csv", ".xrns"):
                if out[n, ext] != want[i, ext]:
                    fail(f"{what}: {ext} of '{SONGS[i][0]}' differs")
        ctx.ops(len(order))
        ctx.trace()
        ctx.state(tuple(order))
    finally:
        shutil.rmtree(root)


def deviations(keys, n):
    for combo in itertools.combinations(keys, n):
        for idx in itertools.product(*(range(1, len(DIMS[k])) for k in combo)):
            yield list(zip(combo, idx))


def families(tier):
    th = tier == "thorough"
    total = 1
    for k in KEYS:
        total *= len(DIMS[k])
    return [
        Family("single deviations", lambda: [[]] + list(deviations(KEYS, 1)), run_env,
               f"the plain environment and every single deviation of {len(KEYS)} dimensions", cpu_s=120),
        Family("pairs of deviations", lambda: list(deviations(KEYS if th else STRONG[:3], 2)), run_env,
               "all pairs of deviations of " + (f"{len(KEYS)}" if th else "the first three") + " dimensions", cpu_s=120),
        Family("histories of runs", lambda: list(itertools.product(range(3), repeat=3)) if not th else
               list(itertools.product(range(len(SONGS)), repeat=2)) + list(itertools.product(range(5), repeat=3)), run_history,
               "all histories of runs over different songs under one name"),
        Family("failed runs before", lambda: list(itertools.product(range(3), FAILING, range(3))) +
               list(itertools.product(FAILING, FAILING, range(3))), run_history,
               "runs on a damaged file, on something else and without room for the outputs, before and between others"),
        Family("orders", lambda: list(itertools.permutations(range(4))) + [tuple((i * k) % 9 for i in range(9)) + (9,) for k in
                                                                          (1, 2, 4, 5, 7, 8)], run_order,
               "songs of one process in different orders"),
    ] + ([Family("triples of deviations", lambda: list(deviations(STRONG, 3)), run_env,
                 "all triples of deviations of the first four dimensions", cpu_s=120)] if th else [])
