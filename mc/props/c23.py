"""Command line: all option combinations, spellings and note lengths on songs of every kind, raw and compressed, run
through the real script; exit status, every output's content (against the reference), the input and the whole directory
tree are compared."""
import itertools
import json
import math
import os
import shutil
import subprocess
import sys

from .. import ref, sut
from ..common import CLASS_REPS
from ..engine import Family, check_eq, fail
from .c05 import member
from .c08 import tree

LEVEL = "model_checking"
ASSUMPTIONS = ["the script runs in this process for most cases and in its own interpreter for one family"]


def tune(n, step, ch=0):
    s = ref.w(0x20 + ch, 0xC7) + ref.w(0x28 + ch, 0x4A)
    for i in range(n):
        s += ref.w(0x60 + ch, i & 3) + ref.key(ch) + ref.wait(step // 2) + ref.key(ch, 0) + ref.wait(step - step // 2)
    return s


STREAMS = {
    "empty": b"\x66",
    "nothing": b"",
    "one note": ref.key(3) + b"\x66",
    "late note": ref.wait(40000) + ref.key(3, 5) + ref.wait(99) + ref.key(3, 0) + b"\x66",
    "tune": tune(12, 2205) + b"\x66",
    "no end": tune(5, 1500, 7),
    "tag": tune(7, 3000, 2) + b"\x66" + b"Gd3 \x00\x01\x00\x00" + ref.key(1) + b"\x54\x67\x61",
    "other chips": b"".join(CLASS_REPS[i] for i in range(len(CLASS_REPS) - 1)) + tune(4, 1234, 1) + b"\x66",
    "instruments": b"".join(ref.w(0x18, i) + ref.key(i & 7) + ref.wait(735) + ref.key(i & 7, 0) for i in range(40)) + b"\x66",
    "patterns": tune(3, 70000) + ref.w(0x27, 0x40) + ref.key(7, 9) + b"\x66",
    "offs only": ref.key(0, 0) + b"\x62" + ref.key(7, 0) + b"\x66",
}
FORMS = {
    "raw": lambda s: ref.vgm(s),
    "gzip": lambda s: member(ref.vgm(s), 6, 8),
    "two members": lambda s: member(ref.vgm(s)[:60]) + member(ref.vgm(s)[60:]),
    "1.51": lambda s: ref.header(0x151, data_offset=0x4C, size=0x80) + s,
    "1.01": lambda s: ref.header(0x101, clock=0, clock2413=3579545, data_offset=0) + s,
}
OLD = b"old content" * 3000


def verify_instruments(data, chip, what):
    try:
        got = json.loads(data)
    except ValueError as e:
        fail(f"{what}: the instrument file is not JSON: {e}: {data[:200]!r}")
    want = ref.instruments_json(chip)
    if got != want:
        check_eq(got, want, f"{what}: instrument file")


def verify_song(data, chip, length, what):
    root = sut.parse_song(data)
    got, patterns, _ = sut.song_grid(root)
    exp, n = ref.grid(chip.events, length)
    want = {}
    for k, ev in exp.items():
        c = ref.cell(ev)
        want[k] = c if c[0] is not None else (got.get(k, (None,))[0],) + c[1:]
    if got != want:
        check_eq(got, want, f"{what}: tracker song cells for note length {length}")
    if patterns != n:
        fail(f"{what}: {patterns} patterns, expected {n}")
    bpm = root.findtext("GlobalSongData/BeatsPerMin")
    if bpm != str(ref.tempo(length)):
        fail(f"{what}: tempo {bpm}, expected {ref.tempo(length)} for note length {length}")
    if len(root.findall("Instruments/Instrument")) != len(chip.instruments):
        fail(f"{what}: {len(root.findall('Instruments/Instrument'))} instruments declared")


def run_tool(ctx, stream, form, opts, tn, existing=False, names=("o.json", "o.xrns"), spell=0, order=0, runner=None,
             relative=False, inname="in.vgm"):
    """one invocation, everything checked"""
    chip = ref.play(stream)
    length = tn if tn else ref.note_length(chip.onsets)
    d = os.path.join(ctx.scratch, "cli")
    os.mkdir(d)
    cwd = os.getcwd()
    try:
        os.mkdir(os.path.join(d, "sub"))
        for n in ("other.json", "song.xrns", "sub/keep", names[0] + ".bak", names[1] + ".1", names[0] + "~", inname + ".old",
                  *(n + e for n in names for e in (".tmp", ".part", ".new", ".lock", ".temp")), "Song.xml", "tmp"):
            with open(os.path.join(d, n), "wb") as f:
                f.write(OLD)
        os.mkdir(os.path.join(d, "sub", "cwd"))
        os.chdir(os.path.join(d, "sub", "cwd"))
        place = (lambda n: os.path.join("..", "..", n)) if relative else (lambda n: os.path.join(d, n))
        with open(os.path.join(d, inname), "wb") as f:
            f.write(FORMS[form](stream))
        parts = [[place(inname)]]
        flags = (("-i", "-t", "-tn"), ("--instrument", "--track", "--ticks-per-note"))[spell & 1]
        for o, flag, n in (("i", flags[0], names[0]), ("t", flags[1], names[1])):
            if o in opts:
                parts.append([flag + "=" + place(n)] if spell == 3 else [flag, place(n)])
            if existing:
                with open(os.path.join(d, n), "wb") as f:
                    f.write(OLD)
        if tn is not None:
            parts.append([flags[2], str(tn)] if spell != 3 else [f"{flags[2]}={tn}"])
        perms = list(itertools.permutations(parts))
        args = [a for p in perms[order % len(perms)] for a in p]
        before = tree(d)
        what = f"'{stream_name(stream)}' ({form}), arguments {args}"
        code, out = (runner or sut.cli)(args)
        after = tree(d)
        ctx.ops()
        ctx.trace()
        ctx.state((stream_name(stream), form, opts, tn, existing))
        if code != 0:
            fail(f"{what}: the tool fails with {code}")
        wanted = {names[0]: "i" in opts, names[1]: "t" in opts}
        for n in sorted(set(before) | set(after)):
            if wanted.get(n):
                if n not in after:
                    fail(f"{what}: {n} was not written")
                if b"old content" in after[n]:
                    fail(f"{what}: {n} still holds what was there before")
            elif before.get(n) != after.get(n):
                fail(f"{what}: {n} was {'created' if n not in before else 'removed' if n not in after else 'changed'}")
        if "i" in opts:
            verify_instruments(after[names[0]], chip, what)
        if "t" in opts:
            verify_song(after[names[1]], chip, length, what)
        return out
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)


def stream_name(stream):
    for k, v in STREAMS.items():
        if v == stream:
            return k
    return "song"


def run_options(case, ctx):
    name, form, opts, tn, existing = case
    run_tool(ctx, STREAMS[name], form, opts, tn, existing)


def run_spelling(case, ctx):
    spell, order, opts, tn, relative = case
    run_tool(ctx, STREAMS["tune"], "raw", opts, tn, False, ("o.json", "o.xrns"), spell, order, None, relative)


def run_names(case, ctx):
    """output and input names of every kind"""
    a, b, inname = case
    run_tool(ctx, STREAMS["tune"], "gzip", "it", 2000, True, (a, b), 0, 0, None, False, inname)


def run_suffix(case, ctx):
    """the names' endings do not choose what is written; nothing of it goes to the standard output"""
    a, b, opts, up = case
    a, b = ("O" + a.upper(), "P" + b.upper()) if up else ("o" + a, "p" + b)
    out = run_tool(ctx, STREAMS["tune"], "raw", opts, 2000, False, (a, b))
    out = (out or b"").decode("utf-8", "replace")
    for word in ('"m1"', "<RenoiseSong", '"total_level"', "PK\x03\x04"):
        if word in out:
            fail(f"outputs {a!r}, {b!r}, options {opts!r}: the standard output holds {word!r}: {out[:300]!r}")


ENDINGS = ["", ".csv", ".json", ".xrns", ".txt", ".xml", ".zip", ".gz", ".vgm", ".vgz", ".bin"]


def run_length(case, ctx):
    """given note lengths"""
    lo, hi, step = case
    for tn in range(lo, hi, step):
        run_tool(ctx, STREAMS["tune"], "raw", "t", tn)


def run_estimate(case, ctx):
    """no or zero note length: the estimate"""
    period, tn = case
    run_tool(ctx, tune(max(3, 20000 // period), period), "raw", "it" if period & 1 else "t", tn)


def own_process(args):
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    r = subprocess.run([sys.executable, "-X", "pycache_prefix=/dev/null/pycache",
                        os.path.join(sut.SRC, "main.py")] + args, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, env=env)
    return r.returncode if r.returncode == 0 else (r.returncode, r.stderr.decode()[-400:]), r.stdout


def run_process(case, ctx):
    name, form, opts, tn = case
    run_tool(ctx, STREAMS[name], form, opts, tn, runner=own_process)


def run_function(case, ctx):
    """the main function itself, with and without its optional argument"""
    name, form, opts, tn = case
    stream = STREAMS[name]
    chip = ref.play(stream)
    length = tn if tn else ref.note_length(chip.onsets)
    d = os.path.join(ctx.scratch, "fn")
    os.mkdir(d)
    try:
        src = os.path.join(d, "in")
        with open(src, "wb") as f:
            f.write(FORMS[form](stream))
        before = tree(d)
        i = os.path.join(d, "a") if "i" in opts else None
        t = os.path.join(d, "b") if "t" in opts else None
        if tn is None:
            sut.mainmod.main(src, i, t)
        else:
            sut.mainmod.main(src, i, t, tn)
        after = tree(d)
        what = f"main() on '{name}' ({form}), outputs {opts!r}, note length {tn}"
        ctx.ops()
        ctx.trace()
        ctx.state(("fn", name, form, opts, tn))
        if set(after) - set(before) != {n for n, o in (("a", "i"), ("b", "t")) if o in opts} or after["in"] != before["in"]:
            fail(f"{what}: files {sorted(after)}, input {'kept' if after.get('in') == before['in'] else 'changed'}")
        if i:
            verify_instruments(after["a"], chip, what)
        if t:
            verify_song(after["b"], chip, length, what)
    finally:
        shutil.rmtree(d)


NP = 61


def run_pairwise(s, ctx):
    """numbers of instruments and events, note length, names, options and forms as factors of an orthogonal array"""
    letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456_+"
    for t in range(s % 3, NP, 1 if ctx.tier == "thorough" else 3):
        def f(k):
            return (s + t * k) % NP
        stream = b"".join(ref.w(0x18, min(i, f(2))) + ref.key(i + f(3) & 7, (i + f(4)) % 3 and 15) + ref.wait(40 * f(5)) for i in range(f(1))) \
            + ref.END * (f(6) & 1)
        opts = ("it", "i", "t", "it")[f(7) % 4]
        tn = (None, 0, 1 + f(9), 1000 + f(9) + 61 * f(10), 1 + f(9) + 61 * f(10))[f(8) % 5]
        names = ["".join(letters[f(k + j)] for j in range(1 + f(n) % 40)) for k, n in ((11, 55), (21, 56), (31, 57))]
        run_tool(ctx, stream, list(FORMS)[f(58) % len(FORMS)], opts, tn, f(59) & 1 == 1, ("o" + names[0], "p" + names[1]), f(12) % 4, f(13),
                 None, f(14) & 1 == 1, "q" + names[2])


def run_every_length(lo, ctx):
    """one song through main() under every note length"""
    stream = STREAMS["late note"]
    chip = ref.play(stream)
    src, out = os.path.join(ctx.scratch, "e.vgm"), os.path.join(ctx.scratch, "e.xrns")
    with open(src, "wb") as f:
        f.write(FORMS["raw"](stream))
    for tn in range(lo, lo + 50):
        sut.mainmod.main(src, None, out, tn)
        with open(out, "rb") as f:
            verify_song(f.read(), chip, tn, f"main() with the note length {tn}")
        os.unlink(out)
        ctx.ops()
        ctx.trace()
        ctx.state(("every", tn))


def families(tier):
    th = tier == "thorough"
    tns = (None, 0, 1, 735, 1000, 2205, 7999, 44100)
    allopts = ("", "i", "t", "it")
    return [
        Family("options", lambda: itertools.product(STREAMS, FORMS if th else ("raw", "gzip"), allopts,
                                                    tns if th else (None, 0, 1000, 2205), (False, True)), run_options,
               f"{len(STREAMS)} songs x forms x outputs x note lengths x existing outputs"),
        Family("forms", lambda: itertools.product(STREAMS, FORMS, ("it",), (1000,), (False,)), run_options,
               "all songs in all file forms"),
        Family("spelling", lambda: ((sp, o, opts, tn, rel) for sp, o, opts, tn, rel in itertools.product(
            range(4), range(24), allopts, (None, 1500), (False, True))
            if o < math.factorial(1 + len(opts) + (tn is not None))), run_spelling,
               "short, long and '=' options in every order, absolute and relative paths"),
        Family("names", lambda: itertools.product(("o.json", "with space", "\u00e9\u4e2d.j", "x.xrns", "sub/a.json", "-x", "~", "$HOME", "a*"),
                                                  ("o.xrns", "o", "noext.", "sub/b.b", ".hidden"),
                                                  ("in.vgm", "in.vgz", "a b", "x.json")), run_names, "file names"),
        Family("endings", lambda: itertools.product(ENDINGS, ENDINGS, ("i", "t", "it", ""), (0, 1)), run_suffix,
               f"{len(ENDINGS)} endings of each output name"),
        Family("long note lengths", lambda: [((1 << b) + d, (1 << b) + d + 1, 1) for b in range(13, 65, 1 if th else 3) for d in (-1, 0, 1)]
               + [(n, n + 1, 1) for n in (44100, 70000, 100000, 441000, 661500, 661501)], run_length, "note lengths up to 2^64"),
        Family("pairwise", lambda: range(NP), run_pairwise, ("3721" if th else "1240") + " invocations over an orthogonal array of numbers of instruments "
               "and events, times, note length, options, forms and characters of the names", cpu_s=200),
        Family("every note length", lambda: range(1, 8201, 50), run_every_length, "every note length 1..8250 through main()"),
        Family("note lengths", lambda: [(a, a + 200, 1 if th else 67) for a in range(1, 9000, 200)], run_length,
               "given note lengths"),
        Family("estimates", lambda: itertools.product(range(1000, 8000, 37 if th else 401), (None, 0)), run_estimate,
               "songs without a given note length"),
        Family("function", lambda: itertools.product(STREAMS, ("raw", "gzip"), allopts, (None, 0, 1234)), run_function,
               "main() called directly"),
        Family("own process", lambda: itertools.product(STREAMS if th else ("tune", "empty"), ("raw", "gzip"), allopts,
                                                        (None, 0, 2000) if th else (None, 2000)), run_process,
               "the script in its own interpreter", cpu_s=120),
    ]
