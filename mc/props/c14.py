"""Independence: two extractions are cut into steps (open, read header, decode-and-apply parts, observe, export), and all
interleavings of their step sequences run on the real code in one process; what each session shows must be what the
session shows when it runs alone in the reference."""
import gc
import io
import itertools
import json
import os

from .. import many, ref, sut, threads
from ..common import compare_state
from ..engine import Family, check_eq, fail, merges
from .c05 import member
from .c09 import BASES, Pair

LEVEL = "model_checking"
ASSUMPTIONS = ["inside library calls two threads are preempted at source lines (bytecodes in the thorough tier) of the "
               "repository's own files, at most twice (three times for the decoder in the thorough tier) per execution; "
               "single library calls are interleaved without bound"]


def song(k):
    """songs that share registers, values, channels and times but differ in everything observable"""
    s = ref.w(0x18, 0x20 + k) + ref.w(0x19, 0x10 + k) + ref.w(0x19, 0x90 + k)
    for ch in (0, 3, 7):
        s += ref.w(0x20 + ch, 0xC1 + (8 * k)) + ref.w(0x28 + ch, 0x41 + k) + ref.w(0x60 + ch, 7 * k) + ref.key(ch)
        s += ref.wait(500 + k * 13)
    s += ref.key(0, 0) + b"\x63" + ref.w(0x67, k) + ref.key(7, 15 - k) + ref.wait(4410) + ref.key(3, 0) + b"\x66"
    return s


def file(k, form):
    """(file bytes, declared clock, version, start)"""
    ver, off, clock = [(0x101, 0, 3000000), (0x110, 0, 3579545), (0x151, 0x0C, 4000000), (0x161, 0x4C, 0)][form % 4]
    start = 0x34 + off if ver >= 0x150 else 0x40
    h = ref.header(ver, clock if ver >= 0x110 else 77, 1000 + k, clock if ver < 0x110 else 0, off, 0, start)
    data = h + song(k)
    return (member(data) if form >= 4 else data), clock, {0x101: 101, 0x110: 110, 0x151: 151, 0x161: 161}[ver], start


class Session:
    """one extraction, advanced step by step"""

    def __init__(self, name, k, form, plan, ctx):
        self.k, self.form, self.plan, self.ctx, self.name = k, form, plan, ctx, name
        self.data, self.clock, self.version, self.start = file(k, form)
        self.seen = []
        self.pos = 0
        self.r = self.st = None

    def step(self):
        getattr(self, "do_" + self.plan[self.pos][0])(*self.plan[self.pos][1:])
        self.pos += 1
        self.ctx.ops()

    def do_open(self):
        self.r = sut.reader(self.data)
        self.st = sut.ymstate.State()

    def do_read(self, n):
        """decode and apply up to n commands"""
        T = sut.vgmcmd.VgmCommandType
        for _ in range(n):
            try:
                c = next(self.r)
            except StopIteration:
                break
            if c.command_type == T.EOS:
                break
            if c.command_type == T.YM2151:
                self.st.apply(c)
            elif c.command_type == T.WAIT:
                self.st.beat(c.samples)
            self.seen.append(sut.kind(c))

    def do_finish(self):
        self.do_read(100)
        self.do_header()
        self.do_see()

    def do_all(self):
        self.st = sut.extract(self.data)

    def do_header(self):
        r = self.r
        self.seen.append(("header", r.version, r.size(), r.clock("ym2151"), r.supports("ym2151"), r.data_start))

    def do_see(self):
        self.seen.append(sut.snapshot(self.st))

    def do_json(self):
        self.seen.append(sut.export_instruments(self.st, self.path("json")))

    def do_csv(self):
        self.seen.append(sut.export_csv(self.st, 1000, self.path("csv")))

    def do_xrns(self):
        self.seen.append(sut.song_xml(sut.export_xrns(self.st, 1000, self.path("xrns"))))

    def do_length(self):
        self.seen.append(self.st.ticks_per_note())

    def path(self, ext):
        return os.path.join(self.ctx.scratch, f"{self.name}.{ext}")


_alone = {}


def alone(k, form, plan, ctx):
    """what the session shows alone, checked against the reference model"""
    key = (k, form, json.dumps(plan))
    if key not in _alone:
        s = Session("alone", k, form, plan, ctx)
        while s.pos < len(plan):
            s.step()
        chip = ref.play(song(k))
        want = (json.dumps(ref.instruments_json(chip)), tuple(tuple(e) for e in chip.events), tuple(sorted(chip.onsets)))
        got = sut.snapshot(s.st)
        if (json.loads(got[0]), got[1], got[2]) != (json.loads(want[0]), want[1], want[2]):
            check_eq((json.loads(got[0]), got[1], got[2]), (json.loads(want[0]), want[1], want[2]),
                     f"the extraction of song {k} alone")
        for x in s.seen:
            if isinstance(x, tuple) and x[0] == "header":
                check_eq(x, ("header", s.version, 1004 + k, s.clock, s.clock > 0, s.start), f"header of form {form} alone")
        _alone[key] = s.seen
    return _alone[key]


def run_merge(case, ctx):
    """one interleaving of two (or three) sessions"""
    specs, order = case
    ss = []
    for i, (k, form, plan) in enumerate(specs):
        alone(k, form, PLANS[plan], ctx)
        ss.append(Session(f"s{i}", k, form, PLANS[plan], ctx))
    for i in order:
        ss[i].step()
    for i, s in enumerate(ss):
        want = alone(s.k, s.form, s.plan, ctx)
        if s.seen != want:
            check_eq(s.seen, want, f"observations of session {i} (song {s.k}, file form {s.form}) when its steps run in "
                                   f"the order {''.join(map(str, order))} with {[x[:2] for x in specs]}")
    ctx.trace()
    ctx.state((str(specs), tuple(order)))


PLANS = {
    "fine": [("open",), ("header",)] + [("read", 1)] * 3 + [("read", 100), ("see",)],
    "parts": [("open",), ("read", 8), ("read", 9), ("header",), ("read", 100), ("see",), ("json",)],
    "exports": [("open",), ("read", 10), ("json",), ("read", 100), ("xrns",), ("see",)],
    "late": [("open",), ("read", 100), ("length",), ("csv",), ("see",)],
    "whole": [("open",), ("header",), ("all",), ("see",), ("json",)],
    "mix": [("open",), ("read", 6), ("header",), ("read", 100), ("xrns",), ("json",), ("see",)],
    "commands": [("open",)] + [("read", 1)] * 6 + [("read", 100), ("see",), ("header",)],
    "micro": [("open",), ("read", 8), ("finish",)],
    "tiny": [("open",), ("header",), ("read", 100), ("see",)],
}


def cases(tier):
    th = tier == "thorough"
    combos = []
    plans = [("fine", "fine"), ("parts", "parts"), ("parts", "whole"), ("whole", "whole"), ("fine", "late"),
             ("tiny", "tiny")]
    forms = list(itertools.product(range(8), range(8))) if th else \
        [(0, 1), (1, 0), (2, 3), (3, 0), (0, 0), (2, 2), (6, 1), (4, 7), (5, 2)]
    for pl in plans:
        for f in forms if pl in (("fine", "fine"), ("tiny", "tiny"), ("whole", "whole")) else forms[:1 if "late" in pl else 3]:
            combos.append(((1, f[0], pl[0]), (2, f[1], pl[1])))
    for same in (((1, 1, "parts"), (1, 1, "parts")), ((1, 1, "fine"), (1, 3, "fine"))):
        combos.append(same)
    for pl in [("exports", "exports"), ("exports", "tiny"), ("mix", "late")]:
        combos.append(((3, 1, pl[0]), (2, 2, pl[1])))
    if th:
        combos.append(((1, 2, "commands"), (2, 2, "commands")))
        combos.append(((1, 0, "mix"), (2, 1, "mix")))
    for a, b in combos:
        for order in merges(len(PLANS[a[2]]), len(PLANS[b[2]])):
            yield ((a, b), order)


def three(tier):
    """three sessions, all interleavings of short plans"""
    plan = "tiny" if tier == "thorough" else "micro"
    n = len(PLANS[plan])
    seen = set()
    for first in merges(n, 2 * n):
        for second in merges(n, n):
            it = iter(second)
            order = tuple(0 if x == 0 else 1 + next(it) for x in first)
            if order not in seen:
                seen.add(order)
                yield (((1, 0, plan), (2, 1, plan), (3, 3, plan)), order)


def run_sequence(case, ctx):
    """many extractions one after another in one process, with failing ones between"""
    for k, form in case:
        if form < 0:
            bad = [b"Vgx ", b"Vgm \0", ref.HEADER + b"\x54\x08", b"\x1f\x8b\x08", ref.vgm(ref.key(0) + b"\x61\x01")][-form - 1]
            try:
                sut.extract(bad)
            except Exception:  # noqa: damaged files may fail in any way
                pass
            ctx.ops()
            continue
        for plan in ("whole", "late"):
            want = alone(k, form, PLANS[plan], ctx)
            s = Session("q", k, form, PLANS[plan], ctx)
            while s.pos < len(s.plan):
                s.step()
            if s.seen != want:
                check_eq(s.seen, want, f"song {k} in form {form} after the extractions {case}")
        ctx.trace()
        ctx.state((k, form, str(case)))


def look(f, k, form, ctx, what):
    """open a file object and extract it; header values, notes and instruments are the song's own"""
    _data, clock, version, start = file(k, form)
    chip = ref.play(song(k))
    r = sut.vgmcore.reader(f)
    got = (r.version, r.size(), r.clock("ym2151"), r.supports("ym2151"), r.data_start)
    want = (version, 1004 + k, clock, clock > 0, start)
    if got != want:
        check_eq(got, want, f"{what}: header (version, size, clock, supported, start) of song {k}, form {form}")
    st = sut.mainmod.process_vgm_file(r)
    ctx.ops(2)
    compare_state(st, chip, f"song {k}, form {form}, {what}")
    return st, chip


def run_again(case, ctx):
    """the same file object or the same path used again and again, rewound or with other content"""
    how, seq = case
    shared = io.BytesIO()
    path = os.path.join(ctx.scratch, "again.vgm")
    kept = []
    for n, (k, form) in enumerate(seq):
        what = f"{how}, number {n} of {seq}"
        data = file(k, form)[0]
        if how == "same object":
            if data != shared.getvalue():
                shared.seek(0)
                shared.truncate()
                shared.write(data)
            shared.seek(0)
            kept.append(look(shared, k, form, ctx, what))
        elif how == "same path":
            with open(path, "wb") as f:
                f.write(data)
            os.utime(path, (10 ** 9, 10 ** 9))
            with open(path, "rb") as f:
                kept.append(look(f, k, form, ctx, what))
        elif how == "same handle":
            if n == 0:
                open(path, "wb").close()
                handle = open(path, "r+b", buffering=0)
            handle.seek(0)
            handle.truncate()
            handle.write(data)
            handle.seek(0)
            kept.append(look(handle, k, form, ctx, what))
        else:
            # objects that come and go at the same address
            kept.append(look(io.BytesIO(data), k, form, ctx, what))
            if n == 0:
                shared = None
    if how == "same handle":
        handle.close()
    for n, (st, chip) in enumerate(kept):
        compare_state(st, chip, f"{how}: extraction {n} of {seq}, seen after the later ones")
    ctx.trace()
    ctx.state(str(case))


def run_main(seq, ctx):
    """the whole tool called again and again in one process with the same names"""
    src, out, trk = (os.path.join(ctx.scratch, n) for n in ("m.vgm", "m.json", "m.xrns"))
    for n, (k, form, want_i, want_t) in enumerate(seq):
        data = file(k, form)[0]
        with open(src, "wb") as f:
            f.write(data)
        os.utime(src, (10 ** 9, 10 ** 9))
        for p in (out, trk):
            if os.path.exists(p):
                os.unlink(p)
        sut.mainmod.main(src, out if want_i else None, trk if want_t else None, 1000)
        ctx.ops()
        chip = ref.play(song(k))
        what = f"song {k} (form {form}), run {n} of {seq}"
        if os.path.exists(out) != bool(want_i) or os.path.exists(trk) != bool(want_t):
            fail(f"{what}: wrong files written: {sorted(os.listdir(ctx.scratch))}")
        if want_i:
            with open(out) as f:
                check_eq(json.load(f), ref.instruments_json(chip), f"instrument file of {what}")
        if want_t:
            with open(trk, "rb") as f:
                cells = sut.song_grid(sut.parse_song(f.read()))[0]
            exp = {key: ref.cell(ev) for key, ev in ref.grid(chip.events, 1000)[0].items()}
            for key, (note, ins, pan) in exp.items():
                if note is None and key in cells:  # a reserved key code has no note name of its own
                    exp[key] = (cells[key][0], ins, pan)
            if cells != exp:
                check_eq(cells, exp, f"tracker cells of {what}")
    ctx.trace()
    ctx.state(str(seq))


def run_register(case, ctx):
    """two states made one after the other: whatever register one is given, the other keeps its own"""
    reg, order, base = case
    for v in (0xFF, 0x80, 0x00, 0x2A):
        a, b = Pair(ctx), Pair(ctx)
        writer, other = (a, b) if order else (b, a)
        for r, x in BASES[base]:
            other.write(r, x)
        writer.write(reg, v)
        if reg == 8:
            writer.write(8, 0x7A)
        other.key_all()
        writer.key_all(9)
        other.wait(7)
        writer.write(reg, v ^ 0x55)
        other.key_all()
        fresh = Pair(ctx)
        fresh.key_all()
        what = f"register {reg:#04x} = {v:#04x} in {'an earlier' if order else 'a later'} extraction"
        other.check(f"{what}, the other one over '{base}'")
        fresh.check(f"{what}, a fresh one")
        writer.check(f"{what}, seen in itself")
    ctx.state(case)


def big(n, notes):
    """an extraction with many instruments and events"""
    s = b""
    for i in range(n):
        s += ref.w(0x60 + (i & 7), i & 0x7F) + ref.w(0x78 + (i & 7), i >> 7) + ref.key(i & 7) + ref.wait(500)
    for i in range(notes):
        s += ref.w(0x28 + (i & 7), i % 127) + ref.key(i & 7, i % 16) + ref.wait(333)
    return ref.vgm(s + b"\x66")


def run_big(case, ctx):
    """a huge song between small ones: what the small ones show stays"""
    n, notes, plans = case
    want = [alone(k, 0, PLANS[p], ctx) for k, p in plans]
    st = sut.extract(big(n, notes))
    before = (sut.snapshot(st), sut.song_xml(sut.export_xrns(st, 1000, os.path.join(ctx.scratch, "b.xrns"))))
    sut.export_instruments(st, os.path.join(ctx.scratch, "b.json"))
    sut.export_csv(st, 1000, os.path.join(ctx.scratch, "b.csv"))
    st.ticks_per_note()
    for (k, plan), w in zip(plans, want):
        s = Session("q", k, 0, PLANS[plan], ctx)
        while s.pos < len(s.plan):
            s.step()
        if s.seen != w:
            check_eq(s.seen, w, f"song {k} ({plan}) after a song of {n} instruments and {notes} notes")
        ctx.trace()
    check_eq((sut.snapshot(st), sut.song_xml(sut.export_xrns(st, 1000, os.path.join(ctx.scratch, "b.xrns")))), before,
             f"a song of {n} instruments and {notes} notes, again after small ones")
    ctx.state(str(case))


# two real threads under a controlled scheduler ---------------------------------------------------------------------

PARTS = {
    0: [(0x18, 0x21), (0x19, 0x93), (0x20, 0xC2), (0x28, 0x41), (0x60, 0x11), (8, 0x78), 500, (8, 0)],
    1: [(0x18, 0x42), (0x19, 0x14), (0x20, 0x85), (0x28, 0x52), (0x60, 0x22), (8, 0x78), 700, (8, 0x58), 9, (8, 0)],
    2: [(0x40, 0x35), (8, 0x08), 3, (8, 0x78)],
    3: [(0x80, 0x9E), (8, 0x79), 7, (8, 0x09)],
    4: [(0x20, 0x85), 5, (8, 0)],
    5: [9, (8, 0x7B)],
    6: [(0x28, 0x44), (8, 0x7A)],
}
DEPTH = {"decode": 2, "apply": 2}  # preemptions; one for the others
_states = {}
_thread_alone = {}


def part_stream(k):
    return b"".join(ref.wait(c) if isinstance(c, int) else ref.w(*c) for c in PARTS[k])


def body(kind, k, scratch, slot):
    """-> (a function to run in a thread, a function from its result to what the user sees)"""
    if kind in ("extract", "extract2"):
        data = ref.vgm(part_stream(k) + b"\x66")
        return (lambda: sut.extract(data)), sut.snapshot
    if kind in ("decode", "decode1"):
        data = ref.vgm(part_stream(k) + b"\x66")
        return (lambda: list(sut.reader(data))), lambda cs: [sut.kind(c) for c in cs]
    if kind in ("apply", "apply1"):
        st = sut.ymstate.State()
        cmds = [c if isinstance(c, int) else sut.ymconfig.create(*c) for c in PARTS[k]]

        def apply():
            for c in cmds:
                st.beat(c) if isinstance(c, int) else st.apply(c)
            return st
        return apply, sut.snapshot
    if k not in _states:
        _states[k] = sut.extract(ref.vgm(song(k)))
    st = _states[k]
    path = os.path.join(scratch, f"t{slot}.{kind}")
    if kind == "json":
        return (lambda: sut.export_instruments(st, path)), lambda b: b
    if kind == "csv":
        return (lambda: sut.export_csv(st, 1000 + k, path)), lambda b: b
    return (lambda: sut.export_xrns(st, 1000 + k, path)), sut.song_xml


def thread_alone(kind, k, ctx):
    """what the thread shows when it runs alone, checked against the reference"""
    if (kind, k) not in _thread_alone:
        run, see = body(kind, k, ctx.scratch, 0)
        got = _thread_alone[kind, k] = see(run())
        if kind[:5] in ("extra", "apply"):
            chip = ref.play(part_stream(k))
            want = (ref.instruments_json(chip), tuple(tuple(e) for e in chip.events), tuple(sorted(chip.onsets)))
            check_eq((json.loads(got[0]), got[1], got[2]), want, f"song part {k} alone")
    return _thread_alone[kind, k]


def run_threads(case, ctx):
    """what the two threads do, the first preemption point; all the second ones when there are two"""
    first, second, cut, opcodes = case
    want = [thread_alone(*first, ctx), thread_alone(*second, ctx)]
    deep = DEPTH.get(first[0], 1) == 2
    cuts = [cut, 0] if deep else [cut]
    try:
        while True:
            b = [body(*first, ctx.scratch, 0), body(*second, ctx.scratch, 1)]
            r = threads.Run([x[0] for x in b], cuts, opcodes)
            out = r.go()
            ctx.ops(sum(r.points))
            ctx.trace()
            ctx.state((str(case), tuple(cuts)))
            for i, key in enumerate((first, second)):
                got = b[i][1](out[i])
                if got != want[i]:
                    check_eq(got, want[i], f"{key[0]} of song {key[1]} as thread {i} of {first} and {second}, switching after "
                                           f"{cuts} {'bytecodes' if opcodes else 'lines'}")
            if ctx.traces % 64 == 0:
                gc.collect()
            if not deep or r.switches < 2:
                return
            cuts[1] += 1
    finally:
        threads.plain()


def thread_cases(tier, opcodes):
    th = tier == "thorough"
    pairs = [("decode", 4, "decode", 5), ("apply", 4, "apply", 6), ("apply", 5, "apply", 6),
             ("extract", 0, "extract", 1), ("extract", 3, "extract", 2), ("decode1", 0, "decode1", 1)]
    pairs += [(x, 1, y, 2) for x in ("json", "csv") for y in ("json", "csv")] + [("xrns", 1, "json", 2)]
    if opcodes:
        pairs = [("apply1", 0, "apply1", 3), ("decode1", 0, "decode1", 1), ("json", 1, "json", 2), ("csv", 1, "csv", 2)]
        if th:
            pairs += [("decode", 5, "decode", 5), ("xrns", 1, "xrns", 2), ("extract", 3, "extract", 2), ("apply1", 1, "apply1", 0),
                      ("decode", 4, "decode", 6)]
    elif th:
        pairs += [("apply", 2, "apply", 3), ("apply", 3, "apply", 0), ("extract", 1, "extract", 3),
                  ("decode", 2, "decode", 3)]
        pairs += [("apply1", 0, k, 2) for k in ("json", "csv", "xrns")]
        pairs += [(a, 1, b, 2) for a, b in (("xrns", "xrns"), ("json", "xrns"), ("csv", "xrns"), ("xrns", "csv"))]
    return [((a, i), (b, j)) for a, i, b, j in pairs]


def thread_runs(tier, opcodes=False):
    for first, second in thread_cases(tier, opcodes):
        n = threads.count_points(body(*first, os.getcwd(), 0)[0], opcodes)
        threads.plain()
        for cut in range(n + 1):
            yield (first, second, cut, opcodes)


def run_many(case, ctx):
    """a process that lives through many songs"""
    s, n = case
    many.run("sessions", s, n, ctx)


def families(tier):
    th = tier == "thorough"
    alphabet = [(1, 0), (2, 1), (3, 3), (1, 6), (0, -1), (0, -3), (0, -4), (0, -5)]
    files = [(1, 0), (2, 0), (1, 2), (2, 3), (1, 5), (2, 5), (3, 7)]
    runs = [(1, 0, 1, 1), (2, 0, 1, 1), (1, 5, 1, 0), (2, 5, 0, 1), (3, 2, 0, 0)]
    return [
        Family("threads", lambda: thread_runs(tier), run_threads,
               "two threads decoding, applying, extracting or exporting different songs, all schedules of source lines with "
               "one preemption (extract, exports) or up to two (decode, apply)", cpu_s=600),
        Family("threads, bytecodes", lambda: thread_runs(tier, True), run_threads,
               "the same with preemption at every bytecode", cpu_s=600),
        Family("long-lived process", lambda: itertools.product(range(0, 257, 1 if th else 8), (257,)), run_many, "fresh processes that extract, continue and "
               "export 257 songs in which every two of ordinal, numbers of events and instruments, channel, time and export meet", cpu_s=300),
        Family("again", lambda: ((how, [files[i] for i in s]) for n in ((2, 3, 4) if th else (2, 3))
                                 for s in itertools.product(range(len(files)), repeat=n)
                                 for how in ("same object", "same path", "same handle", "other object")), run_again,
               f"all sequences of up to {4 if th else 3} of {len(files)} files through the same object, path or handle"),
        Family("tool again", lambda: ([runs[i] for i in s] for n in ((1, 2, 3) if th else (1, 2))
                                      for s in itertools.product(range(len(runs)), repeat=n)), run_main,
               "sequences of runs of the tool in one process"),
        Family("two sessions", lambda: cases(tier), run_merge,
               "all interleavings of two sessions of 4..7 steps, several plans and file forms"),
        Family("three sessions", lambda: three(tier), run_merge,
               f"all interleavings of three sessions of {4 if th else 3} steps"),
        Family("registers", lambda: itertools.product(range(256), (0, 1), ("reset", "pattern") if th else ("pattern",)), run_register,
               "every register x 4 values written in one of two live states, all channels of the other one and of a fresh one sounded"),
        Family("after a big one", lambda: itertools.product((300, 600, 1500), (10, 3000), ((((1, "exports"), (2, "late")), ((3, "mix"),)))),
               run_big, "songs with hundreds of instruments and thousands of notes before small ones", cpu_s=300),
        Family("one after another", lambda: ([alphabet[i] for i in s] for n in ((1, 2, 3) if th else (1, 2))
                                             for s in itertools.product(range(len(alphabet)), repeat=n)), run_sequence,
               f"all sequences of up to {3 if th else 2} of {len(alphabet)} files, damaged ones included"),
    ]
