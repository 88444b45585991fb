"""Delivery of YM2151 writes: decoded commands, and what reaches the chip state, for every register/value pair
and every context; all sequences of writes, waits and look-alikes to a depth."""
import itertools

from .. import pairwise, ref, sut
from ..common import CLASS_REPS, check_extraction, compare_state, header_case, header_cases, short_hex
from ..engine import Family, check_eq, sequences

LEVEL = "model_checking"


def writes_of(stream):
    return [d for k, _c, d in ref.split(stream)[0] if k == ref.YM]


def verify(stream, ctx, play=False):
    got = [d for k, _c, d in sut.decode(ref.vgm(stream), len(stream) + 8) if k == "ym2151"]
    ctx.ops(len(got))
    ctx.trace()
    exp = writes_of(stream)
    if got != exp:
        check_eq(got, exp, f"YM2151 writes delivered from stream {short_hex(stream)}")
    if play:
        # and their effect: sound all channels at the end, compare everything with the model
        eos = play if isinstance(play, bytes) else b""
        check_extraction(stream + ALL_KEYS + eos, ctx)
        ctx.trace()


ALL_KEYS = b"".join(ref.key(ch, 15) for ch in range(8))


def run_all(reg, ctx):
    """every value of a register: once, then twice each, then with its effect sounded after each write"""
    verify(b"".join(ref.w(reg, v) for v in range(256)) + ref.END, ctx)
    verify(b"".join(ref.w(reg, v) * 2 for v in range(256)) + ref.END, ctx)
    verify(b"".join(b"\x70" + ref.w(reg, 255 - v) + ref.w(reg ^ v, v) for v in range(256)), ctx, True)
    for lo in range(0, 256, 16):
        verify(b"".join(ref.w(reg, v) + ref.key(reg & 7) for v in range(lo, lo + 16)), ctx, ref.END)
        verify(b"".join(ref.w(reg, v) * 2 + b"\x70" + ref.key(7) * 2 for v in range(lo, lo + 16)), ctx, True)
    ctx.state(reg)


def run_context(code, ctx):
    """a write before and after every other command code"""
    from .c01 import FILLS, one
    for fill in FILLS:
        for wr in ((0x20, 0xC7), (0x08, 0x78), (0x54, 0x54), (0x66, 0x61), (0x00, 0x00)):
            c = one(code, fill)
            x = ref.w(*wr)
            verify(x + c + x + x + c + c + x, ctx)
            verify(x + c + x + x + c + c + x, ctx, ref.END)
            ctx.state((code, fill, wr))


def run_triples(case, ctx):
    i, j = case
    a, b = CLASS_REPS[i], CLASS_REPS[j]
    for reg, val in ((0x08, 0x7A), (0x28, 0x4E)):
        x = ref.w(reg, val)
        verify(x + a + b + x + b + a + x, ctx, True)
        ctx.state((i, j, reg))


ALPHA = [ref.w(0x08, 0x78), ref.w(0x08, 0x00), ref.w(0x20, 0xC7), ref.w(0xE0, 0x0F), b"\x61\x54\x08", b"\x70",
         b"\xa4\x08\x78", b"\x58\x08\x78", ref.block(b"\x54\x08\x78"), b"\x50\x54"]


def run_seq(seq, ctx):
    verify(b"".join(ALPHA[i] for i in seq), ctx, True)
    ctx.state(tuple(seq))


def run_long(n, ctx):
    s = b"".join(ref.w(i & 255, i * 7 >> 3 & 255) for i in range(n) if i & 255 != 8)
    verify(s, ctx, True)
    s = (ref.w(8, 0x78) + b"\x70") * n
    verify(s, ctx, True)
    ctx.state(n)


VERSIONS = sorted({0, 1, 0x100, 0x101, 0x102, 0x109, 0x110, 0x150, 0x151, *range(0x160, 0x173), 0x180, 0x200, 0x999})
LAYOUTS = (0x0C, 0x4C, 0x8C, 0xCC)


def run_versions(case, ctx):
    """every register with chosen values under every header version and layout"""
    version, off = case
    start = 0x34 + off if version >= 0x150 else 0x40
    for vals in ((0x00, 0x80), (0x7F, 0xFF), (0x15, 0x6A)):
        s = b"".join(ref.w(r, v) for r in range(256) for v in vals)
        h = ref.header(version, 3579545, start + len(s) + 0x100, 3579545, off, 0, max(start, 0x40))
        exp = writes_of(s)
        got = [d for k, _c, d in sut.decode(h + s + ref.END, len(s) + 8) if k == "ym2151"]
        if got != exp:
            check_eq(got, exp, f"YM2151 writes delivered under version {version:x}, header of {start:#x} bytes")
        ctx.ops(len(got))
        ctx.trace()
        t = b"".join(ref.w(r, v) + ref.key(r & 7) for r in range(256) if r != 8 for v in vals[:1]) + ref.END
        a, chip = sut.extract(h + t), ref.play(t)
        compare_state(a, chip, f"every register = {vals[0]:#x} under version {version:x}, header of {start:#x} bytes")
        ctx.trace()
        ctx.state((version, off, vals))


def run_many(n, ctx):
    """a stream of millions of commands: the last writes still arrive"""
    s = ref.w(0x28, 0x4A) + ref.w(0x20, 0xC7) + b"\x70" * n + ref.w(0x28, 0x3C) + ref.w(0x60, 0x21) + ref.key(0)
    st = sut.extract(ref.vgm(s))
    chip = ref.play(ref.w(0x28, 0x3C) + ref.w(0x20, 0xC7) + ref.w(0x60, 0x21) + ref.wait(n) + ref.key(0))
    compare_state(st, chip, f"a note behind {n} commands")
    ctx.ops(n)
    ctx.trace()
    ctx.state(n)


def run_header(case, ctx):
    """writes, second-chip writes and look-alikes after headers that differ in one field"""
    s = b"".join(ref.w(0x20 + i, 0xC0 | i) + bytes((0xA4, 0x20 + i, i)) + CLASS_REPS[i * 4] + ref.w(i * 30, i) * 2
                 for i in range(8) if CLASS_REPS[i * 4] != b"\x66")
    exp = writes_of(s)
    for v, h in header_case(case, s):
        got = [d for k, _c, d in sut.decode(h + s + ref.END, len(s) + 8) if k == "ym2151"]
        if got != exp:
            check_eq(got, exp, f"YM2151 writes delivered after a header with {v:#x} at {case[1]:#x} (layout {case[0]})")
        ctx.ops(len(got))
        ctx.trace()
        ctx.state((case, v))


def run_pairwise(case, ctx):
    s, kind = case
    verify(pairwise.stream(s, kind), ctx)
    if kind in ("writes", "after"):  # and behind every distance to a 256-byte boundary
        for lead in (s % 256, s * 3 % 256):
            verify(pairwise.padding(lead) + pairwise.stream(s, kind), ctx)
    ctx.state(case)


def families(tier):
    th = tier == "thorough"
    depth = 6 if th else 4
    return [
        Family("pairwise", lambda: itertools.product(range(pairwise.P), pairwise.STREAMS), run_pairwise, "streams of 257 writes and commands "
               "in which every two of register, value, previous command, ordinal and place in the file meet in every combination"),
        Family("all pairs", lambda: range(256), run_all, "all 65536 register/value pairs, repeated and mixed"),
        Family("contexts", lambda: range(256), run_context, "every other code x 6 fillings x 5 writes, before and after"),
        Family("between classes", lambda: itertools.product(range(len(CLASS_REPS)), repeat=2), run_triples,
               "every pair of command classes around and between writes"),
        Family("sequences", lambda: sequences(len(ALPHA), depth, 1), run_seq,
               f"all sequences over {len(ALPHA)} commands to depth {depth}"),
        Family("headers", header_cases, run_header, "one stream after headers that differ in one field: every field of 6 "
               "header layouts x up to 22 values"),
        Family("versions", lambda: [(v, o) for v in VERSIONS for o in (LAYOUTS if v >= 0x150 else (0x0C,))], run_versions,
               f"all registers x 6 values under {len(VERSIONS)} header versions x 4 header sizes"),
        Family("millions", lambda: ((1 << 22) + 3,) if not th else ((1 << 22) + 3, (1 << 24) + 3), run_many,
               "a note behind more than " + ("2^24" if th else "2^22") + " commands", cpu_s=600),
        Family("long", lambda: (1000, 30000, 100000), run_long, "streams of up to 100000 writes"),
    ]
