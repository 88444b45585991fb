"""End of sound data: for every tail in the bound the extraction equals that of the song without a tail; end codes
inside operands do not end the song."""
import gzip
import itertools
import struct

from .. import pairwise, ref, sut
from ..common import check_extraction, compare_state, header_case, header_cases, outcome, short_hex
from ..engine import Family, check_eq, sequences

LEVEL = "model_checking"
ASSUMPTIONS = []

SONG = ref.w(0x20, 0xC7) + ref.w(0x28, 0x4A) + b"\x72" + ref.key(0) + b"\x61\x34\x12" + ref.key(0, 0) + ref.key(1, 3)
SONGS = [b"", ref.key(0), SONG]
BASE = {}


def base(si):
    if si not in BASE:
        BASE[si] = ref.play(SONGS[si])
    return BASE[si]


def verify(si, tail, ctx):
    st = sut.extract(ref.vgm(SONGS[si] + ref.END + tail))
    chip = base(si)
    ctx.ops(1)
    ctx.trace()
    what = f"song {si} followed by end-of-data and {short_hex(tail)}"
    ev = sut.events(st)
    if ev != chip.events:
        check_eq(ev, chip.events, f"key events of {what}")
    if len(st.configs) != len(chip.instruments):
        check_eq(len(st.configs), len(chip.instruments), f"number of instruments of {what}")
    if list(st.ticks()) != sorted(chip.onsets):
        check_eq(list(st.ticks()), sorted(chip.onsets), f"onsets of {what}")


def full(si, tail, ctx):
    verify(si, tail, ctx)
    check_extraction(SONGS[si] + ref.END + tail, ctx)


def run_two(a, ctx):
    for si in (0, 2):
        full(si, bytes((a,)), ctx)
        for b in range(256):
            verify(si, bytes((a, b)), ctx)
    ctx.state(("two", a))


def run_writes(reg, ctx):
    """a tail of each register write, then keys"""
    for v in (0, 0x78, 0xFF):
        for si in (1, 2):
            full(si, ref.w(reg, v) + ref.key(0) + b"\x61\xff\xff" + ref.key(0, 0), ctx)
            full(si, ref.END + ref.w(reg, v) + ref.key(5), ctx)
    ctx.state(("writes", reg))


def run_codes(code, ctx):
    """every command code after the end, complete, cut short, followed by keys"""
    from .c01 import FILLS, one
    for f in FILLS:
        c = one(code, f)
        for cut in range(len(c) + 1):
            verify(2, c[:cut], ctx)
        verify(1, c + ref.key(0) + ref.w(0x28, 1), ctx)
        verify(2, c + b"\x61\x01\x00" + c + ref.key(0), ctx)
    ctx.state(("codes", code))


HOSTILE = [0x00, 0x08, 0x54, 0x61, 0x66, 0x67, 0x68, 0x78, 0x93, 0xFF]


def run_hostile(seq, ctx):
    tail = bytes(HOSTILE[i] for i in seq)
    verify(2, tail, ctx)
    ctx.state(tail)


def gd3(*strings):
    body = b"".join(s.encode("utf-16-le") + b"\0\0" for s in strings)
    return b"Gd3 " + struct.pack("<II", 0x100, len(body)) + body


def run_tag(case, ctx):
    """GD3 tags: every character 0x00..0xff, and pairs that spell a key-on, at each alignment"""
    c, pos = case
    s = ["T", "a", "g", "h", "\u5410\u3008", "\u6154\u0878"][pos % 6] + chr(c) + "x"
    for si in range(3):
        verify(si, b"\0" * (pos // 6) + gd3(s, chr(c) * 3, "g", s), ctx)
        verify(si, b"\0" * (pos // 6) + gd3("", "", s), ctx)
    ctx.state(("tag", c, pos))


def run_inside(code, ctx):
    """end codes inside operands and blocks do not end the song"""
    from .c01 import one
    for f in (b"\x66" * 16, b"\x54\x66" * 8, b"\x66\x00" * 8, b"\x00\x66" * 8):
        if code == 0x66:
            continue
        c = one(code, f)
        check_extraction(ref.w(0x28, 0x4A) + c + ref.key(0) + b"\x62" + c + ref.key(1) + ref.END + ref.key(2), ctx,
                         ticks=True)
        check_extraction(c + ref.key(0) + b"\x62" + c + ref.key(0, 0), ctx)
    ctx.state(("inside", code))


def run_blocks(n, ctx):
    for b in (b"\x66", b"\x54\x08\x78\x66", b"\x66\x54\x08\x78"):
        s = ref.block((b * (n + 1))[:n]) + ref.key(0) + b"\x70" + ref.block((b * (n + 1))[:n], 0x66) + ref.key(1)
        check_extraction(s, ctx)
        check_extraction(s + ref.END + s, ctx)
    ctx.state(("block", n))


def run_noend(seq, ctx):
    """no end code at all: played to the last command; with end code anywhere: to there"""
    a = [ref.key(0), b"\x70", ref.w(0x28, 0x4A), ref.key(1, 0), ref.END]
    s = b"".join(a[i] for i in seq)
    st, chip = check_extraction(s, ctx)
    ctx.state(outcome(chip))
    ctx.ops(len(seq))
    ctx.trace()


def run_header(case, ctx):
    """a song with a tag behind it, after headers that differ in one field (tag offset, loop offset, sample counts ...)"""
    s = SONGS[2] + b"\x62" + ref.key(3) + b"\x61\x00\x10" + ref.key(3, 0)
    chip = ref.play(s)
    tag = gd3("Song", "x", "\u5410\u3008") + ref.key(6) + b"\x70" + ref.key(6, 0)
    for tail in (b"", tag):
        for v, h in header_case(case, s, ref.END, tail):
            compare_state(sut.extract(h + s + ref.END + tail), chip,
                          f"a song{' with a tag' if tail else ''} after a header with {v:#x} at {case[1]:#x} (layout {case[0]})")
            ctx.ops()
            ctx.trace()
            ctx.state((case, v, len(tail)))


VERSIONS = ((0x100, 0x40), (0x101, 0x40), (0x110, 0x40), (0x150, 0x40), (0x150, 0x80), (0x151, 0x80), (0x160, 0x80), (0x161, 0xC0),
            (0x170, 0xC0), (0x171, 0x100), (0x171, 0x40))


def run_versions(case, ctx):
    """tails of every kind after songs of every header version, raw and compressed"""
    from .c01 import FILLS, one
    (version, size), packed = case
    s = SONGS[2]
    chip = base(2)
    tails = [one(c, FILLS[3])[:cut] for c in range(256) for cut in (1, 2, 4, 40)]
    tails += [gd3("Song", "x", "\u5410\u3008"), bytes(300), b"\xff" * 300, b"Vgm " + bytes(60), ref.END * 5 + ref.key(3), s + ref.END + s]
    for tail in dict.fromkeys(tails):
        h = ref.header(version, 3579545, size + len(s) + 1 + len(tail) - 4, 0, size - 0x34, 0, size)
        data = h + s + ref.END + tail
        st = sut.extract(gzip.compress(data, 1) if packed else data)
        compare_state(st, chip, f"a version {version:#x} song{' compressed,' if packed else ''} followed by {short_hex(tail)}")
        ctx.ops()
        ctx.trace()
        ctx.state((case, tail))


NUMBERS = (0x100, 0x101, 0x110, 0x150, 0x151, 0x160, 0x161, 0x170, 0x171)


def run_pairwise(s, ctx):
    """songs in which every two of: number of events, of instruments, of commands, of samples, version, place of the end code and
    the tail's bytes meet in every combination"""
    f = pairwise.factor
    for t in range(pairwise.P):
        events, instruments = f(s, t, 1) % 41, 1 + f(s, t, 2) % 23
        commands, samples = f(s, t, 3) + (43 if s & 1 else 0), f(s, t, 4)
        body, n = [], 0
        for e in range(events):
            if e and e < instruments:
                body.append(ref.w(0x60, e))
                n += 1
            off = e >= instruments and f(s, t, 5) + e & 1
            body.append(ref.key(0, 0 if off else 15))
            n += 1
            left = samples if e == events - 1 else min(1, samples)
            samples -= left
            if left:
                body.append(b"\x61" + struct.pack("<H", left))
                n += 1
        if samples:
            body.append(b"\x61" + struct.pack("<H", samples))
            n += 1
        if n < commands - 1:
            body.append(ref.w(1, 0) * (commands - 1 - n))
        song = b"".join(body)
        pad = (f(s, t, 6) - len(song)) % 256
        song = (pairwise.padding(pad + 256 if 0 < pad < 7 else pad) if pad else b"") + song
        tail = pairwise.command(s, t, pairwise.byte(s, t, 7)) if t & 1 else b""
        tail += ref.key(0, 0) + b"\x70" + ref.w(0x60, 0x7F) + ref.key(0)
        h = ref.header(NUMBERS[f(s, t, 8) % len(NUMBERS)], 3579545, 0, 0, 0xCC, 0, 0x100)
        chip = ref.play(song)
        compare_state(sut.extract(h + song + ref.END + tail), chip,
                      f"song {(s, t)} of the orthogonal array ({events} events, {commands} commands) with {short_hex(tail)} behind it")
        ctx.ops()
        ctx.trace()
        ctx.state(outcome(chip))


def families(tier):
    th = tier == "thorough"
    return [
        Family("all short tails", lambda: range(256), run_two, "all 65792 one- and two-byte tails x 2 songs"),
        Family("writes", lambda: range(256), run_writes, "each register x 3 values after the end"),
        Family("codes", lambda: range(256), run_codes, "each code x 6 fillings after the end, at every cut"),
        Family("hostile tails", lambda: sequences(len(HOSTILE), 6 if th else 4, 3), run_hostile,
               f"all tails of 3..{6 if th else 4} bytes over {len(HOSTILE)} hostile bytes"),
        Family("tags", lambda: itertools.product(range(256), range(18)), run_tag,
               "GD3 tags with every Latin character, 6 lead-ins, 3 alignments"),
        Family("inside operands", lambda: range(256), run_inside, "end codes in the operands of each code"),
        Family("blocks", lambda: list(range(0, 80)) + [255, 256, 257, 1000, 65535, 65536], run_blocks,
               "end codes in data blocks"),
        Family("headers", header_cases, run_header, "a song with and without a tag after headers that differ in one field: "
               "every field of 6 header layouts x up to 22 values"),
        Family("versions", lambda: itertools.product(VERSIONS, (0, 1)), run_versions,
               "about 600 tails after songs of 11 header layouts, raw and compressed"),
        Family("pairwise", lambda: range(pairwise.P), run_pairwise, "66049 songs with a tail in which every two of number of events, "
               "instruments, commands and samples, version, place of the end code and bytes behind it take every pair of values"),
        Family("placements", lambda: sequences(5, 7 if th else 6), run_noend,
               f"all sequences over 5 commands incl. the end to depth {7 if th else 6}"),
    ]
