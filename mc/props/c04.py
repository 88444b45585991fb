"""Header: every version number x clocks x data offsets x filler bytes; the bytes before the data start are traps
that would show up as commands."""
import gzip
import io
import struct

from .. import pairwise, ref, sut
from ..engine import Family, check_eq

LEVEL = "model_checking"
ASSUMPTIONS = ["data offsets below 0x0C (inside the header) are outside the property: the format does not define them",
               "version numbers are BCD; non-decimal digits are outside"]

VERSIONS = [(a, b, c) for a in range(10) for b in range(10) for c in range(10)]
CLOCKS = [(0, 0), (0, 3579545), (3579545, 0), (3579545, 4000000), (1, 0xFFFFFFFF), (0x80000000, 1)]
OFFSETS = [0x0C, 0x0D, 0x0F, 0x10, 0x1C, 0x4C, 0x4D, 0x8C, 0xCB, 0xCC, 0x10C, 0x1000, 0x1234C]
TRAP = b"\x54\x08\x7f"
SONG = b"\x61\x34\x12" + ref.w(0x28, 0x4A) + ref.key(1) + b"\x70" + ref.END


def build(version, clk2413, clk2151, off, eof, fill):
    start = 0x34 + off if version >= 0x150 else 0x40
    h = bytearray(TRAP * (start // 3 + 1))[:start] if fill is None else bytearray([fill]) * start
    h[0:4] = b"Vgm "
    struct.pack_into("<II", h, 4, eof, version)
    struct.pack_into("<I", h, 0x10, clk2413)
    struct.pack_into("<I", h, 0x30, clk2151)
    struct.pack_into("<I", h, 0x34, off)
    return bytes(h) + SONG


def verify(version, c2413, c2151, off, eof, fill, ctx, wrap=None):
    data = build(version, c2413, c2151, off, eof, fill)
    f = io.BytesIO(wrap(data) if wrap else data)
    r = sut.vgmcore.reader(f)
    dec = int("%x" % version)
    clock = c2413 if dec < 110 else c2151
    start = 0x34 + off if dec >= 150 else 0x40
    what = f"version {version:x}, YM2413 field {c2413:#x}, YM2151 field {c2151:#x}, data offset field {off:#x}"
    check_eq((r.version, r.size(), r.clock("ym2151"), r.supports("ym2151"), r.supports("none"), r.data_start),
             (dec, eof + 4, clock, clock > 0, False, start),
             f"(version, size, YM2151 clock, supported, unknown chip supported, data start) of {what}")
    # the YM2413 is supported exactly when its own clock is set; before 1.10 the field is shared
    if dec >= 110:
        check_eq((r.supports("ym2413"), r.clock("ym2413")), (c2413 > 0, c2413), f"YM2413 of {what}")
    got = []
    for c in r:
        got.append(sut.kind(c))
        if len(got) > 8:
            break
    check_eq(got, ref.split(SONG)[0], f"commands decoded for {what}")
    ctx.ops(1 + len(got))
    ctx.trace()
    ctx.state((dec, clock, start))


def run_version(case, ctx):
    a, b, c = case
    v = a << 8 | b << 4 | c
    for c1, c2 in CLOCKS:
        verify(v, c1, c2, 0x0C, 0x1234, None, ctx)
    offs = OFFSETS
    for off in offs:
        verify(v, 11, 22, off, 0xFFFFFFFF if off & 1 else 0, None, ctx)
        if v < 0x150:  # the field is not an offset yet: any content
            verify(v, 11, 22, off ^ 0xFFFF00FF, 77, None, ctx)


def run_offset(off, ctx):
    for v in (0x150, 0x151, 0x161, 0x171, 0x172):
        verify(v, 0, 3579545, off, 1000, None, ctx)
    for v in (0x100, 0x101, 0x110, 0x149):
        verify(v, 5, 6, off, 1000, None, ctx)
    if off < 0x200 or off % 16 == 0:
        verify(0x171, 0, 3579545, off, 1000, None, ctx, lambda d: gzip.compress(d, 1))


def run_fill(fill, ctx):
    for v in (0x100, 0x101, 0x110, 0x150, 0x151, 0x171):
        for off in (0x0C, 0x4C, 0xCC):
            verify(v, 7, 9, off, 0x102030, fill, ctx)
    # single bytes of the three numbers
    for pos in range(4):
        x = fill << 8 * pos
        verify(0x171, 0, x, 0x4C, 1, None, ctx)
        verify(0x101, x, 0, 0x4C, 1, None, ctx)
        verify(0x150, x, x ^ 0xFFFFFFFF, 0x0C, x, None, ctx)
        verify(0x100, x, x ^ 0xFFFFFFFF, 0, x, None, ctx)


def run_bigversion(case, ctx):
    v = int(case, 16)
    verify(v, 7, 9, 0x4C, 1, None, ctx)


def run_other_bytes(pos, ctx):
    """no other header byte matters"""
    for v in (0x101, 0x110, 0x151, 0x171):
        for val in (0x01, 0x54, 0x80, 0xFF):
            off = 0x4C
            data = bytearray(build(v, 7, 9, off, 500, 0))
            start = 0x80 if v >= 0x150 else 0x40
            if pos >= start:
                continue
            data[pos] = val
            r = sut.vgmcore.reader(io.BytesIO(bytes(data)))
            got = ((r.version, r.size(), r.clock("ym2151"), r.data_start), [sut.kind(c) for c in r])
            exp = ((int("%x" % v), 504, 7 if v < 0x110 else 9, start), ref.split(SONG)[0])
            check_eq(got, exp, f"header and commands with header byte {pos:#x} set to {val:#x}, version {v:x}")
            ctx.ops(1 + len(got[1]))
            ctx.trace()
            ctx.state((pos, v))


def bcd(n):
    return n // 10 << 4 | n % 10


REAL = [bcd(x) | 0x100 for x in range(0, 73)]


def run_pairwise(s, ctx):
    """all bytes of version, size, clocks and data offset as factors of an orthogonal array"""
    b = pairwise.byte
    f = pairwise.factor
    for t in range(pairwise.P):
        word = [int.from_bytes(bytes(b(s, t, 4 * w + k) for k in range(4)), "little") for w in range(1, 5)]
        off = 0x0C + f(s, t, 20) + (256 * (f(s, t, 21) % 40) if t % 16 == s % 16 else 0)
        for v in (REAL[f(s, t, 22) % 73], (f(s, t, 23) % 10) << 8 | bcd(f(s, t, 24) % 100),
                  bcd(f(s, t, 25) % 100) << 8 | bcd(f(s, t, 24) % 100) | (bcd(f(s, t, 26) % 100) << 16 | bcd(f(s, t, 27) % 100) << 24)
                  * (t & 1)):
            verify(v, word[0], word[1], off, word[2], f(s, t, 28) if f(s, t, 28) < 256 else None, ctx)
        if v < 0x150:
            verify(v, word[0], word[1], word[3], word[2], None, ctx)


USED = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 0x10, 0x11, 0x12, 0x13, 0x30, 0x31, 0x32, 0x33, 0x34, 0x35, 0x36, 0x37}


def families(tier):
    th = tier == "thorough"
    offs = list(range(0x0C, 0x200 if not th else 0x1100)) + [0x1000 - 0x34, 0x1FCC, 0xFFCC, 0xFFFF, 0x10000, 0x12345]
    big = [f"{a}{b}{c:03d}" for a in range(10) for b in range(10) for c in (0, 99, 101, 109, 110, 149, 150, 151)] + \
          ["12345678", "99999999", "10000000", "00000171"]
    return [
        Family("versions", lambda: VERSIONS, run_version, "all versions 0.00-9.99 x 6 clock pairs x 13 offsets"),
        Family("pairwise", lambda: range(pairwise.P), run_pairwise, "198147 headers in which every two of the version and the bytes of size, "
               "clocks, data offset and filler take every pair of values"),
        Family("offsets", lambda: offs, run_offset, f"{len(offs)} data offsets x 9 versions, raw and gzip"),
        Family("fillers", lambda: range(256), run_fill, "all filler bytes; every byte of each header number"),
        Family("big versions", lambda: big, run_bigversion, f"{len(big)} versions of more than three digits"),
        Family("other bytes", lambda: [p for p in range(0x80) if p not in USED], run_other_bytes,
               "every unrelated header byte x 4 values x 4 versions"),
    ]
