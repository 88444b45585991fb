"""Compression: every gzip encoding in the bound of every stream is decoded and extracted exactly like the raw bytes."""
import io
import itertools
import os
import struct
import zlib

from .. import pairwise, ref, sut
from ..common import CLASS_REPS
from ..engine import Family, check_eq

LEVEL = "model_checking"
ASSUMPTIONS = ["gzip members use deflate, the only method the gzip format defines"]

SONG = (ref.w(0x20, 0xC7) + ref.w(0x28, 0x4A) + ref.key(0) + b"\x61\x34\x12" + ref.w(0x60, 0x33) + ref.key(0, 0)
        + ref.block(b"\x54\x08\x78") + b"\x70" + ref.key(1, 3) + b"\x66")


def member(data, level=6, flags=0, mtime=0, xfl=0, os_=255, wbits=15, strategy=0):
    co = zlib.compressobj(level, zlib.DEFLATED, -wbits, 8, strategy)
    h = b"\x1f\x8b\x08" + bytes((flags,)) + struct.pack("<I", mtime) + bytes((xfl, os_))
    if flags & 4:
        h += struct.pack("<H", 9) + b"AB\x05\x00Vgm T"
    if flags & 8:
        h += b"song.vgm\0"
    if flags & 16:
        h += b"comment \x66\x54\0"
    if flags & 2:
        h += struct.pack("<H", zlib.crc32(h) & 0xFFFF)
    return h + co.compress(data) + co.flush() + struct.pack("<II", zlib.crc32(data), len(data) & 0xFFFFFFFF)


def observe(data, ctx, path=None):
    """header values and commands of a file"""
    if path:
        with open(path, "wb") as f:
            f.write(data)
        fh = open(path, "rb")
    else:
        fh = io.BytesIO(data)
    with fh:
        r = sut.vgmcore.reader(fh)
        if r is None:
            return None
        cmds = [sut.kind(c) for c in r]
        ctx.ops(len(cmds))
        return (r.version, r.size(), r.clock("ym2151"), r.supports("ym2151"), r.data_start, cmds)


def verify(raw, packed, what, ctx, path=None, exp=None):
    exp = exp or observe(raw, ctx)
    if exp[5] != ref.split(raw[exp[4]:])[0]:
        check_eq(exp[5], ref.split(raw[exp[4]:])[0], f"commands of the uncompressed file for {what}")
    got = observe(packed, ctx, path)
    ctx.trace()
    if got != exp:
        check_eq(got, exp, f"(version, size, clock, supported, start, commands) of {what}")
    a = sut.snapshot(sut.extract(packed))
    b = sut.snapshot(sut.extract(raw))
    ctx.trace()
    if a != b:
        check_eq(a, b, f"extraction of {what}")


def run_encodings(case, ctx):
    level, flags = case
    for ver, off in ((0x101, 0), (0x110, 0x0C), (0x151, 0x4C), (0x171, 0xCC)):
        raw = ref.header(ver, 4000000, 99, 3579545, off, 0, 0x34 + off if ver >= 0x150 else 0x40) + SONG
        for mtime, xfl, os_, wb, strat in ((0, 0, 255, 15, 0), (0x667D8B1F, 2, 3, 9, 4), (1, 4, 0, 12, 2)):
            verify(raw, member(raw, level, flags, mtime, xfl, os_, wb, strat),
                   f"level {level} flags {flags:#x} mtime {mtime:#x} window {wb} strategy {strat} version {ver:x}", ctx,
                   os.path.join(ctx.scratch, "a.vgz") if level == 9 else None)
            ctx.state((level, flags, mtime, ver))


def run_split(case, ctx):
    """two members split at every byte; three members; trailing zero padding"""
    i = case
    raw = ref.vgm(SONG)
    n = len(raw)
    if i > n:
        return
    verify(raw, member(raw[:i]) + member(raw[i:], 0), f"two members split at {i}", ctx)
    verify(raw, member(raw[:i]) + member(b"") + member(raw[i:], 9, 8), f"three members, split at {i}", ctx)
    verify(raw, member(raw[:i // 2], 1) + member(raw[i // 2:i], 0) + member(raw[i:]), f"members at {i // 2}, {i}", ctx)
    verify(raw, member(raw[:i], 0) + member(raw[i:]) + bytes(i), f"two members at {i}, {i} padding bytes", ctx)
    ctx.state(("split", i))


def run_size(case, ctx):
    """sizes around buffer limits, compressible and not"""
    size, noisy = case
    x, out = 12345, bytearray()
    while len(out) < size:
        if noisy:
            x = (x * 1103515245 + 12345) & 0x7FFFFFFF
            out += ref.w(0x30 + (x >> 9 & 7), x >> 16 & 255)
        else:
            out += b"\x61\x01\x00"
        if len(out) % 3000 == 0:
            out += ref.key(x & 7)
    raw = ref.vgm(bytes(out[:size]) + SONG)
    for level in (0, 1, 9):
        verify(raw, member(raw, level), f"{len(raw)} bytes at level {level}", ctx)
    verify(raw, member(raw[:size // 2]) + member(raw[size // 2:]), f"{len(raw)} bytes in two members", ctx)
    k = 997
    verify(raw, b"".join(member(raw[i:i + k], 1) for i in range(0, len(raw), k)), f"{len(raw)} bytes in many members",
           ctx)
    ctx.state((size, noisy))


TINY = [b"", b"\x66", ref.key(0), ref.key(0) + b"\x66", b"\x61\x00\x00" + ref.key(1) + b"\x66", ref.w(0, 0) * 3 + b"\x66"]


def run_tiny(case, ctx):
    """headers of zeros with hardly any song behind: packed files of a few dozen bytes"""
    version, level, flags = case
    for s in TINY:
        raw = ref.header(version, 0, 0, 0, 0x0C if version >= 0x150 else 0) + s
        verify(raw, member(raw, level, flags), f"version {version:x}, {len(s)} bytes of song at level {level}", ctx)
        verify(raw, member(raw, level, flags), f"version {version:x}, {len(s)} bytes of song at level {level}", ctx,
               os.path.join(ctx.scratch, "a.vgm"))
    ctx.state(case)


def run_block(n, ctx):
    raw = ref.vgm(ref.block(bytes(i * 7 & 255 for i in range(n))) + SONG)
    verify(raw, member(raw), f"data block of {n}", ctx)
    ctx.state(("block", n))


def run_large(case, ctx):
    """files far larger than any buffer: data blocks of megabytes, then the song"""
    n, level = case
    raw = ref.vgm(ref.block(bytes(range(256)) * (n >> 8) + bytes(n & 255)) + SONG)
    verify(raw, member(raw, level), f"data block of {n} at level {level}", ctx, os.path.join(ctx.scratch, "a.vgz"))
    verify(raw, member(raw[:n // 2], level) + member(raw[n // 2:], level), f"data block of {n} in two members", ctx)
    ctx.state(("large", n, level))


def run_large_members(case, ctx):
    """members of many megabytes, followed by members with the rest of the song"""
    n, parts = case
    head = ref.vgm(b"")
    body = ref.block(bytes(n))
    rest = SONG[:-1] * 3 + SONG
    cut = len(rest) // parts
    packed = member(head + body, 6) + b"".join(
        member(rest[i * cut:(i + 1) * cut if i < parts - 1 else None], 6) for i in range(parts))
    check_eq(observe(packed, ctx), observe(head + body + rest, ctx), f"a member of {n} bytes and {parts} members behind it")
    cut = len(SONG[:-1])  # a command boundary
    packed = member(head + ref.block(b"")) + member(body) + member(rest[:cut]) + member(body) + member(rest[cut:])
    check_eq(observe(packed, ctx), observe(head + ref.block(b"") + body + rest[:cut] + body + rest[cut:], ctx),
             f"members of {n} bytes between others")
    ctx.trace()
    ctx.state((n, parts))


def run_align(case, ctx):
    """packed songs whose commands straddle the buffer boundaries of the unpacked bytes, counted from three places"""
    boundary, origin = case
    for k in range(14):
        pad = boundary + origin - k - 0x40
        body = ref.block(bytes(1017)) * ((pad - 7) // 1024)
        body += ref.block(bytes(pad - len(body) - 7))
        raw = ref.vgm(body + ref.key(1) + b"\x61\x12\x34" + ref.w(0x20, 0xC7) + b"\x93" + bytes(range(10)) + SONG)
        check_eq(observe(member(raw, 1), ctx), observe(raw, ctx), f"commands {k} bytes before {boundary:#x} + {origin:#x}")
        ctx.trace()
    ctx.state(("align", case))


def run_classes(case, ctx):
    i, j = case
    raw = ref.vgm(CLASS_REPS[i] + CLASS_REPS[j] + SONG)
    verify(raw, member(raw, 6, 8), f"classes {i}, {j}", ctx)
    verify(raw, member(raw[:0x41]) + member(raw[0x41:]), f"classes {i}, {j} in two members", ctx)
    ctx.state((i, j))


def run_pairwise(s, ctx):
    """gzip fields, lengths of the optional ones, level and song length as factors of an orthogonal array"""
    f = pairwise.factor
    for t in range(pairwise.P):
        raw = ref.vgm(SONG[:-1] + pairwise.stream((s * 257 + t) % 509, "writes")[:3 * (f(s, t, 1) % 40)] + SONG[-1:])
        flags = f(s, t, 2) % 32
        h = b"\x1f\x8b\x08" + bytes((flags, *(pairwise.byte(s, t, k) for k in (3, 4, 5, 6, 7, 8))))
        if flags & 4:
            n = f(s, t, 9) % 64
            h += struct.pack("<H", n) + bytes(pairwise.byte(s, t, 20 + k) for k in range(n))
        if flags & 8:
            h += bytes(pairwise.byte(s, t, 30 + k) or 1 for k in range(f(s, t, 10) % 40)) + b"\0"
        if flags & 16:
            h += bytes(pairwise.byte(s, t, 40 + k) or 1 for k in range(f(s, t, 11) % 40)) + b"\0"
        if flags & 2:
            h += struct.pack("<H", zlib.crc32(h) & 0xFFFF)
        co = zlib.compressobj(f(s, t, 12) % 10, zlib.DEFLATED, -(9 + f(s, t, 13) % 7), 1 + f(s, t, 14) % 9, f(s, t, 15) % 5)
        packed = h + co.compress(raw) + co.flush() + struct.pack("<II", zlib.crc32(raw), len(raw))
        got, exp = (observe(x, ctx) for x in (packed, raw))
        ctx.trace()
        if got != exp:
            check_eq(got, exp, f"(version, size, clock, supported, start, commands) of the gzip file {h.hex()} ... ({(s, t)} of the array)")
        if t % 16 == s % 16:
            verify(raw, packed, f"the gzip file {h.hex()} ... ({(s, t)} of the array)", ctx, exp=exp)
    ctx.state(("array", s))


def families(tier):
    th = tier == "thorough"
    flags = [0, 1, 2, 4, 8, 16, 24, 28, 30, 31]
    sizes = sorted({b + d for b in (512, 4096, 8192, 16384, 65536, 131072) for d in
                    ((-0x41, -0x40, -1, 0, 1) if th else (-0x40, 1))} | ({300000, 1 << 20} if th else {200000}))
    return [
        Family("encodings", lambda: itertools.product(range(10), flags), run_encodings,
               "10 levels x 10 optional-field sets x 3 headers x 4 versions"),
        Family("pairwise", lambda: range(pairwise.P), run_pairwise, "66049 gzip headers and encodings in which every two of flags, times, "
               "extra flags, system, lengths and bytes of extra field, name and comment, level, window and strategy meet in every combination"),
        Family("member splits", lambda: range(len(ref.vgm(SONG)) + 1), run_split, "every split point of a song"),
        Family("classes", lambda: itertools.product(range(len(CLASS_REPS) - 1), repeat=2), run_classes,
               "every ordered pair of command classes"),
        Family("blocks", lambda: [(1 << k) + d for k in range(6, 18) for d in (-1, 0, 1)], run_block,
               "data blocks across buffer sizes"),
        Family("alignment", lambda: itertools.product([1 << b for b in range(9, 24 if th else 22)], (0, 4, 0x40)), run_align,
               f"commands 0..13 bytes before buffer boundaries 512..2^{23 if th else 21} of the unpacked bytes, from three places"),
        Family("tiny", lambda: itertools.product((0, 0x100, 0x101, 0x110, 0x150, 0x171), range(10), (0, 8)), run_tiny,
               "songs of 0..10 bytes behind headers of zeros"),
        Family("large", lambda: itertools.product([(1 << k) + d for k in ((20, 22, 24, 26) if th else (20, 22, 24)) for d in
                                                   (-64, 1)], (0, 6) if th else (6,)), run_large,
               "data blocks of up to " + ("64 MiB" if th else "16 MiB"), cpu_s=300),
        Family("large members", lambda: itertools.product(((1 << 16) - 7, 1 << 20, (1 << 24) + 5) + (((1 << 26) + 5,) if th else ()),
                                                          (1, 2, 3)), run_large_members,
               "members of up to " + ("64" if th else "16") + " MiB before and between others", cpu_s=300),
        Family("sizes", lambda: itertools.product(sizes, (0, 1)), run_size, f"{len(sizes)} sizes x 2 contents"),
    ]
