"""Truncation: every cut of every stream in the bound is decoded by the real reader and compared with what lies
completely before the cut; every byte string over small alphabets must terminate."""
import gzip
import io
import itertools

from .. import pairwise, ref, sut
from ..common import CLASS_REPS, short_hex
from ..engine import Family, Violation, check_eq, sequences
from .c05 import member

LEVEL = "fault_enumeration"
RULE = ("a case is one file cut at one byte (or one arbitrary byte string after the header); it is non-trivial when the "
        "cut falls strictly inside a command or inside the header, i.e. when something incomplete is left")
ASSUMPTIONS = ["a cut inside a data block or another chip's command may end decoding silently: nothing musical is lost"]

MUSIC = ("ym2151", "wait")


def music(cmds):
    return [(k, d) for k, _c, d in cmds if k in MUSIC]


def check_raw(stream, cut, ctx):
    """decode header + stream[:cut]"""
    data = ref.HEADER + stream[:cut]
    cmds, ends = ref.split(stream)
    exp = music([c for c, e in zip(cmds, ends) if e <= cut])
    got, err = sut.decode_upto_error(io.BytesIO(data), len(data) + 8)
    ctx.ops(len(got))
    ctx.trace()
    if err == "endless":
        raise Violation(f"decoding does not end: stream {short_hex(stream[:cut])}")
    if music(got) != exp:
        check_eq(music(got), exp, f"register writes and waits from stream {short_hex(stream)} cut after {cut} bytes")
    if cut not in ends:
        ctx.nontriv((stream, cut))
    ctx.state((tuple(exp), err))


def run_stream(case, ctx):
    """all cuts of a stream of classes"""
    stream = b"".join(CLASS_REPS[i] for i in case)
    tail = ref.w(0x38, 0x12) + b"\x61\x05\x06"
    for s in (stream, stream + tail):
        for cut in range(len(s) + 1):
            check_raw(s, cut, ctx)


def run_code(code, ctx):
    from .c01 import FILLS, one
    for f in FILLS:
        s = b"\x71" + one(code, f) + ref.w(0x20, 0x00) + one(code, f) + b"\x61\x00\x00"
        for cut in range(len(s) + 1):
            check_raw(s, cut, ctx)


def run_header(case, ctx):
    """every cut of the header: nothing is delivered, decoding ends or fails"""
    ver, off = case
    start = 0x34 + off if ver >= 0x150 else 0x40
    data = ref.header(ver, 3579545, 99, 1, off, 0x54, start) + ref.w(0x28, 0x4A) + b"\x70"
    for cut in range(start + 1):
        for wrap in (False, True):
            d = gzip.compress(data[:cut], 1) if wrap else data[:cut]
            got, err = sut.decode_upto_error(io.BytesIO(d), 100)
            ctx.ops(len(got))
            ctx.trace()
            ctx.nontriv((ver, off, cut, wrap))
            ctx.state((ver, cut, err))
            if music(got):
                raise Violation(f"register writes or waits {music(got)} from a header cut after {cut} bytes "
                                f"(version {ver:x}, data offset field {off:#x}, gzip {wrap})")


def run_gz(case, ctx):
    """all cuts of compressed files; and gzip of all cuts"""
    i, level = case
    stream = b"".join(CLASS_REPS[(i + k) % (len(CLASS_REPS) - 1)] for k in range(6)) + ref.w(0x38, 0) + b"\x61\x05\x06"
    full = music(ref.split(stream)[0])
    packed = member(ref.HEADER + stream, level, 8 if i & 1 else 0)
    two = member(ref.HEADER + stream[:5], level) + member(stream[5:], level)
    for p in (packed, two):
        for cut in range(len(p)):
            got, err = sut.decode_upto_error(io.BytesIO(p[:cut]), len(stream) + 80)
            ctx.ops(len(got))
            ctx.trace()
            ctx.nontriv((p, cut))
            m = music(got)
            ctx.state((tuple(m), err))
            if err == "endless":
                raise Violation(f"decoding does not end: compressed file cut after {cut} bytes")
            if m != full[:len(m)]:
                check_eq(m, full[:len(m)], f"register writes and waits of {short_hex(stream)} compressed and cut "
                                           f"after {cut} of {len(p)} bytes")
    cmds, ends = ref.split(stream)
    for cut in range(len(stream)):
        exp = music([c for c, e in zip(cmds, ends) if e <= cut])
        got, err = sut.decode_upto_error(io.BytesIO(member(ref.HEADER + stream[:cut], level)), len(stream) + 80)
        ctx.trace()
        if music(got) != exp:
            check_eq(music(got), exp, f"stream {short_hex(stream)} cut after {cut} bytes, then compressed")


def run_bytes(a, ctx):
    """every string of one or two bytes beginning with a, as a whole stream"""
    arbitrary(bytes((a,)), ctx)
    for b in range(256):
        arbitrary(bytes((a, b)), ctx)


HOSTILE = [0x00, 0x08, 0x30, 0x54, 0x61, 0x62, 0x66, 0x67, 0x68, 0x7F, 0x8F, 0x93, 0xA4, 0xFF]


def run_hostile(seq, ctx):
    arbitrary(bytes(HOSTILE[i] for i in seq), ctx)


def arbitrary(s, ctx):
    check_raw(s, len(s), ctx)


def run_big(case, ctx):
    """cuts around buffer boundaries of long files"""
    boundary, d = case
    n = boundary + d - 0x40
    for shift in range(3):
        stream = b"\x70" * shift + ref.w(0x28, 0x4A) * (boundary // 3 + 40)
        check_raw(stream, n, ctx)
        stream = b"\x70" * shift + b"\x61\x01\x02" * (boundary // 3 + 40)
        check_raw(stream, n, ctx)


def run_huge(case, ctx):
    """every cut inside the commands behind megabytes of data"""
    n, wrap = case
    body = ref.block(bytes(n))
    tail = (b"\x61\x34\x12" + ref.w(0x28, 0x4A) + b"\x61\x00\x01" + ref.key(1) + b"\x93" + bytes(range(10)) + ref.w(0x66, 0x61)
            + b"\x68\x66" + bytes(10) + b"\x61\xff\x7f")
    cmds, ends = ref.split(tail)
    for cut in range(len(tail) + 1):
        exp = music([c for c, e in zip(cmds, ends) if e <= cut])
        data = ref.vgm(body + tail[:cut])
        got, err = sut.decode_upto_error(io.BytesIO(member(data, 1) if wrap else data), 100)
        ctx.trace()
        if cut not in ends:
            ctx.nontriv((n, wrap, cut))
        if music(got) != exp:
            check_eq(music(got), exp, f"register writes and waits of {tail.hex()} behind {n} bytes of data, cut after {cut} bytes, "
                                      f"gzip {wrap}")
    ctx.state((n, wrap))


VERSIONS = [v for v in range(0x100, 0x173) if v & 15 < 10 and v >> 4 & 15 < 10]


def run_pairwise(s, ctx):
    """number of commands before the cut, its place in the file, the command and where it is cut, version as factors"""
    f = pairwise.factor
    for t in range(pairwise.P):
        code = (0x54, 0x61, pairwise.byte(s, t, 3))[f(s, t, 8) % 3]
        version = VERSIONS[f(s, t, 4) % len(VERSIONS)]
        last = pairwise.command(s, t, code)
        cut = f(s, t, 5) % len(last)
        n = f(s, t, 1)
        head = ref.header(version, 3579545, 0, 0, 0xCC, 0, 0x100 if version >= 0x150 else 0x40)
        body = pairwise.command(s, t + 1, 0x54) + b"\x71" * n
        pad = (f(s, t, 2) - len(head) - len(body) - cut) % 256
        stream = pairwise.padding(pad + 256 if pad < 7 else pad) + body + last
        cmds, ends = ref.split(stream)
        end = len(stream) - len(last) + cut
        exp = music([c for c, e in zip(cmds, ends) if e <= end])
        got, err = sut.decode_upto_error(io.BytesIO(head + stream[:end]), len(stream) + 8)
        ctx.ops(len(got))
        ctx.trace()
        ctx.nontriv((s, t))
        if err == "endless":
            raise Violation(f"decoding does not end: {(s, t)} of the array, cut inside {last.hex()}")
        if music(got) != exp:
            check_eq(music(got), exp, f"register writes and waits of {(s, t)} of the array: version {version:#x}, {n + 2} commands, "
                     f"{short_hex(last)} cut after {cut} bytes")
    ctx.state(("array", s))


def families(tier):
    th = tier == "thorough"
    k = len(CLASS_REPS)
    return [
        Family("codes", lambda: range(256), run_code, "every cut of streams around each of 256 codes x 6 fillings"),
        Family("pairwise", lambda: range(pairwise.P), run_pairwise, "66049 cuts in which every two of number of commands before, place in "
               "the file, command, its bytes, bytes left of it and version meet in every combination"),
        Family("streams", lambda: sequences(k, 3 if th else 2, 1), run_stream,
               f"every cut of every sequence of up to {3 if th else 2} of {k} classes"),
        Family("header", lambda: [(v, o) for v in (0x100, 0x101, 0x110, 0x149, 0x150, 0x151, 0x171)
                                  for o in (0x0C, 0x0D, 0x4C, 0xCC)], run_header, "every header cut, raw and gzip"),
        Family("compressed", lambda: itertools.product(range(k if th else 0, k) if th else range(0, k, 3), (0, 6, 9)
                                                       if th else (0, 6)), run_gz,
               "every cut of compressed files, one and two members; every cut then compressed"),
        Family("short strings", lambda: range(256), run_bytes, "all 65792 strings of one or two bytes"),
        Family("hostile strings", lambda: sequences(len(HOSTILE), 5 if th else 4, 3), run_hostile,
               f"all strings of 3..{5 if th else 4} bytes over {len(HOSTILE)} hostile bytes"),
        Family("huge files", lambda: itertools.product(((1 << 17) + 1, (1 << 20) + 1, (1 << 24) + 1), (False, True))
               if th else (((1 << 17) + 1, True), ((1 << 20) + 1, False), ((1 << 20) + 1, True), ((1 << 24) + 1, False)), run_huge,
               "every cut of the commands behind up to 16 MiB of data, raw and gzip", cpu_s=300),
        Family("long files", lambda: itertools.product((0x400, 0x1000, 0x2000, 0x10000), range(-7, 8)), run_big,
               "cuts -7..7 around four buffer boundaries, 3 alignments"),
    ]
