"""Command framing: the decoder of /repo against the format table, over every code, ordered pair of codes,
triple of class representatives, block size and buffer alignment in the bound."""
import gzip
import io
import itertools
import os

from .. import pairwise, ref, sut
from ..common import CLASS_REPS, header_case, header_cases, short_hex
from ..engine import Family, check_eq

LEVEL = "model_checking"
ASSUMPTIONS = ["command lengths are those of the VGM format 1.71; codes the format leaves open (0x00-0x2f, 0x60, "
               "0x64, 0x65, 0x69-0x6f, 0x96-0x9f) take no operands, as the repository's tests pin",
               "data block sizes below 2^31"]

FILLS = [bytes([0] * 16), bytes([255] * 16), bytes(range(1, 17)), b"\x54\x08\x78\x66" * 4, b"\x61\x01\x00\x67" * 4,
         b"\x66\x54\x61\x68" * 4]
SENTINEL = ref.w(0xAA, 0x55) + b"\x61\x34\x12" + b"\x90\x01\x02\x03\x04" + ref.key(3, 9) + b"\x66"
SENT_CMDS = ref.split(SENTINEL)[0]


def one(code, fill, size=2):
    if code == 0x67:
        return b"\x67\x66" + fill[:1] + size.to_bytes(4, "little") + fill[1:1 + size]
    if code == 0x68:
        return b"\x68\x66" + fill[:7] + size.to_bytes(3, "little") + fill[7:7 + size]
    return bytes((code,)) + fill[:ref.FIXED[code]]


def verify(stream, ctx, f=None, header=ref.HEADER):
    exp, _ = ref.split(stream)
    r = sut.vgmcore.reader(f or io.BytesIO(header + stream))
    got, cmds = [], []
    for c in r:
        cmds.append(c)
        got.append(sut.kind(c))
        if len(got) > len(exp) + 4:
            break
    sut.unchanged(cmds, got)
    ctx.ops(len(got))
    ctx.trace()
    if got != exp:
        check_eq(got, exp, f"decoded commands (kind, code, operands) of stream {short_hex(stream)}")


def run_single(code, ctx):
    for fill in FILLS:
        for size in (0, 1, 2, 5):
            if size and code not in (0x67, 0x68):
                continue
            cmd = one(code, fill, size)
            verify(cmd + SENTINEL, ctx)
            verify(cmd, ctx)  # last command of the file
            verify(SENTINEL + cmd + cmd + SENTINEL, ctx)
            ctx.state((cmd,))


def run_pairs(a, ctx):
    """code a followed by every code b"""
    for b in range(256):
        for fi in (2, 3):
            verify(one(a, FILLS[fi]) + one(b, FILLS[fi]) + SENTINEL, ctx)
        ctx.state((a, b))


def run_operands(code, ctx):
    """every value of every single operand byte, the others fixed"""
    n = ref.FIXED[code]
    for pos in range(n):
        parts, base = [], bytearray(b"\x11\x22\x33\x44\x55\x66\x77\x88\x99\xaa"[:n])
        for v in range(256):
            base[pos] = v
            parts.append(bytes((code,)) + bytes(base))
        verify(b"".join(parts) + SENTINEL, ctx)
        ctx.state((code, pos))


FEW = {2: range(256), 3: (0, 1, 2, 0x0F, 0x54, 0x61, 0x66, 0x67, 0x7F, 0x80, 0xC0, 0xFF), 4: (0, 1, 0x66, 0x7F, 0x80, 0xFF),
       5: (0, 1, 0x66, 0x80, 0xFF)}


def run_tuples(case, ctx):
    """operand bytes varied together: all tuples of chosen values, for long commands all pairs of operands"""
    code, first = case
    n = ref.FIXED[code]
    if n in FEW:
        parts = [bytes((code, first)) + bytes(rest) for rest in itertools.product(FEW[n], repeat=n - 1)]
    else:
        parts = []
        for i, j in itertools.combinations(range(n), 2):
            for v in FEW[4]:
                base = bytearray(b"\x11\x22\x33\x44\x55\x66\x77\x88\x99\xaa\xbb"[:n])
                base[i], base[j] = first, v
                parts.append(bytes((code,)) + bytes(base))
    verify(b"".join(parts) + SENTINEL, ctx)
    ctx.state((code, first, "tuples"))


def tuple_cases():
    for code in range(256):
        n = ref.FIXED[code]
        if n and n > 1 and code != 0x68:
            for first in FEW.get(n, FEW[4]):
                yield (code, first)


def run_code_triples(case, ctx):
    """two codes followed by every code"""
    a, b = case
    for c in range(256):
        verify(one(a, FILLS[2]) + one(b, FILLS[3]) + one(c, FILLS[4]) + SENTINEL, ctx)


def run_triples(case, ctx):
    i, j = case
    for c in CLASS_REPS:
        verify(CLASS_REPS[i] + CLASS_REPS[j] + c + SENTINEL, ctx)
    ctx.state((i, j, "t"))


def run_quads(case, ctx):
    i, j, k = case
    for c in CLASS_REPS:
        verify(CLASS_REPS[i] + CLASS_REPS[j] + CLASS_REPS[k] + c + SENTINEL, ctx)
    ctx.state((i, j, k, "q"))


def data(n):
    pat = b"\x54\x08\x78\x66\x61\xff\xff\x67"
    return (pat * (n // 8 + 1))[:n]


def run_block(n, ctx):
    d = data(n)
    verify(ref.block(d) + SENTINEL, ctx)
    if n <= 300:
        for tt in (0x01, 0x40, 0x66, 0x7F, 0x80, 0xC0, 0xFF):
            verify(b"\x70" + ref.block(d, tt) + ref.block(d, tt) + SENTINEL, ctx)
    ctx.state(("block", n))


def run_pcm(case, ctx):
    """PCM RAM write: 11 operand bytes; see known-findings.txt for what follows them"""
    n, fill = case
    head = b"\x68\x66" + bytes((fill,)) + bytes((fill, 1, 2, 3, fill ^ 255, 5)) + n.to_bytes(3, "little")
    stream = head + data(n) + SENTINEL
    if n == 0:
        return verify(stream, ctx)
    spec, _ = ref.split(stream, pcm_inline=False)
    pinned, _ = ref.split(stream)
    got = sut.decode(ref.HEADER + stream, max(len(spec), len(pinned)) + 4)
    ctx.ops(len(got))
    ctx.trace()
    ctx.state(("pcm", n))
    if got == spec:
        return
    if got == pinned:
        ctx.finding("pcm-ram-write-inline-data",
                    "command 0x68 with a non-zero size field swallows that many bytes of the following commands, "
                    "e.g. 68 66 00 000000 000000 010000 | 54 08 78")
        return
    check_eq(got, pinned, f"decoded commands of a PCM RAM write of size {n}")


def run_align(case, ctx):
    """a command of each class begins k bytes before a buffer boundary"""
    boundary, k = case
    for ci, cmd in enumerate(CLASS_REPS[:-1]):
        pad = boundary - k - 0x40
        if pad < 0:
            continue
        stream = b"\x70" * (pad if pad <= 0x2000 else pad % 251)
        stream += block_pad(pad - len(stream)) + cmd + SENTINEL
        verify(stream, ctx)
        ctx.state(("align", boundary, k, ci))
    # the same through a real file and through gzip, one class each
    stream = block_pad(boundary - k - 0x40) + CLASS_REPS[7] + CLASS_REPS[23] + CLASS_REPS[13] + SENTINEL
    path = os.path.join(ctx.scratch, "a.vgm")
    with open(path, "wb") as f:
        f.write(ref.HEADER + stream)
    with open(path, "rb") as f:
        verify(stream, ctx, f)
    verify(stream, ctx, io.BytesIO(gzip.compress(ref.HEADER + stream, 1)))


def run_far_align(case, ctx):
    """commands around far buffer boundaries, whether the buffers begin at the file's, the magic's or the header's end"""
    boundary, origin, k = case
    pad = boundary + origin - k - 0x40
    body = ref.block(bytes(1017)) * (pad // 1024)
    body += block_pad(pad - len(body))
    for cmd in (CLASS_REPS[7] + CLASS_REPS[23] + CLASS_REPS[13], b"\x61\x12\x34" + ref.key(1) + b"\x93" + bytes(range(10))):
        verify(body + cmd + SENTINEL, ctx)
    ctx.state(("far", case))


def block_pad(n):
    """n bytes of padding commands"""
    if n >= 7:
        return ref.block(bytes(n - 7))
    return b"\x70" * n


def run_long(case, ctx):
    n, ci = case
    stream = CLASS_REPS[ci] * n + SENTINEL
    verify(stream, ctx)
    ctx.state(("long", n, ci))


def run_header(case, ctx):
    """the stream after headers that differ in one field"""
    stream = b"".join(CLASS_REPS[:-1]) + SENTINEL[:-1]
    for v, h in header_case(case, stream):
        verify(stream + ref.END, ctx, header=h)
        ctx.state((case, v))


def run_types(tt, ctx):
    """data blocks of every type and of sizes around the limits of every byte"""
    for n in (0, 1, 4, 7, 8, 9, 16, 255, 256, 4096, 0x10001) + ((0x20000, 0x1000001) if ctx.tier == "thorough" else
                                                                (0x1000001,) if tt % 0x20 == 0 or tt in (0x7F, 0xFF) else ()):
        d = data(n)
        verify(b"\x70" + ref.block(d, tt) + SENTINEL, ctx)
        ctx.state((tt, n))


def run_contents(tt, ctx):
    """blocks whose contents a reader might take for padding, text or an end"""
    for n in (1, 2, 7, 16, 300):
        for d in (bytes(n), b"\x11" + bytes(n), bytes(n) + b"\x11", b"\xff" * n, b" " * n, b"\r\n" * n, b"\x66" + bytes(n), b"\x1a" * n,
                  b"\x67\x66" * n, b"\x7f\x80" * n):
            verify(b"\x70" + ref.block(d, tt) + ref.block(d[::-1], tt) + SENTINEL, ctx)
    ctx.state((tt, "contents"))


def run_heads(tt, ctx):
    """blocks that begin with words a reader might take for a size, a start or a count"""
    for n in (8, 9, 24, 300):
        words = [x.to_bytes(4, "little") for x in (0, 1, 2, 16, n - 8, n, n + 1, 0xFFFFFFFF)]
        parts = [ref.block((a + b + data(n))[:n], tt) for a in words for b in words]
        verify(b"".join(parts) + SENTINEL, ctx)
        ctx.state((tt, n, "heads"))


def run_giant(case, ctx):
    """blocks whose size fills all four bytes of the size field's lower three and carries into the fourth"""
    n, tt = case
    verify(b"\x70" + ref.block(data(n), tt) + SENTINEL, ctx)
    ctx.state(case)


def run_pairwise(case, ctx):
    s, kind = case
    verify(pairwise.stream(s, kind), ctx)
    ctx.state(case)


def families(tier):
    th = tier == "thorough"
    sizes = list(range(0, 301 if not th else 3000)) + sorted(
        {(1 << k) + d for k in range(9, 18) for d in (-1, 0, 1)} | {(1 << k) + d for k in (20, 24) for d in (0, 1)}
        | ({(1 << k) + d for k in range(18, 25) for d in (-1, 0, 1, 7)} if th else set()))
    pcm = [(n, f) for n in list(range(0, 301 if not th else 1500)) + [511, 512, 65535, 65536, 65537, 0x010100, 0x1FFFF]
           for f in (0, 0x54, 0xFF)]
    bounds = [0x100, 0x200, 0x400, 0x1000, 0x2000, 0x10000, 0x20000]
    ks = range(0, 14)
    out = [
        Family("pairwise", lambda: itertools.product(range(pairwise.P), pairwise.STREAMS), run_pairwise, "1028 streams of 257 commands in "
               "which every two of code, previous code, each operand, ordinal and place in the file meet in every combination"),
        Family("single", lambda: range(256), run_single, "256 codes x 6 operand fillings x 4 block sizes, 3 positions"),
        Family("operands", lambda: range(256), run_operands, "256 codes x each operand byte x 256 values"),
        Family("operand tuples", tuple_cases, run_tuples, "all operand pairs of the two-operand codes; tuples over 12, 6 and 5 "
               "values for three to five operands, pairs of operands for longer ones"),
        Family("pairs", lambda: range(256), run_pairs, "all 65536 ordered pairs of codes x 2 fillings"),
        Family("triples", lambda: itertools.product(range(len(CLASS_REPS)), repeat=2), run_triples,
               f"all triples of {len(CLASS_REPS)} class representatives"),
        Family("data blocks", lambda: sizes, run_block, f"{len(sizes)} sizes up to {max(sizes)}, 8 block types"),
        Family("block types", lambda: range(256), run_types, "256 data block types x 11 sizes up to 65537 (some: 16 MiB)", cpu_s=200),
        Family("block contents", lambda: range(256), run_contents, "256 data block types x 10 contents (zeros, trailing zeros, blanks, "
               "line ends, end codes) x 5 sizes"),
        Family("block heads", lambda: range(256), run_heads, "256 data block types x 4 sizes x all pairs of 8 leading words "
               "(0, 1, 2, 16, the size, the size less 8, more than the size, all ones)"),
        Family("giant blocks", lambda: [(n, 0) for n in (0x1000000, 0x1010002, 0x1FFFFFF, 0x2000003)
                                        + ((0x4000001, 0x8000005, 0x10000003) if th else ())], run_giant,
               f"blocks of up to {256 if th else 32} MiB", cpu_s=300),
        Family("headers", header_cases, run_header, "one stream of all classes after headers that differ in one field: every "
               "field of 6 header layouts x up to 22 values (dual-chip bits, rates, offsets into the file)"),
        Family("pcm ram writes", lambda: pcm, run_pcm, f"{len(pcm)} sizes and fillings"),
        Family("alignment", lambda: itertools.product(bounds, ks), run_align,
               "each class starting 0..13 bytes before 7 buffer boundaries; BytesIO, file, gzip"),
        Family("far alignment", lambda: itertools.product([1 << b for b in ((14, 15, 18, 20, 22) + ((24, 25) if th else ()))], (0, 4, 0x40),
                                                          range(14)), run_far_align,
               f"commands 0..13 bytes before buffer boundaries up to 2^{25 if th else 22}, counted from three places"),
        Family("long streams", lambda: [(n, c) for n in (2000, 70000) for c in range(0, len(CLASS_REPS) - 1, 3)],
               run_long, "2000 and 70000 repetitions of 13 classes"),
    ]
    if th:
        out.append(Family("all triples", lambda: itertools.product(range(256), repeat=2), run_code_triples,
                          "all 16777216 ordered triples of codes", cpu_s=300))
        out.append(Family("quadruples", lambda: itertools.product(range(len(CLASS_REPS)), repeat=3), run_quads,
                          f"all quadruples of {len(CLASS_REPS)} class representatives"))
    return out
