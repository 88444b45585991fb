"""Unreadable input: every damage in the bound is given to the real reader and to the real command line with outputs
that already exist or do not; a damage the VGM and gzip formats make detectable must end in failure and leave the
output directory byte for byte as it was."""
import base64
import bz2
import gzip
import io
import itertools
import lzma
import os
import shutil
import zipfile
import zlib

from .. import pairwise, ref, sut
from ..engine import Family, Violation
from .c05 import member

LEVEL = "fault_enumeration"
RULE = ("a case is one damaged input (signature byte, cut, damaged compressed byte, missing file) with one set of output "
        "options; it is non-trivial when the damage makes the sound data unreadable, so that the tool must fail")
ASSUMPTIONS = ["damage of compressed data that still decompresses up to the end-of-data command is not judged",
               "a cut inside a data block or another chip's command is not judged"]

SONG = (ref.w(0x20, 0xC7) + ref.w(0x28, 0x4A) + ref.key(0) + b"\x61\x34\x12" + ref.w(0x60, 0x33) + ref.key(0, 0)
        + ref.block(b"\x54\x08\x78") + b"\x70\x62\x51\x01\x02" + ref.key(1, 3) + b"\x61\x10\x00" + ref.key(1, 0) + b"\x66")
OLD = b"previous content \x00\xff\n"


def refused(data, what):
    """the reader must not accept the file"""
    try:
        r = sut.vgmcore.reader(io.BytesIO(data))
    except Exception:  # noqa: refusing by an error is fine
        return
    if r is not None:
        raise Violation(f"{what} is accepted as a VGM file")


def tool(ctx, data, what, must_fail, combos, tn=("-tn", "1000"), inname="in.vgm"):
    """run the command line in an own directory; data None: missing, 'dir': a directory"""
    for opts, existing in combos:
        d = os.path.join(ctx.scratch, "t")
        os.mkdir(d)
        try:
            src = os.path.join(d, inname)
            if data == "dir":
                os.mkdir(src)
            elif data is not None:
                with open(src, "wb") as f:
                    f.write(data)
            args = [src] + list(tn)
            for o, name in (("i", "out.json"), ("t", "out.xrns")):
                if o in opts:
                    args += ["-" + o, os.path.join(d, name)]
                if existing:
                    with open(os.path.join(d, name), "wb") as f:
                        f.write(OLD)
            before = tree(d)
            code, _ = sut.cli(args)
            after = tree(d)
            ctx.ops()
            ctx.trace()
            ctx.state((what, opts, existing, code))
            if must_fail:
                ctx.nontriv((what, opts, existing))
            if code == 0:
                if must_fail:
                    raise Violation(f"the tool reports success on {what} (options {opts!r})")
                continue
            if after != before:
                names = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
                raise Violation(f"the tool failed ({code}) on {what} but created or changed {names} "
                                f"(options {opts!r}, outputs {'existing' if existing else 'absent'} before)")
        finally:
            shutil.rmtree(d)


def tree(d):
    out = {}
    for base, dirs, files in os.walk(d):
        for n in dirs:
            out[os.path.relpath(os.path.join(base, n), d)] = "dir"
        for n in files:
            with open(os.path.join(base, n), "rb") as f:
                out[os.path.relpath(os.path.join(base, n), d)] = f.read()
    return out


ALL = list(itertools.product(("", "i", "t", "it"), (False, True)))
FEW = [("it", True), ("it", False)]


def run_sig(case, ctx):
    """every value of one signature byte, raw and inside gzip"""
    pos, val = case
    good = ref.vgm(SONG)
    if good[pos] == val:
        return
    bad = good[:pos] + bytes((val,)) + good[pos + 1:]
    what = f"a file whose signature byte {pos} is {val:#04x}"
    for data, w in ((bad, what), (member(bad), what + ", compressed")):
        refused(data, w)
        tool(ctx, data, w, True, FEW)


def run_sig_pairs(a, ctx):
    """all pairs of signature bytes, and signatures and headers of an orthogonal array"""
    good = ref.vgm(SONG)
    for i, j in itertools.combinations(range(4), 2):
        for b in range(256):
            h = bytearray(good)
            h[i], h[j] = a & 255, b
            if h != good:
                refused(bytes(h), f"a file whose signature is {bytes(h[:4])!r}")
                ctx.ops()
    for t in range(pairwise.P):
        h = bytes(pairwise.byte(a, t, k) for k in range(4))
        if h == b"Vgm ":
            continue
        bad = h + bytes(pairwise.byte(a, t, k) for k in range(4, 12)) + good[12:]
        refused(bad, f"a file that starts {bad[:12].hex()}")
        refused(h + good[4:], f"a file whose signature is {h!r}")
        if t % 16 == a % 16:
            refused(member(bad), f"a file that starts {bad[:12].hex()}, compressed")
        ctx.ops(2)
    ctx.trace()
    ctx.nontriv(("pairs", a))
    ctx.state(("pairs", a))


def run_short(case, ctx):
    """files too short to have a signature; other formats"""
    data = bytes.fromhex(case)
    for d, w in ((data, f"the file {case!r}"), (member(data), f"the file {case!r}, compressed")):
        refused(d, w)
        tool(ctx, d, w, True, ALL)


def run_wrapped(case, ctx):
    """a complete song behind something else, in another container or under another signature"""
    kind, k = case
    for name, (head, _start, stream) in SONGS.items():
        wrapped(kind, k, head + stream, f"a song {name} ({kind} {k})", ctx)


def wrapped(kind, k, good, w, ctx):
    if kind == "byte before":
        data = bytes((k,)) + good
    elif kind == "bytes before":
        data = (b"\0" * k if k % 2 else (b"Vgm Vgm"[:k % 7] + bytes(range(1, 99)))[:k]) + good
        if data[:4] == b"Vgm " or data[:2] == b"\x1f\x8b":
            return
    elif kind == "signature":
        data = SIGNATURES[k] + good[4:]
    elif kind == "container":
        data = CONTAINERS[k](good)
    else:  # first member is something else
        data = member(bytes(k)) + member(good) if k else member(member(good))
    for d, what in ((data, w), (member(data), w + ", compressed")):
        refused(d, what)
        tool(ctx, d, what, True, FEW)


def _zip(good):
    f = io.BytesIO()
    with zipfile.ZipFile(f, "w") as z:
        z.writestr("song.vgm", good)
    return f.getvalue()


SIGNATURES = [b" mgV", b"VGM ", b"vgm ", b"gVm ", b"Vgm", b"Vgm\0", b"Vgm_", b"V g m ", b"Vmg ", b"Vgz ", b"Gd3 ", b"\xefVgm ", b"KSS ",
              b"\0\0\0\0", b"\x1f\x8b\x08\0", b"VgmVgm  ", b"Vgm Vgm "[1:5]]
CONTAINERS = [zlib.compress, bz2.compress, lzma.compress, _zip, lambda d: zlib.compress(d)[2:-4], base64.b64encode,
              lambda d: d.hex().encode(), lambda d: d[::-1], lambda d: d.decode("latin-1").encode("utf-16"),
              lambda d: d.decode("latin-1").encode("utf-32-le"), lambda d: b"\x1f\x9d\x90" + d, lambda d: member(member(d)),
              lambda d: b"".join(d[i + 1:i + 2] + d[i:i + 1] for i in range(0, len(d), 2))]


def run_missing(case, ctx):
    for name in NAMES:
        tool(ctx, None if case[0] == "missing" else "dir", f"a {case[0]} input named {name!r}", True, ALL if name == NAMES[0] else FEW,
             case[1], name)


def run_names(case, ctx):
    """unreadable inputs of every kind under every name"""
    name, kind = case
    good = ref.vgm(SONG)
    data = {"empty": b"", "foreign": b"RIFF" + good[4:], "header cut": good[:60], "write cut": good[:65], "packed foreign": member(b"x" * 99),
            "packed cut": member(good)[:-30], "text": b"not a song\n" * 20}[kind]
    tool(ctx, data, f"{kind} input named {name!r}", True, ALL, ("-tn", "1000"), name)
    tool(ctx, data, f"{kind} input named {name!r}", True, FEW, (), name)


NAMES = ["in.vgm", "in.vgz", "in", "in.VGM", "in.bin", "in.gz", "in.json", "with space.vgm", "\u00e9.vgm", "in.vgm.gz", ".hidden"]


def expected_failure(data, start):
    """does the format make this (possibly cut) raw file unreadable before its end of sound data?"""
    if len(data) < start:
        return True
    body = data[start:]
    cmds, ends = ref.split(body)
    if any(k == ref.EOS for k, _c, _d in cmds):
        return False
    at = ends[-1] if ends else 0
    return at < len(body) and (body[at] == 0x54 or body[at] == 0x61)


def run_cut(case, ctx):
    """every cut of a song, raw and then compressed"""
    name, cut = case
    head, start, stream = SONGS[name]
    data = (head + stream)[:cut]
    bad = expected_failure(data, start)
    if cut < 4:
        refused(data, f"{cut} bytes")
    tool(ctx, data, f"song {name} cut after {cut} bytes", bad, ALL if cut % 4 == 0 else FEW)
    tool(ctx, member(data), f"song {name} cut after {cut} bytes, then compressed", bad, FEW)


def inflate(data):
    """independent gzip reading -> (bytes until the damage, intact)"""
    out = b""
    while data:
        if data[:1] == b"\0" and not data.strip(b"\0"):
            return out, True
        d = zlib.decompressobj(31)
        buf = data
        while buf and not d.eof:
            try:
                out += d.decompress(buf[:1])
            except zlib.error:
                return out, False
            buf = buf[1:]
        if not d.eof:
            return out, False
        data = d.unused_data + buf
    return out, True


def readable(data):
    """the standard library reads the damaged file without an error (reserved header bits, for example)"""
    try:
        gzip.decompress(data)
        return True
    except (OSError, EOFError, zlib.error):
        return False


def packed_judgement(data, start, original):
    """True: the tool must fail; None: not judged"""
    if data[:2] != b"\x1f\x8b":
        return data[:4] != b"Vgm "  # not a VGM file at all any more
    out, intact = inflate(data)
    if intact or readable(data):
        return None
    if out[:4] != b"Vgm " or len(out) < start:
        return True
    if out[:start] != original[:start]:
        return None  # another header: other rules apply
    cmds, _ = ref.split(out[start:])
    return None if any(k == ref.EOS for k, _c, _d in cmds) else True


def run_packed_cut(case, ctx):
    name, kind, cut = case
    head, start, stream = SONGS[name]
    packed = PACK[kind](head + stream)
    if cut >= len(packed):
        return
    j = packed_judgement(packed[:cut], start, head + stream)
    tool(ctx, packed[:cut], f"song {name} ({kind}) cut after {cut} compressed bytes", j, FEW)


def run_packed_damage(case, ctx):
    name, kind, pos = case
    head, start, stream = SONGS[name]
    packed = PACK[kind](head + stream)
    if pos >= len(packed):
        return
    for x in DAMAGE:
        bad = bytearray(packed)
        bad[pos] ^= x
        j = packed_judgement(bytes(bad), start, head + stream)
        if j is None:
            continue
        tool(ctx, bytes(bad), f"song {name} ({kind}) with compressed byte {pos} changed by {x:#04x}", j, FEW)


DAMAGE = (0x01, 0x02, 0x04, 0x08, 0x10, 0x20, 0x40, 0x80, 0xFF)
PACK = {
    "deflate": lambda d: member(d, 9),
    "stored": lambda d: member(d, 0),
    "two members": lambda d: member(d[:70], 6) + member(d[70:], 0, 8),
}
NOEOS = SONG[:-1]
SONGS = {
    "1.71": (ref.HEADER, 0x40, SONG),
    "1.51 long header": (ref.header(0x151, data_offset=0x4C, size=0x80), 0x80, SONG),
    "1.01": (ref.header(0x101, clock=0, clock2413=3579545, data_offset=0), 0x40, SONG),
    "no end": (ref.HEADER, 0x40, NOEOS),
}
SHORT = ["", "56", "5667", "56676d", "56676d21", "20", "1f", "1f8b", "1f8b08", "52494646", "206d6756", "00000000",
         "504b0304", "56474d20", "76676d20", "ff56676d20", "0a56676d20", "5667206d", "47643320"]


def run_big(case, ctx):
    """long songs: cut or damaged far behind the first buffer, raw and compressed, where everything before looks fine"""
    n, cutback, kind = case
    stream = b"".join(ref.w(0x30 + (i & 7), i & 255) + ref.key(i & 7) + b"\x61" + bytes((i & 255, i >> 8 & 255))
                      for i in range(n)) + b"\x66"
    if kind == "raw":
        data = (ref.HEADER + stream)[:-cutback]
        tool(ctx, data, f"song of {n} notes cut {cutback} bytes before its end",
             expected_failure(data, 0x40), [("it", True)])
    else:
        packed = PACK[kind](ref.HEADER + stream)[:-cutback]
        j = packed_judgement(packed, 0x40, ref.HEADER + stream)
        tool(ctx, packed, f"song of {n} notes ({kind}) cut {cutback} compressed bytes before its end", j, [("it", True)])


def families(tier):
    th = tier == "thorough"

    def cuts():
        for name, (h, _s, stream) in SONGS.items():
            for c in range(len(h) + len(stream)):
                yield (name, c)

    def packed():
        for name in SONGS if th else ("1.71", "no end"):
            h, _s, stream = SONGS[name]
            for kind in PACK:
                for c in range(len(PACK[kind](h + stream))):
                    yield (name, kind, c)

    return [
        Family("missing input", lambda: itertools.product(("missing", "directory"), (("-tn", "1000"), ())), run_missing,
               "no file, a directory; all output options, present and absent outputs"),
        Family("names", lambda: itertools.product(NAMES, ("empty", "foreign", "header cut", "write cut", "packed foreign", "packed cut", "text")),
               run_names, f"seven kinds of unreadable input under {len(NAMES)} names"),
        Family("short and foreign", lambda: SHORT, run_short, f"{len(SHORT)} short files and other formats, raw and gzip"),
        Family("wrapped", lambda: [("byte before", b) for b in range(256)] + [("bytes before", k) for k in range(2, 70)]
               + [("signature", i) for i in range(len(SIGNATURES))] + [("container", i) for i in range(len(CONTAINERS))]
               + [("member before", k) for k in range(8)], run_wrapped,
               "complete songs behind other bytes, under other signatures, in other containers, raw and gzip"),
        Family("signature", lambda: itertools.product(range(4), range(256)), run_sig,
               "all 4 x 255 single-byte changes of the signature, raw and inside gzip"),
        Family("signature pairs", lambda: range(pairwise.P), run_sig_pairs, "all 6 x 65536 changes of two signature bytes; 132098 signatures "
               "and headers in which every two bytes take every pair of values"),
        Family("cuts", cuts, run_cut, "every cut of four songs, raw and then compressed"),
        Family("compressed cuts", packed, run_packed_cut, "every cut of compressed songs"),
        Family("compressed damage", packed, run_packed_damage,
               f"every byte of compressed songs changed in {len(DAMAGE)} ways"),
        Family("long songs", lambda: list(itertools.product((300, 3000) + ((20000,) if th else ()), range(1, 14),
                                                            ("raw", "deflate", "stored")))
               + list(itertools.product((20000,), (1, 5, 8, 9, 12, 70), ("stored", "two members"))), run_big,
               "cuts 1..13 bytes before the end of long songs"),
    ]
