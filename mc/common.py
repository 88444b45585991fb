"""Pieces shared by the property modules."""
import itertools

from . import ref, sut
from .engine import check_eq


def hexs(b):
    return bytes(b).hex()


def unhex(s):
    return bytes.fromhex(s)


def check_extraction(stream, ctx, what="", chip=None, ticks=True):
    """run the pipeline on a command stream and compare everything with the model -> (state, chip)"""
    st = sut.extract(ref.vgm(stream))
    chip = ref.play(stream) if chip is None else chip
    compare_state(st, chip, what or f"stream {short_hex(stream)}", ticks)
    return st, chip


def compare_state(st, chip, what, ticks=True):
    ev = sut.events(st)
    if ev != chip.events:
        check_eq(ev, chip.events, f"key events (time, instrument, right, left, octave, note, fraction) of {what}")
    ins = sut.instruments(st)
    exp = ref.instruments_json(chip)
    if ins != exp:
        check_eq(ins, exp, f"instruments of {what}")
    if ticks:
        t = list(st.ticks())
        if t != sorted(chip.onsets):
            check_eq(t, sorted(chip.onsets), f"onset times of {what}")


def short_hex(b, n=80):
    s = bytes(b).hex()
    return s if len(s) <= n else f"{s[:n // 2]}..{s[-n // 2:]} ({len(b)} bytes)"


def outcome(chip):
    """canonical state of the model"""
    return (tuple(chip.instruments), tuple(map(tuple, chip.events)), chip.now)


def product(*its):
    return itertools.product(*its)


# a command of every kind, with operands that look like commands when misread
CLASS_REPS = [
    b"\x00", b"\x30\x54", b"\x40\x61\x67", b"\x4e\x54\x08", b"\x4f\x66", b"\x50\x61", b"\x51\x54\x08",
    ref.w(0x20, 0xC7), ref.key(2, 15), ref.key(2, 0), b"\x55\x08\x78", b"\x5f\x66\x66", b"\x60",
    b"\x61\x54\x66", b"\x62", b"\x63", b"\x64", b"\x70", b"\x7f", b"\x80", b"\x8f",
    ref.block(b""), ref.block(b"\x54"), ref.block(b"\x54\x08\x78"),
    b"\x68\x66\x54\x08\x78\x61\x66\x54\x08\x00\x00\x00", b"\x68\x66\x00\x01\x02\x03\x04\x05\x06\x02\x00\x00\x54\x08",
    b"\x90\x54\x08\x78\x66", b"\x92\x54\x08\x78\x66\x61", b"\x93\x54\x08\x78\x66\x61\x54\x08\x78\x66\x61", b"\x94\x66",
    b"\x95\x54\x08\x78\x66", b"\x96", b"\xa4\x08\x78", b"\xb0\x54\x08", b"\xc0\x54\x08\x78", b"\xdf\x66\x54\x08",
    b"\xe0\x54\x08\x78\x66", b"\xff\x54\x08\x78\x66", b"\x66",
]


# header fields that say nothing about how the stream is decoded: (offset, bytes) of VGM 1.00-1.71
def header_fields(size):
    out = [(o, 4) for o in [4, *range(0x0C, size, 4)] if o != 0x34]
    out += [(o, 1) for o in range(0x28, size) if o >= 0x78 or o in (0x28, 0x29, 0x2A, 0x2B)]
    return [f for f in out if f[0] + f[1] <= size]


HEADER_SIZES = ((0x101, 0x40), (0x110, 0x40), (0x150, 0x40), (0x151, 0x80), (0x161, 0x100), (0x171, 0x100))


def header_case(case, stream, eos=ref.END, tail=b""):
    """whole files that differ in one header field (or one field and a tag behind the song)"""
    hi, off, n = case
    version, size = HEADER_SIZES[hi]
    total = size + len(stream) + len(eos) + len(tail)
    values = {0, 1, 2, 0xFF} if n == 1 else {
        0, 1, 2, 40, 50, 60, 100, 0x80, 0xFFFF, 3579545, 0x40000000 | 3579545, 0x80000000 | 3579545, 0xC0000000 | 3579545,
        0x80000000, 0xFFFFFFFF, size - off, size - off + 3, size + len(stream) - off, total - len(tail) - off, total - off,
        total - 4, size + len(stream) // 2 - off}
    for v in sorted(values):
        v &= (1 << 8 * n) - 1
        h = bytearray(ref.header(version, 3579545, total - 4, 3579545, size - 0x34, 0, size))
        h[off:off + n] = v.to_bytes(n, "little")
        yield v, bytes(h)


def header_cases():
    return [(hi, o, n) for hi, (_v, size) in enumerate(HEADER_SIZES) for o, n in header_fields(size)]
