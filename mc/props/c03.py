"""Time: every wait command and operand, all sequences of waits, keys and other commands to a depth, long sums;
oracle = exact sum, read off the time stamps of key events."""
import itertools

from .. import pairwise, ref, sut
from ..common import CLASS_REPS, header_case, header_cases, short_hex
from ..engine import Family, check_eq, sequences
from .c09 import Pair

LEVEL = "model_checking"
ASSUMPTIONS = ["wait lengths are those of the VGM format 1.71"]

WAITS = ([b"\x62", b"\x63"] + [bytes((c,)) for c in range(0x70, 0x90)] +
         [b"\x61\x00\x00", b"\x61\x01\x00", b"\x61\xff\x00", b"\x61\x00\x01", b"\x61\xff\xff", b"\x61\x54\x66"])


def stamps(stream, ctx):
    """compare the time of every key event (and of the onsets) with the model"""
    st = sut.extract(ref.vgm(stream))
    chip = ref.play(stream)
    got = [[e[0] for e in evs] for evs in sut.events(st)]
    exp = [[e[0] for e in evs] for evs in chip.events]
    ctx.ops(len(ref.split(stream)[0]) if len(stream) < 1000 else sum(map(len, exp)))
    ctx.trace()
    if got != exp:
        check_eq(got, exp, f"time stamps of key events of stream {short_hex(stream)}")
    if list(st.ticks()) != sorted(chip.onsets):
        check_eq(list(st.ticks()), sorted(chip.onsets), f"onset times of stream {short_hex(stream)}")
    ctx.state(tuple(map(tuple, exp)))


def run_wait16(hi, ctx):
    """all 256 waits with this high byte: one stream of wait, key, wait, key ... and each alone"""
    s = b"".join(b"\x61" + bytes((lo, hi)) + ref.key(lo & 7) for lo in range(256))
    stamps(s, ctx)
    for lo in range(256):
        stamps(b"\x61" + bytes((lo, hi)) + ref.key(1) + b"\x61" + bytes((lo, hi)) + ref.key(1, 0), ctx)


def run_pairs(case, ctx):
    i = case
    for b in WAITS:
        a = WAITS[i]
        stamps(ref.key(0) + a + ref.key(0) + b + ref.key(1) + a + b + ref.key(1, 0), ctx)
        stamps(a + b + a + ref.key(7), ctx)


def run_classes(case, ctx):
    """no other command advances time"""
    i, j = case
    for k in (b"\x70", b"\x61\x00\x01", b""):
        stamps(k + CLASS_REPS[i] + ref.key(0) + CLASS_REPS[j] + k + ref.key(1), ctx)


def run_codes(code, ctx):
    from .c01 import FILLS, one
    for f in FILLS:
        c = one(code, f)
        stamps(b"\x75" + c + ref.key(0) + c + c + ref.key(1) + c + ref.key(0, 0), ctx)


ALPHA = [b"\x70", b"\x7f", b"\x62", b"\x63", b"\x61\x00\x00", b"\x61\xff\xff", b"\x80", b"\x8f", ref.key(0),
         ref.key(0, 0), ref.w(0x28, 0x4E), b"\x50\x61", ref.block(b"\x70")]


def run_seq(seq, ctx):
    stamps(b"".join(ALPHA[i] for i in seq) + ref.key(0, 3) + b"\x71" + ref.key(1, 0), ctx)


def run_aligned(case, ctx):
    """every wait behind a data block, so that it lies at and around a buffer boundary of the file"""
    edge, d = case
    for at in {edge + d, edge * 2 + d}:
        for w in WAITS[:2] + WAITS[3:40:9] + WAITS[-2:]:
            s = ref.key(0)
            s += ref.block(bytes(at - 0x40 - len(s) - 7)) + w + ref.key(1) + w + ref.key(1, 0)
            stamps(s, ctx)


def run_long(case, ctx):
    cmd, n, step = bytes.fromhex(case[0]), case[1], case[2]
    s = bytearray()
    for i in range(0, n, step):
        s += cmd * min(step, n - i) + ref.key(i // step & 7)
    stamps(bytes(s), ctx)


def run_residues(case, ctx):
    """one wait command at every moment of a second, its end observed"""
    cmd, lo, n = bytes.fromhex(case[0]), case[1], case[2]
    length = ref.play(cmd).now
    stamps(ref.wait(lo) + (cmd + ref.key(1) + ref.wait((1 - length) % 44100)) * n, ctx)


def run_huge(case, ctx):
    """sums around powers of two far beyond any file, reached in a few steps on the live state"""
    bits, d, step = case
    p = Pair(ctx)
    p.write(8, 0x78)
    for n in ((1 << bits) + d, step, step, 65535, 0, 1):
        p.wait(n)
        p.write(8, 0x79)
        p.wait(1)
        p.write(8, 0x01)
    p.wait((1 << bits) - 1)
    p.write(8, 0x0F)
    p.check(f"times around 2^{bits} {d:+d}, steps of {step}")
    ctx.state(case)


def run_header(case, ctx):
    """all waits after headers that differ in one field (rate, sample counts, loops, clocks ...)"""
    s = b"".join(w + ref.key(i & 7, 15 if i % 3 else 0) for i, w in enumerate(WAITS)) + ref.key(0)
    chip = ref.play(s)
    exp = [[e[0] for e in evs] for evs in chip.events]
    for v, h in header_case(case, s):
        st = sut.extract(h + s + ref.END)
        got = [[e[0] for e in evs] for evs in sut.events(st)]
        if got != exp:
            check_eq(got, exp, f"time stamps of key events after a header with {v:#x} at {case[1]:#x} (layout {case[0]})")
        ctx.ops(2 * len(WAITS))
        ctx.trace()
        ctx.state((case, v))


def run_pairwise(s, ctx):
    """a command, a wait and a key event; every two of command, kind of wait, its operand and ordinal meet"""
    for long in (False, True):
        out = bytearray()
        for t in range(pairwise.P):
            code = pairwise.byte(s, t, 1)
            if code not in (0x66, 0x08):
                out += pairwise.command(s, t, code)
            if long:
                out += bytes((0x61, pairwise.byte(s, t, 15), pairwise.byte(s, t, 16)))
            else:
                out += WAITS[pairwise.factor(s, t, 17) % 36]
            out += ref.key(t & 7)
        stamps(bytes(out), ctx)
    # every wait as the n-th wait of the song, without other commands
    stamps(b"".join(WAITS[(s + i) % len(WAITS)] + (ref.key(i & 7) if i % 3 == s % 3 else b"") for i in range(320)) + ref.key(0), ctx)


def run_after(code, ctx):
    """every kind of wait and every byte of its operand right after every command code"""
    from .c01 import FILLS, one
    c = one(code, FILLS[2])
    stamps(b"".join(c + w + ref.key(i & 7) for i, w in enumerate(WAITS)), ctx)
    stamps(b"".join(c + bytes((0x61, i, code ^ i)) + ref.key(i & 7) for i in range(256)), ctx)


def families(tier):
    th = tier == "thorough"
    depth = 5 if th else 4
    longs = [("61ffff", 70000, 7000), ("61ffff", 140000, 35000), ("70", 100000, 20000), ("7f", 70000, 3500),
             ("62", 60000, 4000), ("63", 60000, 4000), ("8f", 70000, 7000), ("610100", 70000, 7000)]
    return [
        Family("pairwise", lambda: range(pairwise.P), run_pairwise, "771 streams of commands, waits and keys in which every two of command, "
               "wait, each operand and ordinal meet in every combination"),
        Family("after every command", lambda: [c for c in range(256) if c != 0x66], run_after,
               "every kind of wait and every operand byte right after every command code"),
        Family("16-bit waits", lambda: range(256), run_wait16, "all 65536 16-bit waits, alone and accumulated"),
        Family("pairs", lambda: range(len(WAITS)), run_pairs, f"all ordered pairs of {len(WAITS)} waits"),
        Family("codes", lambda: range(256), run_codes, "every command code between waits and keys, 6 fillings"),
        Family("classes", lambda: itertools.product(range(len(CLASS_REPS) - 1), repeat=2), run_classes,
               "every pair of command classes between key events"),
        Family("sequences", lambda: sequences(len(ALPHA), depth), run_seq,
               f"all sequences over {len(ALPHA)} commands to depth {depth}"),
        Family("headers", header_cases, run_header, "all waits after headers that differ in one field: every field of 6 "
               "header layouts x up to 22 values"),
        Family("alignment", lambda: itertools.product((256, 4096, 8192, 65536, 131072) + ((1 << 20,) if th else ()), range(-4, 4)),
               run_aligned, "waits at -4..3 bytes around buffer boundaries of the file"),
        Family("huge sums", lambda: itertools.product((30, 31, 32, 33, 52, 53, 54, 62, 63, 64, 65, 100), (-2, -1, 0, 1), (1, 3, 735)),
               run_huge, "times around 2^30 .. 2^100"),
        Family("moments", lambda: itertools.product([w.hex() for w in WAITS if w[0] != 0x61] + ["616400", "61df02", "61dd02", "61ffff"],
                                                    range(0, 44100, 6300), (6300,)), run_residues,
               "every wait command at every moment of a second", cpu_s=200),
        Family("long", lambda: longs, run_long, "up to 140000 waits, totals past 2^32 samples"),
    ]
