"""Key events: all key register values in all positions of short histories, and all histories to a depth over key writes,
pitch, pan, timbre changes and waits; the event list of every channel must be the reference's, event by event."""
import itertools

from .. import pairwise, ref
from ..common import check_extraction, outcome
from ..engine import Family, sequences
from .c09 import Pair

LEVEL = "model_checking"


def run_first(case, ctx):
    """the first key write of a song, after a wait or not, then one more of every kind on the same and another channel"""
    v, wait = case
    for off in (0, 1, 2):
        for second in range(0, 256, 1 if off == 0 else 7):
            p = Pair(ctx)
            for k in range(off):
                p.write(8, k)  # key-offs before the first key-on
                p.wait(wait)
            p.wait(wait)
            p.write(0x20 + (v & 7), 0x80)
            p.write(0x28 + (v & 7), 0x35)
            p.write(8, v)
            p.wait(2)
            p.write(8, second)
            p.write(8, v & 7)
            p.check(f"{off} key-offs, wait {wait}, key writes {v:#04x}, {second:#04x}, {v & 7:#04x}")


def run_moment(case, ctx):
    """pitch and pan of the moment: every value of the pitch and pan registers before, between and after key events"""
    ch, base, lo = case
    reg = base + ch
    for v in range(lo, lo + 64):
        p = Pair(ctx)
        p.write(0x20 + ch, 0x40)
        p.write(reg, v)
        p.write(8, 0x78 | ch)
        p.write(reg, v ^ 0xFF)
        p.wait(1)
        p.write(8, ch)
        p.write(reg, v ^ 0x55)
        p.write(8, 0x20 | ch)
        p.write(reg, v ^ 0xAA)
        p.check(f"register {reg:#04x} = {v:#04x}, note, changed, key-off, changed, note, changed")


OPS = [("k", 0x78), ("k", 0x00), ("k", 0x08), ("k", 0x7F), ("k", 0x07), ("w", 0x20, 0xC7), ("w", 0x28, 0x4E),
       ("w", 0x60, 5), ("t", 0), ("t", 70001)]


def encode(ops):
    out = b""
    for o in ops:
        if o[0] == "k":
            out += ref.w(8, o[1])
        elif o[0] == "w":
            out += ref.w(o[1], o[2])
        else:
            out += ref.wait(o[1])
    return out


def run_seq(seq, ctx):
    """a history applied to the chip state"""
    p = Pair(ctx)
    for i in seq:
        o = OPS[i]
        if o[0] == "k":
            p.write(8, o[1])
        elif o[0] == "w":
            p.write(o[1], o[2])
        else:
            p.wait(o[1])
    p.check(f"history {[OPS[i] for i in seq]}")


def run_file(seq, ctx):
    """a history through a file, with other commands in between"""
    s = b"".join(encode([OPS[i]]) + (b"\x51\x08\x78" if n & 1 else b"") for n, i in enumerate(seq)) + b"\x66"
    _st, chip = check_extraction(s, ctx, f"history {[OPS[i] for i in seq]}")
    ctx.ops(len(seq))
    ctx.trace()
    ctx.state(outcome(chip))


def run_keys(case, ctx):
    """sequences of key writes only: all values of the second and third over a coarse first"""
    a, b = case
    for c in range(0, 256, 5):
        p = Pair(ctx)
        p.write(8, a)
        p.write(8, b)
        p.wait(1)
        p.write(8, c)
        p.write(8, a)
        p.check(f"key writes {a:#04x}, {b:#04x}, wait, {c:#04x}, {a:#04x}")


LATE = [(), (0x00,), (0x78,), (0x78, 0x00), (0x00, 0x78, 0x00), (0x01, 0x78, 0x00), (0x79, 0x00, 0x01), (0x08, 0x78, 0x79, 0x00, 0x00)]


def run_late(case, ctx):
    """short histories with long silences in between"""
    gap, i, j = case
    p = Pair(ctx)
    for part in (LATE[i], LATE[j], (0x06,), (0x78,), (0x06, 0x00)):
        p.wait(gap)
        for v in part:
            p.write(0x28 + (v & 7), v ^ gap & 0x7F)
            p.write(8, v)
    p.check(f"key writes {LATE[i]}, {LATE[j]}, key-off on channel 6, key-on on channel 0, each after {gap} samples")


def run_repeat(case, ctx):
    """the same key write n times, at one time or spread over time"""
    v, n, step = case
    p = Pair(ctx)
    p.write(8, 0x79)
    for _ in range(n):
        p.write(8, v)
        p.wait(step)
    p.check(f"key write {v:#04x} {n} times, {step} samples apart")


def run_chord(case, ctx):
    """events of all channels at one moment and in any channel order"""
    order, slots = case
    p = Pair(ctx)
    for t in range(3):
        for ch in order:
            p.write(0x28 + ch, (ch * 17 + t) & 0x7F)
            p.write(8, (slots if t != 1 else 0) << 3 | ch)
        p.wait(t * 1000)
    p.check(f"chords in channel order {order}")


def run_long(case, ctx):
    n, kind = case
    s = []
    for i in range(n):
        v = {"mixed": (i * 7 % 16) << 3 | i & 7, "one channel": (15 if i & 1 else 0) << 3 | 4,
             "no offs": 0x78 | i % 8}[kind]
        s.append(ref.w(0x28 + (v & 7), i & 0x7F) + ref.w(8, v) + ref.wait(i % 997 * 7))
    _st, chip = check_extraction(b"".join(s), ctx, f"long song of {n} key events ({kind})")
    ctx.ops(3 * n)
    ctx.trace()
    ctx.state(outcome(chip))


def run_pairwise(case, ctx):
    """key events in which every two of channel, operators, pan, pitch, instrument and ordinal meet in all combinations"""
    s, kind = case
    p = Pair(ctx)
    pairwise.song(p, kind, s)
    p.check(f"song {s} ({kind}) of the orthogonal array")


def families(tier):
    th = tier == "thorough"
    k = len(OPS)
    return [
        Family("first key write", lambda: itertools.product(range(256), (0, 1) if th else (0,)), run_first,
               "all 65536 pairs of first and second key writes at time 0 (thorough: later too), key-offs before"),
        Family("moment", lambda: itertools.product(range(8), (0x20, 0x28, 0x30), (0, 64, 128, 192)), run_moment,
               "every value of every pitch and pan register, changed between key events"),
        Family("key writes", lambda: itertools.product(range(0, 256, 1 if th else 5), range(0, 256, 1 if th else 11)),
               run_keys, "triples of key writes"),
        Family("histories", lambda: sequences(k, 6 if th else 5), run_seq,
               f"all histories of up to {6 if th else 5} of {k} operations"),
        Family("files", lambda: sequences(k, 5 if th else 4), run_file,
               f"all histories of up to {5 if th else 4} operations through a file"),
        Family("repeats", lambda: itertools.product(range(256), (3, 40), (0, 1)), run_repeat,
               "every key write repeated"),
        Family("chords", lambda: ((o, s) for o in itertools.permutations(range(8), 8) if th or o[:5] in CHORDS
                                  for s in (15, 2)), run_chord, "all eight channels at one moment, in channel orders"),
        Family("late", lambda: itertools.product([(1 << k) + d for k in range(1, 65 if th else 41) for d in (-1, 0, 1)]
                                                 + [44100 * n for n in (1, 10, 60, 600, 3600, 86400)],
                                                 range(len(LATE)), range(len(LATE))), run_late,
               "short histories with silences of up to 2^40 samples, key-offs on channels that never played"),
        Family("instrument counts", lambda: itertools.product((0, 85, 171), pairwise.COUNTS), run_pairwise,
               f"songs of {len(pairwise.COUNTS)} numbers of instruments"),
        Family("pairwise", lambda: itertools.product(range(pairwise.P), ("rows", "mixed", "wide")), run_pairwise, "771 songs of 257 key events in "
               "which every two of channel, operators, pan, pitch, fraction, instrument, moment and ordinal meet in every combination"),
        Family("long", lambda: itertools.product((10000, 300000) if th else (5000, 70000), ("mixed", "one channel", "no offs")),
               run_long, "thousands of events", cpu_s=300),
    ]


CHORDS = set(itertools.islice(itertools.permutations(range(8), 5), 0, None, 9))
