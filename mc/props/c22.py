"""Track listing: for all event pairs and triples around row and pattern boundaries and all histories to a depth, the
listing is parsed and every row, its numbers and every channel column compared with the reference."""
import itertools
import os

from .. import pairwise, ref, sut
from ..engine import Family, fail, sequences
from .c09 import Pair
from .c18 import TRIPLE_SPLIT, song, times

LEVEL = "model_checking"
ASSUMPTIONS = ["the Samples and Fraction columns are not specified", "the text of a reserved key code is only checked to be "
               "there"]
HEADER = ["Row", "Pattern", "Total Row"] + [f"Channel {i}" for i in range(1, 9)]


def listing(p, length, ctx, what):
    text = sut.export_csv(p.st, length, os.path.join(ctx.scratch, "l.csv"))
    ctx.ops()
    ctx.trace()
    if not text.endswith("\n") or "\r" in text.replace("\r\n", "\n"):
        fail(f"{what}: the listing does not end with a complete line: {text[-60:]!r}")
    rows = [line.split(",") for line in text.splitlines()]
    head = rows[0]
    if [h for h in head if h in HEADER] != HEADER or len(head) != len(set(head)):
        fail(f"{what}: header {head}")
    col = {h: head.index(h) for h in HEADER}
    cells = {}
    last = -1
    for ch, evs in enumerate(p.chip.events):
        for ev in evs:
            row = ev[0] // length
            cells[row, ch] = ev
            last = max(last, row)
    if len(rows) != last + 2:
        fail(f"{what}: {len(rows) - 1} rows, expected {last + 1}")
    for i, r in enumerate(rows[1:]):
        if len(r) != len(head):
            fail(f"{what}: line {i + 1} has {len(r)} columns: {r}")
        got = [r[col[h]] for h in HEADER[:3]]
        if got != [str(i % 64), str(i // 64), str(i)]:
            fail(f"{what}: row, pattern, total row are {got} in line {i + 1}, expected {[i % 64, i // 64, i]}")
        for ch in range(8):
            ev = cells.get((i, ch))
            want = "" if ev is None else ref.event_text(ev)
            have = r[col[f"Channel {ch + 1}"]]
            if want is None:
                if not have.endswith(f"[{ev[1]}] " + ("" if ev[2] and ev[3] else "Pan R" if ev[2] else "Pan L")):
                    fail(f"{what}: row {i}, channel {ch + 1} shows {have!r} for {ev}")
            elif have != want:
                fail(f"{what}: row {i}, channel {ch + 1} shows {have!r}, expected {want!r}")
    ctx.state((length, tuple(sorted(cells.items()))))


def run_pairs(case, ctx):
    """pairs of event times, one channel or two"""
    length, kind = case
    for a, b in itertools.combinations_with_replacement(times(length), 2):
        for c1, c2 in ((0, 0), (2, 7), (7, 2)):
            k1, k2 = ((15, 3), (15, 0), (0, 15))[kind]
            evs = [(a, c1, k1, 0x31), (b, c2, k2, 0x4E)]
            listing(song(ctx, evs), length, ctx, f"events {evs}, note length {length}")


def run_triples(case, ctx):
    length, i = case
    for a, b, c in list(itertools.combinations_with_replacement(times(length), 3))[i::TRIPLE_SPLIT]:
        for chans in ((0, 0, 0), (1, 0, 1), (5, 5, 6), (0, 3, 7)):
            evs = [(a, chans[0], 15, 0x40), (b, chans[1], 0, 0x41), (c, chans[2], 7, 0x42)]
            listing(song(ctx, evs), length, ctx, f"events {evs}, note length {length}")


OPS = [("k", 0x78), ("k", 0), ("k", 0x7F), ("k", 0x3F), ("p", 0x28, 0x5A), ("p", 0x30, 0xFC), ("p", 0x20, 0xC0), ("t", 999),
       ("t", 1), ("t", 7000)]


def run_seq(seq, ctx):
    p = Pair(ctx)
    for i in seq:
        o = OPS[i]
        if o[0] == "k":
            p.write(8, o[1])
        elif o[0] == "p":
            p.write(o[1], o[2])
        else:
            p.wait(o[1])
    listing(p, 1000, ctx, f"history {[OPS[i] for i in seq]}")


def run_text(case, ctx):
    """all key codes under every pan and key fraction; key-offs; many instruments"""
    ch, pan, octave = case
    p = Pair(ctx)
    p.write(8, 0x78 | ch)
    p.wait(1000)
    p.write(0x20 + ch, pan)
    for note in range(16):
        for kf in range(0, 256, 4 if note == octave else 28):
            p.write(0x28 + ch, octave << 4 | note)
            p.write(0x30 + ch, kf)
            p.write(0x60 + ch, kf & 0x7F)
            p.write(8, 0x78 | ch)
            p.wait(1000)
    p.write(8, ch)
    listing(p, 1000, ctx, f"channel {ch}, pan {pan:#x}, octave {octave}")


def run_bytes(case, ctx):
    """listings whose size lies right at a power of two"""
    target, d = case

    def build(rows, threes, fives):
        p = Pair(ctx)
        p.write(0x28, 0x31)
        for i in range(rows):
            # a key fraction adds three characters, a pan five
            p.write(0x30, 0xFC if i < threes else 0)
            p.write(0x20, 0xC0 if i >= fives else 0x80)
            p.write(8, 0x78)
            p.wait(1000)
        return p

    def size(p):
        return len(sut.export_csv(p.st, 1000, os.path.join(ctx.scratch, "l.csv")))
    one = (size(build(400, 0, 0)) - size(build(300, 0, 0))) / 100
    rows = int(target / one)
    while rows and target + d - size(build(rows, 0, 0)) < 8:
        rows -= 1
    lack = target + d - size(build(rows, 0, 0))
    for fives in range(3):
        if lack >= 5 * fives and (lack - 5 * fives) % 3 == 0 and (lack - 5 * fives) // 3 <= rows:
            p = build(rows, (lack - 5 * fives) // 3, fives)
            listing(p, 1000, ctx, f"{rows} notes, a listing of {target + d} characters")
            return


def run_dense(case, ctx):
    """events on all channels all along several patterns"""
    length, step, n = case
    if length == 1 and step * n > 60000:
        return
    p = Pair(ctx)
    for i in range(n):
        for ch in range(8):
            p.write(0x28 + ch, (i * 3 + ch) & 0x7F)
            if (i * 7 + ch * 3) % 5 < 3:
                p.write(8, (15 if (i + ch) % 3 else 0) << 3 | ch)
        p.wait(step * (1 + i % 3))
    listing(p, length, ctx, f"dense song, {n} steps of {step}, note length {length}")


def run_gap(case, ctx):
    """two events with a gap of rows, all gaps across pattern boundaries"""
    start, gap = case
    for length in (1, 1000):
        for c1, c2 in ((0, 0), (3, 4), (4, 3)):
            p = Pair(ctx)
            p.wait(start * length)
            p.write(8, 0x78 | c1)
            p.wait(gap * length)
            p.write(8, 0x38 | c2)
            listing(p, length, ctx, f"notes in rows {start} and {start + gap}, note length {length}")


def run_wide(rows, ctx):
    """a silence of very many rows"""
    p = Pair(ctx)
    p.write(8, 0x79)
    p.wait(rows)
    p.write(8, 0x7E)
    listing(p, 1, ctx, f"notes in rows 0 and {rows}, note length 1")


def run_huge(case, ctx):
    """times and note lengths beyond 2^53: rows stay exact"""
    bits, d, row = case
    length = (1 << bits) + d
    evs = [(0, 0, 15, 0x40), (length * row - 1, 1, 15, 0x41), (length * row, 2, 15, 0x42), (length * (row + 1) - 1, 3, 0, 0x43)]
    listing(song(ctx, evs), length, ctx, f"events around row {row}, note length {length}")


def run_boundaries(case, ctx):
    """events exactly on, just before and just after the start of rows"""
    lo, hi = case
    for length in range(lo, hi):
        evs = []
        for row in (1, 2, 3, 5, 6, 7, 11, 13, 27, 31, 33, 47, 49, 53, 55, 59, 63, 64, 67, 71, 83, 93, 98, 103, 107, 127, 131):
            if length > 2:
                evs.append((row * length - 1, 0, 15, 0x40))
                evs.append((row * length + length - 1, 2, 15, 0x40))
            evs.append((row * length, 1, 15, 0x41))
        evs.sort(key=lambda e: e[0])
        listing(song(ctx, evs), length, ctx, f"events at the ends and starts of rows, note length {length}")


def run_pairwise(case, ctx):
    """key events in which every two of row, channel, operators, pan, pitch and instrument meet in all combinations"""
    s, kind = case
    p = Pair(ctx)
    length = pairwise.song(p, kind, s)
    listing(p, length, ctx, f"song {s} ({kind}) of the orthogonal array")


def families(tier):
    th = tier == "thorough"
    lengths = [1, 2, 735, 1000, 1837, 4410, 7999] if th else [1, 1000, 4410]
    return [
        Family("instrument counts", lambda: itertools.product((0, 85, 171), pairwise.COUNTS), run_pairwise,
               f"songs of {len(pairwise.COUNTS)} numbers of instruments"),
        Family("pairwise", lambda: itertools.product(range(pairwise.P), ("rows", "mixed", "wide")), run_pairwise, "771 songs of 257 key events in "
               "which every two of row, channel, operators, pan, pitch, fraction, instrument and moment meet in every combination"),
        Family("pairs", lambda: itertools.product(lengths, range(3)), run_pairs,
               f"all pairs of 16 event times around row and pattern boundaries x 3 kinds x {len(lengths)} note lengths"),
        Family("triples", lambda: itertools.product(lengths if th else [1000], range(TRIPLE_SPLIT)), run_triples,
               "all triples of event times, four channel patterns"),
        Family("histories", lambda: sequences(len(OPS), 6 if th else 4), run_seq,
               f"all histories of up to {6 if th else 4} of {len(OPS)} operations"),
        Family("texts", lambda: itertools.product((0, 7) if not th else range(8), (0, 0x40, 0x80, 0xC0), range(8)), run_text,
               "all key codes, key fractions and pans"),
        Family("dense", lambda: itertools.product((1000, 1, 3333), (1, 250, 999, 1000, 1001, 5000), (10, 200)), run_dense,
               "dense songs"),
        Family("sizes", lambda: itertools.product([1024, 2048, 4096, 8192, 16384, 32768, 65536] + ([131072, 1 << 18] if th else []),
                                                  range(-4, 5)), run_bytes, "listings of every size around powers of two"),
        Family("boundaries", lambda: [(a, a + 1) for a in list(range(1000, 8000)) +
                                      list(range(1, 1000, 7 if th else 41)) + list(range(8000, 60000, 97 if th else 2003))],
               run_boundaries, "row boundaries under every note length" + ("" if th else " of a grid (thorough: every one)")),
        Family("far", lambda: itertools.product([1000, 1023, 1024, 2047, 4095, 4096, 5000, 8192, 32767, 32768, 65535, 65536, 70000]
                                                + ([100000, 1 << 18] if th else []), (0, 1, 64, 5000)), run_gap,
               "first events in late rows", cpu_s=300),
        Family("wide gaps", lambda: ((1 << 16) + 3, (1 << 17) + 3) + (((1 << 20) + 3, (1 << 22) + 3) if th else (1 << 18,)), run_wide,
               "silences of up to " + ("2^22" if th else "2^18") + " rows", cpu_s=600),
        Family("huge times", lambda: itertools.product((30, 31, 32, 47, 48, 50, 52, 53, 63, 64), (-1, 0, 1), (1, 3, 63, 64, 65, 129)), run_huge,
               "note lengths around 2^30 .. 2^64 and times up to 2^71"),
        Family("gaps", lambda: itertools.product((0, 1, 62, 63, 64), range(0, 200, 1 if th else 3)), run_gap,
               "gaps of 0..199 rows"),
    ]
