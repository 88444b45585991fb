"""Tracker grid: for all event pairs and triples around row and pattern boundaries, on all channels, and for all histories
to a depth, the exported song (read back from the archive) must hold exactly the cells of the reference grid, in order."""
import itertools
import os

from .. import pairwise, ref, sut
from ..engine import Family, check_eq, fail, sequences
from .c09 import Pair

LEVEL = "model_checking"


def check_song(p, length, ctx, what):
    """export and compare every cell"""
    root = sut.parse_song(sut.export_xrns(p.st, length, os.path.join(ctx.scratch, "g.xrns")))
    got, patterns, ordered = sut.song_grid(root)
    exp, exp_patterns = ref.grid(p.chip.events, length)
    ctx.ops()
    ctx.trace()
    ctx.state((length, tuple(sorted(exp.items()))))
    if set(got) != set(exp):
        more, less = sorted(set(got) - set(exp))[:5], sorted(set(exp) - set(got))[:5]
        fail(f"{what}, note length {length}: cells (pattern, channel, row) missing {less}, unexpected {more}")
    for k, ev in exp.items():
        want = ref.cell(ev)
        if want[0] is None:
            want = (got[k][0],) + want[1:]
        if got[k] != want:
            check_eq(got[k], want, f"{what}, note length {length}: cell (pattern, channel, row) {k} shows (note, instrument, "
                                   f"pan)")
    if patterns != exp_patterns:
        fail(f"{what}, note length {length}: {patterns} patterns, expected {exp_patterns}")
    if not ordered:
        fail(f"{what}, note length {length}: a track lists its rows out of order")
    return root


def times(length):
    """event times around row and pattern boundaries"""
    L = length
    return sorted({max(0, x) for x in (0, 1, L - 1, L, L + 1, 2 * L, 63 * L - 1, 63 * L, 64 * L - 1, 64 * L, 64 * L + 1,
                                       65 * L, 127 * L, 128 * L - 1, 128 * L, 192 * L)})


def song(ctx, events):
    """(time, channel, kind, pitch) events, sorted by time; kind 0 off, 1.. slots"""
    p = Pair(ctx)
    p.write(8, 0x78)  # the song starts
    now = 0
    for t, ch, kind, kc in events:
        if t > now:
            p.wait(t - now)
            now = t
        p.write(0x28 + ch, kc)
        p.write(8, kind << 3 | ch)
    return p


def run_pairs(case, ctx):
    """eight pairs of event times at once, one per channel, note-note, note-off, off-note"""
    length, kind, block = case
    ts = times(length)
    pairs = list(itertools.combinations_with_replacement(ts, 2))
    rot = list(range(8))
    chunk = pairs[block * 8:block * 8 + 8]
    for shift in (0, 3):
        evs = []
        for i, (a, b) in enumerate(chunk):
            ch = rot[(i + shift) % 8]
            k1, k2 = ((15, 3), (15, 0), (0, 15))[kind]
            evs.append((a, ch, k1, 0x31 + (i << 4) % 0x50))
            evs.append((b, ch, k2, 0x4E))
        evs.sort(key=lambda e: e[0])
        check_song(song(ctx, evs), length, ctx, f"events {evs}")


def run_triples(case, ctx):
    """three events of one channel, same on the others one row later"""
    length, i = case
    ts = times(length)
    trip = list(itertools.combinations_with_replacement(ts, 3))[i::TRIPLE_SPLIT]
    for k in range(0, len(trip), 4):
        evs = []
        for n, (a, b, c) in enumerate(trip[k:k + 4]):
            evs += [(a, n, 15, 0x40), (b, n, 0, 0x41), (c, n, 7, 0x42), (a + length, 7 - n, 1, 0x50), (b, 7 - n, 2, 0x51)]
        evs.sort(key=lambda e: e[0])
        check_song(song(ctx, evs), length, ctx, f"events {evs}")


TRIPLE_SPLIT = 16
OPS = [("k", 0x78), ("k", 0), ("k", 0x7F), ("k", 0x3F), ("p", 0x28, 0x5A), ("t", 999), ("t", 1), ("t", 63000)]


def run_seq(seq, ctx):
    p = Pair(ctx)
    for i in seq:
        o = OPS[i]
        if o[0] == "k":
            p.write(8, o[1])
        elif o[0] == "p":
            p.write(o[1], o[2])
        else:
            p.wait(o[1])
    p.write(8, 0x79)
    check_song(p, 1000, ctx, f"history {[OPS[i] for i in seq]}, then a note on channel 1")


def run_every_row(case, ctx):
    """an event in every row of several patterns, on every channel, in another place each row"""
    length, off = case
    p = Pair(ctx)
    for row in range(64 * 3 + 5):
        for ch in range(8):
            p.write(0x28 + ch, (row + ch) & 0x7F)
            if (row + ch) % 3 != 2:
                p.write(8, (15 if (row + ch) % 3 else 0) << 3 | ch)
        p.wait(length if off is None else off)
    check_song(p, length, ctx, f"events all along every {off or length} samples")


def run_crowd(case, ctx):
    """a new instrument with every note, in every cell of several patterns"""
    length, n = case
    p = Pair(ctx)
    for row in range(n):
        for ch in range(8):
            i = row * 8 + ch
            p.write(0x60 + ch, i & 0x7F)
            p.write(0x68 + ch, i >> 7)
            p.write(0x28 + ch, i * 3 & 0x7F)
            p.write(8, 0x78 | ch)
        p.wait(length)
    for ch in range(8):
        p.write(8, ch)
    check_song(p, length, ctx, f"{n * 8} notes, each with an instrument of its own")


def run_far(case, ctx):
    """single events far out; empty patterns before and between"""
    ch, pattern, row, length = case
    p = Pair(ctx)
    p.wait((pattern * 64 + row) * length)
    p.write(8, 0x78 | ch)
    p.wait(length * 64 * 3)
    p.write(8, ch)
    p.write(8, 0x78 | (ch + 1) % 8)
    check_song(p, length, ctx, f"first event on channel {ch} in pattern {pattern} row {row}, next three patterns later")


def run_huge(case, ctx):
    """times and note lengths beyond 2^53: rows stay exact"""
    bits, d, row = case
    length = (1 << bits) + d
    p = Pair(ctx)
    p.write(8, 0x78)
    p.wait(length * row - 1)
    p.write(8, 0x79)
    p.wait(1)
    p.write(8, 0x7A)
    p.wait(length - 1)
    p.write(8, 0x03)
    check_song(p, length, ctx, f"events around row {row}, note length {length}")


def run_lengths(case, ctx):
    """a fixed song under every note length of a range"""
    lo, hi = case
    p = Pair(ctx)
    for i in range(30):
        p.write(0x20 + (i & 7), i * 9 & 0xFF)
        p.write(0x28 + (i & 7), (i * 5) & 0x7F)
        p.write(8, (0 if i % 5 == 4 else 15) << 3 | i & 7)
        p.wait(i * 331 % 1777)
    for length in range(lo, hi):
        check_song(p, length, ctx, "a fixed song")


def run_boundaries(case, ctx):
    """events exactly on, just before and just after the start of rows, for every note length of a range"""
    lo, hi = case
    for length in range(lo, hi):
        evs = []
        for row in (1, 2, 3, 5, 6, 7, 11, 13, 21, 27, 31, 33, 41, 47, 49, 53, 55, 59, 63, 64, 67, 71, 83, 93, 98, 103, 107, 127, 131):
            if length > 2:
                evs.append((row * length - 1, 0, 15, 0x40))
                evs.append((row * length + length - 1, 2, 15, 0x40))
            evs.append((row * length, 1, 15, 0x41))
        evs.sort(key=lambda e: e[0])
        check_song(song(ctx, evs), length, ctx, "events at the ends and starts of rows")


def run_pairwise(case, ctx):
    """key events in which every two of row, channel, operators, pan, pitch and instrument meet in all combinations"""
    s, kind = case
    p = Pair(ctx)
    length = pairwise.song(p, kind, s)
    check_song(p, length, ctx, f"song {s} ({kind}) of the orthogonal array")


def families(tier):
    th = tier == "thorough"
    lengths = [1, 2, 735, 1000, 1837, 4410, 7999] if th else [1, 1000, 4410]
    npairs = (len(list(itertools.combinations_with_replacement(range(16), 2))) + 7) // 8
    return [
        Family("instrument counts", lambda: itertools.product((0, 85, 171), pairwise.COUNTS), run_pairwise,
               f"songs of {len(pairwise.COUNTS)} numbers of instruments"),
        Family("pairwise", lambda: itertools.product(range(pairwise.P), ("rows", "mixed", "wide")), run_pairwise, "771 songs of 257 key events in "
               "which every two of row, channel, operators, pan, pitch, fraction, instrument and moment meet in every combination"),
        Family("pairs", lambda: itertools.product(lengths, range(3), range(npairs)), run_pairs,
               f"all pairs of 16 event times around row and pattern boundaries x 3 kinds x {len(lengths)} note lengths"),
        Family("triples", lambda: itertools.product([1000] if not th else lengths, range(TRIPLE_SPLIT)), run_triples,
               "all triples of event times around boundaries"),
        Family("histories", lambda: sequences(len(OPS), 5 if th else 4), run_seq,
               f"all histories of up to {5 if th else 4} of {len(OPS)} operations"),
        Family("every row", lambda: itertools.product((1000, 1, 3333), (None, 999, 1001, 250)), run_every_row,
               "dense songs of several patterns"),
        Family("every cell", lambda: itertools.product((1000, 1, 777), (33, 64, 70, 129) + ((600,) if th else ())), run_crowd,
               "a note with its own instrument in every cell", cpu_s=300),
        Family("boundaries", lambda: [(a, a + 1) for a in list(range(1000, 8000, 1 if th else 5)) +
                                      list(range(1, 1000, 7 if th else 41)) + list(range(8000, 60000, 97 if th else 2003))],
               run_boundaries, "row boundaries under every note length" + ("" if th else " of a grid (thorough: every one)")),
        Family("far", lambda: itertools.product(range(8), (0, 1, 2, 40), (0, 1, 63), (1000, 7)), run_far,
               "single events in late patterns"),
        Family("very far", lambda: itertools.product((0, 7), [64, 127, 252, 255, 256, 508, 511, 512, 996, 999, 1000, 1020, 1023, 1024]
                                                     + ([2048, 4095, 5000] if th else []), (0, 63), (1000, 1)), run_far,
               "single events in patterns up to " + ("5000" if th else "1024"), cpu_s=300),
        Family("huge times", lambda: itertools.product((30, 31, 32, 47, 48, 50, 52, 53, 63, 64), (-1, 0, 1), (1, 3, 63, 64, 65, 129)), run_huge,
               "note lengths around 2^30 .. 2^64 and times up to 2^71"),
        Family("note lengths", lambda: [(a, a + 10) for a in list(range(1000, 8000, 10 if th else 350)) +
                                        [100, 200, 9000, 50000]],
               run_lengths, "a song under many note lengths"),
    ]
