"""Tempo: the song exported for every note length in the bound carries exactly the tempo defined for it."""
import os

from .. import sut
from ..engine import Family, fail
from .c09 import Pair

LEVEL = "model_checking"


def notes(p, channels, timbres=1, gap=5000, off=True):
    for t in range(timbres):
        for ch in channels:
            p.write(0x60 + ch, t)
            p.write(8, 0x78 | ch)
            p.wait(gap)
            if off:
                p.write(8, ch)


CONTENTS = {
    "one timbre on channel 5": lambda p: notes(p, [5]),
    "timbres on channels 1 and 2": lambda p: notes(p, [1, 2], 3),
    "forty timbres on channel 7": lambda p: notes(p, [7], 40),
    "all channels at once": lambda p: notes(p, range(8), 2, 0),
    "held notes": lambda p: notes(p, range(8), 2, 777, False),
    "only key offs": lambda p: [(p.write(8, ch), p.wait(900)) for ch in range(8)],
    "late notes": lambda p: (p.wait(40000), notes(p, [0, 3], 2)),
    "slow notes": lambda p: notes(p, [0, 3], 2, 31000),
    "panning": lambda p: [(p.write(0x20 + ch, ch << 6 & 0xFF), notes(p, [ch], 1, 3)) for ch in range(8)],
    "noise and lfo": lambda p: (p.write(0x0F, 0x9F), p.write(0x18, 200), p.write(0x19, 0xFF), p.write(0x1B, 3), notes(p, [7], 2)),
    "waits only": lambda p: p.wait(100000),
    "256 timbres": lambda p: notes(p, [2], 256, 40),
    "300 timbres": lambda p: [(p.write(0x18, t & 255), p.write(0x19, t >> 8), p.write(8, 0x78), p.wait(3)) for t in range(300)],
    "thousands of events": lambda p: [(p.write(8, (t & 15) << 3 | t * 5 & 7), p.wait(20)) for t in range(3000)],
    "timer": lambda p: (p.write(0x10, 0xC0), p.write(0x12, 0xC0), p.write(0x14, 0x3F), notes(p, [0], 2)),
}


def run_length(case, ctx):
    """all note lengths of a range, for a song of a given number of events"""
    lo, hi, notes = case
    p = Pair(ctx)
    if isinstance(notes, str):
        CONTENTS[notes](p)
    else:
        for i in range(notes):
            p.write(8, 0x78 | i & 7)
            p.wait(lo // 2)
            p.write(8, i & 7)
    path = os.path.join(ctx.scratch, "t.xrns")
    for length in range(lo, hi):
        root = sut.parse_song(sut.export_xrns(p.st, length, path))
        g = root.find("GlobalSongData")
        got = [g.findtext(k) for k in ("BeatsPerMin", "LinesPerBeat")]
        want = [str(60 * 44100 // (4 * length)), "4"]
        ctx.ops()
        ctx.trace()
        ctx.state((length, got[0]))
        if got != want:
            fail(f"note length {length}: BeatsPerMin, LinesPerBeat are {got}, expected {want} ({notes} notes)")


def check_tempo(p, lengths, ctx, what):
    path = os.path.join(ctx.scratch, "t.xrns")
    for length in lengths:
        g = sut.parse_song(sut.export_xrns(p.st, length, path)).find("GlobalSongData")
        got = [g.findtext(k) for k in ("BeatsPerMin", "LinesPerBeat")]
        want = [str(60 * 44100 // (4 * length)), "4"]
        ctx.ops()
        ctx.trace()
        ctx.state((what, length))
        if got != want:
            fail(f"note length {length}: BeatsPerMin, LinesPerBeat are {got}, expected {want} ({what})")


def run_counts(n, ctx):
    """songs of n instruments; of n onsets; of n events at one onset"""
    for kind in range(3):
        p = Pair(ctx)
        for i in range(n):
            if kind == 0:
                p.write(0x18, i & 255)
                p.write(0x1B, i >> 8)
            p.write(8, 0x78 | i & 7)
            if kind == 1:
                p.wait(10)
        check_tempo(p, (1000 + n * 23, 7999 - n * 20, 2 * n + 5), ctx, f"{n} {('instruments', 'onsets', 'events')[kind]}")


NP = 61


def run_pairwise(s, ctx):
    """number of instruments, onsets, events, patterns and the note length as factors of an orthogonal array"""
    for t in range(NP):
        def f(k):
            return (s + t * k) % NP
        p = Pair(ctx)
        length = 1000 + f(1) * 61 + f(2)
        for i in range(f(3)):
            p.write(0x18, i)
            p.write(8, 0x78 | i & 7)
            if i < f(4):
                p.wait(1 + f(5))
        for i in range(f(6)):
            p.write(8, (f(7) + i) % 8)
        p.wait(f(8) * length)
        p.write(8, 0x78 * (f(9) & 1))
        check_tempo(p, (length, 5000 + f(10) * 49) if t % 4 == 0 else (length,), ctx, f"song {(s, t)} of the orthogonal array")


def run_estimated(period, ctx):
    """the tempo of a song exported with its estimated note length"""
    p = Pair(ctx)
    for i in range(4):
        p.write(8, 0x78)
        p.wait(period)
    length = p.st.ticks_per_note()
    path = os.path.join(ctx.scratch, "e.xrns")
    root = sut.parse_song(sut.export_xrns(p.st, length, path))
    got = root.find("GlobalSongData").findtext("BeatsPerMin")
    ctx.ops()
    ctx.trace()
    ctx.state(("estimated", period, got))
    if got != str(60 * 44100 // (4 * period)):
        fail(f"onsets every {period} samples: tempo {got}, expected {60 * 44100 // (4 * period)}")


def families(tier):
    th = tier == "thorough"

    def ranges():
        for lo in range(1, 1000, 25):
            yield (lo, min(lo + 25, 1000), 1)
        for lo in range(1000, 8000, 50):
            yield (lo, lo + 50, 1)
        for lo in range(8000, 30000 if th else 8200, 50):
            yield (lo, lo + 50, 1)
        for b in (44100, 65535, 661500, 661501, 1 << 31):
            yield (b - 2, b + 3, 1)
        for lo in range(1000, 8000, 50 if th else 700):
            yield (lo, lo + (50 if th else 10), 9)
            yield (lo, lo + (50 if th else 10), 0)

    return [
        Family("note lengths", ranges, run_length, f"every note length 1..{29999 if th else 8199} and around large values"),
        Family("contents", lambda: [(lo, lo + 10, c) for c in CONTENTS for lo in
                                    [*range(1, 60, 10), *range(1000, 8000, 100 if th else 400), 735, 882, 44095, 661495]], run_length,
               f"{len(CONTENTS)} kinds of songs exported with different note lengths"),
        Family("counts", lambda: range(0, 301), run_counts, "songs of 0..300 instruments, onsets and events under three note lengths each"),
        Family("pairwise", lambda: range(NP), run_pairwise, "3721 songs in which every two of number of instruments, onsets, "
               "events and patterns and the note length's factors meet in every combination", cpu_s=200),
        Family("estimated", lambda: range(1000, 8000, 7 if th else 97), run_estimated, "songs exported with the estimate"),
    ]
