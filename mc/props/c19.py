"""Cells: every key code, octave, pan, key fraction and instrument number up to the bound is exported and every cell read
back; its note name, instrument and pan must be the defined ones."""
import itertools
import os
import re

from .. import pairwise, ref, sut
from ..engine import Family, check_eq, fail
from .c09 import Pair

LEVEL = "model_checking"
ASSUMPTIONS = ["reserved key codes (3, 7, 11, 15 of each octave) only have to give some well-formed note name"]
NAME = re.compile(r"[A-G][-#][0-9]\Z")


def cells(p, ctx, length=1000):
    root = sut.parse_song(sut.export_xrns(p.st, length, os.path.join(ctx.scratch, "c.xrns")))
    ctx.ops()
    return sut.song_grid(root)[0]


def compare(p, ctx, what, length=1000):
    got = cells(p, ctx, length)
    exp, _ = ref.grid(p.chip.events, length)
    ctx.trace()
    if set(got) != set(exp):
        fail(f"{what}: cells {sorted(set(got) ^ set(exp))[:8]} missing or unexpected")
    for k, ev in exp.items():
        want = ref.cell(ev)
        if want[0] is None:
            if not NAME.match(got[k][0] or ""):
                fail(f"{what}: reserved key code {ev[4]}/{ev[5]} shows {got[k][0]!r}, not a note name")
            want = (got[k][0],) + want[1:]
        ctx.state(want)
        if got[k] != want:
            check_eq(got[k], want, f"{what}: cell of event (time, instrument, right, left, octave, note, fraction) {ev} "
                                   f"shows (note, instrument, pan)")


def run_codes(case, ctx):
    """all 256 key codes under one pan and one key fraction on a channel, note on and off"""
    ch, pan, kf, off = case
    p = Pair(ctx)
    p.write(8, 0x78 | (ch + 1) % 8)
    p.wait(1000)
    p.write(0x20 + ch, pan | 0x15)
    p.write(0x30 + ch, kf)
    for kc in range(256):
        p.write(0x28 + ch, kc)
        p.write(8, (0 if off else 15) << 3 | ch)
        p.wait(1000)
    compare(p, ctx, f"channel {ch}, register 0x20 {pan | 0x15:#x}, key fraction register {kf:#x}, {'off' if off else 'on'}")


def run_numbers(case, ctx):
    """instrument numbers 0..n-1, each used twice"""
    n, ch, pan = case
    p = Pair(ctx)
    p.write(0x20 + ch, pan)
    for i in range(n):
        p.write(0x60 + ch, i & 0x7F)
        p.write(0x68 + ch, i >> 7)
        p.write(0x28 + ch, i * 5 + (i >> 8) & 0x7F)
        p.write(8, 0x78 | ch)
        p.wait(1000)
        p.write(8, ch)
        p.wait(1000)
    for i in (0, n // 2, n - 1):
        p.write(0x60 + ch, i & 0x7F)
        p.write(0x68 + ch, i >> 7)
        for kc in range(128):
            p.write(0x28 + ch, kc)
            p.write(8, 0x78 | ch)
            p.wait(1000)
    compare(p, ctx, f"{n} instruments on channel {ch}")


def run_pans(case, ctx):
    """pan changes between note-on and note-off; all 256 values of the register"""
    ch, octave = case
    p = Pair(ctx)
    for v in range(256):
        p.write(0x20 + ch, v)
        p.write(0x28 + ch, octave << 4 | v % 16)
        p.write(8, 0x78 | ch)
        p.wait(1000)
        p.write(0x20 + ch, v ^ 0xC0)
        p.write(8, ch)
        p.wait(1000)
        p.write(0x20 + ch, v + 0x40 & 0xFF)
        p.write(8, 0x08 | ch)
        p.wait(1000)
    compare(p, ctx, f"channel {ch}, octave {octave}, every value of register 0x20")


def run_numbers_pans(case, ctx):
    """every instrument number with every pan"""
    n, ch = case
    p = Pair(ctx)
    for i in range(n):
        p.write(0x60 + ch, i & 0x7F)
        p.write(0x68 + ch, i >> 7)
        for pan in (0, 0x40, 0x80, 0xC0):
            p.write(0x20 + ch, pan)
            p.write(0x28 + ch, i * 7 + pan // 64 & 0x7F)
            p.write(8, 0x78 | ch)
            p.wait(1000)
            p.write(8, ch)
            p.wait(1000)
    compare(p, ctx, f"instruments 0..{n - 1} with every pan on channel {ch}")


def run_slots(case, ctx):
    """operator sets do not change the name"""
    ch, = case
    p = Pair(ctx)
    for kc in range(128):
        for slots in (1, 8, 15, 0, 6):
            p.write(0x28 + ch, kc)
            p.write(8, slots << 3 | ch)
            p.wait(1000)
    compare(p, ctx, f"channel {ch}, every key code with several operator sets")


def run_pairwise(case, ctx):
    """key events in which every two of row, channel, operators, pan, pitch and instrument meet in all combinations"""
    s, kind = case
    p = Pair(ctx)
    length = pairwise.song(p, kind, s)
    compare(p, ctx, f"song {s} ({kind}) of the orthogonal array", length)


def families(tier):
    th = tier == "thorough"
    return [
        Family("instrument counts", lambda: itertools.product((0, 85, 171), pairwise.COUNTS), run_pairwise,
               f"songs of {len(pairwise.COUNTS)} numbers of instruments"),
        Family("pairwise", lambda: itertools.product(range(pairwise.P), ("rows", "mixed", "wide")), run_pairwise, "771 songs of 257 key events in "
               "which every two of row, channel, operators, pan, pitch, fraction, instrument and moment meet in every combination"),
        Family("key codes", lambda: itertools.product(range(8), (0, 0x40, 0x80, 0xC0), (0, 4, 0x80, 0xFF) if th else (0, 0xFC),
                                                      (0, 1)), run_codes,
               "256 key codes x 4 pans x key fractions x channels x on/off"),
        Family("instrument numbers", lambda: itertools.product((1, 2, 10, 16, 17, 256, 300, 4098) + ((1000, 10000) if th else ()),
                                                               (0, 7) if th else (3,), (0xC0, 0x40)), run_numbers,
               "instrument numbers 0..299 and 0..4097", cpu_s=600),
        Family("numbers and pans", lambda: itertools.product((301,), range(8) if th else (2,)), run_numbers_pans,
               "instruments 0..300 with every pan", cpu_s=200),
        Family("pans", lambda: itertools.product(range(8), range(0, 8, 1 if th else 4)), run_pans,
               "256 values of the pan register, changed between on and off"),
        Family("operator sets", lambda: ((c,) for c in range(8)), run_slots, "operator sets x key codes"),
    ]
