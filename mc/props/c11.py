"""Permanence: after events are recorded, every further operation in the bound is applied to the real state and the whole
history is observed again after it: all earlier events and instruments, read through the lists and through objects taken
before, must be unchanged and still be the beginning of the lists."""
import itertools
import operator

from .. import pairwise, ref, sut
from ..engine import Family, check_eq, sequences
from .c09 import BASES, Pair

LEVEL = "model_checking"
ASSUMPTIONS = ["events are read through State.key_presses, instruments through State.configs and the JSON encoder"]


def see_event(n):
    return (n.sample, n.config_id, n.right, n.left, n.octave, n.note, n.key_fraction, str(n) if n.config_id < 0 or
            n.note not in ref.RESERVED else None, n.xrns_note())


class Watch:
    """everything recorded so far: values, and the very objects"""

    def __init__(self, st):
        self.st = st
        self.events = [[] for _ in range(8)]
        self.notes = [[] for _ in range(8)]
        self.instruments = []
        self.configs = []
        self.look("the start")

    def look(self, what):
        for ch in range(8):
            notes = list(self.st.key_presses(ch))
            now = [see_event(n) for n in notes]
            old = self.events[ch]
            if now[:len(old)] != old:
                check_eq(now[:len(old)], old, f"events of channel {ch} recorded before {what}")
            same = len(old) == len(self.notes[ch]) and all(map(operator.is_, self.notes[ch], notes))
            again = old if same else [see_event(n) for n in self.notes[ch]]
            if again != old:
                check_eq(again, old, f"event objects of channel {ch} taken before {what}")
            self.events[ch], self.notes[ch] = now, notes
        configs = list(self.st.configs)
        now = [sut.instruments_text_one(c) for c in configs]
        old = self.instruments
        if now[:len(old)] != old:
            check_eq(now[:len(old)], old, f"instruments recorded before {what}")
        same = all(map(operator.is_, self.configs, configs))
        again = old if same else [sut.instruments_text_one(c) for c in self.configs]
        if again != old:
            check_eq(again, old, f"instrument objects taken before {what}")
        self.instruments, self.configs = now, configs


def history(ctx, base):
    """eight channels keyed on with their own timbres, some keyed off, time passing"""
    p = Pair(ctx, BASES[base])
    for ch in range(8):
        p.write(0x60 + ch, ch + 1)
        p.write(8, (15 if ch & 1 else 5) << 3 | ch)
        p.wait(ch)
        if ch % 3 == 0:
            p.write(8, ch)
    return p


def run_write(case, ctx):
    """after a history, all values of one register, one after the other"""
    base, reg, lo = case
    p = history(ctx, base)
    w = Watch(p.st)
    for v in range(lo, lo + 64):
        p.write(reg, v)
        w.look(f"register {reg:#04x} = {v:#04x}")
        ctx.trace()
        ctx.state((base, reg, v))
        if v % 16 == 3:
            p.key_all()
            w.look(f"notes after register {reg:#04x} = {v:#04x}")
    p.check(f"history over '{base}', then register {reg:#04x} = {lo:#04x}..{lo + 63:#04x}")


def run_pairs(case, ctx):
    """after a note, register a then b, with a key event between or not, then a wait and notes"""
    a, = case
    for b in range(256):
        p = Pair(ctx)
        p.write(8, 0x7F)
        p.write(8, 0x78 | a & 7)
        w = Watch(p.st)
        p.write(a, 0xFF)
        if b & 1:
            p.write(8, 0x78 | a & 7)
        p.write(b, 0xFF)
        p.wait(5)
        w.look(f"registers {a:#04x}, {b:#04x} = ff")
        p.key_all()
        p.write(a, 0)
        p.write(b, 0)
        w.look(f"registers {a:#04x}, {b:#04x} = ff, notes, both 0")
        p.check(f"note, registers {a:#04x}, {b:#04x} = ff, notes, both 0", ticks=False)


OPS = [(8, 0x78), (8, 0x00), (8, 0x79), (8, 0x0F), (0x20, 0xC7), (0x20, 0x00), (0x28, 0x4E), (0x31, 0xFC), (0x60, 0x7F),
       (0x19, 0x81), (0x18, 0x02), ("wait", 7)]


def run_seq(seq, ctx):
    p = Pair(ctx)
    w = Watch(p.st)
    for i in seq:
        r, v = OPS[i]
        if r == "wait":
            p.wait(v)
        else:
            p.write(r, v)
    w.look("the observation")
    for r, v in ((0x60, 0x11), (0x20, 0x55), (0x28, 0x12), (0x19, 0x44), (0x0F, 0x9F), (8, 0x7A), (8, 2), (8, 0x78)):
        p.write(r, v)
        w.look(f"{[OPS[i] for i in seq]}, then register {r:#04x} = {v:#04x}")
    p.wait(3)
    w.look("a wait")
    p.check(f"{[OPS[i] for i in seq]} and later writes", ticks=False)


def run_steps(seq, ctx):
    """as run_seq, observing after every single operation"""
    p = Pair(ctx)
    w = Watch(p.st)
    for k, i in enumerate(seq):
        r, v = OPS[i]
        if r == "wait":
            p.wait(v)
        else:
            p.write(r, v)
        w.look(f"operation {k} of {[OPS[j] for j in seq]}")
    p.check(f"{[OPS[i] for i in seq]}", ticks=False)


def run_long(case, ctx):
    """a long song: earlier parts must not change while it goes on"""
    n, chunk = case
    p = Pair(ctx)
    w = Watch(p.st)
    for i in range(n):
        p.write(0x60 + (i * 5 & 31), i & 0x7F)
        p.write(0x20 + (i & 7), i * 11 & 0xFF)
        p.write(0x28 + (i & 7), i * 13 & 0x7F)
        p.write(8, (i % 16) << 3 | i & 7)
        p.wait(i % 5)
        if i % chunk == 0:
            w.look(f"note {i} of a long song")
    p.check(f"song of {n} notes")


def run_many(case, ctx):
    """many instruments, told apart by global registers or by a channel's own; then every register changes"""
    n, how = case
    p = Pair(ctx)
    for i in range(n):
        if how == "global":
            p.write(0x18, i & 0xFF)
            p.write(0x19, 0x80 | i >> 8)
        elif how == "mixed":
            p.write(0x18, i * 7 & 0xFF)
            p.write(0x1B, i & 3)
            p.write(0x60 + (i & 7), i >> 3 & 0x7F)
        else:
            p.write(0x60 + (i & 7), i & 0x7F)
            p.write(0x78 + (i & 7), i >> 7)
        p.write(8, 0x78 | i & 7)
        p.wait(1)
    w = Watch(p.st)
    for r in range(256):
        for v in (0xFF, 0x80, 0x2A):
            p.write(r, v)
        if r in (0x0F, 0x18, 0x19, 0x1B) or r % 32 == 31:
            w.look(f"registers up to {r:#04x} = ff, 80, 2a")
            p.key_all()
            w.look(f"notes after registers up to {r:#04x} = ff, 80, 2a")
            ctx.trace()
    p.check(f"{n} instruments ({how}), then every register changed", ticks=False)


def run_pairwise(s, ctx):
    """rows of an orthogonal array: all registers of a channel, a key event, a wait"""
    p = Pair(ctx)
    w = Watch(p.st)
    ch = s & 7
    for t in range(pairwise.P):
        for r, v in pairwise.registers(s, t, ch):
            p.write(r, v)
        p.write(8, (pairwise.factor(s, t, 2) % 16 if t else 15) << 3 | ch)
        if t % 5 == 2:
            p.write(8, pairwise.factor(s, t, 3) & 0x7F)
        p.wait(pairwise.factor(s, t, 7) % 60)
        if t % 64 == 31:
            w.look(f"row {t} of the orthogonal array {s}")
    w.look(f"the end of the orthogonal array {s}")
    p.check(f"all rows of the orthogonal array {s}", ticks=False)


def run_songs(case, ctx):
    """songs whose channels, pitches, instruments and moments are factors of an orthogonal array; then writes everywhere"""
    kind, s = case
    p = Pair(ctx)
    w = Watch(p.st)
    pairwise.song(p, kind, s)
    w.look("the end of the song")
    for r, v in pairwise.registers(s, s):
        p.write(r, v)
    w.look(f"all registers after the song {case}")
    p.key_all()
    w.look(f"notes after the song {case}")
    p.check(f"song {case} of the orthogonal array", ticks=False)


def families(tier):
    th = tier == "thorough"
    bases = ("reset", "ones", "pattern") if th else ("pattern",)
    return [
        Family("every write after a history", lambda: itertools.product(bases, range(256), (0, 64, 128, 192)),
               run_write, f"all 65536 register/value pairs (key register included) over {len(bases)} contents, "
                          "everything observed again after each"),
        Family("register pairs", lambda: ((a,) for a in range(256)), run_pairs,
               "all 65536 register pairs after a note, key events between"),
        Family("sequences", lambda: sequences(len(OPS), 5 if th else 3), run_seq,
               f"all sequences of up to {5 if th else 3} of {len(OPS)} operations, then nine more, observed after each"),
        Family("stepwise", lambda: sequences(len(OPS), 5 if th else 4, 2), run_steps,
               f"all sequences of up to {5 if th else 4} operations, observed after every operation"),
        Family("pairwise", lambda: range(pairwise.P), run_pairwise, "66049 contents of a channel's registers in which every two registers "
               "(and the number of the row) take every pair of values, a key event after each, all observed again"),
        Family("pairwise songs", lambda: itertools.product(("mixed", 7, 41), range(pairwise.P)), run_songs,
               "771 songs of 257 key events in which every two of channel, slots, pan, pitch, instrument, moment and ordinal meet in every "
               "combination, then every register and a note on every channel"),
        Family("many instruments", lambda: itertools.product((40, 300, 1100) + ((2100, 5000) if th else ()), ("global", "mixed", "own")),
               run_many, f"{5000 if th else 1100} instruments, then every register changed and everything observed again", cpu_s=300),
        Family("long", lambda: [(300, 7), (900, 50)] + ([(3000, 100)] if th else []), run_long,
               "long songs observed while they go on", cpu_s=300),
    ]
