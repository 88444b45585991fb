"""Exports only read: exports of every kind are inserted at all subsets of positions of a history; every export must have
the content an untouched extraction of the same prefix exports, and the final notes and instruments must be the
reference's."""
import itertools
import os

from .. import many, sut
from ..engine import Family, check_eq, fail, sequences
from .c09 import Pair

LEVEL = "model_checking"
ASSUMPTIONS = ["the content of a tracker song is its Song.xml; the archive also stores the time it was written"]

HISTORIES = {
    "notes": [(0x20, 0xC7), (8, 0x78), ("wait", 1500), (8, 0x00), (0x61, 0x7), (8, 0x79), ("wait", 1500), (8, 0x78)],
    "offs first": [(8, 0x00), ("wait", 9), (8, 0x7B), (0x1B, 3), (8, 0x7B), ("wait", 70000), (8, 3), (8, 0x0C)],
    "chords": [(8, 0x78), (8, 0x7A), (0x28, 0x4A), (8, 0x78), ("wait", 999), (8, 0x09), (8, 0x7F), ("wait", 2)],
    "retrigger": [(8, 0x78), ("wait", 1000), (8, 0), (8, 0x78), (8, 0), (8, 0x7A), ("wait", 1), (8, 0x78)],
    "pans": [(0x27, 0x40), (8, 0x7F), ("wait", 1500), (0x27, 0x80), (8, 0x07), ("wait", 1500)],
    "globals": [(0x18, 9), (8, 0x7C), (0x19, 0x81), ("wait", 63999), (8, 0x7C), (0x19, 1), (8, 0x7C), (8, 4)],
}
KINDS = ("json", "xrns", "csv", "length", "progress")
LENGTH = 1000


def export(ctx, st, kind, length=LENGTH):
    path = os.path.join(ctx.scratch, "x." + kind)
    ctx.ops()
    if kind == "json":
        return sut.export_instruments(st, path)
    if kind == "xrns":
        return sut.song_xml(sut.export_xrns(st, length, path))
    if kind == "csv":
        return sut.export_csv(st, length, path)
    return st.ticks_per_note(show_progress=True) if kind == "progress" else st.ticks_per_note()


def fresh(ctx, ops):
    p = Pair(ctx)
    for r, v in ops:
        p.wait(v) if r == "wait" else p.write(r, v)
    return p


_clean = {}


def clean(ctx, ops, kind, length=LENGTH):
    """the export of an untouched extraction of the same operations"""
    key = (tuple(ops), kind, length)
    if key not in _clean:
        _clean[key] = export(ctx, fresh(ctx, ops).st, kind, length)
    return _clean[key]


def run_subset(case, ctx):
    """exports of given kinds at the positions in the mask, in order"""
    name, mask, kinds = case
    ops = HISTORIES[name]
    p = Pair(ctx)
    n = 0
    for pos in range(len(ops) + 1):
        if mask >> pos & 1:
            kind = kinds[n % len(kinds)]
            n += 1
            got = export(ctx, p.st, kind)
            want = clean(ctx, ops[:pos], kind)
            ctx.state((name, pos, mask & (1 << pos) - 1, kinds))
            if got != want:
                check_eq(got, want, f"{kind} export after {pos} operations of '{name}' with exports {kinds} at the "
                                    f"positions {mask:b}")
            p.check(f"'{name}' after {pos} operations and a {kind} export")
        if pos < len(ops):
            r, v = ops[pos]
            p.wait(v) if r == "wait" else p.write(r, v)
    p.check(f"'{name}' with exports {kinds} at the positions {mask:b}")
    for r, v in ((0x60, 0x22), (0x19, 0xC4), (8, 0x78), ("wait", 77), (8, 0x79), (8, 0)):
        p.wait(v) if r == "wait" else p.write(r, v)
    p.check(f"'{name}' with exports {kinds} at the positions {mask:b}, continued")


def run_kinds(seq, ctx):
    """every sequence of exports at the end of a history; each like an untouched one"""
    for name, ops in HISTORIES.items():
        p = fresh(ctx, ops)
        for n, i in enumerate(seq):
            got = export(ctx, p.st, KINDS[i])
            want = clean(ctx, ops, KINDS[i])
            ctx.state((name, seq[:n + 1]))
            if got != want:
                check_eq(got, want, f"export {n} of {[KINDS[j] for j in seq]} of '{name}'")
        p.check(f"'{name}' after the exports {[KINDS[j] for j in seq]}")


SMALL = [(8, 0x78), (8, 0x00), (8, 0x79), (0x60, 5), ("wait", 1500), (0x20, 0x40)]


def run_small(seq, ctx):
    """every short history, exported in every way at its end and then continued"""
    ops = [SMALL[i] for i in seq]
    for kind in KINDS:
        p = fresh(ctx, ops)
        a = export(ctx, p.st, kind)
        p.check(f"history {ops} and a {kind} export")
        if kind != "xrns":
            b = export(ctx, p.st, kind)
            if a != b:
                check_eq(b, a, f"a second {kind} export of the history {ops}")
        for r, v in ((8, 0x00), ("wait", 3), (8, 0x78)):
            p.wait(v) if r == "wait" else p.write(r, v)
        p.check(f"history {ops}, a {kind} export, then more")
    ctx.state(seq)


def run_lengths(case, ctx):
    """exports with several note lengths one after the other"""
    kind, a, b = case
    for name, ops in HISTORIES.items():
        p = fresh(ctx, ops)
        for length in (a, b, a):
            got = export(ctx, p.st, kind, length)
            want = clean(ctx, ops, kind, length)
            if got != want:
                check_eq(got, want, f"{kind} export of '{name}' with note length {length} among {a}, {b}, {a}")
        p.check(f"'{name}' after {kind} exports with note lengths {a}, {b}, {a}")


def run_onto(case, ctx):
    """exporting over an older, longer or shorter output leaves just the new content"""
    kind, old = case
    for name, ops in HISTORIES.items():
        path = os.path.join(ctx.scratch, "x." + kind)
        with open(path, "wb") as f:
            f.write(b"old \x00\xff" * old)
        p = fresh(ctx, ops)
        got = export(ctx, p.st, kind)
        want = clean(ctx, ops, kind)
        if got != want:
            check_eq(got, want, f"{kind} export of '{name}' over a file of {5 * old} bytes")
        p.check(f"'{name}' after a {kind} export over an older file")


def run_long(case, ctx):
    """a long history with an export after every k-th operation"""
    kind, n, k = case
    p = Pair(ctx)
    for i in range(n):
        p.write(0x60 + i % 32, i & 0x7F)
        p.write(8, (i * 5 & 15) << 3 | i & 7)
        p.wait(i * 37 % 2000)
        if i % k == 0:
            export(ctx, p.st, kind)
    p.check(f"history of {n} notes with a {kind} export every {k}")
    q = Pair(ctx)
    for i in range(n):
        q.write(0x60 + i % 32, i & 0x7F)
        q.write(8, (i * 5 & 15) << 3 | i & 7)
        q.wait(i * 37 % 2000)
    for kd in KINDS[:4]:
        check_eq(export(ctx, p.st, kd), export(ctx, q.st, kd), f"{kd} export after {kind} exports all along")


def run_thick(case, ctx):
    """many events: exports in the middle and at the end keep every one of them"""
    n, kind, channels = case
    p = Pair(ctx)
    for i in range(n):
        p.write(8, (15 if i % 3 else 5) << 3 | i % channels)
        p.wait(7 if i % 2 else 0)
        if i == n // 2:
            export(ctx, p.st, kind)
    a = export(ctx, p.st, kind)
    p.check(f"{n} events on {channels} channels with two {kind} exports")
    if export(ctx, p.st, kind) != a:
        fail(f"{n} events on {channels} channels: a second {kind} export differs")
    p.write(8, 0x00)
    p.check(f"{n} events on {channels} channels, {kind} exports, then another event")


def run_many(case, ctx):
    """a process that exports after every key event"""
    s, n = case
    many.run("exports", s, n, ctx)


def families(tier):
    th = tier == "thorough"

    def subsets():
        for name in HISTORIES:
            for mask in range(1, 1 << (len(HISTORIES[name]) + 1)):
                for kinds in [("json",), ("csv",)] + ([(k,) for k in KINDS[1:2] + KINDS[3:]] if th else []):
                    yield (name, mask, kinds)
                bits = bin(mask).count("1")
                if bits <= (9 if th else 2):
                    if not th:
                        for k in KINDS[1:2] + KINDS[3:]:
                            yield (name, mask, (k,))
                    for a, b in itertools.permutations(KINDS, 2):
                        if bits > 1 and (th or (a, b) in (("xrns", "json"), ("length", "xrns"))):
                            yield (name, mask, (a, b))
    return [
        Family("positions", subsets, run_subset,
               "exports at all subsets of the positions of six histories" +
               ("" if th else "; the slow kinds at all one- and two-element subsets")),
        Family("every event", lambda: itertools.product(range(0, 257, 1 if th else 8), (128,)), run_many, "fresh processes with songs of up to 128 key "
               "events and an export after each, in which every two of ordinal, channel, instrument, pitch, length and kind of export meet", cpu_s=300),
        Family("sequences of exports", lambda: sequences(len(KINDS), 4 if th else 3, 1), run_kinds,
               f"all sequences of up to {4 if th else 3} exports"),
        Family("short histories", lambda: sequences(len(SMALL), 5 if th else 4), run_small,
               f"all histories of up to {5 if th else 4} of {len(SMALL)} operations, exported in every way and continued"),
        Family("note lengths", lambda: itertools.product(("xrns", "csv"), (1, 999, 1000, 7999), (1, 2, 1000, 5000, 70001)),
               run_lengths, "three exports with two note lengths"),
        Family("over old files", lambda: itertools.product(KINDS[:3], (0, 1, 100, 20000)), run_onto,
               "outputs over older ones of four sizes"),
        Family("many events", lambda: [(n, k, c) for k in KINDS[:4] for n in ([5000, 33000, 70000] if th else [66000])
                                       for c in (1, 8)], run_thick, "exports of up to " + ("70000" if th else "66000") + " events", cpu_s=900),
        Family("long", lambda: ((k, n, s) for k in KINDS for n, s in ([(300, 7), (1000, 50)] if th else [(200, 10)])),
               run_long, "exports all along a long history", cpu_s=300),
    ]
