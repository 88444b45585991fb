"""Document structure: for every song shape in the bound (patterns, tracks, instruments, events), exported from a chip
state or from the song parts, the archive is opened and every structural rule checked on the parsed document."""
import io
import itertools
import os
import zipfile
import xml.etree.ElementTree as ET

from .. import ref, sut
from ..engine import Family, fail, sequences
from .c09 import Pair

LEVEL = "model_checking"


def check_doc(data, tracks, instruments, patterns, what, ctx):
    """all rules -> the root element"""
    if not data.startswith(b"PK\x03\x04"):
        fail(f"{what}: not a zip archive: {data[:8]!r}")
    with zipfile.ZipFile(io.BytesIO(data)) as z:
        bad = z.testzip()
        names = z.namelist()
        if bad or names != ["Song.xml"]:
            fail(f"{what}: the archive holds {names}, damaged: {bad}")
        xml = z.read("Song.xml")
    try:
        root = ET.fromstring(xml)
    except ET.ParseError as e:
        fail(f"{what}: Song.xml is not well-formed: {e}")
    if root.tag != "RenoiseSong" or root.get("doc_version") != "65":
        fail(f"{what}: root {root.tag}, document version {root.get('doc_version')}")
    tops = [e.tag for e in root]
    for t in ("GlobalSongData", "Instruments", "Tracks", "PatternPool", "PatternSequence"):
        if tops.count(t) != 1:
            fail(f"{what}: {tops.count(t)} elements {t}")
    n = [e.tag for e in root.find("Instruments")]
    if n != ["Instrument"] * instruments:
        fail(f"{what}: declares {len(n)} instruments ({sorted(set(n))}), expected {instruments}")
    kinds = [(e.tag, e.get("type")) for e in root.find("Tracks")]
    want = [(k, k) for k in ["SequencerTrack"] * tracks + ["SequencerMasterTrack", "SequencerSendTrack"]]
    if kinds != want:
        fail(f"{what}: tracks {kinds}, expected {want}")
    pats = root.findall("PatternPool/Patterns/*")
    if [p.tag for p in pats] != ["Pattern"] * patterns:
        fail(f"{what}: {len(pats)} patterns, expected {patterns}")
    want = [(k, k) for k in ["PatternTrack"] * tracks + ["PatternMasterTrack", "PatternSendTrack"]]
    for i, p in enumerate(pats):
        parts = [(e.tag, e.get("type")) for e in p.find("Tracks")]
        if parts != want:
            fail(f"{what}: pattern {i} has the parts {parts}, expected {want}")
        lines = p.findtext("NumberOfLines")
        if lines not in (None, "64"):
            fail(f"{what}: pattern {i} has {lines} lines")
    seq = root.findall("PatternSequence/SequenceEntries/*")
    order = [e.findtext("Pattern") for e in seq]
    if order != [str(i) for i in range(patterns)] or any(e.tag != "SequenceEntry" for e in seq):
        fail(f"{what}: the sequence plays {order[:20]}, expected every pattern 0..{patterns - 1} once in order")
    for e in root.iter("NoteColumn"):
        i = e.findtext("Instrument")
        if i is not None and not (len(i) >= 2 and i == i.upper() and int(i, 16) < instruments):
            fail(f"{what}: a cell uses instrument {i!r}, {instruments} are declared")
    for e in root.iter("Line"):
        if not 0 <= int(e.get("index")) < 64:
            fail(f"{what}: line index {e.get('index')}")
    ctx.trace()
    ctx.ops()
    ctx.state((tracks, instruments, patterns, hash(xml)))
    return root


def export(p, length, ctx, what):
    data = sut.export_xrns(p.st, length, os.path.join(ctx.scratch, "d.xrns"))
    _, patterns = ref.grid(p.chip.events, length)
    return check_doc(data, 8, len(p.chip.instruments), patterns, what, ctx)


def run_shape(case, ctx):
    """a song with the last event in a given pattern and a number of instruments"""
    patterns, instruments, gaps = case
    p = Pair(ctx)
    for i in range(instruments):
        p.write(0x60 + (i & 7), i >> 3 & 0x7F)
        p.write(0x68 + (i & 7), i >> 7)
        p.write(0x18, i & 0x1F)
        p.write(8, 0x78 | i & 7)
        if gaps:
            p.wait(1)
    if patterns and instruments:
        p.wait((patterns - 1) * 64 * 1000)
        p.write(8, 3)
    if len(p.chip.instruments) != instruments:
        raise RuntimeError(f"the driver made {len(p.chip.instruments)} instruments, not {instruments}")
    export(p, 1000, ctx, f"song with {instruments} instruments over {patterns} patterns")


OPS = [("k", 0x78), ("k", 0), ("k", 0x7F), ("w", 0x60, 9), ("w", 0x20, 0x40), ("t", 64000), ("t", 1000)]


def run_long(case, ctx):
    """song lengths around the limits of every counter, in patterns"""
    patterns, length = case
    p = Pair(ctx)
    p.write(8, 0x78)
    p.wait((patterns - 1) * 64 * length)
    p.write(8, 0x7B)
    p.write(8, 3)
    export(p, length, ctx, f"song of {patterns} patterns, note length {length}")


def run_dense(case, ctx):
    """documents of many megabytes: an event in every row of every track"""
    rows, channels = case
    p = Pair(ctx)
    for i in range(rows):
        for ch in range(channels):
            p.write(8, (15 if i & 1 else 0 if i else 7) << 3 | ch)
        p.wait(1000)
    export(p, 1000, ctx, f"song with an event in each of {rows} rows on {channels} channels")


def run_seq(seq, ctx):
    p = Pair(ctx)
    for i in seq:
        o = OPS[i]
        if o[0] == "k":
            p.write(8, o[1])
        elif o[0] == "w":
            p.write(o[1], o[2])
        else:
            p.wait(o[1])
    export(p, 1000, ctx, f"history {[OPS[i] for i in seq]}")


def run_parts(case, ctx):
    """songs put together from the parts: any number of tracks, instruments, patterns"""
    import xrns.parts.song
    import xrns.writer
    tracks, instruments, patterns = case
    song = xrns.parts.song.Song(tracks=tracks, instruments=instruments)
    if patterns:
        if tracks:
            for pt in range(patterns):
                for t in range(tracks):
                    if instruments and (pt + t) % 2:
                        song.pattern_pool.add_note(pt, t, (pt * 7 + t) % 64, "C-4", "%02X" % ((pt + t) % instruments), None)
                    else:
                        song.pattern_pool.add_note(pt, t, 63, "Off", None, "00")
        else:
            patterns = 0
    for pt in range(patterns):
        song.pattern_sequence.add_pattern(pt)
    for again in range(2):
        f = io.BytesIO()
        xrns.writer.writer(f, song)
        check_doc(f.getvalue(), tracks, instruments, patterns,
                  f"song of {tracks} tracks, {instruments} instruments, {patterns} patterns" + (", written again" if again
                                                                                                else ""), ctx)


def run_empty(case, ctx):
    """songs without any event, and with every single key write"""
    v, length = case
    p = Pair(ctx)
    if v >= 0:
        p.write(8, v)
    export(p, length, ctx, f"song of the key write {v:#x}, note length {length}")


def run_length(case, ctx):
    """note lengths"""
    lo, = case
    p = Pair(ctx)
    for i in range(12):
        p.write(0x60, i)
        p.write(8, 0x78 if i % 3 else 1)
        p.wait(23456)
    for length in range(lo, lo + 20):
        export(p, length, ctx, f"fixed song, note length {length}")


NP = 61


def run_pairwise(s, ctx):
    """numbers of patterns, instruments, events and onsets and the note length as factors of an orthogonal array"""
    for t in range(NP):
        def f(k):
            return (s + t * k) % NP
        instruments, patterns, events = 1 + f(1), 1 + f(2) % 31, f(3)
        length = 1000 + f(4) + 61 * (s % 100)
        p = Pair(ctx)
        for i in range(instruments):
            p.write(0x18, i)
            p.write(8, 0x78 | i + f(5) & 7)
            p.wait(f(6) % 3)
        for i in range(events):
            p.write(8, ((f(7) + i) % 3 and 15) << 3 | i + f(8) & 7)
            p.wait((f(9) + i) % 3)
        room = (patterns - 1) * 64 * length + f(10) % 61 * length + f(11) - p.chip.now
        p.wait(max(0, room))
        p.write(8, 0x78 * (f(12) & 1) | f(13) & 7)
        export(p, length, ctx, f"song {(s, t)} of the orthogonal array: {instruments} instruments, {patterns} patterns, {events} events")


def families(tier):
    th = tier == "thorough"
    return [
        Family("shapes", lambda: itertools.product(list(range(1, 12)) + [65, 130] + ([700] if th else []),
                                                   [1, 2, 3, 8, 15, 16, 17, 40, 255, 256, 257] + ([1030] if th else []),
                                                   (0, 1)), run_shape, "patterns x instruments"),
        Family("pairwise", lambda: range(NP), run_pairwise, "3721 songs in which every two of number of instruments, patterns and events, "
               "note length, channels and times meet in every combination", cpu_s=200),
        Family("counts", lambda: [(1, n, 0) for n in range(1, 302)] + [(n, 2, 1) for n in range(1, 302 if th else 202)], run_shape,
               f"1..301 instruments; 1..{301 if th else 201} patterns"),
        Family("lengths", lambda: itertools.product(
            sorted({b + d for b in ([64, 99, 100, 127, 128, 250, 255, 256, 500, 511, 512, 999, 1000, 1023, 1024]
                                    + ([2000, 2048, 4096, 5000] if th else [])) for d in (0, 1, 2)}), (1, 1000)), run_long,
               "songs of up to " + ("5002" if th else "1026") + " patterns", cpu_s=300),
        Family("dense", lambda: [(64, 8), (1000, 8), (5000, 1), (5000, 8)] + ([(25000, 8), (140000, 1)] if th else []), run_dense,
               "up to " + ("200000" if th else "40000") + " events", cpu_s=900),
        Family("histories", lambda: sequences(len(OPS), 5 if th else 4), run_seq,
               f"all histories of up to {5 if th else 4} of {len(OPS)} operations"),
        Family("parts", lambda: itertools.product(list(range(0, 13)) + [40], (0, 1, 2, 9, 300), (0, 1, 2, 3, 12)), run_parts,
               "songs of 0..40 tracks, 0..300 instruments, 0..12 patterns put together from parts, written twice"),
        Family("small", lambda: itertools.product(range(-1, 256), (1, 1000, 44100)), run_empty,
               "empty songs and songs of one key write"),
        Family("note lengths", lambda: ((a,) for a in range(500, 8000, 20 if th else 500)), run_length,
               "one song under many note lengths"),
    ]
