"""Song parts: songs put together from the parts with every setting varied, and all sequences of cell and sequence
operations to a depth, are written by the real writer; the document read back must carry exactly what was set."""
import io
import itertools
import os
import xml.etree.ElementTree as ET

from .. import pairwise, ref, sut
from ..engine import Family, check_eq, fail, sequences

LEVEL = "model_checking"
ASSUMPTIONS = ["the document's element names are those of Renoise songs (document version 65)"]

GLOBALS = {"beats_per_min": "BeatsPerMin", "lines_per_beat": "LinesPerBeat", "ticks_per_line": "TicksPerLine",
           "signature_numerator": "SignatureNumerator", "signature_denominator": "SignatureDenominator",
           "metronome_beats_per_bar": "MetronomeBeatsPerBar", "metronome_lines_per_beat": "MetronomeLinesPerBeat",
           "shuffle_is_active": "ShuffleIsActive", "octave": "Octave", "loop_coeff": "LoopCoeff", "song_name": "SongName",
           "artist": "Artist"}
TEXTS = ["", "x", "A & <b> \"c\" 'd'", "\u00e9\u4e2d \U0001f3b5", "two words", "0", "x" * 300, "]]>", "&amp;", " x ", "a  b", "tab\there", " ", "two\nlines"]
NAMES = ["x", "A & <b> \"c\"", "\u00e9\u4e2d", "Track 1", "0", "n" * 80, " x ", "a  b"]


def write(song):
    import xrns.writer
    f = io.BytesIO()
    xrns.writer.writer(f, song)
    return ET.fromstring(sut.song_xml(f.getvalue()))


def new(**kw):
    import xrns.parts.song
    return xrns.parts.song.Song(**kw)


def text(v):
    return {True: "true", False: "false"}[v] if isinstance(v, bool) else str(v)


def get(e, path):
    x = e.find(path)
    return None if x is None else x.text or ""


def check_song(song, ctx, what, cells=None, entries=None):
    """the whole document against the parts"""
    root = write(song)
    ctx.ops()
    ctx.trace()
    g = root.find("GlobalSongData")
    for attr, tag in GLOBALS.items():
        want = text(getattr(song.globals, attr))
        if get(g, tag) != want:
            fail(f"{what}: {tag} is {get(g, tag)!r}, set was {want!r}")
    got = [x.text for x in g.findall("ShuffleAmounts/ShuffleAmount")]
    if got != [str(x) for x in song.globals.shuffle_amounts]:
        fail(f"{what}: shuffle amounts {got}, set were {song.globals.shuffle_amounts}")
    groups = (("SequencerTrack", song.tracks.tracks, "TrackMixerDevice"),
              ("SequencerMasterTrack", song.tracks.master_tracks, "MasterTrackMixerDevice"),
              ("SequencerSendTrack", song.tracks.send_tracks, "SendTrackMixerDevice"))
    for tag, parts, mixer in groups:
        els = root.findall("Tracks/" + tag)
        if len(els) != len(parts):
            fail(f"{what}: {len(els)} {tag}, set were {len(parts)}")
        for i, (e, t) in enumerate(zip(els, parts)):
            got = (get(e, "Name"), get(e, "State"), get(e, "Soloed"))
            want = (t.name, t.state, text(t.soloed))
            if got != want:
                fail(f"{what}: {tag} {i} has name, state, solo {got}, set were {want}")
            devices = [d.tag for d in e.findall("FilterDevices/Devices/*")]
            if devices != [mixer]:
                fail(f"{what}: {tag} {i} has the devices {devices}, expected its {mixer}")
            if tag == "SequencerTrack" and get(e, "PanningColumnIsVisible") != "true":
                fail(f"{what}: the panning column of {tag} {i} is not shown")
    colors = [get(e, "Color") for e in root.findall("Tracks/SequencerTrack")]
    for c in colors[:8]:
        parts = (c or "").split(",")
        if len(parts) != 3 or not all(x.isdigit() and int(x) < 256 for x in parts):
            fail(f"{what}: track colour {c!r}")
    if len(set(colors[:8])) != len(colors[:8]) or any(c is not None for c in colors[8:]):
        fail(f"{what}: track colours {colors}")
    if cells is not None:
        got, patterns, _ = sut.song_grid(root)
        if got != cells:
            check_eq(got, cells, f"{what}: cells (pattern, track, line)")
        want = max([k[0] for k in cells], default=-1) + 1
        if patterns != want:
            fail(f"{what}: {patterns} patterns, expected {want}")
    if entries is not None:
        got = [get(e, "Pattern") for e in root.findall("PatternSequence/SequenceEntries/SequenceEntry")]
        if got != [str(x) for x in entries]:
            fail(f"{what}: sequence {got}, set was {entries}")
    return root


def run_global(case, ctx):
    """one global setting after the other"""
    attr, k = case
    song = new()
    cur = getattr(song.globals, attr)
    if attr == "shuffle_amounts":
        vals = [list(v) for v in itertools.product((0, 1, 50, 100), repeat=4)][k::4]
    elif isinstance(cur, bool):
        vals = [True, False, True]
    elif isinstance(cur, str):
        vals = TEXTS[k::4]
    else:
        vals = list(range(k, 1000, 4 if ctx.tier == "thorough" else 20)) + [44100, 2646000]
    for v in vals:
        setattr(song.globals, attr, v)
        check_song(song, ctx, f"{attr} = {v!r}")
        ctx.state((attr, str(v)))


def run_bytes(case, ctx):
    """documents whose size lies right at a power of two, with letters of one to four bytes at the seam"""
    target, letter = case
    import xrns.writer

    def size(song):
        f = io.BytesIO()
        xrns.writer.writer(f, song)
        return len(sut.song_xml(f.getvalue()))
    song = new()
    song.globals.song_name = "x"
    base = size(song) - 1
    room = target - base
    if room < 20:
        return
    width = len(letter.encode())
    for d in range(-5, 6):
        song.globals.song_name = "x" * (room + d)
        check_song(song, ctx, f"a document of {target + d} bytes")
    for d in range(width):
        for field in ("song_name", "artist"):
            song = new()
            setattr(song.globals, field, "x" * d + letter * (target // width + 1))
            check_song(song, ctx, f"{field} of {target // width + 1} letters {letter!r} after {d} others")
    ctx.state(case)


def run_global_pair(case, ctx):
    """two settings with values that could be mistaken for each other"""
    a, b = case
    song = new()
    for n, attr in enumerate(GLOBALS):
        cur = getattr(song.globals, attr)
        setattr(song.globals, attr, n % 2 == 0 if isinstance(cur, bool) else f"text {n}" if isinstance(cur, str) else 100 + n)
    va, vb = getattr(song.globals, a), getattr(song.globals, b)
    if type(va) is type(vb):
        setattr(song.globals, a, vb)
        setattr(song.globals, b, va)
    check_song(song, ctx, f"all settings distinct, {a} and {b} exchanged")
    ctx.state(case)


def run_tracks(case, ctx):
    """numbers of tracks with names, states and solo flags in every position"""
    n, pos, state = case
    if pos > n + 1:
        return
    for name in NAMES + ["", None]:
        for solo in (True, False) if name else (False,):
            song = new(tracks=n, instruments=n % 3)
            all_ = song.tracks.tracks + song.tracks.master_tracks + song.tracks.send_tracks
            t = all_[pos]
            t.name, t.state, t.soloed = name, state, solo
            check_song(song, ctx, f"{n} tracks, track {pos} named {name!r}, {state}, solo {solo}", {}, [])
            ctx.state((n, pos, state, name, solo))


def run_made(case, ctx):
    """tracks made by their constructors and put into a song, any number of each kind"""
    n, masters, sends, k = case
    import xrns.parts.track as parts
    names = NAMES + ["", None]
    song = new(tracks=n)
    made = []
    for cls, group, count in ((parts.SequencerTrack, song.tracks.tracks, n), (parts.SequencerMasterTrack, song.tracks.master_tracks, masters),
                              (parts.SequencerSendTrack, song.tracks.send_tracks, sends)):
        del group[:]
        for i in range(count):
            name = names[(len(made) * 3 + k) % len(names)]
            t = cls() if name is None and k & 1 else cls(name)
            t.state = ("Active", "Off", "Muted")[(len(made) + k) % 3]
            t.soloed = (len(made) + k) % 4 == 0
            made.append((t, name))
            group.append(t)
    for t, name in made:
        if t.name != name:
            fail(f"a {type(t).__name__} made with the name {name!r} has the name {t.name!r}")
    check_song(song, ctx, f"{n} tracks, {masters} master and {sends} send tracks made with names in turn from {k}", {}, [])
    ctx.state(case)


CELLS = [(0, 0, 0, "C-4", "00", None), (0, 0, 0, "Off", None, "F0"), (0, 1, 63, "A#7", "1F", "00"), (2, 0, 5, "D-0", "FF", None),
         (1, 2, 0, "Off", None, None), (0, 2, 64 - 1, "G-3", "100", "F0"), (2, 0, 4, "C#9", "0A", "00"), (0, 1, 7, None, None, "80"), (0, 0, 1, "C-4", "00", None)]


def run_cells(seq, ctx):
    """cells in any order; the last one of a place counts"""
    song = new(tracks=3, instruments=300)
    cells = {}
    for i in seq:
        p, t, ln, note, ins, pan = CELLS[i]
        song.pattern_pool.add_note(p, t, ln, note, ins, pan)
        cells[p, t, ln] = (note, ins, pan)
    check_song(song, ctx, f"cells {[CELLS[i] for i in seq]}", cells)
    ctx.state(tuple(sorted(cells.items(), key=str)))


def run_entries(seq, ctx):
    song = new(tracks=1)
    song.pattern_pool.add_note(4, 0, 0, "C-4", "00", None)
    for i in seq:
        song.pattern_sequence.add_pattern(i)
    check_song(song, ctx, f"sequence {seq}", {(4, 0, 0): ("C-4", "00", None)}, list(seq))
    ctx.state(tuple(seq))


def run_large(case, ctx):
    """many patterns with a cell of their own, put in ascending or descending order; long sequences"""
    n, down, plays = case
    song = new(tracks=2, instruments=3)
    cells = {}
    for p in reversed(range(n)) if down else range(n):
        place = (p, p & 1, p * 7 % 64)
        cell = (f"C-{p % 8}", f"{p % 3:02X}", None if p % 3 else "F0")
        song.pattern_pool.add_note(*place, *cell)
        cells[place] = cell
    entries = [i * 3 % n for i in range(plays)]
    for p in entries:
        song.pattern_sequence.add_pattern(p)
    check_song(song, ctx, f"{n} patterns, {plays} of them played", cells, entries)
    ctx.state(case)


def settings(song):
    d = {a: getattr(song.globals, a) for a in GLOBALS}
    d["shuffle"] = list(song.globals.shuffle_amounts)
    d["tracks"] = [[t.name, t.state, t.soloed] for t in song.tracks.tracks + song.tracks.master_tracks
                   + song.tracks.send_tracks]
    return d


def run_two(case, ctx):
    """songs written between the steps of another: nothing leaks"""
    a, b = case
    s1, s2 = new(tracks=3, instruments=2), new(tracks=3, instruments=1)
    c1, c2 = {}, {}
    keep = [settings(s) for s in (s1, s2)]
    for n, i in enumerate((a, b, a)):
        for s, c, k in ((s1, c1, i), (s2, c2, (i + n + 1) % len(CELLS))):
            p, t, ln, note, ins, pan = CELLS[k]
            s.pattern_pool.add_note(p, t, ln, note, ins, pan)
            c[p, t, ln] = (note, ins, pan)
        s1.globals.beats_per_min = 100 + n
        s2.globals.song_name = f"song {n}"
        s1.globals.shuffle_amounts[0] = n
        s1.tracks.tracks[n].name = f"t{n}"
        s2.pattern_sequence.add_pattern(n)
        keep[0]["beats_per_min"], keep[0]["shuffle"][0], keep[0]["tracks"][n][0] = 100 + n, n, f"t{n}"
        keep[1]["song_name"] = f"song {n}"
        for k, s in enumerate((s1, s2)):
            if settings(s) != keep[k]:
                check_eq(settings(s), keep[k], f"song {k + 1} of two, step {n}: settings")
        check_song(s1, ctx, f"first of two songs, step {n}", c1, [])
        check_song(s2, ctx, f"second of two songs, step {n}", c2, list(range(n + 1)))
    ctx.state(case)


def run_export(case, ctx):
    """the exporter's song: eight named note tracks whatever was extracted"""
    n, length = case
    st = sut.ymstate.State()
    chip = ref.Chip()
    for i in range(n):
        for r, v in ((0x60 + (i & 7), i * 5 & 0x7F), (8, 0x78 | i & 7)):
            st.apply(sut.ymconfig.create(r, v))
            chip.write(r, v)
        st.beat(997)
        chip.now += 997
    root = sut.parse_song(sut.export_xrns(st, length, os.path.join(ctx.scratch, "e.xrns")))
    names = [get(e, "Name") for e in root.findall("Tracks/SequencerTrack")]
    if names != [f"Track {i}" for i in range(1, 9)]:
        fail(f"exported song of {n} notes: track names {names}")
    if get(root, "GlobalSongData/LinesPerBeat") != "4":
        fail(f"exported song: {get(root, 'GlobalSongData/LinesPerBeat')} lines per beat")
    for e in root.findall("Tracks/*"):
        if get(e, "State") != "Active" or get(e, "Soloed") != "false":
            fail(f"exported song: track {get(e, 'Name')} is {get(e, 'State')}, solo {get(e, 'Soloed')}")
    ctx.ops()
    ctx.trace()
    ctx.state(case)


NUMBERS = [*range(0, 42), 48, 60, 63, 64, 65, 99, 100, 120, 125, 127, 128, 140, 160, 240, 255, 256, 400, 999, 1000]
NP = len(NUMBERS)


def run_pairwise(s, ctx):
    """all settings, track counts, names, states, solo flags, cells and sequences as factors of an orthogonal array"""
    assert NP == 61
    for t in range(NP):
        def f(k):
            return (s + t * k) % NP
        n = 1 + f(20) % 12
        song = new(tracks=n, instruments=f(21))
        for k, attr in enumerate(GLOBALS):
            cur = getattr(song.globals, attr)
            setattr(song.globals, attr, f(k) % 2 == 0 if isinstance(cur, bool) else "x" * (f(k) % 31) + TEXTS[f(k + 13) % len(TEXTS)]
                    if isinstance(cur, str) else 20 + 7 * f(k) + s % 7 if attr == "beats_per_min" else NUMBERS[f(k)])
        song.globals.shuffle_amounts[:] = [NUMBERS[f(40 + k)] for k in range(4)]
        for i, tr in enumerate(song.tracks.tracks + song.tracks.master_tracks + song.tracks.send_tracks):
            name = "t" * (f(22) % 20) + NAMES[f(23 + i) % len(NAMES)]
            tr.name, tr.state, tr.soloed = name, ("Active", "Off", "Muted")[f(24 + i) % 3], f(25 + i) % 2 == 0
        cells, entries = {}, []
        for k in range(1 + f(26)):
            def g(j):
                return (s + t * (j + k * 3) + k * k) % NP
            place = (g(27) % 3, g(28) % n, g(29) + g(30) % 4)
            cell = (("C-4", "A#7", "Off", "D-0", None)[g(31) % 5], (f"{g(32):02X}", None)[g(33) % 9 == 0],
                    ("00", "F0", "80", None)[g(34) % 4])
            song.pattern_pool.add_note(*place, *cell)
            cells[place] = cell
            if g(35) % 4 == 0:
                song.pattern_sequence.add_pattern(g(36) % 3)
                entries.append(g(36) % 3)
        check_song(song, ctx, f"song {(s, t)} of the orthogonal array", cells, entries)
    ctx.state(("array", s))


def run_cell_pairs(case, ctx):
    """a song of 257 cells whose places and contents are factors; put in order of their patterns or not"""
    s, ordered = case

    def f(k):
        return pairwise.factor(s, t, k)
    tracks = 1 + s % 12
    song = new(tracks=tracks, instruments=256)
    cells = {}
    for t in range(pairwise.P):
        place = (f(1) % 61 if ordered == 0 else t * 61 // pairwise.P if ordered == 1 else t // (20 + s % 130), 0 if ordered == 2 else f(2) % tracks,
                 f(3) % 64)
        note = "Off" if f(4) % 121 == 120 else list(ref.NOTE_XRNS.values())[f(4) % 121 % 12] + str(f(4) % 121 // 12)
        cell = (note, None if f(5) == 256 else f"{f(5):02X}", None if f(6) % 130 == 129 else f"{f(6) % 130:02X}")
        song.pattern_pool.add_note(*place, *cell)
        cells[place] = cell
    check_song(song, ctx, f"the cells of song {case} of the orthogonal array", cells)
    ctx.state(("cells", case))


def families(tier):
    th = tier == "thorough"
    return [
        Family("global settings", lambda: itertools.product(list(GLOBALS) + ["shuffle_amounts"], range(4)), run_global,
               "values 0..999 of every number" + ("" if th else " (every fifth)") + ", all texts, all shuffle amounts of a grid", cpu_s=120),
        Family("setting pairs", lambda: itertools.permutations(GLOBALS, 2), run_global_pair, "all pairs of settings exchanged"),
        Family("pairwise", lambda: range(NP), run_pairwise, "3721 songs in which every two of all settings, shuffle amounts, numbers "
               "of tracks and instruments, names, states, solo flags, places and contents of cells take every pair of their values", cpu_s=120),
        Family("cells pairwise", lambda: itertools.product(range(pairwise.P), (0, 1, 2)), run_cell_pairs, "771 songs of 257 cells in which every two "
               "of pattern, track, line, note, instrument, pan and ordinal meet in every combination"),
        Family("tracks", lambda: itertools.product(range(0, 21 if th else 12), range(22), ("Active", "Off", "Muted")), run_tracks,
               "songs of up to 20 tracks, each track's name, state and solo flag varied"),
        Family("made tracks", lambda: itertools.product(range(0, 12), range(3), range(4), range(len(NAMES) + 2)), run_made,
               "up to 11 tracks, 2 master and 3 send tracks made by constructors with every name"),
        Family("cells", lambda: sequences(len(CELLS), 5 if th else 3), run_cells,
               f"all sequences of up to {5 if th else 3} of {len(CELLS)} cells"),
        Family("sequence", lambda: sequences(5, 5 if th else 4), run_entries, "all pattern sequences to a length over 5 patterns"),
        Family("sizes", lambda: itertools.product([1 << k for k in range(10, 21 if th else 18)] + [1000, 5000, 10000, 50000, 100000],
                                                  "x\u00e9\u4e2d\U0001f3b5"), run_bytes,
               f"documents of every size around powers of two up to {'1 MiB' if th else '128 KiB'}"),
        Family("large", lambda: [(n, d, k) for n in (65, 257, 1001) + ((4100,) if th else ()) for d in (0, 1)
                                 for k in (0, 999, 1500)], run_large, f"up to {4100 if th else 1001} patterns and 1500 sequence entries", cpu_s=300),
        Family("two songs", lambda: itertools.product(range(len(CELLS)), repeat=2), run_two, "two songs built and written in turn"),
        Family("exported songs", lambda: itertools.product(range(0, 40), (1, 1000, 4410)), run_export, "songs made by the exporter"),
    ]
