"""Drives the real code of /repo."""
import io
import json
import os
import sys
import xml.etree.ElementTree as ET
import zipfile

REPO = os.environ.get("VP_REPO", "/repo")
SRC = os.path.join(REPO, "src")

vgmcore = vgmcmd = ymstate = ymconfig = extractors = tools = mainmod = None


def load():
    global vgmcore, vgmcmd, ymstate, ymconfig, extractors, tools, mainmod
    sys.dont_write_bytecode = True
    sys.path.insert(0, SRC)
    import extractors as ex
    import main as mm
    import tools as tl
    import vgm.command
    import vgm.core
    import vgm.ym2151.config
    import vgm.ym2151.state
    for m in (ex, mm, tl, vgm.core):
        if not os.path.realpath(m.__file__).startswith(os.path.realpath(SRC)):
            raise ImportError(f"{m.__name__} came from {m.__file__}")
    extractors, mainmod, tools = ex, mm, tl
    vgmcore, vgmcmd, ymstate, ymconfig = vgm.core, vgm.command, vgm.ym2151.state, vgm.ym2151.config


def reader(data):
    return vgmcore.reader(io.BytesIO(data))


def kind(cmd):
    """(kind, code, data) of a decoded command, in the vocabulary of ref.split"""
    T = vgmcmd.VgmCommandType
    t = cmd.command_type
    if t == T.WAIT:
        return ("wait", cmd.command_id, cmd.samples)
    if t == T.EOS:
        return ("eos", cmd.command_id, None)
    if t == T.YM2151:
        return ("ym2151", cmd.command_id, (cmd.reg, cmd.value))
    p = cmd.payload
    return ("other", cmd.command_id, b"" if p is None else bytes(p))


def decode(data, limit=None):
    """all commands of a VGM file"""
    out, cmds = [], []
    for c in reader(data):
        cmds.append(c)
        out.append(kind(c))
        if limit is not None and len(out) > limit:
            break
    return unchanged(cmds, out)


def unchanged(cmds, kinds):
    """commands still say what they said when they were delivered"""
    late = [kind(c) for c in cmds]
    if late != kinds:
        i = [a == b for a, b in zip(late, kinds)].index(False)
        raise AssertionError(f"command {i} was delivered as {kinds[i]} and has become {late[i]}")
    return kinds


def decode_upto_error(f, limit):
    """commands until the stream ends or fails -> (commands, exception or None).
    `f` is a file; more than `limit` commands counts as not terminating."""
    out = []
    try:
        r = vgmcore.reader(f)
        if r is None:
            return out, "refused"
        for c in r:
            out.append(kind(c))
            if len(out) > limit:
                return out, "endless"
    except Exception as e:  # any failure is allowed here, the caller judges what was delivered
        return out, type(e).__name__
    return out, None


def extract(data):
    """the whole pipeline up to the chip state"""
    return mainmod.process_vgm_file(reader(data))


def apply_all(state, cmds):
    for reg, val in cmds:
        state.apply(ymconfig.create(reg, val))


def events(state):
    return [[(n.sample, n.config_id if n.config_id >= 0 else -1, n.right, n.left, n.octave, n.note, n.key_fraction)
             for n in state.key_presses(ch)] for ch in range(8)]


def instruments_text(state):
    return json.dumps(state.configs, cls=ymconfig.ConfigEncoder)


def instruments(state):
    return json.loads(instruments_text(state))


def instruments_text_one(config):
    return json.dumps(config, cls=ymconfig.ConfigEncoder)


def snapshot(state):
    """everything a user can see of an extraction, as a hashable value"""
    return (instruments_text(state), tuple(tuple(e) for e in events(state)), tuple(state.ticks()))


# exports ---------------------------------------------------------------------

def export_instruments(state, path):
    extractors.extract_instruments(path, state)
    with open(path, "rb") as f:
        return f.read()


def export_xrns(state, length, path):
    extractors.extract_tracks_to_xrns(state, path, length)
    with open(path, "rb") as f:
        return f.read()


def export_csv(state, length, path):
    extractors.extract_tracks(state, path, length)
    with open(path, "rb") as f:
        return f.read().decode()


def song_xml(data):
    """Song.xml of an archive -> bytes"""
    with zipfile.ZipFile(io.BytesIO(data)) as z:
        names = z.namelist()
        if names != ["Song.xml"]:
            raise AssertionError(f"archive holds {names}")
        return z.read("Song.xml")


def text(e, tag):
    x = e.find(tag)
    return None if x is None else (x.text or None)


def song_grid(root):
    """{(pattern, channel, line): (note, instrument, pan)} and the number of patterns; lines in file order"""
    out = {}
    order_ok = True
    pats = root.findall("PatternPool/Patterns/Pattern")
    for p, pat in enumerate(pats):
        for ch, tr in enumerate(pat.findall("Tracks/PatternTrack")):
            prev = -1
            for ln in tr.findall("Lines/Line"):
                i = int(ln.get("index"))
                if i <= prev:
                    order_ok = False
                prev = i
                cols = ln.findall("NoteColumns/NoteColumn")
                if len(cols) != 1:
                    raise AssertionError(f"line {i} has {len(cols)} note columns")
                c = cols[0]
                k = (p, ch, i)
                if k in out:
                    raise AssertionError(f"two lines for {k}")
                out[k] = (text(c, "Note"), text(c, "Instrument"), text(c, "Panning"))
                extra = {x.tag for x in c} - {"Note", "Instrument", "Panning"}
                if extra:
                    raise AssertionError(f"unexpected {extra} in cell {k}")
    return out, len(pats), order_ok


def parse_song(data):
    return ET.fromstring(song_xml(data))


# command line ------------------------------------------------------------------

def cli(args, stdin=b""):
    """run the tool's script in this process -> (exit code or exception name, standard output bytes)"""
    import runpy
    saved = sys.argv, sys.stdin, sys.stdout, sys.stderr
    raw = io.BytesIO()
    out = io.TextIOWrapper(raw, encoding="utf-8", write_through=True)
    sys.argv = ["main.py"] + list(args)
    sys.stdin = io.TextIOWrapper(io.BytesIO(stdin), encoding="utf-8")
    sys.stdout = out
    sys.stderr = io.StringIO()
    code = 0
    try:
        runpy.run_path(os.path.join(SRC, "main.py"), run_name="__main__")
    except SystemExit as e:
        code = 0 if e.code is None else e.code
    except Exception as e:  # an uncaught exception ends the script with status 1
        code = type(e).__name__
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr = saved
    closed = out.closed
    return code, (None if closed else raw.getvalue())
