"""Writes DESIGN.md from tools/design_head.md, the check modules (families and bounds), the texts below and seeded/*/meta.json."""
import glob
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from mc import sut  # noqa: E402

# id -> (oracle, why enumeration reaches what the tests cannot)
TEXT = {
    "C01": ("`ref.decode`: length of every code from the VGM format; kind and operands of every reported command",
            "a wrong length only shows when the next byte is misread: it needs the pair of codes, block size or buffer position"),
    "C02": ("list of (register, value) of the first YM2151 in `ref.decode`, compared with what the decoder delivers and what the state ends with",
            "a dropped or invented write needs a particular neighbour or repetition"),
    "C03": ("exact integer sum of waits (`ref.decode`), read from the times of key events and of the live state",
            "rounding, wrap-around and rate scaling show only for particular operands, header fields and totals past 2^16 .. 2^100"),
    "C04": ("header rules of the format (`ref.header`): BCD version, clocks, relative offsets",
            "all versions x clocks x offsets; every unrelated header byte is a trap"),
    "C05": ("the uncompressed song's own reference result",
            "members split inside a command, optional gzip fields, sizes past 64 KiB .. 16 MiB"),
    "C06": ("prefix oracle: what lies completely before the cut (uncompressed), any prefix (compressed); CPU budget for termination",
            "every cut point is a fault; tests have a handful"),
    "C07": ("result of the song cut at its end command",
            "every tail: two-byte tails exhaustively, all codes, tags, at every alignment"),
    "C08": ("exit status and byte comparison of every file in the directory before and after",
            "every damaged byte and cut x outputs present or absent"),
    "C09": ("`ref.Chip`: register file and data-sheet decoding of all 256 registers, all channels and operators observed",
            "all 65536 writes and all register pairs: cross talk needs one particular pair"),
    "C10": ("`ref.Chip` instruments: number = index of the timbre tuple in order of first use",
            "fixpoint over small timbre domains, all pairs of parameters; collisions need exactly two related timbres"),
    "C11": ("complete history (events with resolved instruments) as recorded, re-observed after every later step",
            "aliasing shows only with a particular later write"),
    "C12": ("`ref.Chip` event lists", "all histories to the depth, every first and second key write"),
    "C13": ("equality between the variants and `ref.Chip`", "all orders; the tests have one"),
    "C14": ("each session's reference result alone; for threads also schedule-by-schedule",
            "leaks between sessions need a particular interleaving or history of uses"),
    "C15": ("the same export at the end of an undisturbed run, and the reference documents",
            "caches and consumption show only for a placement of exports in the history"),
    "C16": ("the definition in integers (`ref.estimate`, itself compared with a naive version in the family `definition`)",
            "scores that differ by one unmatched onset: all subsets of lattices, dense songs"),
    "C17": ("floor(60*44100/(4*n)) in integers", "every note length 1..8199"),
    "C18": ("`ref.grid`: dictionary (pattern, track, row) -> cell in integers; Song.xml parsed with ElementTree",
            "all pairs/triples around row and pattern boundaries; huge times"),
    "C19": ("`ref.cell_*` written from the property text", "all 256 key codes x pans, instrument numbers past 255 and 4096"),
    "C20": ("structural invariants over the parsed zip and document", "shape limits: 512/1024 patterns, 255/4096 instruments"),
    "C21": ("`json.loads` compared with `ref` instruments", "every value of every parameter and all pairs"),
    "C22": ("`ref.listing` table; CSV parsed with the csv module", "gaps, late starts, boundary rows, histories"),
    "C23": ("contents computed from `ref`; directory listing before and after; exit status",
            "all option combinations x existing outputs, through the real script in process and in its own interpreter"),
    "C24": ("plain `open` and recording standard streams", "all modes x names x exits x nestings"),
    "C25": ("either complete output and success, or an error; output repeated afterwards",
            "every byte position at which the file, pipe or device fails (RLIMIT_FSIZE, /dev/full, pipes whose reader leaves)"),
    "C26": ("round trip equality plus format vocabulary `vocab65.json` (names and value lists of document version 65)",
            "each of 285 element types x parts"),
    "C27": ("ranking and percentages from the definition; printed text parsed", "ties and near ties need particular onset sets"),
    "C28": ("the plain run's outputs, byte for byte (Song.xml inside the archive)", "every single environment deviation and pairs"),
    "C29": ("`ref.Chip` values read by name after every write", "all 65536 writes, all pairs, all channels read back"),
    "C30": ("tuple equality of the parameters", "all pairs of values, all pairs of parameters, copies modified either way"),
    "C31": ("the parts as given to the writer; Song.xml parsed", "order of building, all pairs of settings, sequences"),
}


def main():
    sut.load()
    out = [open(os.path.join(V, "tools", "design_head.md")).read().rstrip(), "", "## Per property", ""]
    props = {}
    for line in open(os.path.join(V, "properties.jsonl")):
        p = json.loads(line)
        props[p["id"]] = p
    seeds = {}
    for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
        m = json.load(open(f))
        seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
    for i, p in props.items():
        m = importlib.import_module(f"mc.props.{i.lower()}")
        oracle, why = TEXT[i]
        out += [f"### {i} {p['title']}", "", " ".join((m.__doc__ or "").split()), "",
                f"Level: {m.LEVEL}.  Oracle: {oracle}.", f"Why not tests: {why}.", "", "Enumerated (quick tier):", ""]
        quick = {f.name: f.bound for f in m.families("quick")}
        out += [f"- {n}: {b}" for n, b in quick.items()]
        deeper = [(f.name, f.bound) for f in m.families("thorough") if quick.get(f.name) != f.bound]
        if deeper:
            out += ["", "Thorough tier, where the bound text differs (other families grow in size within the same text):", ""]
            out += [f"- {n}: {b}" for n, b in deeper]
        a = getattr(m, "ASSUMPTIONS", [])
        if a:
            out += ["", "Assumes: " + "; ".join(a) + "."]
        out.append("")
    out += ["## Planted bugs (seeded/) and what catches them", "",
            "Each is reported by its own property's check (and often by others); the replay file printed with the violation",
            "reproduces it and gives 0 on the clean tree.", "", "| bug | check | needs | breaks |", "|---|---|---|---|"]
    for i in props:
        for n, m in seeds.get(i, []):
            c = lambda s: " ".join(s.split()).replace("|", "/")  # noqa: E731
            out.append(f"| {n} | {i} | {c(m['needs'])} | {c(m['what_it_breaks'])} |")
    out.append("")
    open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))


main()
