"""Writes MANIFEST.json from properties.jsonl and the property modules."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from mc import sut  # noqa: E402
import importlib  # noqa: E402

TECH = {
    "C01": "stateless bounded model checking of the real decoder against the VGM format table",
    "C02": "stateless bounded model checking of the real decoder and chip state against a reference",
    "C03": "stateless bounded model checking of the real clock against the exact sum of waits",
    "C04": "exhaustive enumeration of header states on the real reader against the format rules",
    "C05": "exhaustive enumeration of gzip encodings and member splits on the real reader",
    "C06": "exhaustive enumeration of truncation points on the real reader against a prefix oracle",
    "C07": "stateless bounded model checking of all tails after the end command",
    "C08": "exhaustive enumeration of input faults on the real command line, outputs compared byte for byte",
    "C09": "exhaustive exploration of register writes and pairs on the real chip state against a register-file model",
    "C10": "explicit-state search to the fixpoint, every transition replayed on the real code, plus bounded sequences",
    "C11": "bounded exploration of all continuations, full history re-observed after every step",
    "C12": "bounded exploration of all key histories against a reference event model",
    "C13": "exhaustive enumeration of write permutations and redundant writes, equivalence plus reference model",
    "C14": "exhaustive exploration of all interleavings of sessions' steps, and of thread schedules to a preemption bound",
    "C15": "exhaustive exploration of all export placements in histories, differential plus reference model",
    "C16": "exhaustive enumeration of onset-time lattices and periods against the definition",
    "C17": "exhaustive enumeration of note lengths through the real exporter",
    "C18": "bounded exploration of event histories through the real exporter against a reference grid",
    "C19": "exhaustive enumeration of cells through the real exporter against the cell rules",
    "C20": "bounded exploration of song shapes and histories, structural invariants on every document",
    "C21": "exhaustive enumeration of parameter values and pairs through the real exporter",
    "C22": "bounded exploration of event histories through the real listing against a reference table",
    "C23": "exhaustive enumeration of option combinations on the real script",
    "C24": "bounded exploration of all uses and nestings of smart_open against plain files and streams",
    "C25": "exhaustive enumeration of output faults at every byte",
    "C26": "exhaustive enumeration of element types and parts through the real serialiser",
    "C27": "exhaustive enumeration of onset sets against the definition, printed ranking parsed",
    "C28": "exhaustive enumeration of environment configurations and run histories, every output byte compared",
    "C29": "bounded exploration of register histories, read back after every step against a register-file model",
    "C30": "exhaustive enumeration of parameter values and pairs on the real parameter sets",
    "C31": "bounded exploration of song building sequences through the real writer against the parts",
}

sut.load()
checks = []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    m = importlib.import_module(f"mc.props.{i.lower()}")
    note = " ".join((m.__doc__ or "").split())
    note += " Every execution inside the bounds listed in DESIGN.md and the evidence file is run on /repo's code; none is sampled."
    a = getattr(m, "ASSUMPTIONS", [])
    note += " Trusted: the reference model mc/ref.py, CPython, xsdata." + (" Assumes: " + "; ".join(a) + "." if a else "")
    checks.append(dict(property=i, quick_cmd=f"./check {i}", thorough_cmd=f"./check {i} --tier thorough",
                       evidence_file=f"evidence/{i}.json", technique=TECH[i], level=m.LEVEL, level_note=note))
out = dict(version=1, setup_cmd="true", checks=checks, not_applicable=[],
           notes="Pure Python: nothing to build; each check imports /repo/src afresh. No hooks are needed in /repo. "
                 "known-findings.txt lists one unrepaired defect (C01) and the repaired ones.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
