"""Writes mc/vocab65.json, the vocabulary of Renoise song document version 65 (element types, their parts, value lists),
from the schema classes of the pinned commit.  Run once; check C26 compares the code with the committed file."""
import dataclasses
import enum
import json
import os
import sys
import typing

REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
sys.dont_write_bytecode = True
import xrns.xml.song.renoise_song65 as dao  # noqa: E402


def collect():
    classes, enums = {}, {}

    def walk(c):
        classes[c.__qualname__] = c
        for v in vars(c).values():
            if isinstance(v, type):
                if dataclasses.is_dataclass(v):
                    walk(v)
                elif issubclass(v, enum.Enum):
                    enums[v.__qualname__] = v
    for v in list(vars(dao).values()):
        if isinstance(v, type) and v.__module__ == dao.__name__:
            if dataclasses.is_dataclass(v):
                walk(v)
            elif issubclass(v, enum.Enum):
                enums[v.__qualname__] = v
    return classes, enums


def base(t):
    if isinstance(t, type):
        if issubclass(t, enum.Enum):
            return "enum:" + t.__qualname__
        if dataclasses.is_dataclass(t):
            return "class:" + t.__qualname__
        return t.__name__
    raise ValueError(t)


classes, enums = collect()
out = {"classes": {}, "enums": {k: [m.value for m in e] for k, e in enums.items()}}
for name, c in classes.items():
    rows = []
    hints = typing.get_type_hints(c)
    for f in dataclasses.fields(c):
        t = hints[f.name]
        many = typing.get_origin(t) is list
        if typing.get_origin(t) in (list, typing.Union):
            t = [a for a in typing.get_args(t) if a is not type(None)][0]
        kind = f.metadata["type"]
        default = None
        if f.default is not dataclasses.MISSING and f.default is not None:
            default = str(f.default.value if isinstance(f.default, enum.Enum) else f.default)
        rows.append([f.name, kind, f.metadata.get("name", f.name), many, base(t), f.init, default])
    out["classes"][name] = rows
out["members"] = {k: {m: x.value for m, x in e.__members__.items()} for k, e in enums.items()}
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "mc", "vocab65.json")
with open(path, "w") as fh:
    json.dump(out, fh, indent=0, sort_keys=True)
    fh.write("\n")
print(len(classes), len(enums), sum(len(r) for r in out["classes"].values()))
