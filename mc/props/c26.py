"""Document model: for every element type of the song format and every part of it, a whole song document that carries the
part (reached from the root by a shortest path) is written by the real serialiser and read back; it must be equal, and the
written text must show the part under the name and with the text of the format's vocabulary (mc/vocab65.json)."""
import functools
import itertools
import json
import os
import xml.etree.ElementTree as ET

from .. import sut
from ..engine import Family, fail, short

LEVEL = "model_checking"
ASSUMPTIONS = ["mc/vocab65.json (285 element types, 2812 parts, 142 value lists), taken from the schema classes of the pinned "
               "commit, is the vocabulary of document version 65"]

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


@functools.lru_cache(None)
def vocab():
    with open(os.path.join(HERE, "vocab65.json")) as f:
        return json.load(f)


def rows(cls):
    return vocab()["classes"][cls]


@functools.lru_cache(None)
def dao():
    import xrns.xml.song.renoise_song65 as d
    return d


@functools.lru_cache(None)
def klass(name):
    c = dao()
    for part in name.split("."):
        c = getattr(c, part)
    return c


@functools.lru_cache(None)
def tools(pretty):
    from xsdata.formats.dataclass.parsers import XmlParser
    from xsdata.formats.dataclass.serializers import XmlSerializer
    from xsdata.formats.dataclass.serializers.config import SerializerConfig
    return XmlSerializer(config=SerializerConfig(pretty_print=pretty, encoding="UTF-8", xml_version="1.0")), XmlParser()


@functools.lru_cache(None)
def routes():
    """class -> shortest path [(class, field row)] from the root"""
    out = {"RenoiseSong": []}
    todo = ["RenoiseSong"]
    for c in todo:
        for r in rows(c):
            if r[4].startswith("class:"):
                child = r[4][6:]
                if child not in out:
                    out[child] = out[c] + [(c, r)]
                    todo.append(child)
    return out


def values(base):
    """[(python value, its text)] for a basic part"""
    from xsdata.models.datatype import XmlDate, XmlTime
    if base == "str":
        return [("x", "x"), ("a & <b> \"c\" 'd' \u00e9\u4e2d", "a & <b> \"c\" 'd' \u00e9\u4e2d"), ("0", "0")]
    if base == "int":
        return [(n, str(n)) for n in (0, 1, -1, 255, 2147483648)]
    if base == "bool":
        return [(True, "true"), (False, "false")]
    if base == "float":
        return [(x, float(x)) for x in (0.0, 1.0, -0.5, 0.1, 1e-7, 123456.789)]
    if base == "XmlDate":
        return [(XmlDate(2021, 5, 3), "2021-05-03")]
    if base == "XmlTime":
        return [(XmlTime(1, 2, 3), "01:02:03")]
    if base.startswith("enum:"):
        e = klass(base[5:])
        return [(e(v), v) for v in vocab()["enums"][base[5:]]]
    raise ValueError(base)


def deviations(row):
    """[(field value, [expected texts of the elements] or None for structures, count)] that differ from absence"""
    name, kind, _xml, many, base, init, default = row
    if not init:
        return []
    if base.startswith("class:"):
        c = klass(base[6:])
        if many:
            return [([c()], None, 1), ([c(), c(), c()], None, 3)]
        return [(c(), None, 1)]
    vs = values(base)
    if many:
        out = [([v], [t], 1) for v, t in vs]
        out.append(([v for v, _ in vs] * 2, [t for _, t in vs] * 2, 2 * len(vs)))
        return out
    return [(v, [t], 1) for v, t in vs]


def build(cls, fields):
    """a song document with one element of type cls carrying the fields -> (document, path of element names)"""
    obj = klass(cls)(**fields)
    names = []
    for parent, r in reversed(routes()[cls]):
        obj = klass(parent)(**{r[0]: [obj] if r[3] else obj})
        names.append(r[2])
    return obj, names[::-1]


def render(doc, pretty=True):
    return tools(pretty)[0].render(doc)


def parse(text, cls="RenoiseSong"):
    return tools(True)[1].from_string(text, klass(cls))


def roundtrip(doc, what, pretty=True):
    text = render(doc, pretty)
    try:
        back = parse(text)
    except Exception as e:  # noqa: the reader refusing what was written is the violation
        fail(f"{what}: cannot be read back: {type(e).__name__}: {e}\n{short(text, 700)}")
    if back != doc:
        fail(f"{what}: reads back different\n{short(text, 700)}")
    again = render(back, pretty)
    if again != text:
        fail(f"{what}: is written differently the second time\n{short(text, 500)}\n{short(again, 500)}")
    return text


def locate(text, names):
    e = ET.fromstring(text)
    if e.tag != "RenoiseSong" or e.get("doc_version") != "65":
        fail(f"root is {e.tag}, version {e.get('doc_version')}")
    for n in names:
        found = e.findall(n)
        if len(found) != 1:
            fail(f"{len(found)} elements {n} in {e.tag}, expected one: {[c.tag for c in e]}")
        e = found[0]
    return e


def same_text(got, want):
    if isinstance(want, float):
        try:
            return float(got) == want
        except (TypeError, ValueError):
            return False
    return (got or "") == want


def expect(e, cls, present, what):
    """element e of type cls shows exactly the present parts {field: (texts, count)} and its fixed attributes"""
    attrs, tags = {}, {}
    for r in rows(cls):
        name, kind, xml, _many, base, init, default = r
        if name in present:
            texts, count = present[name]
            if kind == "Attribute":
                attrs[xml] = texts[0]
            else:
                tags[xml] = (texts, count)
        elif kind == "Attribute" and default is not None:
            attrs[xml] = default
    if set(e.attrib) != set(attrs) or not all(same_text(e.get(k), v) for k, v in attrs.items()):
        fail(f"{what}: attributes are {dict(e.attrib)}, the format has {attrs}")
    have = [c.tag for c in e]
    if sorted(set(have)) != sorted(tags):
        fail(f"{what}: the parts are written as {sorted(set(have))}, the format has {sorted(tags)}")
    for tag, (texts, count) in tags.items():
        got = e.findall(tag)
        if len(got) != count:
            fail(f"{what}: {len(got)} elements {tag}, expected {count}")
        if texts is not None and not all(same_text(g.text, t) for g, t in zip(got, texts)):
            fail(f"{what}: element {tag} has the text {[g.text for g in got]}, expected {texts}")


def run_class(cls, ctx):
    """an element without any part, then with each part alone, each value"""
    what = f"element type {cls}"
    doc, names = build(cls, {})
    expect(locate(roundtrip(doc, what), names), cls, {}, what)
    ctx.trace()
    have = set()
    import dataclasses
    for f in dataclasses.fields(klass(cls)):
        have.add(f.name)
    for r in rows(cls):
        if r[0] not in have:
            fail(f"{what} has no part {r[0]} ({r[2]})")
        for v, texts, count in deviations(r):
            w = f"{what} with {r[2]} = {short(v, 80)}"
            doc, names = build(cls, {r[0]: v})
            for pretty in (True, False) if not r[4].startswith("class:") else (True,):
                expect(locate(roundtrip(doc, w, pretty), names), cls, {r[0]: (texts, count)}, w)
                ctx.ops(3)
                ctx.trace()
            ctx.state((cls, r[0], short(texts, 100)))


def run_full(case, ctx):
    """an element with every part at once (k-th value of each), and with all but one"""
    cls, k = case
    what = f"element type {cls} with all its parts"
    fields, present = {}, {}
    for r in rows(cls):
        d = deviations(r)
        if d:
            v, texts, count = d[k % len(d)]
            fields[r[0]], present[r[0]] = v, (texts, count)
    doc, names = build(cls, fields)
    expect(locate(roundtrip(doc, what), names), cls, present, what)
    ctx.ops(3)
    ctx.trace()
    ctx.state((cls, k))
    if k == 0:
        for skip in fields:
            f2 = {a: b for a, b in fields.items() if a != skip}
            w = f"{what} but {skip}"
            doc, names = build(cls, f2)
            expect(locate(roundtrip(doc, w), names), cls, {a: b for a, b in present.items() if a != skip}, w)
            ctx.ops(3)
            ctx.trace()
            ctx.state((cls, skip))


def run_pairs(case, ctx):
    """every pair of parts of an element"""
    cls, i = case
    rs = [r for r in rows(cls) if deviations(r)]
    if i >= len(rs):
        return
    a = rs[i]
    va = deviations(a)[-1]
    for b in rs[i + 1:]:
        vb = deviations(b)[-1]
        w = f"element type {cls} with {a[2]} and {b[2]}"
        doc, names = build(cls, {a[0]: va[0], b[0]: vb[0]})
        expect(locate(roundtrip(doc, w), names), cls, {a[0]: va[1:], b[0]: vb[1:]}, w)
        ctx.ops(3)
        ctx.trace()
        ctx.state((cls, a[0], b[0]))


def prime(n):
    return next(p for p in itertools.count(max(n, 5)) if all(p % d for d in range(2, p)))


def run_array(case, ctx):
    """an element whose parts' presence and values are factors of an orthogonal array"""
    cls, s = case
    rs = [(r, deviations(r)) for r in rows(cls)]
    rs = [(r, d) for r, d in rs if d]
    q = prime(len(rs))
    for t in range(q):
        fields, present = {}, {}
        for k, (r, d) in enumerate(rs):
            v = (s + t * k) % q
            if v % 3:
                v, texts, count = d[(v - 1) % len(d)]
                fields[r[0]], present[r[0]] = v, (texts, count)
        w = f"element type {cls} with {len(fields)} parts, {(s, t)} of the orthogonal array"
        doc, names = build(cls, fields)
        expect(locate(roundtrip(doc, w, t & 1 == 0), names), cls, present, w)
        ctx.ops(3)
        ctx.trace()
        ctx.state((cls, s, t))


def arrays(th):
    for c in vocab()["classes"]:
        n = sum(1 for r in rows(c) if deviations(r))
        if n > 1:
            for s in range(prime(n) if th or n < 24 else 9):
                yield c, s


def run_nested(cls, ctx):
    """each part that is an element, itself carrying each of its own basic parts"""
    for r in rows(cls):
        if not r[4].startswith("class:"):
            continue
        child = r[4][6:]
        for q in rows(child):
            if q[4].startswith("class:") or not q[5]:
                continue
            v, _texts, _count = deviations(q)[-1]
            obj = klass(child)(**{q[0]: v})
            doc, _ = build(cls, {r[0]: [klass(child)(), obj] if r[3] else obj})
            roundtrip(doc, f"element type {cls} with {r[2]} carrying {q[2]}")
            ctx.ops(3)
            ctx.trace()
            ctx.state((cls, r[0], q[0]))


def run_enum(name, ctx):
    e = klass(name)
    want = vocab()["enums"][name]
    got = [m.value for m in e]
    ctx.ops()
    ctx.trace()
    ctx.state(name)
    if sorted(map(str, got)) != sorted(map(str, want)):
        fail(f"value list {name} is {got}, the format has {want}")
    # a value chosen by its name is that value (names that are gone are not judged), and is written so
    for member, value in vocab()["members"][name].items():
        m = getattr(e, member, None)
        if isinstance(m, e) and str(m.value) != str(value):
            fail(f"value {member} of the list {name} stands for {m.value!r}, not for {value!r}")


def canon(e):
    return (e.tag, tuple(sorted(e.attrib.items())), (e.text or "").strip(), tuple(canon(c) for c in e))


def run_template(case, ctx):
    """the shipped template: read, written, read"""
    path = os.path.join(sut.REPO, "data", "stripped_song", "Song.xml")
    with open(path, encoding="utf-8") as f:
        text = f.read()
    song = parse(text)
    for pretty in (True, False):
        out = render(song, pretty)
        if canon(ET.fromstring(out)) != canon(ET.fromstring(text)):
            fail(f"the template is written as\n{short(out, 1500)}")
        if parse(out) != song:
            fail("the template reads back different")
        ctx.ops(3)
        ctx.trace()
    ctx.state("template")
    # each element of the template removed, doubled
    n = len(list(ET.fromstring(text).iter()))
    for i in range(1, n):
        root = ET.fromstring(text)
        target = list(root.iter())[i]
        parent = [p for p in root.iter() if target in list(p)][0]
        parent.remove(target)
        t2 = ET.tostring(root, encoding="unicode")
        s2 = parse(t2)
        if canon(ET.fromstring(render(s2))) != canon(root):
            fail(f"the template without its element {target.tag} is written differently")
        ctx.ops(2)
        ctx.trace()
        ctx.state(("template", i))


def families(tier):
    th = tier == "thorough"
    classes = sorted(vocab()["classes"], key=lambda c: (len(routes().get(c, [()] * 99)), c))
    missing = [c for c in classes if c not in routes()]
    if missing:
        raise RuntimeError(f"not reachable from the root: {missing}")
    fams = [
        Family("value lists", lambda: sorted(vocab()["enums"]), run_enum, "all 142 value lists"),
        Family("template", lambda: [0], run_template, "the shipped template, also with each element removed"),
        Family("single parts", lambda: classes, run_class,
               f"all {len(classes)} element types x every part x every value of its domain list"),
        Family("all parts", lambda: itertools.product(classes, range(6 if th else 2)), run_full,
               "every element type with all parts, and with all parts but one"),
        Family("pairwise", lambda: list(arrays(th)), run_array, "every element type with its parts' presence and values from an orthogonal array: "
               "every two parts present and absent in every combination" + ("" if th else " (9 rows for the types with 24 and more parts)"), cpu_s=200),
        Family("nested parts", lambda: classes, run_nested, "every part that is an element, with each basic part of it"),
    ]
    if th:
        n = max(len(rows(c)) for c in classes)
        fams.append(Family("pairs of parts", lambda: itertools.product(classes, range(n)), run_pairs,
                           "every pair of parts of every element type"))
    return fams
