"""Parameter sets: for every kind of set, every parameter and every pair of parameters, equality holds exactly when all
parameters are equal, and copies are equal and independent; an instrument matches exactly its own settings."""
import copy
import itertools

from .. import pairwise, sut
from ..engine import Family, fail

LEVEL = "model_checking"
ASSUMPTIONS = []


def wave(i):
    return sut.ymconfig.Waveform(i)


BOOL = [False, True]
KINDS = {
    "BaseConfig": {"waveform": [0, 1, 2, 3], "lfo": 256, "amp_md": 128, "phs_md": 128},
    "OperatorConfig": {"total_level": 128, "attack_rate": 32, "first_decay_rate": 32, "first_decay_level": 16,
                       "second_decay_rate": 32, "release_rate": 16, "key_scale": 4, "multiply": 16, "first_detune": 8,
                       "second_detune": 4, "ase": BOOL},
    "NoteConfig": {"right": BOOL, "left": BOOL, "octave": 8, "note": 16, "key_fraction": 64},
    "ChannelConfig": {"fb": 8, "ams": 4, "pms": 8, "connection": 8, "noise": BOOL, "noise_freq": 32},
}
KINDS["ChannelConfig"].update({f"operators.{o}.{k}": v for o in range(4) for k, v in KINDS["OperatorConfig"].items()})


def values(kind, name):
    v = KINDS[kind][name]
    if name == "waveform":
        return [wave(i) for i in v]
    return list(range(v)) if isinstance(v, int) else list(v)


def put(obj, name, value):
    parts = name.split(".")
    if len(parts) == 3:
        obj = obj.operators[int(parts[1])]
    setattr(obj, parts[-1], value)


def get(obj, name):
    parts = name.split(".")
    if len(parts) == 3:
        obj = obj.operators[int(parts[1])]
    return getattr(obj, parts[-1])


def fill(kind, how):
    obj = getattr(sut.ymconfig, kind)()
    for n, name in enumerate(KINDS[kind]):
        vs = values(kind, name)
        put(obj, name, vs[{"zero": 0, "last": -1, "mixed": (n * 7 + 1) % len(vs)}[how]])
    return obj


def equal(a, b, want, what, ctx):
    ctx.ops(4)
    r = (a == b, b == a, not (a != b), not (b != a))
    if r != (want,) * 4 or any(not isinstance(x, bool) for x in r):
        fail(f"{what}: compare {'equal' if not want else 'different'}: ==, reversed, not != give {r}")


def contents(kind, obj):
    return tuple(get(obj, n) for n in KINDS[kind])


COPIES = {"deep copy": copy.deepcopy, "copy of a copy": lambda o: copy.deepcopy(copy.deepcopy(o)),
          "copied in a list": lambda o: copy.deepcopy([o, o])[1]}


def run_single(case, ctx):
    """one parameter, all pairs of its values"""
    kind, name, how = case
    for x, y in itertools.product(values(kind, name), repeat=2):
        a, b = fill(kind, how), fill(kind, how)
        put(a, name, x)
        put(b, name, y)
        equal(a, b, x == y, f"{kind} with {name} {x} and {y}, others {how}", ctx)
    ctx.trace()
    ctx.state(case)


def run_double(case, ctx):
    """two parameters, two or three values each: all pairs of settings"""
    kind, n1, n2 = case

    def ends(n):
        v = values(kind, n)
        return sorted({0: v[0], 1: v[1], -1: v[-1]}.items())
    s = []
    for (_, x), (_, y) in itertools.product(ends(n1), ends(n2)):
        o = fill(kind, "mixed")
        put(o, n1, x)
        put(o, n2, y)
        s.append(((x, y), o))
    for (va, a), (vb, b) in itertools.product(s, repeat=2):
        equal(a, b, va == vb, f"{kind} with {n1}, {n2} {va} and {vb}", ctx)
    ctx.trace()
    ctx.state(case)


EXTREME = {"BaseConfig": 4, "NoteConfig": 5, "OperatorConfig": 11, "ChannelConfig": 6}


def run_extremes(case, ctx):
    """every assignment of smallest and largest values to all parameters, and each of its neighbours"""
    kind, hi = case
    names = list(KINDS[kind])[:EXTREME[kind]]
    ends = [(values(kind, n)[0], values(kind, n)[-1]) for n in names]
    a, b = fill(kind, "mixed"), fill(kind, "mixed")
    for lo in range(1 << max(0, len(names) - 6)):
        m = hi | lo << 6
        if m >> len(names):
            break
        for i, n in enumerate(names):
            put(a, n, ends[i][m >> i & 1])
            put(b, n, ends[i][m >> i & 1])
        equal(a, b, True, f"two {kind} with {contents(kind, a)[:11]}", ctx)
        for i, n in enumerate(names):
            v = values(kind, n)
            for x in {ends[i][1 - (m >> i & 1)], v[1], v[-2]} - {ends[i][m >> i & 1]}:
                put(b, n, x)
                equal(a, b, False, f"{kind} with {contents(kind, a)[:11]} and with {n} {x}", ctx)
            put(b, n, ends[i][m >> i & 1])
    ctx.trace()
    ctx.state(case)


def run_copy(case, ctx):
    """copies of a set, then one parameter of one of them changes"""
    kind, name, how, way = case
    vs = values(kind, name)
    for v in vs:
        for side in (0, 1):
            a = fill(kind, how)
            b = COPIES[way](a)
            if type(b) is not type(a) or contents(kind, a) != contents(kind, b):
                fail(f"{kind} ({how}): {way}: {contents(kind, b)} of {contents(kind, a)}")
            equal(a, b, True, f"{kind} ({how}) and its copy ({way})", ctx)
            changed, other = (a, b) if side else (b, a)
            before, old = contents(kind, other), get(changed, name)
            put(changed, name, v)
            if contents(kind, other) != before:
                fail(f"{kind} ({how}), {way}: setting {name} of one to {v} changes the other: {contents(kind, other)}")
            equal(a, b, v == old, f"{kind} ({how}) and its copy ({way}), {name} of one set to {v}", ctx)
            fresh = getattr(sut.ymconfig, kind)()
            if contents(kind, fresh) != contents(kind, fill(kind, "zero")):
                fail(f"a new {kind} has {contents(kind, fresh)} after {name} of another was set to {v}")
    ctx.trace()
    ctx.state(case)


def run_copy2(case, ctx):
    """copies of sets with two parameters at their ends"""
    kind, n1, n2 = case
    for how in ("zero", "last", "mixed"):
        a = fill(kind, how)
        for x, y in itertools.product(*([v[0], v[1], v[-1]] for v in (values(kind, n1), values(kind, n2)))):
            put(a, n1, x)
            put(a, n2, y)
            b = copy.deepcopy(a)
            ctx.ops()
            if contents(kind, b) != contents(kind, a) or get(b, n1) != x or get(b, n2) != y:
                fail(f"{kind} ({how}) with {n1} {x} and {n2} {y}: its copy has {contents(kind, b)}")
            equal(a, b, True, f"{kind} ({how}) with {n1} {x} and {n2} {y} and its copy", ctx)
            # one parameter of the copy's own and one of each of its operators change: the original stays
            rest = [n for n in KINDS[kind] if n not in (n1, n2)]
            old = contents(kind, a)
            for part in {n.rpartition(".")[0]: n for n in rest}.values():
                v = values(kind, part)
                put(b, part, v[0] if get(b, part) != v[0] else v[-1])
                if contents(kind, a) != old:
                    fail(f"{kind} ({how}) with {n1} {x} and {n2} {y}: setting {part} of its copy changes it")
    ctx.trace()
    ctx.state(case)


def run_arranged(case, ctx):
    """one operator parameter with the same few values in the four operators in every arrangement"""
    name, how, first = case
    vs = values("OperatorConfig", name)
    vs = [vs[0], vs[1], vs[-1]] if len(vs) > 2 else vs
    if first >= len(vs) ** 4:
        return
    sets = []
    for arr in itertools.product(range(len(vs)), repeat=4):
        o = fill("ChannelConfig", how)
        for i, v in enumerate(arr):
            for k in KINDS["OperatorConfig"]:
                put(o, f"operators.{i}.{k}", get(o, f"operators.0.{k}"))
            put(o, f"operators.{i}.{name}", vs[v])
        sets.append((arr, o))
    va, a = sets[first]
    for vb, b in sets:
        equal(a, b, va == vb, f"channels ({how}) with {name} {[vs[i] for i in va]} and {[vs[i] for i in vb]}", ctx)
    ctx.trace()
    ctx.state(case)


class Plain:
    pass


class Twin:
    """another kind of thing with the same parameters"""

    def __init__(self, o):
        self.__dict__.update(vars(o))


def run_other(case, ctx):
    """never equal to a set of another kind or to anything else"""
    kind, how = case
    a = fill(kind, how)
    others = [None, 0, False, "", (), {}, [], object(), 1.5, contents(kind, a), type(a), Plain(), Twin(a)] + [
        fill(k, h) for k in KINDS if k != kind for h in ("zero", "last")]
    for o in others:
        equal(a, o, False, f"{kind} and {type(o).__name__}", ctx)
    ctx.trace()
    ctx.state(case)


def run_match(case, ctx):
    """an instrument matches exactly the settings it was made of"""
    slots, name = case
    C = sut.ymconfig
    kind = "BaseConfig" if name in KINDS["BaseConfig"] else "ChannelConfig"
    base, chan = fill("BaseConfig", "mixed"), fill("ChannelConfig", "mixed")
    ins = C.Config(3, base, chan, C.Operators(slots))
    for s in range(16):
        if bool(ins.compare(copy.deepcopy(base), copy.deepcopy(chan), C.Operators(s))) != (s == slots):
            fail(f"instrument with operators {slots} and settings with operators {s}: match is {s != slots}")
    for v in values(kind, name):
        b, c = copy.deepcopy(base), copy.deepcopy(chan)
        o = b if kind == "BaseConfig" else c
        want = get(o, name) == v
        put(o, name, v)
        ctx.ops()
        if bool(ins.compare(b, c, C.Operators(slots))) != want:
            fail(f"instrument with {name} {get(base if o is b else chan, name)} and settings with {v}: match is {not want}")
    ctx.trace()
    ctx.state(case)


def run_pairwise(case, ctx):
    """sets filled with rows of an orthogonal array: an equal set, one parameter different, a copy, an instrument made of it"""
    kind, s = case
    names = list(KINDS[kind])
    vals = [values(kind, n) for n in names]
    a, b = fill(kind, "zero"), fill(kind, "last")
    for t in range(pairwise.P):
        row = [v[pairwise.factor(s, t, k + 1) % len(v)] for k, v in enumerate(vals)]
        for o in (a, b):
            for n, v in zip(names, row):
                put(o, n, v)
        equal(a, b, True, f"two {kind} with {row}", ctx)
        i = (t * 3 + s) % len(names)
        other = vals[i][(pairwise.factor(s, t, i + 1) + 1 + pairwise.factor(s, t, 0) % (len(vals[i]) - 1)) % len(vals[i])]
        put(b, names[i], other)
        equal(a, b, other == row[i], f"{kind} with {row} and with {names[i]} {other}", ctx)
        c = copy.deepcopy(a)
        if list(contents(kind, c)) != row:
            fail(f"the copy of {kind} with {row} has {contents(kind, c)}")
        put(c, names[i], other)
        if list(contents(kind, a)) != row:
            fail(f"{kind} with {row} has {contents(kind, a)} after {names[i]} of its copy was set to {other}")
        if kind in ("BaseConfig", "ChannelConfig"):
            C = sut.ymconfig
            slots = C.Operators(1 + pairwise.factor(s, t, 100) % 15)
            same = fill("ChannelConfig" if kind == "BaseConfig" else "BaseConfig", "mixed")
            parts = (a, same) if kind == "BaseConfig" else (same, a)
            diff = (c, same) if kind == "BaseConfig" else (same, c)
            ins = C.Config(t, *map(copy.deepcopy, parts), slots)
            if not ins.compare(*parts, slots):
                fail(f"an instrument of {kind} {row}, operators {slots.value}, does not match its own settings")
            if other != row[i] and ins.compare(*diff, slots):
                fail(f"an instrument of {kind} {row}, operators {slots.value}, matches settings with {names[i]} {other}")
    ctx.trace()
    ctx.state(case)


def families(tier):
    th = tier == "thorough"
    hows = ("zero", "last", "mixed")
    return [
        Family("pairwise", lambda: itertools.product(KINDS, range(pairwise.P)), run_pairwise, "66049 fillings of each kind of set in which every "
               "two parameters take every pair of values: equal sets, one parameter different, copies, instruments"),
        Family("one parameter", lambda: ((k, n, h) for k in KINDS for n in KINDS[k] for h in (hows if th else ("zero", "mixed"))),
               run_single, "all pairs of values of every parameter of the four kinds of sets"),
        Family("two parameters", lambda: ((k, a, b) for k in KINDS for a, b in itertools.combinations(KINDS[k], 2)),
               run_double, "all pairs of parameters, three values each, all pairs of settings"),
        Family("extremes", lambda: ((k, m) for k in KINDS for m in range(min(64, 1 << EXTREME[k]))), run_extremes,
               "every assignment of smallest and largest values to all parameters of a set, and all their neighbours"),
        Family("copies", lambda: ((k, n, h, w) for k in KINDS for n in KINDS[k] for h in hows for w in COPIES), run_copy,
               "copies, one parameter of original or copy set to each of its values"),
        Family("copies of pairs", lambda: ((k, a, b) for k in KINDS for a, b in itertools.combinations(KINDS[k], 2)), run_copy2,
               "copies of sets with two parameters at their ends, all pairs of parameters; the copy is then changed"),
        Family("arranged operators", lambda: itertools.product(KINDS["OperatorConfig"], ("zero", "mixed"), range(81)), run_arranged,
               "channels whose operators differ in one parameter only, all pairs of arrangements of three values"),
        Family("other things", lambda: itertools.product(KINDS, hows), run_other, "sets against things of another kind"),
        Family("matching", lambda: ((s, n) for s in range(16) for k in ("BaseConfig", "ChannelConfig") for n in KINDS[k]),
               run_match, "an instrument against settings differing in each value of each parameter and all operator sets"),
    ]
