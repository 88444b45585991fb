"""Instrument file: every value of every parameter, all operator sets, pairs of parameters and up to hundreds of instruments
are exported and the file read back with a strict JSON reader; every key, value and JSON type must be the reference's."""
import itertools
import json
import os

from .. import pairwise, ref, sut
from ..engine import Family, check_eq, fail
from .c09 import BASES, Pair
from .c10 import FIELDS, NF, Fields, values

LEVEL = "model_checking"


def no_duplicates(pairs):
    keys = [k for k, _ in pairs]
    if len(keys) != len(set(keys)):
        raise ValueError(f"duplicate keys {keys}")
    return dict(pairs)


def bad_constant(x):
    raise ValueError(f"{x} is not JSON")


def export(p, ctx, what):
    data = sut.export_instruments(p.st, os.path.join(ctx.scratch, "i.json"))
    ctx.ops()
    ctx.trace()
    try:
        got = json.loads(data.decode("utf-8"), object_pairs_hook=no_duplicates, parse_constant=bad_constant)
    except ValueError as e:
        fail(f"{what}: the instrument file is not valid JSON: {e}")
    want = ref.instruments_json(p.chip)
    if json.dumps(got, sort_keys=True) != json.dumps(want, sort_keys=True):  # tells 1, 1.0 and true apart
        if got != want:
            check_eq(got, want, f"{what}: instrument file")
        fail(f"{what}: the instrument file has a value of another JSON type: {json.dumps(got)[:800]} expected "
             f"{json.dumps(want)[:800]}")
    seen = {}
    for e in got:
        k = json.dumps({x: e[x] for x in e if x != "id"}, sort_keys=True)
        if k in seen:
            fail(f"{what}: instruments {seen[k]} and {e['id']} have the same entry")
        seen[k] = e["id"]
    ctx.state(hash(json.dumps(want)))


def run_field(case, ctx):
    """every value of one parameter, over other parameters all zero or all one"""
    f, base, ch = case
    if 2 <= f <= 3 and ch != 7:
        ch = 7
    p = Fields(ctx, BASES[base])
    for v in range(1 << FIELDS[f][3]):
        p.set(f, v, ch)
        p.write(8, 0x78 | ch)
    export(p, ctx, f"every value of {FIELDS[f][0]} on channel {ch} over '{base}'")


def run_pair(case, ctx):
    f, g = case
    p = Fields(ctx)
    for x, y in itertools.product(values(f), values(g)):
        p.set(f, x)
        p.set(g, y)
        p.write(8, 0x7F)
    export(p, ctx, f"combinations of {FIELDS[f][0]} and {FIELDS[g][0]}")


def run_count(case, ctx):
    """n instruments, all parameters varying"""
    n, ch = case
    p = Pair(ctx, BASES["pattern"])
    for i in range(n):
        p.write(0x40 + 8 * (i & 15) + ch, i * 31 & 0xFF)
        p.write(0x60 + ch, i & 0x7F)
        p.write(0x78 + ch, i >> 7)
        p.write(8, (i % 15 + 1) << 3 | ch)
    if len(p.chip.instruments) != n:
        raise RuntimeError("instruments not distinct")
    export(p, ctx, f"{n} instruments")


def run_bytes(case, ctx):
    """instrument files whose size lies right at a power of two"""
    target, d = case

    def build(n, extra):
        p = Pair(ctx)
        for i in range(n):
            p.write(0x18, 100 + i)
            take = min(extra, 33)
            extra -= take
            # one more digit each: total levels (up to two), attack, decays, release, multiple, modulation depths
            for o in range(4):
                p.write(0x60 + 8 * o, (0, 10, 100)[min(take, 2)])
                take -= min(take, 2)
                for reg in (0x80, 0xA0, 0xC0):
                    p.write(reg + 8 * o, 10 if take else 0)
                    take -= take > 0
                level = 10 if take else 0
                take -= take > 0
                release = 10 if take else 0
                take -= take > 0
                p.write(0xE0 + 8 * o, level << 4 | release)
                p.write(0x40 + 8 * o, 10 if take else 0)
                take -= take > 0
            p.write(0x19, 10 if take else 0)
            p.write(8, 8)
        return p, len(json.dumps(ref.instruments_json(p.chip), indent="\t"))
    one = build(2, 0)[1] - build(1, 0)[1]
    n = min(target // one, 150)
    while n > 0:
        lack = target + d - build(n, 0)[1]
        if lack >= 0:
            break
        n -= 1
    p, size = build(n, lack)
    if size == target + d:  # small files cannot have every size
        export(p, ctx, f"{n} instruments, a document of {size} characters")


def run_masks(case, ctx):
    """every operator set, in an order"""
    ch, step, base = case
    p = Pair(ctx, BASES[base])
    for i in range(15):
        p.write(8, (i * step % 15 + 1) << 3 | ch)
    export(p, ctx, f"all operator sets on channel {ch}")


def run_write(case, ctx):
    """every register value, exported"""
    reg, base = case
    p = Pair(ctx, BASES[base])
    for v in range(256):
        if reg != 8:
            p.write(reg, v)
        ch = reg & 7 if reg >= 0x20 else 7
        p.write(8, 0x78 | ch)
    export(p, ctx, f"every value of register {reg:#04x} over '{base}'")


def run_pairwise(s, ctx):
    """an instrument for every row of an orthogonal array"""
    p = Pair(ctx)
    for t in range(pairwise.P):
        ch = pairwise.factor(s, t, 1) & 7
        for r, v in pairwise.registers(s, t, ch):
            p.write(r, v)
        p.write(8, 1 + pairwise.factor(s, t, 2) % 15 << 3 | ch)
    export(p, ctx, f"the instruments of the orthogonal array {s}")


def families(tier):
    th = tier == "thorough"
    return [
        Family("pairwise", lambda: range(pairwise.P), run_pairwise, "257 files of 257 instruments in which every two of the parameters, the "
               "operators and the number take every pair of values"),
        Family("values", lambda: itertools.product(range(NF), ("reset", "ones", "pattern"), (0, 3, 7) if th else (7, 2)),
               run_field, f"every value of all {NF} parameters over three contents"),
        Family("pairs", lambda: itertools.combinations(range(NF), 2), run_pair, "all pairs of parameters, extreme values"),
        Family("operator sets", lambda: itertools.product(range(8), (1, 2, 4, 7), ("reset", "ones")), run_masks,
               "all operator sets in four orders"),
        Family("counts", lambda: itertools.product(list(range(41)) + [100, 255, 256, 257, 512, 513, 1000, 1001, 1024, 1025], (0, 5)), run_count,
               "0..40 and up to 1025 instruments", cpu_s=200),
        Family("thousands", lambda: [(n, 3) for n in ((2049, 4098, 8200) if th else (4098,))], run_count,
               f"{'8200' if th else '4098'} instruments", cpu_s=600),
        Family("sizes", lambda: itertools.product([(1 << k) * m for k in range(10, 15) for m in (1, 3, 5, 7) if (1 << k) * m <= 100000]
                                                  + [65536, 65536 + 8192], range(-4, 5)), run_bytes,
               "files of every size around multiples of powers of two up to 96 KiB"),
        Family("registers", lambda: itertools.product(range(0x0F, 256), ("pattern", "ones") if th else ("pattern",)),
               run_write, "every value of every register"),
    ]
