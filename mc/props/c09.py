"""Register decoding: every register/value pair is written to the real chip state over several register contents, then a
note is started on all eight channels; every parameter of every instrument and the pitch and pan of every event must be
the data-sheet decoding of the last values written (reference register file).  All register pairs in both orders."""
import itertools

from .. import pairwise, ref, sut
from ..common import check_extraction, compare_state, outcome
from ..engine import Family, sequences

LEVEL = "model_checking"
ASSUMPTIONS = ["key-on is the observation: a parameter no later key-on shows is not a user-visible state"]

REGS = [r for r in range(256) if r != 8]
BASES = {
    "reset": [],
    "ones": [(r, 0xFF) for r in REGS] + [(0x19, 0x7F)],
    "pattern": [(r, (r * 37 + 11) & 0xFF) for r in REGS] + [(0x19, 0x35), (0x19, 0xCA)],
    "counter": [(r, (~r * 29) & 0xFF) for r in REGS] + [(0x19, 0x4A), (0x19, 0xB5)],
}


class Pair:
    """the real state and the reference chip, driven in lockstep"""

    def __init__(self, ctx, base=()):
        self.ctx = ctx
        self.st = sut.ymstate.State()
        self.chip = ref.Chip()
        for r, v in base:
            self.write(r, v)

    def write(self, r, v):
        self.st.apply(sut.ymconfig.create(r, v))
        self.chip.write(r, v)
        self.ctx.ops()

    def wait(self, n):
        self.st.beat(n)
        self.chip.now += n
        self.ctx.ops()

    def key_all(self, slots=15):
        for ch in range(8):
            self.write(8, slots << 3 | ch)

    def check(self, what, ticks=True):
        compare_state(self.st, self.chip, what, ticks)
        self.ctx.trace()
        self.ctx.state(outcome(self.chip))


def run_write(case, ctx):
    """all 256 values of one register over one register content"""
    base, reg, lo = case
    step = 1 if base == "reset" else 8
    for a in range(lo, lo + 64, step):
        p = Pair(ctx, BASES[base])
        for v in range(a, a + step):
            p.write(reg, v)
            p.key_all()
            p.wait(1)
        p.check(f"registers '{base}', then register {reg:#04x} = {a:#04x}..{a + step - 1:#04x}")


def run_pairs(case, ctx):
    """register reg, then every other register"""
    reg, v1, v2 = case
    for r2 in range(256):
        p = Pair(ctx)
        p.write(reg, v1)
        p.write(r2, v2)
        p.key_all()
        p.check(f"register {reg:#04x} = {v1:#04x}, then {r2:#04x} = {v2:#04x}")


def run_reset_all(case, ctx):
    """all registers one way, then one register after the other written, observed after each"""
    base, order = case
    p = Pair(ctx, BASES[base])
    for r in REGS if order else reversed(REGS):
        q = Pair(ctx, BASES[base])
        for v in (0x00, 0xFF, 0x55, 0xAA):
            q.write(r, v)
            q.key_all()
        q.check(f"registers '{base}', then register {r:#04x} = 00, ff, 55, aa")
        p.write(r, 0x5A if order else 0xA5)
    p.key_all()
    p.check(f"registers '{base}' all overwritten")


GLOBALS = (0x0F, 0x18, 0x19, 0x1B)


def run_value_pairs(case, ctx):
    """one value of a register, then every other one, a note after each"""
    base, reg, v1 = case
    ch = 5 if reg < 0x20 else reg & 7
    p = Pair(ctx, [(r, x) for r, x in BASES[base] if r < 0x20 or r & 7 == ch])
    for v2 in range(256):
        p.write(reg, v1)
        p.write(8, 0x78 | ch)
        p.write(reg, v2)
        p.write(8, 0x78 | ch)
    p.check(f"registers '{base}', register {reg:#04x} = {v1:#04x} and every other value in turn, notes on channel {ch}", ticks=False)


def value_pairs(th):
    regs = [*GLOBALS, *((r for r in range(0x20, 256)) if th else (0x20, 0x2B, 0x33, 0x3D, 0x47, 0x52, 0x6C, 0x79, 0x84, 0x9E, 0xA1,
                                                                  0xBB, 0xC5, 0xD0, 0xEE, 0xFA, 0xE7, 0x68))]
    few = (0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 63, 64, 85, 127, 128, 129, 170, 191, 192, 224, 240, 254, 255)
    for r in regs:
        for base in ("reset", "pattern"):
            for v in range(256) if th or r in GLOBALS else few:
                yield base, r, v


def run_parameters(case, ctx):
    """one parameter and another over value combinations, each combination sounded"""
    from .c10 import FIELDS, Fields, content, values
    f, g, kind = case
    p = Fields(ctx)
    content(p, kind)
    combos = list(itertools.product(values(f), values(g)))
    for x, y in combos + combos[::-1]:
        p.set(f, x)
        p.set(g, y)
        p.write(8, 0x7F)
    p.check(f"registers '{kind}', all combinations of {FIELDS[f][0]} {values(f)} and {FIELDS[g][0]} {values(g)}", ticks=False)


def run_contexts(case, ctx):
    """each parameter changed alone in every algorithm, operator set and content: its value is shown"""
    from .c10 import FIELDS, NF, Fields, content, value
    con, mask, kind = case
    p = Fields(ctx)
    content(p, kind)
    p.set(5, con)
    p.write(8, mask << 3 | 7)
    for f in range(NF):
        v, top = value(p, f), (1 << FIELDS[f][3]) - 1
        for x in sorted({v ^ 1, top - v, 0, top, v}):
            p.set(f, x)
            p.write(8, mask << 3 | 7)
        p.set(f, v)
    p.check(f"each parameter changed alone, algorithm {con}, operator set {mask}, content '{kind}'", ticks=False)


def run_pairwise(s, ctx):
    """all registers written in rows of an orthogonal array, all channels sounded after each row"""
    for lo in range(0, pairwise.P, 8):
        p = Pair(ctx)
        for t in range(lo, min(lo + 8, pairwise.P)):
            for r, v in pairwise.registers(s, t):
                p.write(r, v)
            p.key_all(1 + pairwise.factor(s, t, 5) % 15)
        p.check(f"rows {lo}.. of the orthogonal array {s}", ticks=False)


NP = 54


def parameter_pairs(kinds):
    return ((f, g, k) for f in range(NP) for g in range(NP) if f < g for k in kinds)


OPS = [(0x20, 0xC7), (0x20, 0x38), (0x28, 0x7E), (0x28, 0x01), (0x30, 0xFC), (0x38, 0x73), (0x38, 0x00), (0x0F, 0x9F),
       (0x18, 0xC2), (0x19, 0x7F), (0x19, 0xFF), (0x19, 0x80), (0x1B, 0xC3), (0x48, 0x7F), (0x60, 0xFF), (0x98, 0xDF),
       (0xA8, 0x9F), (0xC0, 0xDF), (0xF8, 0xFF)]


def run_seq(seq, ctx):
    """register write sequences, each followed by a note on channels 0 and 7, through the whole pipeline"""
    s = b"".join(ref.w(*OPS[i]) for i in seq) + ref.key(0) + ref.key(7, 5)
    _st, chip = check_extraction(s, ctx)
    ctx.ops(len(seq) + 2)
    ctx.trace()
    ctx.state(outcome(chip))


def run_file(case, ctx):
    """the same writes through a file: one register, all values, all channels keyed"""
    reg, v0 = case
    s = b""
    for v in range(v0, v0 + 32):
        s += ref.w(reg, v) + b"".join(ref.key(c) for c in range(8)) + b"\x70"
    _st, chip = check_extraction(s + b"\x66", ctx)
    ctx.ops(32 * 10)
    ctx.trace()
    ctx.state(outcome(chip))


def families(tier):
    th = tier == "thorough"
    bases = list(BASES) if th else ["reset", "ones", "pattern"]
    return [
        Family("all writes", lambda: itertools.product(bases, range(256), (0, 64, 128, 192)), run_write,
               f"all 65536 register/value pairs over {len(bases)} register contents, all channels observed"),
        Family("register pairs", lambda: ((r, a, b) for r in range(256) for a, b in
                                          (((255, 255), (255, 0), (0x55, 0xAA), (1, 0x80)) if th else ((255, 255),))),
               run_pairs, "all 65536 ordered register pairs"),
        Family("value pairs", lambda: value_pairs(th), run_value_pairs,
               "all 65536 pairs of values of every " + ("register" if th else "global register, 23 x 256 of one register of each "
               "kind and operator") + ", over two contents"),
        Family("parameter pairs", lambda: parameter_pairs(("zeros", "mixed", "ones") if th else ("mixed",)), run_parameters,
               "all pairs of the 54 parameters, extreme values"),
        Family("contexts", lambda: itertools.product(range(8), range(16) if th else (1, 6, 15),
                                                     ("zeros", "ones", "mixed", "silent", "slow", "quiet")), run_contexts,
               "each parameter changed alone in 8 algorithms x operator sets x 6 contents"),
        Family("pairwise", lambda: range(pairwise.P), run_pairwise, "66049 contents of all registers in which every two registers take "
               "every pair of values, written in many orders, all channels sounded"),
        Family("overwrites", lambda: itertools.product(list(BASES), (0, 1)), run_reset_all,
               "each register overwritten four times over each content; all registers overwritten"),
        Family("sequences", lambda: sequences(len(OPS), 4 if th else 3), run_seq,
               f"all sequences of up to {4 if th else 3} of {len(OPS)} writes"),
        Family("files", lambda: itertools.product(REGS,
                                                  (0, 96, 192)), run_file, "register sweeps through files"),
    ]
