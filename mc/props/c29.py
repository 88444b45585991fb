"""Reading back: after every single step of register histories, every named value readable from the live chip state, and
every named value of every extracted instrument, must be the reference's decoding of the register file."""
import itertools

from .. import pairwise, ref, sut
from ..engine import Family, check_eq, fail, sequences
from .c09 import BASES, REGS, Pair
from .c10 import CONTENTS, FIELDS, NF, Fields, content, value, values

LEVEL = "model_checking"
ASSUMPTIONS = []

OPERATOR = {"total_level": "tl", "attack_rate": "ar", "first_decay_rate": "d1r", "first_decay_level": "d1l",
            "second_decay_rate": "d2r", "release_rate": "rr", "key_scale": "ks", "multiply": "mul",
            "first_detune": "dt1", "second_detune": "dt2", "ase": "ase"}
CHANNEL = {"fb": "feedback", "connection": "connection", "ams": "ams", "pms": "pms", "noise": "noise",
           "noise_freq": "noise_freq"}


def channel_values(c):
    """the values of a channel (or instrument) as an instrument file entry"""
    d = {k: getattr(c, a) for a, k in CHANNEL.items()}
    ops = c.operators
    if len(ops) != 4:
        fail(f"{len(ops)} operators")
    for name, o in zip(ref.OPERATORS, ops):  # register order
        d[name] = {k: getattr(o, a) for a, k in OPERATOR.items()}
    return d


def base_values(s):
    return dict(waveform=s.waveform.name, lfo=s.lfo, amp_md=s.amp_md, phs_md=s.phs_md)


def check_live(p, what, chans=range(8)):
    for ch in chans:
        want = ref.instrument_json(0, p.chip.timbre(ch, 15))
        if ch == 0 or len(chans) == 1:
            got = base_values(p.st)
            if got != want["base"]:
                check_eq(got, want["base"], f"{what}: global values read from the state")
        got = channel_values(p.st.channel_config(ch))
        if got != want["channel"]:
            check_eq(got, want["channel"], f"{what}: values read from channel {ch}")


def check_instruments(p, what):
    ins = p.st.configs
    exp = ref.instruments_json(p.chip)
    if len(ins) != len(exp):
        fail(f"{what}: {len(ins)} instruments, expected {len(exp)}")
    for i, (c, want) in enumerate(zip(ins, exp)):
        slots = p.chip.instruments[i][-1]
        ops = "|".join(n for b, n in enumerate(ref.SLOT_NAMES) if c.enabled_operators.value >> b & 1)
        got = dict(id=i, base=base_values(c), operators=ops, channel=channel_values(c))
        if c.enabled_operators.value != slots or got != want:
            check_eq(got, want, f"{what}: values read from instrument {i}")


def done(p, ctx):
    ctx.trace()
    ctx.state((bytes(p.chip.r), p.chip.amd, p.chip.pmd, len(p.chip.instruments)))


def run_write(case, ctx):
    """all values of a register, read back after each write; a note at times"""
    base, reg, lo = case
    p = Pair(ctx, BASES[base])
    for v in range(lo, lo + 64):
        p.write(reg, v)
        check_live(p, f"registers '{base}', register {reg:#04x} written up to {v:#04x}",
                   range(8) if v % 16 == 5 else (reg & 7,))
        p.write(8, (v % 15 + 1) << 3 | reg & 7)
        check_live(p, f"registers '{base}', register {reg:#04x} = {v:#04x}, note", (reg & 7,))
    check_instruments(p, f"registers '{base}', register {reg:#04x} = {lo:#04x}..{lo + 63:#04x} with notes")
    done(p, ctx)


def run_pairs(case, ctx):
    r1, v1 = case
    for r2 in range(256):
        p = Pair(ctx)
        p.write(r1, v1)
        p.write(r2, v1 ^ 0xAA)
        check_live(p, f"register {r1:#04x} = {v1:#04x}, then {r2:#04x} = {v1 ^ 0xAA:#04x}")
        done(p, ctx)


OPS = [(0x20, 0xFD), (0x27, 0x12), (0x38, 0x73), (0x0F, 0x9F), (0x18, 0xC2), (0x19, 0x7F), (0x19, 0xFF), (0x1B, 0xC2),
       (0x48, 0x7F), (0x67, 0xFF), (0x98, 0xDF), (8, 0x78), (8, 0x7F), (8, 0x00), (0x18, 0), (0x20, 0)]


def run_seq(seq, ctx):
    """after every step of a history the live values; at the end the instruments, before and after a file is written"""
    p = Pair(ctx)
    for n, i in enumerate(seq):
        p.write(*OPS[i])
        p.wait(7)
    what = f"history {[OPS[i] for i in seq]}"
    check_live(p, what, (0, 7, 3))
    check_instruments(p, what)
    done(p, ctx)


def run_field_pair(case, ctx):
    """all value combinations of two parameters in notes, read back from the instruments"""
    f, g = case
    p = Fields(ctx)
    for x, y in itertools.product(values(f), values(g)):
        p.set(f, x)
        p.set(g, y)
        p.write(8, 0x7F)
        check_live(p, f"{FIELDS[f][0]} = {x}, {FIELDS[g][0]} = {y}", (7,))
    check_instruments(p, f"all combinations of {FIELDS[f][0]} and {FIELDS[g][0]}")
    done(p, ctx)


def run_context(case, ctx):
    """each parameter changed alone in every algorithm, operator set and content"""
    con, mask, kind = case
    p = Fields(ctx)
    content(p, kind)
    p.set(5, con)
    p.write(8, mask << 3 | 7)
    for f in range(NF):
        v, top = value(p, f), (1 << FIELDS[f][3]) - 1
        for x in sorted({v ^ 1, 0, top} - {v}):
            p.set(f, x)
            p.write(8, mask << 3 | 7)
            check_live(p, f"content '{kind}', algorithm {con}, {FIELDS[f][0]} = {x}", (7,))
        p.set(f, v)
    check_instruments(p, f"each parameter changed alone, algorithm {con}, operator set {mask}, content '{kind}'")
    done(p, ctx)


def run_many(case, ctx):
    n, ch = case
    p = Pair(ctx, BASES["pattern"])
    for i in range(n):
        p.write(0x40 + 8 * (i % 24) + ch, i * 31 & 0xFF)
        p.write(0x18, i & 0xFF)
        p.write(0x19, i * 3 & 0xFF)
        p.write(0x1B, i & 0xFF)
        p.write(8, (i % 15 + 1) << 3 | ch)
        check_live(p, f"{i + 1} notes", (ch,))
    check_live(p, f"{n} notes")
    check_instruments(p, f"{n} notes on channel {ch}")
    done(p, ctx)


def run_pairwise(s, ctx):
    """all registers written in rows of an orthogonal array, everything read back after each row"""
    for lo in range(0, pairwise.P, 16):
        p = Pair(ctx)
        for t in range(lo, min(lo + 16, pairwise.P)):
            for r, v in pairwise.registers(s, t):
                p.write(r, v)
            check_live(p, f"rows {lo}..{t} of the orthogonal array {s}")
            p.write(8, 1 + pairwise.factor(s, t, 5) % 15 << 3 | t & 7)
        check_live(p, f"rows {lo}.. of the orthogonal array {s} with notes")
        check_instruments(p, f"rows {lo}.. of the orthogonal array {s}")
        done(p, ctx)


def families(tier):
    th = tier == "thorough"
    bases = list(BASES) if th else ["reset", "pattern"]
    return [
        Family("pairwise", lambda: range(pairwise.P), run_pairwise, "66049 contents of all registers in which every two registers take "
               "every pair of values, read back from the state and from instruments"),
        Family("all writes", lambda: itertools.product(bases, range(256), (0, 64, 128, 192)), run_write,
               f"all 65536 register/value pairs over {len(bases)} register contents, read back after each"),
        Family("register pairs", lambda: itertools.product(REGS, (0xFF, 0x55, 0xAA) if th else (0xFF,)), run_pairs,
               "all ordered register pairs, all channels read back"),
        Family("histories", lambda: sequences(len(OPS), 5 if th else 3), run_seq,
               f"all histories of up to {5 if th else 3} of {len(OPS)} writes"),
        Family("two parameters", lambda: itertools.combinations(range(NF), 2), run_field_pair,
               "all pairs of parameters, extreme values, read back from the state and the instruments"),
        Family("contexts", lambda: itertools.product(range(8), range(1, 16) if th else (1, 8, 15), CONTENTS), run_context,
               "each parameter changed alone in every algorithm, several operator sets and contents"),
        Family("many", lambda: itertools.product((5, 60, 300), range(8)), run_many, "up to 300 instruments read back"),
    ]
