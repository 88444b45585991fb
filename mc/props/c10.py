"""Instrument identity: explicit-state search to the fixpoint over small timbre domains (a state is the register contents
plus the ordered list of instruments; every transition is replayed on the real code), all operation sequences to a depth,
every parameter changed and restored, every pair of parameters with swapped values, and hundreds of instruments."""
import itertools

from .. import pairwise, ref, sut
from ..common import check_extraction, outcome
from ..engine import Family, fail, sequences
from .c09 import BASES, REGS, Pair

LEVEL = "model_checking"

# (name, register for a channel, shift, bits) of every timbre parameter
FIELDS = [("lfo", lambda c: 0x18, 0, 8), ("waveform", lambda c: 0x1B, 0, 2),
          ("noise", lambda c: 0x0F, 7, 1), ("noise_freq", lambda c: 0x0F, 0, 5),
          ("feedback", lambda c: 0x20 + c, 3, 3), ("connection", lambda c: 0x20 + c, 0, 3),
          ("pms", lambda c: 0x38 + c, 4, 3), ("ams", lambda c: 0x38 + c, 0, 2)]
for _o in range(4):
    for _n, _base, _sh, _bits in (("dt1", 0x40, 4, 3), ("mul", 0x40, 0, 4), ("tl", 0x60, 0, 7), ("ks", 0x80, 6, 2),
                                  ("ar", 0x80, 0, 5), ("ase", 0xA0, 7, 1), ("d1r", 0xA0, 0, 5), ("dt2", 0xC0, 6, 2),
                                  ("d2r", 0xC0, 0, 5), ("d1l", 0xE0, 4, 4), ("rr", 0xE0, 0, 4)):
        FIELDS.append((f"{_n}{_o}", lambda c, b=_base, o=_o: b + o * 8 + c, _sh, _bits))
FIELDS += [("pmd", None, 0x80, 7), ("amd", None, 0, 7)]
NF = len(FIELDS)


class Fields(Pair):
    """writes single parameters, keeping the neighbours in the same register"""

    def set(self, f, value, ch=7):
        _name, reg, shift, bits = FIELDS[f]
        if reg is None:
            self.write(0x19, shift | value)
            return
        r = reg(ch)
        mask = ((1 << bits) - 1) << shift
        self.write(r, self.chip.r[r] & ~mask | value << shift)

    def ids(self):
        return [[e[1] for e in evs if e[1] >= 0] for evs in sut.events(self.st)]


def run_change(case, ctx):
    """note, one register changed, note, changed back, note: over register contents; all 256 values"""
    base, reg, lo = case
    for v in range(lo, lo + 64):
        p = Pair(ctx, [(r, x) for r, x in BASES[base]
                                                               if r < 0x20 or r & 7 == reg & 7])
        ch = 7 if reg < 0x20 else reg & 7
        old, amd, pmd = p.chip.r[reg], p.chip.amd, p.chip.pmd
        p.write(8, 15 << 3 | ch)
        p.write(reg, v)
        p.write(8, 15 << 3 | ch)
        if reg == 0x19:
            p.write(reg, amd)
            p.write(reg, 0x80 | pmd)
        else:
            p.write(reg, old)
        p.write(8, 15 << 3 | ch)
        p.write(8, 7 << 3 | ch)
        p.check(f"registers '{base}', note, register {reg:#04x} = {v:#04x}, note, restored, note")


def run_field_pair(case, ctx):
    """all value combinations of two parameters, each tuple visited twice"""
    f, g = case
    fv, gv = values(f), values(g)
    p = Fields(ctx)
    combos = list(itertools.product(fv, gv))
    for x, y in combos + combos[::-1]:
        p.set(f, x)
        p.set(g, y)
        p.write(8, 0x7F)
    p.check(f"all combinations of {FIELDS[f][0]} {fv} and {FIELDS[g][0]} {gv}", ticks=False)
    ids = p.ids()[7]
    if len(p.chip.instruments) != len(combos) or ids != ids[::-1] or ids[:len(combos)] != list(range(len(combos))):
        fail(f"combinations of {FIELDS[f][0]} and {FIELDS[g][0]} got the instruments {ids}")


def values(f):
    bits = FIELDS[f][3]
    return [0, 1] if bits == 1 else [0, 1, (1 << bits) - 1] if bits < 4 else [0, 1, 11, (1 << bits) - 1]


def run_field_all(f, ctx):
    """every value of one parameter, then all again backwards, with two operator sets"""
    p = Fields(ctx)
    vs = list(range(1 << FIELDS[f][3]))
    for v in vs + vs[::-1]:
        p.set(f, v)
        p.write(8, 0x7F)
        p.write(8, 0x17)
    p.check(f"every value of {FIELDS[f][0]}, forwards and backwards", ticks=False)


def run_channels(case, ctx):
    """one timbre on two channels: same instrument whatever pitch, pan and time; then one parameter differs"""
    a, b, f = case
    p = Fields(ctx)
    for ch, k in ((a, 0x31), (b, 0x7E)):
        for g in (4, 6, 8, 10, 19, 30):
            p.set(g, 1, ch)
        p.write(0x20 + ch, p.chip.r[0x20 + ch] | (0xC0 if ch == a else 0x40))
        p.write(0x28 + ch, k)
        p.write(0x30 + ch, k << 1 & 0xFC)
    p.write(8, 0x78 | a)
    p.wait(3)
    p.write(8, 0x78 | b)
    p.check(f"equal timbres on channels {a} and {b}")
    if p.ids()[a][-1] != p.ids()[b][-1]:
        fail(f"equal timbres on channels {a} and {b} got different instruments")
    for v in values(f)[1:]:
        p.set(f, v, b)
        p.write(8, 0x78 | b)
        p.write(8, 0x78 | a)
    p.check(f"channels {a} and {b}, {FIELDS[f][0]} differing on channel {b}")


def run_masks(case, ctx):
    """all pairs of enabled-operator sets on two channels"""
    m, ch, base = case
    p = Pair(ctx, [(r, x) for r, x in BASES[base] if r < 0x20 or r & 7 in (0, ch)])
    for m2 in range(16):
        p.write(8, m << 3)
        p.write(8, m2 << 3 | ch)
        p.write(8, m2 << 3)
        p.write(8, ch)
    p.check(f"operator set {m} on channel 0, all sets on channel {ch}, registers '{base}'", ticks=False)


def run_chords(case, ctx):
    """known timbres in every assignment to chords of up to eight notes, then one more known timbre and a new one"""
    n, head = case
    for tail in itertools.product(range(n), repeat=4):
        p = Pair(ctx)

        def strike(ch, t):
            p.write(0x60 + ch, t)
            p.write(8, 0x78 | ch)
        for t in range(n):
            strike(7, t)
            p.wait(1)
        p.write(8, 7)
        p.wait(1)
        for ch, t in enumerate(head + tail):
            strike(ch, t)
        p.wait(1)
        for ch, t in ((3, (tail[0] + 1) % n), (4, n), (3, 0)):
            strike(ch, t)
        p.check(f"timbres 0..{n - 1} on channel 7, then a chord of {head + tail}, then more", ticks=False)


def run_many(case, ctx):
    """n instruments, then each again in another order on another channel"""
    n, how, order = case
    p = Pair(ctx)

    def timbre(i, ch):
        # consecutive timbres differ in one register only
        if how == "tl":
            p.write(0x60 + ch, i & 0x7F)
            p.write(0x78 + ch, i >> 7)
        elif how == "mixed":
            p.write(0xE0 + 8 * (i & 3) + ch, i & 0xFF)
            p.write(0x40 + ch, i >> 8)
            p.write(0x18, i * 7 & 0xFF)
        else:
            p.write(0x18, i & 0xFF)
            p.write(0x19, 0x80 | i >> 8)
    for i in range(n):
        timbre(i, 2)
        p.write(8, 0x7A)
        p.wait(1)
        p.write(8, 2)
    seq = range(n) if order == "same" else reversed(range(n)) if order == "reverse" else [i * 7919 % n for i in range(n)]
    for i in seq:
        timbre(i, 5)
        p.write(8, 0x7D)
        p.wait(1)
    p.check(f"{n} instruments ({how}), again in {order} order on another channel")


def run_later(case, ctx):
    """timbres come back long after they were last heard"""
    gap, n, ch = case
    p = Pair(ctx)

    def strike(c, t):
        p.write(0x60 + c, t)
        p.write(8, 0x78 | c)
        p.wait(1)
        p.write(8, c)
    for t in range(n):
        strike(0, t)
        p.wait(100)
    p.wait(gap)
    for t in range(n - 1, -1, -1):
        strike(ch, t)
        strike(7, n)
        p.wait(gap)
    p.check(f"{n} timbres on channel 0, again on channel {ch} every {gap} samples", ticks=False)


def run_busy(case, ctx):
    """timbres come back on a channel with thousands of notes"""
    n, kinds = case
    p = Pair(ctx)
    for t in range(kinds):
        p.write(0x60, t)
        p.write(8, 0x78)
        p.wait(1)
    for i in range(n):
        p.write(0x60, 100 + i % 7)
        p.write(8, 0x78)
        p.wait(1)
        p.write(8, 0)
    for t in range(kinds):
        for ch in (0, 3):
            p.write(0x60 + ch, t)
            p.write(8, 0x78 | ch)
        p.wait(1)
    p.check(f"{kinds} timbres, {n} notes of seven others, then the {kinds} again", ticks=False)


CONTENTS = ("zeros", "ones", "mixed", "silent", "slow", "quiet")


def content(p, kind, ch=7):
    """a register content for the contexts"""
    for f, (name, _reg, _shift, bits) in enumerate(FIELDS):
        top = (1 << bits) - 1
        p.set(f, {"zeros": 0, "ones": top, "mixed": f * 37 + 5 & top, "silent": top if name[:2] == "tl" else f * 29 + 3 & top,
                  "slow": 0 if name[:-1] in ("ar", "d1r", "d2r", "rr", "d1l") else f * 53 + 1 & top,
                  "quiet": 0 if name[:-1] in ("tl", "ks", "ase") or name in ("lfo", "pmd", "amd", "pms", "ams", "noise",
                                                                           "feedback") else f * 41 + 7 & top}[kind], ch)


def value(p, f, ch=7):
    _name, reg, shift, bits = FIELDS[f]
    if reg is None:
        return p.chip.pmd if shift else p.chip.amd
    return p.chip.r[reg(ch)] >> shift & (1 << bits) - 1


def run_bits(kind, ctx):
    """every single bit of every parameter flipped alone: as many instruments as bits"""
    p = Fields(ctx)
    content(p, kind)
    p.write(8, 0x7F)
    bits = [(f, b) for f in range(NF) for b in range(FIELDS[f][3])]
    for turn in (bits, bits[::-1]):
        for f, b in turn:
            v = value(p, f)
            p.set(f, v ^ 1 << b)
            p.write(8, 0x7F)
            p.set(f, v)
        p.write(8, 0x7F)
    p.check(f"every bit flipped over '{kind}'", ticks=False)
    if len(p.chip.instruments) != len(bits) + 1:
        raise RuntimeError("reference lost a bit")


def run_bit_pairs(case, ctx):
    """every two bits flipped together"""
    kind, f = case
    p = Fields(ctx)
    content(p, kind)
    for b in range(FIELDS[f][3]):
        p.set(f, value(p, f) ^ 1 << b)
        for g in range(NF):
            for c in range(FIELDS[g][3]):
                v = value(p, g)
                p.set(g, v ^ 1 << c)
                p.write(8, 0x7F)
                p.set(g, v)
        p.set(f, value(p, f) ^ 1 << b)
    p.check(f"every two bits, one of {FIELDS[f][0]}, flipped over '{kind}'", ticks=False)


def run_context(case, ctx):
    """no parameter is ever irrelevant: each changed alone in every algorithm, operator set and content"""
    con, mask, kind = case
    p = Fields(ctx)
    content(p, kind)
    p.set(5, con)
    p.write(8, mask << 3 | 7)
    for f in range(NF):
        v, top = value(p, f), (1 << FIELDS[f][3]) - 1
        for x in sorted({v ^ 1, top - v, 0, top} - {v}):
            p.set(f, x)
            p.write(8, mask << 3 | 7)
        p.set(f, v)
    p.write(8, mask << 3 | 7)
    p.check(f"each parameter changed alone, algorithm {con}, operator set {mask}, content '{kind}'", ticks=False)


# ---- explicit-state search ---------------------------------------------------

def bfs(ctx, ops, what, limit=200000):
    """all reachable (registers, instruments) states of a small domain; every edge replayed on the real code"""
    start = ref.Chip()
    init = (bytes(start.r), ())
    seen = {init: ()}
    todo = [init]
    while todo:
        nxt = []
        for s in todo:
            path = seen[s]
            for i in range(len(ops)):
                p = Pair(ctx)
                for j in path:
                    p.write(*ops[j])
                p.write(*ops[i])
                if ops[i][0] == 8:  # other operations are observed by the key-ons after them
                    p.check(f"{what}: operations {[ops[j] for j in path + (i,)]}", ticks=False)
                t = (bytes(p.chip.r), tuple(p.chip.instruments))
                if t not in seen:
                    seen[t] = path + (i,)
                    nxt.append(t)
        todo = nxt
        if len(seen) > limit:
            raise RuntimeError("state space larger than planned")
    return len(seen)


REP = [0, 2, 3, 4, 6, 8, 11, 18, 20, 27, 33, 40, 48, 51]


def run_bfs_fields(case, ctx):
    """two binary parameters, one channel: 4 timbres, to the fixpoint"""
    f, g = case
    a, b = FIELDS[f], FIELDS[g]
    ops = [(8, 0x7F)]
    regs = {}
    for x in (a, b):
        regs.setdefault(x[1](7), []).append(x)
    for r, xs in regs.items():
        for combo in itertools.product((0, 1), repeat=len(xs)):
            ops.append((r, sum(c << x[2] for c, x in zip(combo, xs))))
    ctx.ops(bfs(ctx, ops, f"search over {a[0]} and {b[0]}"))


def run_bfs_channels(case, ctx):
    """two channels with one parameter each and two operator sets: 4 timbres, to the fixpoint"""
    a, b, f, m = case
    reg = FIELDS[f][1]
    ops = [(reg(a), 0), (reg(a), 1 << FIELDS[f][2]), (reg(b), 0), (reg(b), 1 << FIELDS[f][2]),
           (8, 0x78 | a), (8, 0x78 | b), (8, m << 3 | a), (8, m << 3 | b)]
    bfs(ctx, ops, f"search over channels {a} and {b}, {FIELDS[f][0]}, operator sets 15 and {m}")


def run_orders(case, ctx):
    """three binary parameters, 8 timbres: all orders of first use of five of them (first two given), then backwards"""
    timbres = list(itertools.product((0, 1), repeat=3))
    for o in itertools.permutations(range(8), 5):
        if o[:2] != tuple(case):
            continue
        p = Pair(ctx)
        for k in o + o[::-1] + (o[2],):
            x, y, z = timbres[k]
            p.write(0x18, x)
            p.write(0x67, y)
            p.write(0x27, z << 3)
            p.write(8, 0x7F)
        p.check(f"timbres in the order {o}, then backwards", ticks=False)


SEQ_OPS = [(8, 0x78), (8, 0x79), (8, 0x08), (8, 0x00), (0x60, 1), (0x60, 0), (0x61, 1), (0x19, 1), (0x19, 0x81), (0x28, 5)]


def run_seq(seq, ctx):
    p = Pair(ctx)
    for i in seq:
        p.write(*SEQ_OPS[i])
    p.write(8, 0x78)
    p.write(8, 0x79)
    p.check(f"operations {[SEQ_OPS[i] for i in seq]}, then notes on channels 0 and 1")


def run_file(case, ctx):
    n, shift = case
    s = b"".join(ref.w(0x60 + (i & 7), i * 3 & 0x7F) + ref.w(0x18, i >> shift & 0xFF) + ref.key(i & 7, 1 + i % 15) + b"\x70"
                 + ref.key(i & 7, 0) for i in range(n))
    _st, chip = check_extraction(s, ctx, f"file with {n} notes")
    ctx.ops(n * 5)
    ctx.trace()
    ctx.state(outcome(chip))


def run_pairwise(s, ctx):
    """a note, the same with another pitch, one parameter changed by one bit, changed back: over rows of an orthogonal array"""
    for lo in range(0, pairwise.P, 48):
        p = Fields(ctx)
        for t in range(lo, min(lo + 48, pairwise.P)):
            ch = pairwise.factor(s, t, 1) & 7
            key = 1 + pairwise.factor(s, t, 2) % 15 << 3 | ch
            for r, v in pairwise.registers(s, t, ch):
                p.write(r, v)
            for _ in range(pairwise.factor(s, t, 9) % 3):
                p.write(8, ch)
            p.write(8, key)
            f = t % NF
            while ch != 7 and FIELDS[f][1] and FIELDS[f][1](ch) == 0x0F:
                f += 1
            bit = 1 << pairwise.factor(s, t, 3) % FIELDS[f][3]
            old = value(p, f, ch)
            p.set(f, old ^ bit, ch)
            p.write(8, key)
            p.set(f, old, ch)
            p.write(0x28 + ch, byte_of(s, t))
            p.wait(t)
            p.write(8, key)
        p.check(f"rows {lo}.. of the orthogonal array {s}", ticks=False)


def byte_of(s, t):
    return pairwise.byte(s, t, 4)


def families(tier):
    th = tier == "thorough"
    pairs = [(f, g) for f in range(NF) for g in range(f + 1, NF)]
    deep = [r for r in REP if FIELDS[r][1] is not None]
    return [
        Family("one register changed", lambda: itertools.product(("reset", "pattern") if th else ("reset",), REGS,
                                                                 (0, 64, 128, 192)),
               run_change, "all 65280 register/value pairs: note, change, note, restore, note"),
        Family("one parameter", lambda: range(NF), run_field_all, f"every value of all {NF} parameters, twice"),
        Family("two parameters", lambda: pairs, run_field_pair, f"all {len(pairs)} pairs of parameters, extreme values"),
        Family("channels", lambda: ((a, b, f) for a in range(8) for b in range(8) if a != b for f in range(2, NF - 2)
                                    if th or (a + b + f) % 3 == 0), run_channels,
               "all ordered channel pairs with one parameter differing" + ("" if th else " (a third of the parameters each)")),
        Family("operator sets", lambda: itertools.product(range(16), range(1, 8), BASES), run_masks,
               "all pairs of operator sets on channel 0 and every other channel, over several contents"),
        Family("fixpoint, two parameters", lambda: itertools.combinations(deep if th else deep[::2], 2),
               run_bfs_fields, "all reachable register/instrument-list states, 4 timbres"),
        Family("fixpoint, two channels", lambda: [(a, b, f, m) for a, b in ((0, 1), (0, 7), (3, 4)) for f in (4, 8, 20)
                                                  for m in (1, 8)][::1 if th else 5], run_bfs_channels,
               "all reachable states of two channels sharing 4 timbres"),
        Family("orders", lambda: [(i, j) for i in range(8) for j in range(8) if i != j], run_orders,
               "all orders of first use of 5 out of 8 timbres, then revisited backwards"),
        Family("sequences", lambda: sequences(len(SEQ_OPS), 6 if th else 4), run_seq,
               f"all sequences of up to {6 if th else 4} of {len(SEQ_OPS)} operations"),
        Family("chords", lambda: [(n, h) for n in ((2, 3, 4) if th else (2, 3)) for h in itertools.product(range(n), repeat=4)],
               run_chords, "chords of eight notes in every assignment of known timbres"),
        Family("many", lambda: itertools.product((17, 300, 1100, 5000) if th else (17, 130, 300, 1100), ("tl", "mixed", "lfo"),
                                                 ("same", "reverse", "scattered")), run_many,
               "hundreds of instruments revisited in three orders", cpu_s=300),
        Family("many more", lambda: [(n, how, order) for n in ((2100, 4200, 9000) if th else (2100, 4200))
                                     for how, order in (("mixed", "same"), ("tl", "reverse"))], run_many,
               "thousands of instruments revisited", cpu_s=600),
        Family("much later", lambda: itertools.product([0] + [(1 << k) + d for k in range(4, 41, 1 if th else 2) for d in (0, 1)]
                                                       + [44100 * s for s in (1, 10, 60, 3600, 86400)], (1, 3), (0, 5)),
               run_later, "timbres that come back after up to 2^40 samples"),
        Family("busy channel", lambda: itertools.product((300, 1100, 2100, 5000) + ((70000,) if th else ()), (1, 70)), run_busy,
               "timbres that come back after thousands of notes on their channel", cpu_s=300),
        Family("single bits", lambda: CONTENTS, run_bits, "every bit of every parameter flipped alone over 6 contents, all in one song"),
        Family("two bits", lambda: itertools.product(CONTENTS if th else CONTENTS[:1], range(NF)), run_bit_pairs,
               "every two bits of all parameters flipped together", cpu_s=200),
        Family("contexts", lambda: itertools.product(range(8), range(1, 16), CONTENTS if th else CONTENTS[::2] + CONTENTS[3:4]), run_context,
               "each parameter changed alone in every algorithm, operator set and several contents"),
        Family("pairwise", lambda: range(pairwise.P), run_pairwise, "66049 register contents in which every two registers take every "
               "pair of values: note, one bit changed, note, restored with another pitch, note"),
        Family("files", lambda: itertools.product((20, 400), (0, 3)), run_file, "instrument sweeps through files"),
    ]
