"""Order irrelevance: all permutations of write sets, all register pairs in both orders, all redundant and overwritten
writes at all positions; the real extraction must be the same for every member of a class and equal to the reference."""
import itertools

from .. import pairwise, sut
from ..engine import Family, check_eq, sequences
from .c09 import BASES, REGS, Pair

LEVEL = "model_checking"

# one register of every kind, on the channels used, with a telling value (0x19 counts as two registers)
WRITES = [(0x0F, 0x9F), (0x18, 0xC2), (0x19, 0x7F), (0x19, 0xC1), (0x1B, 0xC2), (0x20, 0xD2), (0x28, 0x4E), (0x30, 0x84),
          (0x38, 0x71), (0x40, 0x35), (0x68, 0x44), (0x90, 0x9A), (0xB8, 0x87), (0xC0, 0xC5), (0xE8, 0xA6), (0x27, 0x2D),
          (0x2F, 0x7A), (0x61, 0x12), (0x5F, 0x21)]


def sub(reg, val):
    return (reg, val >> 7) if reg == 0x19 else (reg, 0)


def play(ctx, groups, what, compare=None, channels=(0, 7, 1)):
    """groups of writes, notes on some channels after each group -> what the user sees"""
    p = Pair(ctx)
    for g in groups:
        for r, v in g:
            p.write(r, v)
        for ch in channels:
            p.write(8, 0x78 | ch)
        p.wait(10)
        p.write(8, 0)
    p.check(what)
    snap = sut.snapshot(p.st)
    if compare is not None and snap != compare:
        check_eq(snap, compare, f"{what} (compared with the plain order)")
    return snap


def run_perm(case, ctx):
    """all orders of a set of writes, in the first or the second group"""
    ws = [WRITES[i] for i in case]
    before = [(r, v ^ 0x2B) for r, v in ws if r != 0x19]
    first = play(ctx, [before, ws], f"writes {ws}")
    for perm in itertools.permutations(ws):
        play(ctx, [before, perm], f"writes {list(perm)}", first)


def run_pairs(case, ctx):
    """register a with every register, both orders, several values"""
    a, va, vb = case
    for b in REGS:
        if b <= a:
            continue
        x = play(ctx, [[(a, va), (b, vb)]], f"registers {a:#04x}, {b:#04x}")
        play(ctx, [[(b, vb), (a, va)]], f"registers {b:#04x}, {a:#04x}", x)


def run_over(case, ctx):
    """a register written with any other value first, or twice; junk at either end of a group"""
    reg, final = case
    if reg == 0x19:
        lo = final & 0x80
        junk = range(lo, lo + 128)
    else:
        junk = range(256)
    base = [(r, v) for r, v in WRITES if sub(r, v) != sub(reg, final)]
    plain = play(ctx, [base, [(reg, final)]], f"register {reg:#04x} = {final:#04x}")
    play(ctx, [base, [(reg, final)] * 3], f"register {reg:#04x} = {final:#04x} three times", plain)
    for j in junk:
        play(ctx, [base, [(reg, j), (reg, final)]], f"register {reg:#04x} = {j:#04x}, then {final:#04x}", plain)


FINALS = (0, 1, 2, 4, 8, 0x10, 0x20, 0x40, 0x80, 0xFF, 0x33, 0xC7)


def run_over_all(case, ctx):
    """every earlier value of a register, then one of many final ones, over the reset content and a full one"""
    reg, final, full = case
    own = 7 if reg < 0x20 else reg & 7
    base = [(r, v) for r, v in BASES["pattern"] if r < 0x20 or r & 7 == own] + WRITES if full else []
    base = [(r, v) for r, v in base if sub(r, v) != sub(reg, final)]
    ch = (own,)
    plain = play(ctx, [base, [(reg, final)]], f"register {reg:#04x} = {final:#04x}", None, ch)
    for j in range(256):
        if reg == 0x19 and (j ^ final) & 0x80:
            continue
        play(ctx, [base, [(reg, j), (reg, final)]], f"register {reg:#04x} = {j:#04x}, then {final:#04x}", plain, ch)


def run_value(case, ctx):
    """every value of a register, written before and after all other registers of its channel"""
    base, reg, lo = case
    rest = [(r, v) for r, v in BASES[base] if r != reg and (r < 0x20 or reg < 0x20 and r & 7 == 7 or r & 7 == reg & 7)]
    chs = (7,) if reg < 0x20 else (reg & 7,)
    for v in range(lo, lo + 64):
        if reg == 0x19:
            same = [(r, x) for r, x in BASES[base] if r == 0x19 and x >> 7 != v >> 7]
        else:
            same = []
        x = play(ctx, [same + rest + [(reg, v)]], f"registers '{base}', then {reg:#04x} = {v:#04x}", None, chs)
        play(ctx, [[(reg, v)] + same + rest], f"register {reg:#04x} = {v:#04x}, then registers '{base}'", x, chs)


def run_twice(case, ctx):
    """a group of writes in which members are repeated or first written differently, at every position"""
    seq, = case,
    ws = [WRITES[i] for i in (3, 2, 5, 9, 13)]
    plain = play(ctx, [ws], f"writes {ws}")
    for pos in range(len(ws) + 1):
        extra = []
        for i in seq:
            r, v = ws[i % 5]
            extra.append((r, v if i < 5 else v ^ 0x15))
        for mode in (0, 1):
            g = ws[:pos] + extra + (ws[pos:] if mode == 0 else ws[pos:] + ws)
            final = {}
            for r, v in g:
                final[sub(r, v)] = v
            if any(final[sub(r, v)] != v for r, v in ws):
                continue
            play(ctx, [g], f"writes {g}", plain)


def run_all(case, ctx):
    """all 255 registers in several systematic orders"""
    base, k = case
    ws = list(BASES[base])
    idle = [w for w in ws if w[0] != 0x19] + ws[-2:]
    plain = play(ctx, [idle], f"all registers '{base}'")
    n = len(idle)
    if k < n:
        play(ctx, [idle[k:] + idle[:k]], f"all registers '{base}', rotated by {k}", plain)
        play(ctx, [idle[k::-1] + idle[k + 1:]], f"all registers '{base}', first {k + 1} reversed", plain)
        play(ctx, [idle[:k] + idle], f"all registers '{base}', the first {k} twice", plain)
    step = 2 * k + 1
    perm = [idle[i * step % n] for i in range(n)] if _coprime(step, n) else idle[::-1]
    play(ctx, [perm], f"all registers '{base}' in steps of {step}", plain)


def _coprime(a, b):
    while b:
        a, b = b, a % b
    return a == 1


def run_restore(case, ctx):
    """between two key events registers are changed and changed back: the second note is as without"""
    i, j = case
    ws = [WRITES[i], WRITES[j]]
    base = list(WRITES)
    plain = play(ctx, [base, []], "two notes")
    away = [(r, v ^ 0x13) for r, v in ws]
    play(ctx, [base, away + ws], f"two notes, {away} and back between", plain)
    play(ctx, [base, away + ws[::-1]], f"two notes, {away} and back between, crossed", plain)


def run_pairwise(s, ctx):
    """rows of an orthogonal array written in one order and in another, with the values of the next row before some"""
    for lo in range(0, pairwise.P, 8):
        a, b = Pair(ctx), Pair(ctx)
        for t in range(lo, min(lo + 8, pairwise.P)):
            ws = pairwise.registers(s, t)
            for r, v in sorted(ws):
                a.write(r, v)
            n = pairwise.factor(s, t, 3) % len(ws)
            junk = pairwise.registers(s, (t + 1) % pairwise.P)
            for r, v in junk[:n] + ws[::-1]:
                b.write(r, v)
            for p in (a, b):
                for ch in (t & 7, 7):
                    p.write(8, (1 + pairwise.factor(s, t, 5) % 15) << 3 | ch)
                p.wait(1)
        a.check(f"rows {lo}.. of the orthogonal array {s} in register order", ticks=False)
        if sut.snapshot(b.st) != sut.snapshot(a.st):
            check_eq(sut.snapshot(b.st), sut.snapshot(a.st), f"rows {lo}.. of the orthogonal array {s} in another order")


def families(tier):
    th = tier == "thorough"
    idx = [i for i in range(len(WRITES))]
    pick = [0, 2, 3, 5, 6, 7, 9, 12, 13, 14, 15]
    vals = [(0xFF, 0xFF), (0x9A, 0x65), (0x00, 0xFF), (0x81, 0x7E)] if th else [(0xFF, 0xFF)]
    return [
        Family("pairwise", lambda: range(pairwise.P), run_pairwise, "66049 contents of all registers in which every two registers take "
               "every pair of values, in register order and in other orders with overwritten values"),
        Family("permutations", lambda: itertools.combinations(idx if th else pick, 4), run_perm,
               "all 24 orders of all 4-sets of writes"),
        Family("longer permutations", lambda: [(0, 3, 5, 9, 14), (2, 3, 4, 7, 13)] + (
            list(itertools.combinations(pick, 5)) if th else []), run_perm, "all 120 orders of 5-sets of writes"),
        Family("register pairs", lambda: ((r, a, b) for r in REGS for a, b in vals if r < 0xFF), run_pairs,
               "all pairs of registers in both orders"),
        Family("overwritten", lambda: ((r, v) for r, v in WRITES + [(r, 0x6B) for r in
                                                                    (range(0x20, 256) if th else range(0x20, 256, 9))]),
               run_over, "every earlier value of a register, then its final one"),
        Family("overwritten, more finals", lambda: itertools.product(
            [0x0F, 0x18, 0x19, 0x1B] + [r + c for r in range(0x20, 0x100, 8) for c in (range(8) if th else (r // 8 * 3 % 8,))],
            range(256) if th else FINALS, (0, 1)), run_over_all,
            f"every earlier value, then {256 if th else len(FINALS)} final ones, for a register of every kind, over two contents"),
        Family("every value", lambda: itertools.product(("ones", "pattern", "reset") if th else ("ones", "pattern"), REGS, (0, 64, 128, 192)),
               run_value, "all 65280 register/value pairs before and after the other registers, over two contents"),
        Family("repeats", lambda: sequences(10, 3 if th else 2, 1), run_twice, "extra writes at every position of a group"),
        Family("all registers", lambda: itertools.product(("ones", "pattern", "counter"),
                                                          range(0, 256, 1 if th else 5)), run_all,
               "all registers in many orders"),
        Family("away and back", lambda: itertools.combinations(range(len(WRITES)), 2), run_restore,
               "changes undone between two notes"),
    ]
