"""Orthogonal arrays: enumerations in which every two factors meet in every combination of their values.

Row (s, t) of the array over the integers modulo 257 gives factor k the value s + t * k; any two factors k != l, and any
factor and t itself, take each of the 257 * 257 combinations of values exactly once over all s and t.  A case is one s;
its rows are the t.  A factor with fewer than 257 values is reduced modulo their number and meets the others more often."""
P = 257
COUNTS = [*range(1, 41), 63, 64, 65, 99, 100, 101, 127, 128, 129, 160, 200]


def factor(s, t, k):
    return (s + t * k) % P


def byte(s, t, k):
    return (s + t * k) % P & 0xFF


IDLE = [0x0F, 0x18, 0x1B, *range(0x20, 0x100)]


def registers(s, t, ch=None):
    """writes to every register (of one channel), both modulation depths, in an order that depends on s"""
    regs = IDLE if ch is None else [r for r in IDLE if r < 0x20 or r & 7 == ch]
    out = [(r, byte(s, t, r)) for r in regs]
    out += [(0x19, byte(s, t, 8) & 0x7F), (0x19, byte(s, t, 0x19) | 0x80)]
    n = len(out)
    step = s % n or 1
    while _gcd(step, n) != 1:
        step += 1
    return [out[(i * step + s) % n] for i in range(n)]


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def rows(kind, s):
    """the note length and gaps of the song of case s"""
    if kind == "wide":
        return 1 + s if s < 129 else 1003 + 54 * (s - 129)
    return 1000 + 27 * s if kind == "mixed" else 16 + s


def song(p, kind, s):
    """257 key events whose channel, operators, pan, pitch, instrument and moment are factors -> the note length.
    "rows": a key-on with an instrument of its own in every row; "mixed": key-ons and offs, instruments that come back,
    several events in a row and rows without events; "wide": over 65 patterns, under short
    and long note lengths; a number: that many instruments, some key-offs"""
    length = rows(kind, s)
    now = row = 0
    for t in range(P):
        ch = factor(s, t, 1) & 7
        if isinstance(kind, int):
            row = t
            slots = 15 if factor(s, t, 2) % 5 or not t else 0
            p.write(0x18, factor(s, t, 6) % kind)
        elif kind == "wide":
            row = t * 16 + factor(s, t, 9) % 16
            slots = 15 if factor(s, t, 2) % 3 or not t else 0
            p.write(0x60 + ch, factor(s, t, 6) % 60)
        elif kind == "rows":
            row = t
            slots = 1 + factor(s, t, 2) % 15
            p.write(0x18, factor(s, t, 6) & 255)
            p.write(0x1B, factor(s, t, 6) >> 8)
        else:
            row += factor(s, t, 8) % 5
            slots = factor(s, t, 2) % 16 if t else 15
            p.write(0x60 + ch, factor(s, t, 6) % 5)
        p.write(0x20 + ch, byte(s, t, 3) & 0xC0)
        p.write(0x28 + ch, byte(s, t, 4))
        p.write(0x30 + ch, byte(s, t, 5))
        at = max(now, row * length + factor(s, t, 7) % length)
        p.wait(at - now)
        now = at
        row = at // length
        p.write(8, slots << 3 | ch)
    return length


def padding(n):
    """n bytes of commands without effect"""
    return b"\x67\x66\x00" + (n - 7).to_bytes(4, "little") + bytes(n - 7) if n >= 7 else b"\x00" * n


def command(s, t, code):
    """a command with operands that are factors"""
    from . import ref
    ops = bytes(byte(s, t, 2 + i) for i in range(10))
    if code == 0x67:
        n = factor(s, t, 12) % 23
        return b"\x67\x66" + ops[:1] + n.to_bytes(4, "little") + (ops * 3)[1:1 + n]
    if code == 0x68:
        n = factor(s, t, 12) % 23
        return b"\x68\x66" + ops[:7] + n.to_bytes(3, "little") + (ops * 3)[:n]
    return bytes((code,)) + ops[:ref.FIXED[code]]


def stream(s, kind):
    """257 commands in which every two of code, previous code, each operand, ordinal ("plain") or place in the file
    ("placed") meet in every combination; "writes": only YM2151 writes; "after": a YM2151 write after each command"""
    out = bytearray()
    for t in range(P):
        if kind == "placed":
            out += padding((factor(s, t, 13) - len(out)) % 256)
        if kind != "writes":
            out += command(s, t, byte(s, t, 1))
        if kind in ("writes", "after"):
            out += bytes((0x54, byte(s, t, 21), byte(s, t, 22)))
    return bytes(out)


STREAMS = ("plain", "placed", "writes", "after")
