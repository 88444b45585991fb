"""Reference model: the VGM command table, the YM2151 register file, and what
the exports must show.  Written from the VGM format, the YM2151 data sheet and
the property texts; deliberately boring.  Imports nothing of the code under test.
"""
import itertools
import struct

# ---------------------------------------------------------------- VGM format

FIXED = {}
for _c in range(256):
    if _c < 0x30:
        _n = 0
    elif _c < 0x40:
        _n = 1
    elif _c < 0x4F:
        _n = 2
    elif _c < 0x51:
        _n = 1
    elif _c < 0x60:
        _n = 2
    elif _c == 0x61:
        _n = 2
    elif _c < 0x90:
        _n = 0  # 0x67 and 0x68 have their own layout
    elif _c in (0x90, 0x91, 0x95):
        _n = 4
    elif _c == 0x92:
        _n = 5
    elif _c == 0x93:
        _n = 10
    elif _c == 0x94:
        _n = 1
    elif _c < 0xA0:
        _n = 0
    elif _c < 0xC0:
        _n = 2
    elif _c < 0xE0:
        _n = 3
    else:
        _n = 4
    FIXED[_c] = _n

WAIT, EOS, YM, OTHER = "wait", "eos", "ym2151", "other"


def wait_samples(code, operands):
    if code == 0x61:
        return operands[0] | operands[1] << 8
    if code == 0x62:
        return 735
    if code == 0x63:
        return 882
    if 0x70 <= code <= 0x7F:
        return code - 0x70 + 1
    if 0x80 <= code <= 0x8F:
        return code - 0x80
    return None


def split(stream, pcm_inline=True):
    """-> list of (kind, code, data) where data is the wait, the (reg, value) pair or the payload,
    plus the offset after each command.  Stops silently at an incomplete command.
    pcm_inline: 0x68 is followed by its 24-bit size in bytes (what the repository's tests pin;
    the VGM format has no inline data there, see known-findings.txt)."""
    out, ends = [], []
    i, n = 0, len(stream)
    while i < n:
        c = stream[i]
        if c == 0x67:
            if i + 7 > n:
                break
            size = int.from_bytes(stream[i + 3:i + 7], "little")
            a = i + 7
        elif c == 0x68:
            if i + 12 > n:
                break
            size = int.from_bytes(stream[i + 9:i + 12], "little") if pcm_inline else 0
            a = i + 12
        else:
            size = FIXED[c]
            a = i + 1
        if a + size > n:
            break
        p = stream[a:a + size]
        w = wait_samples(c, p)
        if w is not None:
            out.append((WAIT, c, w))
        elif c == 0x66:
            out.append((EOS, c, None))
        elif c == 0x54:
            out.append((YM, c, (p[0], p[1])))
        else:
            out.append((OTHER, c, bytes(p)))
        i = a + size
        ends.append(i)
    return out, ends


def header(version=0x171, clock=3579545, eof=0x100, clock2413=0, data_offset=0x0C, fill=0, size=0x40,
           total_samples=0, loop=0):
    """VGM header of `size` bytes; all unspecified bytes are `fill`"""
    h = bytearray([fill]) * size
    h[0:4] = b"Vgm "
    struct.pack_into("<I", h, 4, eof)
    struct.pack_into("<I", h, 8, version)
    struct.pack_into("<I", h, 0x10, clock2413)
    struct.pack_into("<I", h, 0x30, clock)
    struct.pack_into("<I", h, 0x34, data_offset)
    return bytes(h)


HEADER = header()


def vgm(stream):
    h = bytearray(HEADER)
    struct.pack_into("<I", h, 4, len(h) + len(stream) - 4)
    return bytes(h) + bytes(stream)


# command encoders -----------------------------------------------------------

def w(reg, val):
    return bytes((0x54, reg, val))


def wait(n):
    out = b""
    while n > 65535:
        out += b"\x61\xff\xff"
        n -= 65535
    return out + struct.pack("<BH", 0x61, n)


def key(ch, slots=15):
    return bytes((0x54, 8, slots << 3 | ch))


def block(data, tt=0):
    return b"\x67\x66" + bytes((tt,)) + struct.pack("<I", len(data)) + data


END = b"\x66"


# ---------------------------------------------------------------- YM2151

WAVES = ("SAW", "SQUARE", "TRIANGLE", "NOISE")
SLOT_NAMES = ("MOD1", "CAR1", "MOD2", "CAR2")
# operator order of the register map: M1, M2, C1, C2
OPERATORS = ("m1", "m2", "c1", "c2")


class Chip:
    """raw register contents; everything is decoded only when a key event needs it"""

    def __init__(self):
        self.r = bytearray(256)
        self.pmd = 0
        self.amd = 0
        self.now = 0
        self.instruments = []  # timbres in order of first use
        self.index = {}
        self.events = [[] for _ in range(8)]
        self.started = False
        self.onsets = set()

    def timbre(self, ch, slots):
        r = self.r
        rl = r[0x20 + ch]
        ops = []
        for o in range(4):
            k = o * 8 + ch
            ops.append((
                r[0x60 + k] & 0x7F,         # tl
                r[0x80 + k] & 0x1F,         # ar
                r[0xA0 + k] & 0x1F,         # d1r
                r[0xE0 + k] >> 4,           # d1l
                r[0xC0 + k] & 0x1F,         # d2r
                r[0xE0 + k] & 0x0F,         # rr
                r[0x80 + k] >> 6,           # ks
                r[0x40 + k] & 0x0F,         # mul
                r[0x40 + k] >> 4 & 7,       # dt1
                r[0xC0 + k] >> 6,           # dt2
                r[0xA0 + k] >> 7 == 1,      # ase
            ))
        noise = r[0x0F] if ch == 7 else 0
        return (r[0x18], self.pmd, self.amd, r[0x1B] & 3,
                rl >> 3 & 7, rl & 7, r[0x38 + ch] & 3, r[0x38 + ch] >> 4 & 7,
                noise >> 7 == 1, noise & 0x1F, tuple(ops), slots)

    def pitch(self, ch):
        rl, kc, kf = self.r[0x20 + ch], self.r[0x28 + ch], self.r[0x30 + ch]
        # right, left, octave, note, key fraction
        return (rl >> 7 == 1, rl >> 6 & 1 == 1, kc >> 4 & 7, kc & 15, kf >> 2)

    def write(self, reg, val):
        if reg == 0x19:
            if val >> 7:
                self.pmd = val & 0x7F
            else:
                self.amd = val
        elif reg == 0x08:
            ch, slots = val & 7, val >> 3 & 15
            if slots:
                self.started = True
                t = self.timbre(ch, slots)
                i = self.index.setdefault(t, len(self.instruments))
                if i == len(self.instruments):
                    self.instruments.append(t)
                self.onsets.add(self.now)
            else:
                i = -1
            if self.started:
                self.events[ch].append((self.now, i) + self.pitch(ch))
        else:
            self.r[reg] = val


def play(stream, chip=None):
    """the whole extraction: up to the first end-of-data command"""
    chip = chip or Chip()
    for kind, _code, data in split(stream)[0]:
        if kind == YM:
            chip.write(*data)
        elif kind == WAIT:
            chip.now += data
        elif kind == EOS:
            break
    return chip


OP_KEYS = ("tl", "ar", "d1r", "d1l", "d2r", "rr", "ks", "mul", "dt1", "dt2", "ase")


def instrument_json(i, t):
    lfo, pmd, amd, wave, fb, con, ams, pms, noise, nfrq, ops, slots = t
    ch = dict(feedback=fb, connection=con, ams=ams, pms=pms, noise=noise, noise_freq=nfrq)
    for name, o in zip(OPERATORS, ops):
        ch[name] = dict(zip(OP_KEYS, o))
    return dict(id=i, base=dict(waveform=WAVES[wave], lfo=lfo, amp_md=amd, phs_md=pmd),
                operators="|".join(n for b, n in enumerate(SLOT_NAMES) if slots >> b & 1), channel=ch)


def instruments_json(chip):
    return [instrument_json(i, t) for i, t in enumerate(chip.instruments)]


# ---------------------------------------------------------------- exports

NOTE_XRNS = {0: "C#", 1: "D-", 2: "D#", 4: "E-", 5: "F-", 6: "F#", 8: "G-", 9: "G#", 10: "A-", 12: "A#",
             13: "B-", 14: "C-"}
NOTE_TEXT = {0: "C#", 1: "D ", 2: "D#", 4: "E ", 5: "F ", 6: "F#", 8: "G ", 9: "G#", 10: "A ", 12: "A#",
             13: "B ", 14: "C "}
RESERVED = (3, 7, 11, 15)


def cell(ev):
    """(note, instrument, pan) of a tracker cell; note None for a reserved key code"""
    _t, i, right, left, octave, note, _kf = ev
    pan = None if right and left else "00" if right else "F0"
    if i < 0:
        return ("Off", None, pan)
    name = NOTE_XRNS.get(note)
    if name is not None:
        name += str(octave + 1 if note == 14 else octave)
    return (name, "%02X" % i, pan)


def grid(events, length, lines=64):
    """{(pattern, channel, line): event} and the number of patterns"""
    out, patterns = {}, 0
    for ch, evs in enumerate(events):
        for ev in evs:
            row = ev[0] // length
            out[(row // lines, ch, row % lines)] = ev
            patterns = max(patterns, row // lines + 1)
    return out, patterns


def event_text(ev):
    """text of an event in the track listing; None for a reserved key code"""
    _t, i, right, left, octave, note, kf = ev
    if i < 0:
        return "Key Off"
    if note in RESERVED:
        return None
    s = f"{NOTE_TEXT[note]}-{octave}"
    if kf > 1:
        s += "-{:02.0f}".format(kf * 1.6)
    s += f" [{i}] "
    if not (right and left):
        s += "Pan R" if right else "Pan L"
    return s


def tempo(length):
    return 60 * 44100 // (4 * length)


def unmatched(ts, d):
    """unmatched onsets of the sorted distinct onsets ts (before 32000) under the shift d"""
    have, shifted = set(ts), {t + d for t in ts}
    return len(have - shifted) + sum(1 for s in shifted if s < ts[-1] and s not in have)


def note_length_plain(onsets):
    """the estimate by definition"""
    ts = sorted({t for t in onsets if t < 32000})
    if not ts:
        return 1000
    return min(range(1000, 8000), key=lambda d: unmatched(ts, d))


def note_length(onsets):
    """the same, quickly: the count can only drop at a difference of two onsets, so the smallest best shift is
    such a difference or 1000 (compared with the definition by check C16)"""
    ts = sorted({t for t in onsets if t < 32000})
    if not ts:
        return 1000
    cand = {1000} | {b - a for a, b in itertools.combinations(ts, 2) if 1000 <= b - a < 8000}
    return min(sorted(cand), key=lambda d: unmatched(ts, d))
