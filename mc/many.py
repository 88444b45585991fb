"""A process of its own that lives through hundreds of songs, extractions and exports; what the last of them shows must not
depend on how many there were.  Run in a fresh interpreter so that a case always starts from the same point."""
import json
import os
import resource
import subprocess
import sys

from .engine import Violation, check_eq, fail

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    def __init__(self, scratch):
        self.scratch, self.n = scratch, 0

    def ops(self, n=1):
        self.n += n

    def trace(self, n=1):
        pass

    def state(self, s):
        pass


def one(p, song, t, f, ctx, what):
    """export the song in one or several ways and compare with the reference"""
    from . import ref, sut
    from .props import c18, c22
    ways = f(30) % 8
    length = 1000 + f(31)
    if ways in (0, 1, 2, 6, 7):
        got = json.loads(sut.export_instruments(p.st, os.path.join(ctx.scratch, "m.json")))
        if got != ref.instruments_json(p.chip):
            check_eq(got, ref.instruments_json(p.chip), f"instrument file of {what}")
    if ways in (3, 6, 7):
        c22.listing(p, length, ctx, what)
    if ways == 4 or ways == 7:
        c18.check_song(p, length, ctx, what)
    if ways == 5:
        p.st.ticks_per_note()


def sessions(s, n, scratch):
    """n songs after one another, some live at the same time; small ones, of all numbers of events and instruments"""
    from . import pairwise, ref, sut
    from .common import compare_state
    from .props.c09 import Pair
    ctx = Ctx(scratch)
    live = []
    for t in range(n):
        def f(k):
            return pairwise.factor(s, t, k)
        what = f"song {t} of a process (array {s})"
        small = f(12) % 3
        events, instruments = f(1) % (13 if small else 70), 1 + f(2) % (9 if small else 41)
        if f(3) % 3:
            body = b"".join(ref.w(0x18, min(e, instruments - 1)) + ref.w(0x28 + (f(4) & 7), pairwise.byte(s, t, 5))
                            + ref.key(f(4) & 7, (f(6) + e) % 3 and 15) + ref.wait(f(7) * 9) for e in range(events))
            p = Pair.__new__(Pair)
            p.ctx, p.st, p.chip = ctx, sut.extract(ref.vgm(body)), ref.play(body)
        else:
            p = Pair(ctx)
            for e in range(events):
                p.write(0x60 + (f(4) & 7), min(e, instruments - 1))
                p.write(8, ((f(6) + e) % 3 and 15) << 3 | f(4) & 7)
                p.wait(f(7) * 9)
        one(p, s, t, f, ctx, what)
        compare_state(p.st, p.chip, what)
        live.append((what, p))
        if len(live) > 5:
            del live[f(8) % 6]
        what, q = live[f(9) % len(live)]
        q.write(0x60 + (f(10) & 7), f(11) & 127)
        q.write(8, 0x78 | f(10) & 7)
        what += f", continued during song {t}"
        one(q, s, t, lambda k: f(k + 3), ctx, what)
        compare_state(q.st, q.chip, what)
    return ctx.n


def exports(s, n, scratch):
    """songs of up to n key events, exported after every one"""
    from . import pairwise
    from .common import compare_state
    from .props.c09 import Pair
    ctx = Ctx(scratch)
    for song in range(3):
        p = Pair(ctx)
        for t in range((n, n // 4, n // 2)[song]):
            def f(k):
                return pairwise.factor(s + song * 5, t, k)
            v = f(2) % (3, 40, 257)[s % 3]
            p.write(0x18, v & 255)
            p.write(0x1B, v >> 8)
            p.write(0x28 + (f(1) & 7), pairwise.byte(s, t, 3))
            p.write(8, (f(4) % 4 and 15) << 3 | f(1) & 7)
            p.wait(f(5) * 7)
            what = f"song {song} of a process (array {s}) after {t} key events, each with an export"
            one(p, s, t, f, ctx, what)
            if t % 8 == 7:
                compare_state(p.st, p.chip, what)
        compare_state(p.st, p.chip, f"song {song} of a process (array {s}) after all exports")
    return ctx.n


def run(mode, s, n, ctx):
    """in a fresh interpreter"""
    r = subprocess.run([sys.executable, "-X", "pycache_prefix=/dev/null/pycache", "-m", "mc.many", mode, str(s), str(n), ctx.scratch], cwd=HERE,
                       capture_output=True, text=True, errors="replace")
    last = r.stdout.rstrip("\n").rpartition("\n")[2]
    if r.returncode == 0 and last.startswith("OK "):
        ctx.ops(int(last[3:]))
        ctx.trace(n)
        ctx.state((mode, s, n))
        return
    if last.startswith("BAD "):
        fail(last[4:])
    fail(f"a process that makes {n} {mode} (array {s}) ended with {r.returncode}: {r.stderr[-2000:]}")


def main():
    from . import sut
    mode, s, n, scratch = sys.argv[1:]
    resource.setrlimit(resource.RLIMIT_CPU, (200, 210))
    sut.load()
    try:
        done = {"sessions": sessions, "exports": exports}[mode](int(s), int(n), scratch)
    except Violation as e:
        print("\nBAD " + " ".join(str(e).split("\n")))
        sys.exit(1)
    print(f"\nOK {done}")


if __name__ == "__main__":
    main()
