"""Printed estimates: for all subsets of onset lattices, regular periods and crowded songs, the list the estimator prints is
parsed and compared with the ten best shifts of the definition; through the real script the announced note length must be
the one the exported song uses."""
import bisect
import contextlib
import io
import itertools
import os
import re
import shutil

from .. import ref, sut
from ..engine import Family, fail
from .c16 import LATTICES, state_with
from .c23 import FORMS, STREAMS, tune, verify_song

LEVEL = "model_checking"
ASSUMPTIONS = ["a percentage may differ from the exact value by the rounding to two decimals; without onsets the percentages "
               "are not specified"]
LINE = re.compile(r"\s*(\d+)\s*:\s*(-?\d+(?:\.\d+)?)\s*%\s*\Z")
HEAD = "Ticks Per Note estimates:"


def counts(onsets):
    """unmatched onsets for every shift, and the number of onsets considered"""
    ts = sorted({t for t in onsets if t < 32000})
    if not ts:
        return [0] * 7000, 0
    have, last, n = set(ts), ts[-1], len(ts)
    m = {}
    for a, b in itertools.combinations(ts, 2):
        m[b - a] = m.get(b - a, 0) + 1
    out = []
    for d in range(1000, 8000):
        k = m.get(d, 0)
        inside = bisect.bisect_left(ts, last - d) - (k - (last - d in have))
        out.append(n - k + inside)
    return out, n


def best(onsets):
    c, n = counts(onsets)
    top = sorted(range(7000), key=lambda i: (c[i], i))[:10]
    return [(i + 1000, c[i]) for i in top], n


def parse(text, what):
    """the list after the heading -> [(shift, percentage)], lines after it"""
    lines = text.split("\n")
    at = [i for i, x in enumerate(lines) if x.strip() == HEAD]
    if len(at) != 1:
        fail(f"{what}: the heading of the estimates is printed {len(at)} times: {text[:300]!r}")
    out = []
    rest = lines[at[0] + 1:]
    while rest and LINE.match(rest[0]):
        d, pc = LINE.match(rest.pop(0)).groups()
        if len(pc.partition(".")[2]) != 2:
            fail(f"{what}: percentage {pc} without two decimals")
        out.append((int(d), float(pc)))
    return out, rest


def judge(listed, onsets, what):
    exp, n = best(onsets)
    if [d for d, _ in listed] != [d for d, _ in exp]:
        fail(f"{what}: lists the note lengths {[d for d, _ in listed]}, expected {[d for d, _ in exp]}")
    if n:
        for (d, pc), (_, c) in zip(listed, exp):
            want = 100 - 100 * c / (2 * n - 1)
            if abs(pc - want) > 0.005 + 1e-7:
                fail(f"{what}: {d} is given {pc}%, expected {want:.4f}% ({c} of {2 * n - 1} unmatched)")


def check(times, ctx, variant=0, progress=False):
    st = state_with(times, variant)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        got = st.ticks_per_note(show_progress=True) if progress else st.ticks_per_note()
    what = f"onsets {times[:40]}{'...' if len(times) > 40 else ''}"
    listed, _ = parse(out.getvalue(), what)
    judge(listed, times, what)
    if listed[0][0] != got:
        fail(f"{what}: lists {listed[0][0]} first and returns {got}")
    ctx.ops(len(times) + 1)
    ctx.trace()
    ctx.state((tuple(times), variant))


def run_every_shift(lo, ctx):
    """short songs in whose lists every shift stands"""
    for d in range(lo, min(lo + 20, 8000)):
        check([0, d, 2 * d + 1] if d % 3 else [77, 77 + d, 78 + 2 * d, 500 + 4 * d], ctx)
        for n in range(1 + d * 7 % 41, 62, 4 if ctx.tier == "thorough" else 61):
            check(sorted({0, d, 2 * d, 3 * d, *(31990 - k * (5 + d % 9) for k in range(n))}), ctx)


def run_subset(case, ctx):
    name, mask = case
    check([t for i, t in enumerate(LATTICES[name]) if mask >> i & 1], ctx, 0, mask & 1)


def run_period(case, ctx):
    p, n, extra = case
    ts = {i * p for i in range(n)} | {i * p + p // 3 for i in range(extra)} | {50000, 60000}
    check(sorted(ts), ctx, extra)


def run_crowd(case, ctx):
    n, a, b, top = case
    check(sorted({(i * i * a + i * b) % top for i in range(n)}), ctx)


def run_few(case, ctx):
    a, b = case
    check(sorted({a, b}), ctx)
    check([a], ctx)


def run_oracle(case, ctx):
    """the quick count equals the definition"""
    name, mask = case
    ts = [t for i, t in enumerate(LATTICES[name]) if mask >> i & 1]
    c, n = counts(ts)
    if not n:
        return
    ts = [t for t in ts if t < 32000]
    for d in range(1000, 8000, 1):
        if c[d - 1000] != ref.unmatched(ts, d):
            raise RuntimeError(f"oracle disagrees with the definition: {ts}, {d}")
    check(ts, ctx)


def run_script(case, ctx):
    """the announced note length is the used one"""
    name, form, opts, tn, seed = case
    stream = STREAMS[name] if name else tune(max(3, 20000 // seed), seed)
    chip = ref.play(stream)
    d = os.path.join(ctx.scratch, "an")
    os.mkdir(d)
    try:
        src = os.path.join(d, "in")
        with open(src, "wb") as f:
            f.write(FORMS[form](stream))
        args = [src]
        if "i" in opts:
            args += ["-i", os.path.join(d, "o.json")]
        if "t" in opts:
            args += ["-t", os.path.join(d, "o.xrns")]
        if tn is not None:
            args += ["-tn", str(tn)]
        code, out = sut.cli(args)
        what = f"'{name or seed}' ({form}), outputs {opts!r}, note length {tn}"
        if code != 0:
            fail(f"{what}: the tool fails with {code}")
        text = out.decode()
        said = [x.partition(":")[2].strip() for x in text.split("\n") if x.startswith("Ticks per Note:")]
        length = tn or ref.note_length(chip.onsets)
        if said != [str(length)]:
            fail(f"{what}: announces the note length {said}, expected {length}")
        if tn:
            if HEAD in text:
                fail(f"{what}: prints estimates although the note length is given")
        else:
            listed, _ = parse(text, what)
            judge(listed, chip.onsets, what)
        if "t" in opts:
            with open(os.path.join(d, "o.xrns"), "rb") as f:
                verify_song(f.read(), chip, int(said[0]), what)
        ctx.ops()
        ctx.trace()
        ctx.state((name, form, opts, tn, seed))
    finally:
        shutil.rmtree(d)


def families(tier):
    th = tier == "thorough"

    def subsets(step):
        for k, (name, pts) in enumerate(LATTICES.items()):
            for mask in range(k % step, 1 << (len(pts) if th else min(len(pts), 10)), step):
                yield (name, mask)

    return [
        Family("lattices", lambda: subsets(1 if th else 5), run_subset,
               f"{'all' if th else 'every fifth'} of the subsets of {len(LATTICES)} lattices of onset times"),
        Family("periods", lambda: itertools.product(range(1000, 8000, 13 if th else 173), (2, 3, 9), (0, 1, 4)), run_period,
               "regular onsets with up to four extra ones"),
        Family("crowds", lambda: itertools.product((40, 90, 190, 330), (37, 41), (11, 0, 5), (32000, 9000)), run_crowd,
               "up to 330 onsets in irregular places"),
        Family("dense", lambda: itertools.product((1500, 4000) if th else (1500,), (41, 37), (11, 0), (32000,)), run_crowd,
               "thousands of onsets, so that percentages are close to each other", cpu_s=300),
        Family("every shift", lambda: range(1000, 8000, 20), run_every_shift, "14000 songs of 3 to 45 onsets, so that every shift stands in "
               "some list", cpu_s=120),
        Family("few onsets", lambda: itertools.product((0, 1, 999, 1000, 24000, 31999, 32000),
                                                       (0, 1, 1000, 2000, 8999, 9000, 31999, 32000, 40000)), run_few,
               "one and two onsets"),
        Family("definition", lambda: ((name, mask) for name in LATTICES for mask in range(0, 1 << 10, 31 if th else 201)),
               run_oracle, "the oracle compared with the plain definition"),
        Family("script", lambda: list(itertools.product(STREAMS, ("raw", "gzip"), ("", "t", "it"), (None, 0, 1, 735, 7999),
                                                        (0,)))
               + list(itertools.product(STREAMS, ("raw",), ("", "it"), (99999, 100000, 131072, 1 << 24, (1 << 25) + 1, 1 << 31,
                                                                       10 ** 12), (0,)))
               + list(itertools.product((None,), ("raw",), ("t",), (None,), range(1000, 8000, 37 if th else 331))),
               run_script, "announced and used note length through the real script"),
    ]
