"""Note length estimate: the real estimator on all regular periods, on all subsets of lattices of onset times, and on onset
sets around the limits, against the definition (fewest unmatched onsets, smallest shift)."""
import itertools

from .. import ref, sut
from ..engine import Family, fail

LEVEL = "model_checking"
ASSUMPTIONS = ["onset times are made with key writes and waits; the estimate depends on nothing else (one family varies "
               "channels, timbres and key-offs)"]


def state_with(times, variant=0):
    """key-ons at the given sorted times"""
    st = sut.ymstate.State()
    cr = sut.ymconfig.create
    now = 0
    for n, t in enumerate(times):
        if t > now:
            if variant & 4 and t - now > 1:
                st.beat(1)
                st.apply(cr(8, n & 7))  # a key-off elsewhere
                now += 1
            st.beat(t - now)
            now = t
        ch = n % 8 if variant & 1 else 0
        if variant & 2:
            st.apply(cr(0x60 + ch, n & 0x7F))
        st.apply(cr(8, (n % 15 + 1 if variant & 2 else 15) << 3 | ch))
        if variant & 8:
            st.apply(cr(8, 0x78 | (ch + 1) % 8))  # a chord
    return st


def check(times, ctx, expected=None, variant=0, progress=False):
    st = state_with(times, variant)
    want = ref.note_length(times) if expected is None else expected
    got = st.ticks_per_note(show_progress=True) if progress else st.ticks_per_note()
    ctx.ops(len(times) + 1)
    ctx.trace()
    ctx.state(tuple(times))
    if got != want or isinstance(got, bool) or not isinstance(got, int):
        n = {d: ref.unmatched([t for t in times if t < 32000], d) for d in (got, want)
             if isinstance(d, int) and any(t < 32000 for t in times)}
        fail(f"onsets {times[:40]}{'...' if len(times) > 40 else ''}: estimate {got!r}, expected {want} "
             f"(unmatched onsets per shift: {n})")


def run_period(case, ctx):
    """onsets every p samples: exactly p"""
    p, how = case
    if how == "short":
        starts, n = [p * 7 % 900], 3
    elif how == "two":
        starts, n = [0], 2
    else:
        starts, n = [0], 99
    for s in starts:
        ts = [s + i * p for i in range(n) if s + i * p < 32000]
        check(ts, ctx, p)
        if how == "all":
            check(ts + [32000 + 17 * i for i in range(6)], ctx, p, 1)


def run_subset(case, ctx):
    """one subset of a lattice of onset times"""
    name, mask = case
    pts = LATTICES[name]
    ts = [t for i, t in enumerate(pts) if mask >> i & 1]
    check(ts, ctx)


LATTICES = {
    "every 1000": [1000 * i for i in range(11)],
    "every 700": [700 * i + 3 for i in range(10)],
    "limits": [0, 1, 999, 1000, 7999, 8000, 8999, 9000, 15998, 16000],
    "end": [0, 24000, 24001, 25000, 30999, 31000, 31999, 32000, 32001, 33000],
    "uneven": [0, 500, 1500, 3001, 4001, 6500, 11111, 14444, 19443, 30000],
    "wide": [0, 7999, 15998, 20000, 23997, 27999, 28001, 31996, 31999, 40000],
    "dense": [10000 + 250 * i for i in range(12)],
    "ties": [0, 1200, 2600, 4000, 5200, 9000, 10200, 11600, 13000, 14200, 18000, 20800],
}


def run_plain(case, ctx):
    """the quick definition used as the oracle is the plain definition"""
    name, mask = case
    ts = [t for i, t in enumerate(LATTICES[name]) if mask >> i & 1]
    a, b = ref.note_length(ts), ref.note_length_plain(ts)
    if a != b:
        raise RuntimeError(f"reference model disagrees with itself on {ts}: {a}, {b}")
    check(ts, ctx, b)


def run_triple(case, ctx):
    """three onsets with two distances"""
    a, b = case
    for start in (0, 777):
        check([start, start + a, start + a + b], ctx)


def run_variant(case, ctx):
    """channels, chords, timbres, key-offs and the progress display do not matter"""
    mask, variant = case
    ts = [t for i, t in enumerate(LATTICES["uneven"]) if mask >> i & 1]
    check(ts, ctx, None, variant)
    check(ts, ctx, None, variant, True)


def run_noise(case, ctx):
    """a regular song with extra or missing onsets"""
    p, kind, k = case
    ts = [i * p for i in range(32000 // p + 1) if i * p < 32000]
    if kind == "extra":
        ts = sorted(set(ts) | {k * p + p // 3, k * p + p // 2})
    elif kind == "missing":
        ts = ts[:k] + ts[k + 1:]
    elif kind == "late":
        ts[k % len(ts)] += 1
    else:
        ts = sorted(set(ts) | {t + k for t in ts})
    check(ts, ctx)


def run_crowd(case, ctx):
    """many onsets, so that the counts of many shifts are close to each other"""
    n, a, b, top = case
    ts = sorted({(i * i * a + i * b) % top for i in range(n)})
    check(ts, ctx)


def run_duel(case, ctx):
    """two regular patterns laid over each other, the second one or two matches stronger or weaker"""
    p, q, n, m, order = case
    a = [i * p for i in range(n) if i * p < 32000]
    start = 137 if order else 0
    b = [start + 11 + i * q for i in range(m) if start + 11 + i * q < 32000]
    check(sorted(set(a) | set(b)), ctx)


def run_scatter(case, ctx):
    """onsets all over the place: the shares of many shifts differ by one match"""
    n, seed, top = case
    x, ts = seed * 7919 + 1, set()
    while len(ts) < n:
        x = (x * 6364136223846793005 + 1442695040888963407) & (1 << 64) - 1
        ts.add((x >> 33) % top)
    check(sorted(ts), ctx)


def near_tie(pairs, a, b, diff):
    """onsets in scattered places, as many a samples apart as b samples apart: unmatched(a) - unmatched(b) = diff"""
    x, ts = pairs * 31 + a * 7 + b, {0, 31999}

    def rnd(n):
        nonlocal x
        x = (x * 6364136223846793005 + 1442695040888963407) & (1 << 64) - 1
        return (x >> 33) % n
    for d in (a, b):
        for _ in range(pairs):
            s = rnd(31990 - d)
            ts |= {s, s + d}
    for _ in range(4000):
        o = sorted(ts)
        now = ref.unmatched(o, a) - ref.unmatched(o, b) - diff
        if now == 0:
            return o
        d = a if now > 0 else b
        s = rnd(31990 - d)
        ts |= {s, s + d} if abs(now) > 1 else {s} if rnd(2) else {31999 - min(a, b) - rnd(abs(a - b))}
    return sorted(ts)


def run_near_tie(case, ctx):
    """two shifts with equally many unmatched onsets, or one apart"""
    check(near_tie(*case), ctx)


def families(tier):
    th = tier == "thorough"

    def subsets():
        for name, pts in LATTICES.items():
            n = len(pts) if th else min(len(pts), 10)
            for mask in range(1 << n):
                yield (name, mask)

    dist = [1, 999, 1000, 1001, 1999, 2000, 3999, 4000, 7998, 7999, 8000, 8001, 15999, 16000, 24000]
    if th:
        dist = sorted(set(dist) | set(range(900, 17000, 350)))
    return [
        Family("crowds", lambda: itertools.product((40, 90, 150, 190, 240, 330), (37, 41, 3, 1001) if th else (37, 41), (11, 0, 5),
                                                   (32000, 31999, 12000, 40000) if th else (32000, 9000)),
               run_crowd, "up to 330 onsets in irregular places"),
        Family("near ties", lambda: itertools.chain(
            itertools.product((4, 30, 120) if th else (4, 30, 90), (1000, 1837, 4410, 6000, 7999), (1003, 2300, 5999, 7998), (-2, -1, 0, 1, 2)),
            itertools.product((260, 700) if th else (260,), (1837, 7999), (1003, 5999), (-1, 0, 1) if th else (-1, 1))),
               run_near_tie, "scattered onsets whose two best shifts differ by 0, 1 or 2 unmatched onsets, in both orders", cpu_s=300),
        Family("scattered", lambda: itertools.product((120, 600, 1000) if th else (120,), range(60 if th else 16), (32000, 16000)), run_scatter,
               "hundreds of onsets in scattered places, near ties between shifts", cpu_s=300),
        Family("dense", lambda: itertools.product((1200, 2600, 6000) if th else (1200, 2600), (41, 37), (11, 0, 5) if th else (11, 5), (32000,)), run_crowd,
               "thousands of onsets, so that the shares of many shifts are close to each other", cpu_s=300),
        Family("two patterns", lambda: itertools.product((1000, 1300, 2700), (1001, 1117, 3000), range(2, 30, 1 if th else 5),
                                                         range(2, 30, 1 if th else 4), (0, 1)),
               run_duel, "two regular patterns of all lengths over each other"),
        Family("periods", lambda: ((p, how) for how in (("short", "two", "all") if th else ("short",))
                                   for p in range(1000, 8000)), run_period, "all 7000 regular periods"),
        Family("full periods", lambda: ((p, "all") for p in range(1000, 8000, 1 if th else 23)), run_period,
               "regular onsets up to sample 32000 and beyond"),
        Family("lattices", subsets, run_subset, f"all subsets of {len(LATTICES)} lattices of onset times"),
        Family("definition", lambda: ((name, mask) for name in LATTICES for mask in range(0, 1 << 10, 1 if th else 67)),
               run_plain, "the oracle compared with the plain definition"),
        Family("two distances", lambda: itertools.product(dist, dist), run_triple, f"all pairs of {len(dist)} distances"),
        Family("variants", lambda: itertools.product(range(7, 1 << 10, 8 if th else 61), range(16)), run_variant,
               "channels, chords, timbres and key-offs varied"),
        Family("irregular songs", lambda: itertools.product((1000, 1250, 2205, 3675, 5512, 7999),
                                                            ("extra", "missing", "late", "echo"),
                                                            (0, 1, 2, 3, 5, 500)), run_noise,
               "regular songs with extra, missing or late onsets"),
    ]
