"""Runs the tool on a list of songs inside one environment (started by check C28): envrun.py SRC JOBS."""
import json
import os
import runpy
import sys


def set_clock(start, step):
    """Python's clocks tell another date; step: seconds added at every reading"""
    import datetime
    import time
    now = [start]

    def seconds():
        now[0] += step
        return float(now[0])
    for name in ("localtime", "gmtime", "ctime"):
        real = getattr(time, name)
        setattr(time, name, lambda t=None, real=real: real(seconds() if t is None else t))
    asctime, strftime = time.asctime, time.strftime
    time.asctime = lambda t=None: asctime(time.localtime() if t is None else t)
    time.strftime = lambda f, t=None: strftime(f, time.localtime() if t is None else t)
    time.time = seconds
    time.time_ns = lambda: int(seconds()) * 10 ** 9
    time.monotonic = time.perf_counter = seconds
    time.monotonic_ns = time.perf_counter_ns = time.time_ns

    class Datetime(datetime.datetime):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(seconds(), tz)

        @classmethod
        def utcnow(cls):
            return cls.fromtimestamp(seconds(), datetime.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.now()

    class Date(datetime.date):
        @classmethod
        def today(cls):
            return cls.fromtimestamp(seconds())
    datetime.datetime, datetime.date = Datetime, Date


def main():
    if os.environ.get("VP_CLOCK"):
        set_clock(*map(int, os.environ.pop("VP_CLOCK").split()))
    src, jobs = sys.argv[1:3]
    sys.path.insert(0, src)
    with open(jobs, "rb") as f:
        jobs = json.loads(f.read().decode("ascii"))
    import extractors
    import main as tool
    import vgm.core
    for name, out, tn in jobs:
        print("#", os.path.basename(out))
        tool.main(name, out + ".json", out + ".xrns", tn)
        with open(name, "rb") as f:
            vgm_file = vgm.core.reader(f)
            print(vgm_file.version, vgm_file.size(), vgm_file.data_start, vgm_file.clock("ym2151"), vgm_file.supports("ym2151"))
        with open(name, "rb") as f:
            extractors.extract_tracks(tool.process_vgm_file(vgm.core.reader(f)), out + ".csv", tn or 1000)
    name, out, tn = jobs[0]
    sys.argv = ["main.py", name, "-i", out + ".script.json", "-t", out + ".script.xrns"]
    runpy.run_path(os.path.join(src, "main.py"), run_name="__main__")


main()
