"""Opt-in line coverage of the code under test (VERIF_COVER=<folder>), used while
developing the generators; tools/uncovered.py prints what no run reached."""
import atexit
import json
import os
import sys


def start(folder, repo):
    mon = sys.monitoring
    mon.use_tool_id(mon.COVERAGE_ID, "verif")
    repo = os.path.realpath(repo) + os.sep
    seen = {}

    def line(code, no):
        f = code.co_filename
        if f.startswith(repo):
            seen.setdefault(f[len(repo):], set()).add(no)
        return mon.DISABLE

    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)

    def dump():
        with open(os.path.join(folder, "%d.json" % os.getpid()), "w") as f:
            json.dump({k: sorted(v) for k, v in seen.items()}, f)

    atexit.register(dump)
