"""
Which lines of foxes the monitored workloads execute (VERIF_COV=<dir>): every
line of foxes/ is written to <dir>/<pid of property> the first time a process
executes it. A development aid for finding code that no workload reaches; off
unless the variable is set. Forked engine workers inherit the monitor.
"""

import os
import sys

TOOL = 3


def start(pid):
    out = os.environ.get("VERIF_COV")
    if not out or sys.monitoring.get_tool(TOOL) is not None:
        return
    root = os.path.join(os.environ.get("FOXES_REPO", "/repo"), "foxes") + os.sep
    os.makedirs(out, exist_ok=True)
    fd = os.open(
        os.path.join(out, pid), os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o644
    )
    mon = sys.monitoring
    mon.use_tool_id(TOOL, "verif-cov")

    def hit(code, line):
        fn = code.co_filename
        if fn.startswith(root):
            os.write(fd, f"{fn[len(root):]}:{line}\n".encode())
        return mon.DISABLE

    mon.register_callback(TOOL, mon.events.LINE, hit)
    mon.set_events(TOOL, mon.events.LINE)
