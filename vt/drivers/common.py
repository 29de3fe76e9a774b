"""Helpers shared by the drivers (run under /opt/venv/bin/python against /repo/src)."""
import json
import os
import signal
import time
import resource
import traceback
import sys
import random


class Hang(BaseException):
    pass


def _on_alarm(signum, frame):
    raise Hang()


signal.signal(signal.SIGALRM, _on_alarm)


T0 = time.time()
HANGS = [0]


def stop():
    """Enough seen: several endless calls, or the time budget is used up."""
    return HANGS[0] >= 2 or time.time() - T0 > float(os.environ.get("DRIVER_BUDGET", "400"))


class limit:
    """Abort the enclosed call after `sec` seconds (an endless loop is an observable fault)."""
    def __init__(self, sec):
        self.sec = sec

    def __enter__(self):
        signal.setitimer(signal.ITIMER_REAL, self.sec)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        return False


class Log:
    def __init__(self, path):
        self.f = open(path, "w")
        self.n = 0

    def put(self, rec):
        self.f.write(json.dumps(rec, separators=(",", ":")) + "\n")
        self.n += 1

    def close(self):
        self.f.close()


def exc_name(e):
    if isinstance(e, Hang):
        HANGS[0] += 1
        return "Hang"
    tb = e.__traceback__
    last = None
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if "/bgem/" in fn:
            last = "%s:%s" % (os.path.basename(fn), tb.tb_frame.f_code.co_name)
        tb = tb.tb_next
    return "%s@%s" % (type(e).__name__, last)


def silence():
    """The library prints; keep the drivers' stdout clean."""
    sys.stdout = open(os.devnull, "w")


def in_library(e):
    """the innermost frame that is not third party code belongs to the library under test"""
    tb = e.__traceback__
    last = ""
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if "/bgem/" in fn or "/vt/drivers/" in fn:
            last = fn
        tb = tb.tb_next
    return "/bgem/" in last


def guarded(main):
    """An exception the driver did not expect, raised by the library, is a recorded failure."""
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(3000)
    try:
        main()
    except (Exception, Hang) as e:
        if not (in_library(e) or isinstance(e, Hang)):
            raise
        with open(sys.argv[1], "a") as f:
            rec = dict(FAILREC)
            rec.update(h=10 ** 6, op="driver", args=[], exc=exc_name(e))
            f.write(json.dumps(rec) + "\n")
        sys.stderr.write(traceback.format_exc())


# what a trace specification needs to find in a line that records an unexpected exception
FAILREC = {"h": 0, "op": "driver", "args": [], "exc": ""}
