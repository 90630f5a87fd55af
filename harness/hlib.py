"""Common part of the harness processes (run with /opt/venv/bin/python, cwd = scratch)."""
import json
import logging
import os
import sys
import traceback

logging.getLogger("pet").setLevel(logging.CRITICAL)

WORK = os.environ.get("VF_WORK", ".")


class Recorder:
    def __init__(self, path):
        self.h = open(path, "w")
        self.n = 0

    def begin(self, what):
        self.h.write(json.dumps({"begin": self.n, "what": what}) + "\n")
        self.h.flush()

    def put(self, case):
        self.h.write(json.dumps(case) + "\n")
        self.h.flush()
        self.n += 1

    def end(self):
        self.h.write(json.dumps({"end": self.n}) + "\n")
        self.h.close()


def start():
    with open(sys.argv[1]) as h:
        req = json.load(h)
    return req, Recorder(sys.argv[2])


def exc_name(e):
    tb = traceback.extract_tb(e.__traceback__)
    loc = ""
    for f in reversed(tb):
        if "/repo/" in f.filename:
            loc = f"{os.path.basename(f.filename)}:{f.name}"
            break
    return f"{type(e).__name__}@{loc}"


def call(f, *a, **k):
    """(result, None) or (None, 'ExceptionName@where')"""
    try:
        return f(*a, **k), None
    except Exception as e:  # noqa
        if os.environ.get("VF_DEBUG"):
            traceback.print_exc()
        return None, exc_name(e)


def ints(a):
    return [int(v) for v in a]
