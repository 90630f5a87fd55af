"""mkseed(id, property, [(file, old, new)...], demo_py, needs, breaks): writes /verif/seeded/<id>/ from a temporary edit of /repo."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export MPLBACKEND=agg PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''
HEAD = '''import os, tempfile
_d = tempfile.TemporaryDirectory()
os.environ["NUMBA_CACHE_DIR"] = os.environ["MPLCONFIGDIR"] = _d.name
'''


def mkseed(i, pid, edits, demo, needs, breaks):
    sh = lambda c: subprocess.run(c, shell=True, capture_output=True, text=True)
    assert not sh("git -C /repo status --porcelain").stdout.strip()
    for f, old, new in edits:
        p = "/repo/src/py_eddy_tracker/" + f
        s = open(p).read()
        assert s.count(old) == 1, (i, f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = sh("git -C /repo diff").stdout
    sh("git -C /repo checkout -- .")
    d = f"{V}/seeded/{i}"
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(SH)
    open(d + "/demo.py", "w").write(HEAD + demo)
    json.dump(dict(property=pid, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
