"""dbg.py <harness script> <replay file or json list of scenarios> [want,...]: run on the real code, show everything."""
import json, os, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vf
arg = sys.argv[2]
sc = json.load(open(arg)) if os.path.exists(arg) else json.loads(arg)
if isinstance(sc, dict):
    sc = [sc.get("case", sc).get("scenario", sc.get("case", sc))]
d = tempfile.mkdtemp()
json.dump(dict(seed="dbg", scenarios=sc, want=sys.argv[3].split(",") if len(sys.argv) > 3 else [], tier="quick"), open(d + "/r", "w"))
env = dict(os.environ, VF_DEBUG="1", PYTHONPATH=vf.HARNESS, VF_WORK=d, NUMBA_CACHE_DIR="/tmp/vfnumba", MPLBACKEND="agg", PYTHONDONTWRITEBYTECODE="1")
r = subprocess.run([vf.PY, "-W", "ignore", vf.HARNESS + "/" + sys.argv[1], d + "/r", d + "/o"], env=env, cwd=d)
print(r.returncode)
print(open(d + "/o").read()[:6000])
