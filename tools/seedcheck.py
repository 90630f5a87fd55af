#!/usr/bin/env python3
"""seedcheck.py [--notest] [-jN] id...: for each planted bug: applies, demo fails, stable tests pass, check catches; clean: demo passes.
Works on copies of /repo (the code of the copy is used through PYTHONPATH, VF_TOOLS_SRC is for this tool only)."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("-")]
notest = "--notest" in sys.argv
nj = next((int(a[2:]) for a in sys.argv if re.match(r"-j\d", a)), 2)
ids = args or sorted(os.listdir(V + "/seeded"))
B = json.load(open("/opt/vp/BASELINE.json"))
base = set(B.get("stable", B.get("passed", [])))


def one(i):
    sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
    d = f"{V}/seeded/{i}"
    pid = json.load(open(d + "/meta.json"))["property"]
    w = tempfile.mkdtemp(prefix="sc-")
    try:
        sh(f"cp -a /repo {w}/repo && cp -a {V} {w}/verif && mkdir {w}/vp && cp -a /opt/vp/. {w}/vp")
        sh(f"sed -i 's#/repo#{w}/repo#g; s#/opt/vp/env#{w}/vp/env#' {w}/vp/test.sh {w}/vp/env.sh; sed -i 's#unset PYTHONPATH.*#export PYTHONPATH={w}/repo/src#' {w}/vp/env.sh")
        env = dict(os.environ, PYTHONPATH=f"{w}/repo/src", VF_TOOLS_SRC=f":{w}/repo/src", TMPDIR=w)
        sh(f"git -C {w}/repo checkout -q -- .")
        clean = sh(f"bash {d}/demo.sh", cwd=w + "/repo", timeout=300, env=env)
        r = sh(f"git -C {w}/repo apply {d}/patch.diff")
        if r.returncode:
            return f"{i} DOES NOT APPLY {r.stderr}"
        bad = sh(f"bash {d}/demo.sh", cwd=w + "/repo", timeout=300, env=env)
        tests = "skipped"
        if not notest:
            sh(f"bash {w}/vp/test.sh {w}/out.json", cwd=w + "/repo")
            miss = base - set(json.load(open(w + "/out.json"))["passed"])
            tests = "ok" if not miss else f"BROKEN {sorted(miss)}"
        c = sh(f"python3 check.py {pid} quick", cwd=w + "/verif", env=env)
        clauses = sorted({l.split("clause ")[1].split(":")[0] for l in c.stdout.splitlines() if l.startswith("!! clause")})
        caught = c.returncode == 1 and f"VIOLATION property={pid}" in c.stdout
        out = f"{i} [{pid}] demo clean={clean.returncode} bug={bad.returncode} tests={tests} check rc={c.returncode} {'CAUGHT' if caught else 'MISSED'} {clauses}"
        if clean.returncode: out += clean.stdout[-1500:] + clean.stderr[-1500:]
        if c.returncode not in (0, 1): out += c.stdout[-2500:]
        return out
    finally:
        shutil.rmtree(w, ignore_errors=True)


with cf.ThreadPoolExecutor(nj) as ex:
    for o in ex.map(one, ids):
        print(o, flush=True)
