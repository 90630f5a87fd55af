"""Runner shared by every check.

A check is: (1) TLC on the design configurations, (2) TLC-enumerated scenarios,
(3) a harness process that replays them (and seeded random ones) on the real code and
records cases/traces, (4) TLC validation of the recorded cases against the specification.
Verdicts are total: every case ends in the set of failing clause names.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
REPO = "/repo"
PY = "/opt/venv/bin/python"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
FINDINGS = os.path.join(VERIF, "known_findings.txt")


class MachineryError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def tlc(module, cfg_text, scratch, env=None, heap="2g", workers=1, timeout=800, extra=()):
    """Run TLC on SPEC/module.tla with a generated cfg. Returns (rc, stdout)."""
    d = tempfile.mkdtemp(prefix="tlc-", dir=scratch)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
    cfg = os.path.join(d, module + "_run.cfg")
    with open(cfg, "w") as h:
        h.write(cfg_text)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if env:
        e.update(env)
    cmd = [
        "java", f"-Xmx{heap}", "-Xss512m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
        f"-Djava.io.tmpdir={d}", "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
        "-metadir", os.path.join(d, "states"), "-nowarning", *extra, "-config", cfg, module + ".tla",
    ]
    p = subprocess.Popen(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise MachineryError(f"TLC timeout on {module}")
    shutil.rmtree(d, ignore_errors=True)
    return p.returncode, out


RE_STATES = re.compile(r"([\d,]+) states generated, ([\d,]+) distinct states found")


def parse_states(out):
    m = None
    for m in RE_STATES.finditer(out):
        pass
    if m is None:
        return 0, 0
    return int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))


def cfg(spec=None, init=None, nxt=None, constants=None, invariants=(), properties=(), constraints=(),
        action_constraints=(), postcondition=None, view=None, deadlock=False, symmetry=None):
    lines = []
    if spec:
        lines.append(f"SPECIFICATION {spec}")
    if init:
        lines.append(f"INIT {init}")
        lines.append(f"NEXT {nxt}")
    for k, v in (constants or {}).items():
        lines.append(f"CONSTANT {k} = {v}")
    for i in invariants:
        lines.append(f"INVARIANT {i}")
    for i in properties:
        lines.append(f"PROPERTY {i}")
    for i in constraints:
        lines.append(f"CONSTRAINT {i}")
    for i in action_constraints:
        lines.append(f"ACTION_CONSTRAINT {i}")
    if postcondition:
        lines.append(f"POSTCONDITION {postcondition}")
    if view:
        lines.append(f"VIEW {view}")
    lines.append(f"CHECK_DEADLOCK {'TRUE' if deadlock else 'FALSE'}")
    return "\n".join(lines) + "\n"


def model_check(scratch, module, workers=4, heap="6g", timeout=700, **kw):
    """Design check. The design does not depend on /repo: a failure is a machinery error."""
    t = time.time()
    rc, out = tlc(module, cfg(**kw), scratch, workers=workers, heap=heap, timeout=timeout)
    if rc != 0 or "No error has been found" not in out:
        raise MachineryError(f"design model {module} {kw} failed:\n{out[-6000:]}")
    gen, dist = parse_states(out)
    return dict(module=module, constants=kw.get("constants", {}), invariants=list(kw.get("invariants", ())),
                properties=list(kw.get("properties", ())), states=dist, transitions=gen,
                wall_s=round(time.time() - t, 1)), out


def generate(scratch, module, workers=1, heap="4g", timeout=600, extra=(), allow_limit=False, **kw):
    """Behaviours of the specification, printed by TLC as <<"SCN", "json">> ."""
    rc, out = tlc(module, cfg(**kw), scratch, workers=workers, heap=heap, timeout=timeout, extra=extra)
    if (rc != 0 or "Error" in out) and not allow_limit:
        raise MachineryError(f"generator {module} {kw} failed:\n{out[-6000:]}")
    res = []
    for line in out.splitlines():
        if line.startswith('<<"SCN", '):
            s = line[len('<<"SCN", '):-2]
            res.append(json.loads(json.loads(s)))
    gen, dist = parse_states(out)
    return res, dict(module=module, constants=kw.get("constants", {}), states=dist, transitions=gen,
                     scenarios=len(res))


RE_V = re.compile(r'^<<"V", (\d+), (-?\d+), "([^"]*)">>')
RE_S = re.compile(r'^<<"S", "([^"]*)", (\d+)>>')


def _validate_one(args):
    scratch, module, path, n, constants, heap, timeout = args
    rc, out = tlc(module, cfg(init="TraceInit", nxt="TraceNext", constants=constants),
                  scratch, env={"CASES": path}, heap=heap, timeout=timeout)
    fails, stats = [], {}
    for line in out.splitlines():
        m = RE_V.match(line)
        if m:
            fails.append((int(m.group(1)), int(m.group(2)), m.group(3)))
            continue
        m = RE_S.match(line)
        if m:
            stats[m.group(1)] = stats.get(m.group(1), 0) + int(m.group(2))
    gen, dist = parse_states(out)
    err = None
    if '<<"DONE", %d>>' % n not in out:
        # the recorded output is outside of the domain of the specification (or TLC broke)
        m = re.findall(r"/\\ c = (\d+)|^c = (\d+)", out, re.M)
        last = None
        if m:
            last = int([x for x in m[-1] if x][0])
        err = (last, out[-5000:])
    return fails, stats, gen, dist, err


def validate(scratch, module, cases, constants=None, shards=None, heap="3g", timeout=800):
    """cases: list of JSON-able dict. Returns list of (case_index, event, clause), stats."""
    n = len(cases)
    if n == 0:
        raise MachineryError("no case to validate")
    size = [len(json.dumps(c)) for c in cases]
    shards = shards or max(1, min(8, (sum(size) // 200000) + 1, n))
    order = sorted(range(n), key=lambda i: -size[i])
    bins = [[] for _ in range(shards)]
    load = [0] * shards
    for i in order:
        k = load.index(min(load))
        bins[k].append(i)
        load[k] += size[i] + 200
    bins = [sorted(b) for b in bins if b]
    jobs = []
    for k, b in enumerate(bins):
        p = os.path.join(scratch, f"{module}-cases-{k}-{time.time_ns()}.ndjson")
        with open(p, "w") as h:
            for i in b:
                h.write(json.dumps(cases[i]) + "\n")
        jobs.append((scratch, module, p, len(b), constants or {}, heap, timeout))
    fails, stats, gen, dist = [], {}, 0, 0
    with cf.ThreadPoolExecutor(8) as ex:
        for b, (f, s, g, d, err) in zip(bins, ex.map(_validate_one, jobs)):
            fails += [(b[c - 1], ev, clause) for c, ev, clause in f]
            gen += g
            dist += d
            for k, v in s.items():
                stats[k] = stats.get(k, 0) + v
            if err is not None:
                last, text = err
                if "java.lang.OutOfMemoryError" in text or "Parsing or semantic" in text or last is None:
                    raise MachineryError(f"trace validation {module} broke:\n{text[-2500:]}")
                log("-- TLC could not evaluate the specification on a recorded output:")
                log(text[-3000:])
                fails.append((b[max(0, min(last, len(b)) - 1)], 0, "output_in_domain"))
    return sorted(fails), stats, gen, dist


def run_harness(scratch, script, request, timeout=700, jit=True, tag="h"):
    """Runs /verif/harness/<script> with a request file; returns the list of recorded cases.
    Each line of the output is a case; a line {"begin": k} is written before each case so that
    a crash of the interpreter (e.g. an out of bounds write in compiled code) is attributed."""
    req = os.path.join(scratch, f"{tag}-req-{time.time_ns()}.json")
    outp = os.path.join(scratch, f"{tag}-out-{time.time_ns()}.ndjson")
    work = tempfile.mkdtemp(prefix="work-", dir=scratch)
    with open(req, "w") as h:
        json.dump(request, h)
    env = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "NUMBA_DISABLE_JIT")}
    env.update(
        PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="agg",
        MPLCONFIGDIR=os.path.join(scratch, "mpl"), NUMBA_CACHE_DIR=os.path.join(scratch, "numba" + ("" if jit else "0")),
        PYTHONPATH=HARNESS + os.environ.get("VF_TOOLS_SRC", ""), VF_WORK=work, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", NUMBA_NUM_THREADS="1",
        HOME=work, TMPDIR=work,
    )
    if not jit:
        env["NUMBA_DISABLE_JIT"] = "1"
    errp = outp + ".err"
    with open(errp, "w") as eh:
        p = subprocess.Popen([PY, "-W", "ignore", os.path.join(HARNESS, script), req, outp], cwd=work, env=env,
                             stdout=eh, stderr=subprocess.STDOUT, start_new_session=True)
        timed_out = False
        try:
            p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            timed_out = True
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
    shutil.rmtree(work, ignore_errors=True)
    cases, begun, done = [], None, False
    if os.path.exists(outp):
        with open(outp) as h:
            for line in h:
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if "begin" in d:
                    begun = d
                elif "end" in d:
                    done = True
                else:
                    cases.append(d)
                    begun = None
    if done and p.returncode == 0:
        return cases, None
    with open(errp) as h:
        err = h.read()[-3000:]
    if begun is not None and (timed_out or p.returncode < 0):
        return cases, dict(kind="hang" if timed_out else f"crash (signal {-p.returncode})", case=begun, log=err)
    raise MachineryError(f"harness {script} failed rc={p.returncode} timeout={timed_out}\n{err}")


def run_harness_parallel(scratch, script, requests, **kw):
    cases, crashes = [], []
    with cf.ThreadPoolExecutor(8) as ex:
        futs = [ex.submit(run_harness, scratch, script, r, tag=f"h{i}", **kw) for i, r in enumerate(requests)]
        for f in futs:
            c, crash = f.result()
            cases += c
            if crash:
                crashes.append(crash)
    return cases, crashes


def load_findings(pid):
    res = []
    if os.path.exists(FINDINGS):
        with open(FINDINGS) as h:
            for line in h:
                line = line.strip()
                if not line.startswith("known: "):
                    continue
                d = json.loads(line[len("known: "):])
                if d["property"] == pid:
                    res.append(d)
    return res


def digest(obj):
    return hashlib.sha256(json.dumps(obj, sort_keys=True).encode()).hexdigest()[:16]
