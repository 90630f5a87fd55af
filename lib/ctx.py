"""Context of one check run: collects models, cases, failures and writes the verdict."""
import json
import os
import random
import shutil
import sys
import tempfile
import time

import vf
from vf import VERIF, MachineryError, digest, log

EVID = os.path.join(VERIF, "evidence")


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.scratch = tempfile.mkdtemp(prefix=f"vf-{pid}-")
        self.rng = random.Random(f"{pid}/{seed}/{tier}")
        self.t0 = time.time()
        self.models, self.gens = [], []
        self.cases, self.fails, self.stats = [], [], {}
        self.trace_states = 0
        self.rule, self.assumptions = "", []
        self.nontrivial = None

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    # -- specification side
    def design(self, module, **kw):
        kw.setdefault("workers", 4)
        r, _ = vf.model_check(self.scratch, module, **kw)
        self.models.append(r)
        log(f"design {module} {kw.get('constants')}: {r['states']} states, {r['transitions']} transitions, "
            f"{', '.join(r['invariants'] + r['properties'])}: hold ({r['wall_s']}s)")

    def generate(self, module, **kw):
        scn, info = vf.generate(self.scratch, module, **kw)
        self.gens.append(info)
        log(f"behaviours of {module} {kw.get('constants')}: {len(scn)} ({info['states']} states)")
        return scn

    # -- implementation side
    def run(self, script, scenarios, module, want=None, constants=None, nproc=8, timeout=600, **kw):
        """replay scenarios on the real code and validate what it did against the specification"""
        if not scenarios:
            raise MachineryError("no scenario")
        nproc = max(1, min(nproc, len(scenarios) // 4 or 1))
        reqs = []
        for k in range(nproc):
            part = scenarios[k::nproc]
            reqs.append(dict(seed=f"{self.pid}/{self.seed}/{script}/{k}", want=want or [], scenarios=part, tier=self.tier))
        t = time.time()
        # warm the compilation cache once so that the workers share it
        cases, crashes = vf.run_harness_parallel(self.scratch, script, reqs, timeout=timeout, **kw)
        t1 = time.time()
        for c in crashes:
            log("-- the process died:", c["kind"])
            log(c["log"][-1500:])
            self.fails.append((dict(crash=c["kind"], **c["case"]), 0, "process_" + c["kind"].split()[0]))
        if cases:
            fails, stats, gen, dist = vf.validate(self.scratch, module, cases, constants=constants)
            for i, ev, clause in fails:
                self.fails.append((cases[i], ev, clause))
            for k, v in stats.items():
                self.stats[k] = self.stats.get(k, 0) + v
            self.trace_states += dist
        elif not crashes:
            raise MachineryError("the harness recorded nothing")
        self.cases += cases
        log(f"{script}: {len(cases)} runs of the real code in {t1 - t:.1f}s, validated by {module} in {time.time() - t1:.1f}s: "
            f"{len(self.fails)} failing clauses so far")
        return cases

    # -- verdict
    def finish(self):
        known = vf.load_findings(self.pid)
        new, old = [], {}
        for case, ev, clause in self.fails:
            tag = case.get("finding") if isinstance(case, dict) else None
            k = next((f for f in known if tag and f["id"] == tag and clause in f["clauses"]), None)
            if k:
                old.setdefault(k["id"], k)
            else:
                new.append((case, ev, clause))
        for k in old.values():
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
        by = {}
        for x in new:
            by.setdefault(x[2], []).append(x)
        shown = 0
        for clause, xs in by.items():
            log(f"!! clause {clause}: fails on {len(xs)} case(s)")
            xs.sort(key=lambda x: len(json.dumps(x[0])))
            for case, ev, _ in xs[:2]:
                p = os.path.join(EVID, "replay", f"{self.pid}-{clause}-{digest([case, ev])}.json")
                with open(p, "w") as h:
                    json.dump(dict(property=self.pid, clause=clause, event=ev, case=case, seed=self.seed, tier=self.tier), h, indent=1)
                log("   " + json.dumps(case)[:700])
                print(f"VIOLATION property={self.pid} replay={p}")
                shown += 1
        nt = self.nontrivial
        if nt is None:
            nt = lambda c: True  # noqa
        distinct = len({digest(c) for c in self.cases if nt(c)})
        samples = []
        for c in self.cases:
            if nt(c) and len(json.dumps(c)) < 4000:
                samples.append(c)
            if len(samples) == 2:
                break
        if not samples:
            samples = self.cases[:1]
        ev = dict(
            property=self.pid, tier=self.tier, seed=self.seed, level="model_checking",
            coverage=dict(
                states=sum(m["states"] for m in self.models) + sum(g["states"] for g in self.gens) + self.trace_states,
                transitions=sum(m["transitions"] for m in self.models) + sum(g["transitions"] for g in self.gens) + self.trace_states,
                traces_validated_against_impl=len(self.cases), distinct_nontrivial=distinct,
                evaluations=len(self.cases), rule=self.rule, design_models=self.models, generators=self.gens,
                observed=self.stats, samples=samples),
            assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=len(new))
        with open(os.path.join(EVID, f"{self.pid}.json"), "w") as h:
            json.dump(ev, h, indent=1)
        log(f"{self.pid}: {len(self.cases)} cases, {distinct} distinct non trivial, stats {self.stats}, "
            f"{len(new)} failing, {round(time.time() - self.t0, 1)}s")
        return 1 if new else 0

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def main(registry):
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if tier not in ("quick", "thorough"):
        tier = "quick"
    ctx = Ctx(pid, tier, seed)
    rc = 2
    try:
        registry[pid](ctx)
        rc = ctx.finish()
    except MachineryError as e:
        log("MACHINERY:", e)
        # what was observed before stays a verdict
        if ctx.fails:
            rc = ctx.finish()
    finally:
        ctx.close()
    sys.exit(rc)
