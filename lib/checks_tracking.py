"""Properties of the tracking: T01..T08."""

MC_INV = ["InvOneTrackPerObs", "InvOneObsPerFile", "InvGapsBounded", "InvIdsDense", "InvVirtOK", "InvLength"]
LANE_INV = ["NeverSingle", "StartsWithTwo", "GapsBounded", "Disjoint", "OnlyDetections", "PairsLinked"]


def design_tracking(ctx):
    ctx.design("TrackingMC", spec="Spec", constants=dict(MaxObs=2, MaxFiles=ctx.pick(4, 5), MaxV=2), invariants=MC_INV,
               properties=["Grows"], timeout=800)


def design_lanes(ctx):
    ctx.design("LanesMC", init="Init", nxt="Detect", constants=dict(NLanes=2, NFiles=ctx.pick(5, 6), MaxV=3),
               invariants=LANE_INV)


def lanes(ctx, nfiles, nlanes, maxv, n):
    """every presence history (up to renaming of lanes), or a seeded sample of n of them"""
    scn = ctx.generate("LanesMC", init="Init", nxt="Next", constants=dict(NLanes=nlanes, NFiles=nfiles, MaxV=maxv))
    if n and len(scn) > n:
        scn = ctx.rng.sample(scn, n)
    return [dict(kind="lanes", **s) for s in scn]


def long_lanes(ctx, n, nfiles=(6, 22)):
    r = ctx.rng
    out = []
    for _ in range(n):
        nl, nf, V = r.randint(1, 4), r.randint(*nfiles), r.choice([0, 1, 2, 3, 5, 9])
        pr = [r.choice([0.9, 0.7, 0.5, 0.3]) for _ in range(nl)]
        out.append(dict(kind="lanes", V=V, pres=[[k for k in range(nl) if r.random() < pr[k]] for _ in range(nf)]))
    return out


def crowds(ctx, n, nfile=(3, 9)):
    r = ctx.rng
    return [dict(kind="crowd", V=r.choice([0, 1, 1, 2, 3]), nfile=r.randint(*nfile), nmax=r.choice([2, 4, 8, 12]),
                 dense=r.choice([3, 5, 8])) for _ in range(n)]


def area(ctx, n):
    out = long_lanes(ctx, n, (3, 9))
    for s in out:
        s["cls"] = "area"
        if ctx.rng.random() < 0.5:
            s["cmin"] = ctx.rng.choice([0.05, 0.5])
    return out


# sizes which do not fit in small integers
WIDE = dict(kind="wide", big="wide", V=0, n=300)
LONG = dict(kind="long", big="long", V=1, n=270)
GAP = dict(kind="gap", big="gap", V=200, n=190)
GAP1 = dict(kind="gap", big="gap", V=130, n=131)


def nlinks(c):
    return sum(len(e["links"]) for e in c.get("ev", []))


RULE = ("every history of detection of 2 eddies over 4-6 files x bridging depth (TLC), seeded longer histories, crowds with "
        "conflicting candidates, overlap tracker; non trivial: at least one association kept")


def base(ctx):
    ctx.rule = RULE
    ctx.nontrivial = lambda c: nlinks(c) > 0
    ctx.assumptions = ["identification files are in-memory copies given through the class' load_file, except where the "
                       "check says that files are written", "less than 64 observations by synthetic file"]


def T01(ctx):
    ctx.rule = ("every cost table of 2x3 pairs with costs 1..3 or not admissible (TLC), seeded sets of observations for each "
                "tracker; non trivial: at least one association")
    ctx.nontrivial = lambda c: len(c["links"]) > 0
    ctx.assumptions = ["ties (costs equal within 5e-4 relative to the largest term) may be decided either way",
                       "couples within 0.1 km of the 125 km limit are not generated",
                       "for the Chelton tracker the mask of admissible couples is the recorded one"]
    ctx.design("MatchingMC", init="Init", nxt="Next", constants=dict(NA=2, NB=2, Values=4), invariants=["Sound", "Result", "Unique"])
    ctx.design("MatchingMC", spec="Spec", constants=dict(NA=2, NB=2, Values=ctx.pick(2, 3)), properties=["Ends"])
    if not ctx.quick:
        ctx.design("MatchingMC", init="Init", nxt="Next", constants=dict(NA=3, NB=2, Values=4), invariants=["Sound", "Result", "Unique"])
    tabs = ctx.generate("MatchingMC", init="Init", nxt="Emit", constants=dict(NA=2, NB=3, Values=3))
    sc = [dict(kind="matrix", na=2, nb=3, cost=x) for x in tabs]
    for _ in range(ctx.pick(300, 4000)):
        na, nb = ctx.rng.randint(3, 7), ctx.rng.randint(3, 7)
        sc.append(dict(kind="matrix", na=na, nb=nb, cost=[[ctx.rng.choice([0, ctx.rng.randint(1, 60)]) for _ in range(nb)] for _ in range(na)]))
    for _ in range(ctx.pick(700, 6000)):
        sc.append(dict(kind="default", na=ctx.rng.randint(0, 9), nb=ctx.rng.randint(0, 9)))
        sc.append(dict(kind="area", na=ctx.rng.randint(0, 9), nb=ctx.rng.randint(0, 9)))
    for _ in range(ctx.pick(150, 1500)):
        sc.append(dict(kind="chelton", na=ctx.rng.randint(1, 9), nb=ctx.rng.randint(1, 9)))
    ctx.rng.shuffle(sc)
    ctx.run("match_h.py", sc, "MatchCheck")


def T02(ctx):
    base(ctx)
    design_tracking(ctx)
    sc = lanes(ctx, 4, 2, 1, ctx.pick(150, 0)) + lanes(ctx, 6, 2, 2, ctx.pick(250, 6000))
    sc += crowds(ctx, ctx.pick(400, 6000)) + area(ctx, ctx.pick(40, 500)) + [WIDE, LONG, GAP]
    ctx.run("track_h.py", sc, "TrackCheck", want=[])


def T03(ctx):
    base(ctx)
    design_lanes(ctx)
    design_tracking(ctx)
    sc = lanes(ctx, 6, 1, 3, 0) + lanes(ctx, 6, 2, 3, ctx.pick(300, 8000))
    sc += long_lanes(ctx, ctx.pick(250, 3000)) + crowds(ctx, ctx.pick(100, 2000)) + area(ctx, ctx.pick(60, 800)) + [GAP, GAP1]
    for s in sc:
        if s["kind"] == "lanes":
            s["lanes"] = 1
    ctx.run("track_h.py", sc, "TrackCheck", want=["lanes"])


def T04(ctx):
    base(ctx)
    design_tracking(ctx)
    sc = lanes(ctx, 5, 2, 2, ctx.pick(250, 0)) + long_lanes(ctx, ctx.pick(60, 800)) + crowds(ctx, ctx.pick(250, 4000))
    sc += area(ctx, ctx.pick(30, 400)) + [WIDE, LONG, GAP]
    sc = [dict(s) for s in sc]
    for k, s in enumerate(sc):
        s["twice"] = k % 3 == 0
    ctx.run("track_h.py", sc, "TrackCheck", want=["table"])


def T05(ctx):
    base(ctx)
    design_tracking(ctx)
    sc = lanes(ctx, 5, 2, 2, ctx.pick(200, 0)) + long_lanes(ctx, ctx.pick(80, 800)) + crowds(ctx, ctx.pick(200, 3000)) + [dict(WIDE), dict(LONG)]
    for s in sc:
        s["size"] = ctx.rng.choice([1, 2, 3, 3, 4, 5, 8, 30])
    ctx.run("track_h.py", sc, "TrackCheck", want=["split"])
    sc = long_lanes(ctx, ctx.pick(24, 300), (4, 9)) + crowds(ctx, ctx.pick(24, 300), (4, 8))
    for k, s in enumerate(sc):
        s["size"] = ctx.rng.choice([2, 3, 4])
        s["raw"], s["zarr"], s["script"] = k % 2, (k // 2) % 2, k % 8 == 7
    ctx.run("app_h.py", sc, "TrackCheck", want=["app"])


def T06(ctx):
    base(ctx)
    design_tracking(ctx)
    sc = lanes(ctx, 5, 2, 2, ctx.pick(70, 1600)) + long_lanes(ctx, ctx.pick(30, 400), (5, 10)) + crowds(ctx, ctx.pick(90, 1500))
    sc += area(ctx, ctx.pick(20, 200))
    out = []
    for s in sc:
        n = len(s["pres"]) if "pres" in s else s["nfile"]
        cuts = range(2, n + 1)
        if ctx.quick:
            cuts = sorted(ctx.rng.sample(list(cuts), min(2, n - 1)))
        seed = ctx.rng.random()
        out += [dict(s, cut=k, seed=seed) for k in cuts]
        if n > 3:
            out.append(dict(s, cut=sorted(ctx.rng.sample(range(2, n + 1), 2)), seed=seed))
    out += [dict(WIDE, cut=2), dict(LONG, cut=260), dict(GAP, cut=170)]
    ctx.run("track_h.py", out, "TrackCheck", want=["resume"])


def T07(ctx):
    base(ctx)
    design_tracking(ctx)
    sc = lanes(ctx, 4, 2, 2, ctx.pick(100, 0)) + long_lanes(ctx, ctx.pick(60, 500)) + crowds(ctx, ctx.pick(150, 2500))
    sc += area(ctx, ctx.pick(20, 200)) + [WIDE, LONG, GAP]
    ctx.run("track_h.py", sc, "TrackCheck", want=["reload"])


def T08(ctx):
    base(ctx)
    design_tracking(ctx)
    sc = lanes(ctx, 6, 2, 1, ctx.pick(150, 2500)) + long_lanes(ctx, ctx.pick(120, 1200), (6, 14))
    sc += crowds(ctx, ctx.pick(150, 2500), (5, 10))
    for k, s in enumerate(sc):
        n = len(s["pres"]) if "pres" in s else s["nfile"]
        s["V"] = min(s["V"], 3)
        b = ctx.rng.randint(0, max(0, n - s["V"] - 4))
        s["b_start"] = b
        s["a_stop"] = ctx.rng.randint(min(n - 1, b + s["V"] + 2), n - 1)
        s["via_file"] = k % 2
    ctx.run("track_h.py", sc, "TrackCheck", want=["join"])


REGISTRY = dict(T01=T01, T02=T02, T03=T03, T04=T04, T05=T05, T06=T06, T07=T07, T08=T08)
