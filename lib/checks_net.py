"""Networks: N01.."""


def base(ctx):
    ctx.assumptions = ["contours follow unit cells (overlaps are exact)", "dates are regularly sampled: the median gap between dates is the sampling step (documented limit of split_network)",
                       "scores used are symmetric (union, minimal area, hybrid)"]
    inv = ["GroupedWell", "SegmentedWell", "CostsWell"]
    ctx.design("SegmentsMC", init="Init", nxt="Next", constants=dict(L=2, PerDay=2, Days=3, W=1), invariants=inv)
    ctx.design("SegmentsMC", init="Init", nxt="Next", constants=dict(L=2, PerDay=2, Days=3, W=2), invariants=inv)
    if not ctx.quick:
        ctx.design("SegmentsMC", init="Init", nxt="Next", constants=dict(L=3, PerDay=2, Days=3, W=2), invariants=inv, workers=8)


def intervals(ctx, n):
    conf = ctx.generate("SegmentsMC", init="Init", nxt="Emit", constants=dict(L=ctx.pick(2, 3), PerDay=2, Days=3, W=1))
    sc = [dict(o=c["o"], w=w, outer=w == 1) for c in conf for w in (1, 2)]
    ctx.rng.shuffle(sc)
    return sc[:n]


def N01(ctx):
    base(ctx)
    ctx.rule = "sets of files of intervals enumerated by TLC, seeded sets of files of contours; non trivial: one group"
    ctx.nontrivial = lambda c: any(c["gr"])
    sc = [dict(s, how=["mem"]) for s in intervals(ctx, ctx.pick(700, 9000))]
    sc += [dict(how=["mem"])] * ctx.pick(900, 9000) + [dict(how=["mem"], big=9)] * ctx.pick(20, 400) + [dict(how=["files", "app"])] * ctx.pick(40, 300)
    ctx.run("net_h.py", sc, "NetBuildCheck")


def N02(ctx):
    base(ctx)
    ctx.rule = "seeded sets of identification files (netcdf or zarr) through the API or the applications; non trivial: one group"
    ctx.nontrivial = lambda c: any(c["gr"])
    sc = [dict(how=["files", "files", "app"])] * ctx.pick(160, 2500)
    ctx.run("net_h.py", sc, "NetBuildCheck")


def N03(ctx):
    base(ctx)
    ctx.rule = "tables by group of intervals enumerated by TLC, seeded tables; non trivial: one merging or splitting"
    ctx.nontrivial = lambda c: any(r["n"] and c["fin"][r["n"] - 1]["s"] != r["s"] for r in c["fin"])
    sc = [dict(s, how=["direct"]) for s in intervals(ctx, ctx.pick(700, 9000))]
    sc += [dict(how=["direct"])] * ctx.pick(900, 9000) + [dict(how=["direct"], big=9)] * ctx.pick(20, 400) + [dict(how=["app"])] * ctx.pick(16, 150)
    ctx.run("net_h.py", sc, "NetBuildCheck")


LAWS = ["StaysSound", "StaysWhole", "MaskSound", "Connected"]


def nets(ctx, ops, n_small, n_rand, n_ops=3, nbig=0, empty=0, deep=0):
    """operations on every small network (TLC) and on seeded larger ones"""
    ctx.assumptions = ["whole networks: consecutive rows of a segment are linked, only ends are linked elsewhere; then any selection of them",
                       "costs are compared where there is a link"]
    ctx.design("NetworksMC", init="Init", nxt="Next", constants=dict(N=ctx.pick(3, 4), Days=3, MaxTr=2, MaxSg=3), invariants=LAWS, workers=8)
    T = ctx.generate("NetworksMC", init="Init", nxt="Emit", constants=dict(N=3, Days=3, MaxTr=2, MaxSg=3))
    if n_small > len(T):
        T += ctx.generate("NetworksMC", init="Init", nxt="Emit", constants=dict(N=4, Days=3, MaxTr=2, MaxSg=3))
    ctx.rng.shuffle(T)
    sc = [dict(T=t, ops=ops, n=2) for t in T[:n_small]] + [dict(ops=ops, n=n_ops)] * n_rand + [dict(ops=ops, n=n_ops, big=True)] * nbig
    sc += [dict(empty=True)] * empty + [dict(deep=True)] * deep
    ctx.run("nets_h.py", sc, "NetworksCheck")


SELECT = ["mask", "mask", "light", "nets", "nets", "segs", "period", "longer", "notrash", "bydate", "sort", "app"]


def N04(ctx):
    ctx.rule = "selections of networks; non trivial: something selected and something left"
    ctx.nontrivial = lambda c: 0 < len(c.get("b", [])) < len(c["a"])
    nets(ctx, SELECT, ctx.pick(600, 3000), ctx.pick(500, 6000), nbig=ctx.pick(20, 300), empty=ctx.pick(60, 300))


def N05(ctx):
    ctx.rule = "events of networks, also after selections; non trivial: one merging or splitting"
    ctx.nontrivial = lambda c: c.get("m1") or c.get("s1")
    nets(ctx, ["events", "events", "events", "mask", "deadend", "swap"], ctx.pick(600, 3000), ctx.pick(500, 6000), nbig=ctx.pick(20, 300))


def N06(ctx):
    ctx.rule = "new networks, new numbers; non trivial: something changes"
    ctx.nontrivial = lambda c: c["op"] in ("dissociate", "numn", "nums") and c.get("b") != c["a"]
    nets(ctx, ["dissociate", "dissociate", "numn", "nums", "sort", "deadend", "query"], ctx.pick(600, 3000), ctx.pick(500, 6000), nbig=ctx.pick(20, 300))


def N07(ctx):
    ctx.rule = "dead ends; non trivial: something removed"
    ctx.nontrivial = lambda c: c["op"] == "deadend" and c.get("b") != c["a"]
    nets(ctx, ["deadend"] * 7 + ["app"], ctx.pick(800, 4000), ctx.pick(700, 8000), nbig=ctx.pick(30, 400))


def N08(ctx):
    ctx.rule = "relatives, water paths, orders; non trivial: several segments reached"
    ctx.nontrivial = lambda c: len({(r["tr"], r["sg"]) for r in c.get("b", [])}) > 1
    nets(ctx, ["relatives", "link", "link", "query", "period"], ctx.pick(600, 3000), ctx.pick(600, 7000), nbig=ctx.pick(20, 300), deep=ctx.pick(8, 40))


def N09(ctx):
    ctx.rule = "answers after any sequence of operations; non trivial: several segments"
    ctx.nontrivial = lambda c: c["op"] == "query" and c["nbs"] > 1
    nets(ctx, ["query", "query", "query"] + sorted(set(SELECT) - {"light", "app"}) + ["numn", "nums", "deadend", "dissociate", "close", "swap"], ctx.pick(400, 3000), ctx.pick(500, 6000), n_ops=5, nbig=ctx.pick(20, 300))


def N10(ctx):
    ctx.rule = "comparison of atlases; non trivial: one item identified and one not"
    ctx.nontrivial = lambda c: len({y == -1 for x, y in c.get("pairs", [])}) == 2 or any(c.get("same", []))
    nets(ctx, ["identify", "identify", "compare"], ctx.pick(600, 3000), ctx.pick(600, 7000), nbig=ctx.pick(20, 300))


def N11(ctx):
    ctx.rule = "corrections of segments; non trivial: something moved"
    ctx.nontrivial = lambda c: c["op"] in ("close", "swap") and {(r["u"], r["sg"]) for r in c.get("b", [])} != {(r["u"], r["sg"]) for r in c["a"]}
    nets(ctx, ["close", "swap"], ctx.pick(800, 4000), ctx.pick(900, 9000), nbig=ctx.pick(60, 600))


REGISTRY = dict(N01=N01, N02=N02, N03=N03, N04=N04, N05=N05, N06=N06, N07=N07, N08=N08, N09=N09, N10=N10, N11=N11)
