"""Properties of contours: P01.."""
LAWS = ["Bounded", "Symmetric", "Ordered", "Same", "Included", "Areas", "Shifted", "Monotone", "HybridKeeps"]


def base(ctx):
    ctx.assumptions = ["contours follow unit cells (areas and membership are exact), points are never on a contour",
                       "score thresholds are multiples of 1/997, never equal to a score"]
    ctx.design("GeometryMC", init="Init", nxt="Next", constants=dict(H=2, Turn=5), invariants=LAWS)
    if not ctx.quick:
        ctx.design("GeometryMC", init="Init", nxt="Next", constants=dict(H=3, Turn=4), invariants=LAWS)


def P01(ctx):
    base(ctx)
    ctx.rule = "every pair of contours of one or two columns (TLC), seeded sets of contours of up to 5 columns on any side of the origin x modes; non trivial: one positive score"
    ctx.nontrivial = lambda c: any(v > 0 for v in c.get("s", [])) or bool(c.get("i"))
    pairs = ctx.generate("GeometryMC", init="Init", nxt="Emit", constants=dict(H=ctx.pick(2, 3), Turn=360))
    ctx.rng.shuffle(pairs)
    sc = [dict(kind="pairs", ps=pairs[k:k + 6]) for k in range(0, len(pairs), 6)]
    sc += [dict(kind="match")] * ctx.pick(1500, 12000) + [dict(kind="centers")] * ctx.pick(300, 2000)
    ctx.run("geo_h.py", sc, "GeometryCheck")


def P02(ctx):
    base(ctx)
    ctx.rule = "seeded sets of contours and points in any longitude convention; non trivial: one point or particle inside"
    ctx.nontrivial = lambda c: any(v >= 0 for v in c.get("out", [])) or bool(c.get("part")) or c.get("flag", False)
    sc = [dict(kind="inside")] * ctx.pick(1200, 9000) + [dict(kind="particles")] * ctx.pick(300, 2500) + [dict(kind="contain")] * ctx.pick(800, 6000)
    ctx.run("geo_h.py", sc, "GeometryCheck")


def P03(ctx):
    base(ctx)
    ctx.rule = "seeded integer polygons, both orientations; non trivial: more than a triangle"
    ctx.nontrivial = lambda c: len(c["v"]) > 3
    ctx.run("geo_h.py", [dict(kind="shape")] * ctx.pick(3000, 30000), "GeometryCheck")


def P04(ctx):
    base(ctx)
    ctx.rule = "seeded lines (closed or not, several pieces, any side of the longitude origin) x tool; non trivial: more than two positions drawn"
    ctx.nontrivial = lambda c: len(c["out"]) > 2
    ctx.run("geo_h.py", [dict(kind="line")] * ctx.pick(3200, 30000), "GeometryCheck")


REGISTRY = dict(P01=P01, P02=P02, P03=P03, P04=P04)
