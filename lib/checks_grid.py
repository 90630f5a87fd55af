"""Properties of grids: G01.."""

G_ASSUME = ["grids of at most 12 x 10 nodes with dyadic steps", "TLC, numpy, netCDF4 are trusted"]
I_ASSUME = ["fields of at most 30 x 14 nodes, heights never nearer than a sixteenth of a step from a level, no equal neighbours",
            "contour lines come from contourpy, which the code uses too; circular grids are drawn as three turns side by side",
            "fields with an undecided saddle (a node higher than its neighbours inside a contour, not than those outside) are only partly judged"]


def G01(ctx):
    ctx.rule = "grid, field, mask and positions; non trivial: a masked node or a circle, and an interpolated value"
    ctx.assumptions = G_ASSUME + ["positions are not at the same distance of two nodes for the nearest value", "grids of a collection are daily"]
    ctx.nontrivial = lambda c: (any(map(sum, c["g"]["m"])) or c["g"]["circ"]) and any(v != -999999999 for v in c.get("out", c.get("bil", [])))
    ctx.design("BilinearMC", init="Init", nxt="Next", constants=dict(NX=2, NY=2, Vals="{0, 3}", Fr="{0, 5, 8}"),
               invariants=["Hull", "Node", "NoMissing", "Turns", "NearNode", "Middle"])
    if not ctx.quick:
        ctx.design("BilinearMC", init="Init", nxt="Next", constants=dict(NX=3, NY=2, Vals="{0, 3}", Fr="{0, 8}"),
                   invariants=["Hull", "Node", "NoMissing", "Turns", "NearNode", "Middle"])
    ctx.run("grid_h.py", [dict(kind="interp")] * ctx.pick(600, 9000) + [dict(kind="tinterp")] * ctx.pick(150, 2500), "GridCheck")


def G02(ctx):
    ctx.rule = "grid, field, mask, width of stencil, axis; non trivial: a value known and one unknown, or a circle"
    ctx.assumptions = G_ASSUME + ["steps in km are computed by the harness from the documented radius of the earth", "rows on the equator are not compared for currents"]
    ctx.nontrivial = lambda c: any(map(sum, c["g"]["m"])) or c["g"]["circ"]
    ctx.design("StencilMC", init="Init", nxt="Next", constants=dict(Sizes=ctx.pick("{2, 3, 4, 5, 9}", "2..11")), invariants=["Exact", "Missing", "Slope", "Mirror"])
    ctx.run("grid_h.py", [dict(kind="diff")] * ctx.pick(600, 9000) + [dict(kind="uv")] * ctx.pick(200, 3000), "GridCheck")


def G03(ctx):
    ctx.rule = "one grid of currents, particles, options, some releases; non trivial: a particle which moves"
    ctx.assumptions = G_ASSUME + ["positions are compared at 15/10000 of a cell by step, particles on the side between a known and an unknown cell are not compared"]
    ctx.nontrivial = lambda c: c["kind"] == "move" and any(p and q for p, q in zip(c["p"], c["q"]))
    ctx.design("AdvectMC", spec="Spec", constants=dict(N=3, NP=ctx.pick(2, 3), Steps=2), invariants=["Independent", "All", "MemoryWell"], properties=["Ends"])
    ctx.run("grid_h.py", [dict(kind="static")] * ctx.pick(300, 6000), "GridCheck")


def G04(ctx):
    ctx.rule = "several grids of currents, start, direction, options, some releases; non trivial: a particle which moves"
    ctx.assumptions = G_ASSUME + ["positions are compared at 15/10000 of a cell by step, particles on the side between a known and an unknown cell are not compared",
                                  "steps of time divide a day"]
    ctx.nontrivial = lambda c: c["kind"] == "move" and any(p and q for p, q in zip(c["p"], c["q"]))
    inv = ["Around", "EveryStep", "Clock", "StopsOnlyAtTheEnd", "Released"]
    ctx.design("TimeMC", init="Init", nxt="Next", constants=dict(MaxT=ctx.pick(5, 8), MaxB=ctx.pick(3, 4), Releases=ctx.pick(3, 5)), invariants=inv)
    scn = ctx.generate("TimeMC", init="Init", nxt="Emit", constants=dict(MaxT=ctx.pick(4, 5), MaxB=3, Releases=1))
    ctx.rng.shuffle(scn)
    ctx.run("grid_h.py", [dict(s, kind="timed") for s in scn[:ctx.pick(120, 2000)]] + [dict(kind="timed")] * ctx.pick(80, 3000), "GridCheck")


def G05(ctx):
    ctx.rule = "grid and contour; non trivial: a pixel found"
    ctx.assumptions = G_ASSUME + ["contours are narrower than half a turn and written in the turn of the grid"]
    ctx.nontrivial = lambda c: len(c["out"]) > 0
    ctx.design("BoxMC", init="Init", nxt="Next", constants=dict(MaxN=ctx.pick(9, 12), Turn=40, Margin=1), invariants=["Found"])
    ctx.run("grid_h.py", [dict(kind="pixels")] * ctx.pick(800, 9000), "GridCheck")


def G06(ctx):
    ctx.rule = "field of heights, mask, rules of the identification; non trivial: an eddy found"
    ctx.assumptions = I_ASSUME
    ctx.nontrivial = lambda c: len(c["out"]) > 0
    inv = ["Right", "AlwaysApart", "Only", "Hides"]
    small = dict(N=5, K=4, Mles="{1}", Nmins="{1}", Pmins="{1, 2}", Pmaxs="{2, 9}", Bads="FALSE")
    ctx.design("IdentMC", spec="Spec", constants=small, invariants=inv, properties=[] if ctx.quick else ["Ends"])
    if not ctx.quick:
        ctx.design("IdentMC", spec="Spec", constants=dict(small, N=6, Mles="{1, 2}"), invariants=inv)
        ctx.design("IdentMC", spec="Spec", constants=dict(small, N=6, K=3, Nmins="{1, 2}", Pmaxs="{9}", Bads="TRUE"), invariants=inv)
        ctx.design("IdentMC", spec="Spec", constants=dict(small, N=7, K=3, Pmins="{1}", Pmaxs="{9}"), invariants=inv)
    ctx.run("ident_h.py", [dict(kind="ident")] * ctx.pick(350, 9000), "IdentCheck", want=["ident"])


def G07(ctx):
    ctx.rule = "one eddy of one field; non trivial: it has inner contours"
    ctx.assumptions = I_ASSUME + ["what depends on the inner contours is not judged when two contours of a level have the extremum in their box"]
    ctx.nontrivial = lambda c: len(c["chain"]) > 1
    ctx.run("ident_h.py", [dict(kind="ident")] * ctx.pick(250, 7000), "IdentCheck", want=["eddy"])


REGISTRY = dict(G01=G01, G02=G02, G03=G03, G04=G04, G05=G05, G06=G06, G07=G07)


def G08(ctx):
    ctx.rule = "history of operations on a dataset of grids on a file; non trivial: at least two operations"
    ctx.assumptions = ["values are multiples of a quarter; files of at most 6 x 5 nodes, 3 dates, regular coordinates of one dimension"]
    ctx.nontrivial = lambda c: len(c["steps"]) > 1
    ctx.design("GridFileMC", spec="Spec", constants=dict(MaxOps=ctx.pick(4, 5), NX=2, NY=3), invariants=["Faithful", "WrittenBack", "Marked"])
    sc = [dict(kind="data", **s) for s in ctx.generate("GridFileMC", init="GInit", nxt="Emit", constants=dict(MaxOps=ctx.pick(2, 3), NX=2, NY=3))]
    ctx.run("gfile_h.py", sc + [dict(kind="data")] * ctx.pick(400, 6000) + [dict(kind="cube")] * ctx.pick(400, 6000), "GridFileCheck")


REGISTRY["G08"] = G08


def G09(ctx):
    ctx.rule = "observations and nodes or boxes of a grid; non trivial: a node counted or a value computed"
    ctx.assumptions = ["contours are made of unit cells and never go through a node; values are integers; grids of at least two nodes by axis"]
    ctx.nontrivial = lambda c: len(c["out"]) > 0
    ctx.design("GridObsMC", spec="Spec", constants=dict(N=ctx.pick(3, 4), NX=2, NY=2, Values="{0, 3}", Percents="{0, 50, 75}"), invariants=["Right", "Between"])
    sc = [dict(kind=k) for k, n in (("count", 250), ("centre", 120), ("stat", 120), ("box", 200), ("interp", 250)) for _ in range(ctx.pick(n, 15 * n))]
    ctx.run("gobs_h.py", sc, "GridObsCheck")


REGISTRY["G09"] = G09


def G10(ctx):
    ctx.rule = "filter of one field; non trivial: some node has a value"
    ctx.assumptions = ["values are integers; kernels have three points or more by axis and a positive weight in their middle; the weights of the kernels of the library are rounded at a thousandth when sums are checked"]
    ctx.nontrivial = lambda c: c["kind"] == "kernel" or any(v != -999999 for r in c["out"] for v in r)
    ctx.design("FiltersMC", spec="Spec", constants=dict(NX=ctx.pick(2, 3), NY=2, Values="{0, 2}", D=ctx.pick(1, 2), E=1, Circulars="{TRUE, FALSE}", Weights="{0, 1}"), invariants=["Right", "Between", "Turns"])
    ctx.run("filt_h.py", [dict(kind=k) for k, n in (("custom", 350), ("op", 120), ("kernel", 120)) for _ in range(ctx.pick(n, 12 * n))], "FiltersCheck")


REGISTRY["G10"] = G10
