"""Properties of the observation datasets: O01.."""

LAWS = ["WholeTracks", "OnlyFull", "CoversMask", "NoVirtualOnly", "Plain", "LengthKept", "Stable", "WholeComplete", "Again", "FirstLast"]
ROWS = ["mask", "area", "tsub", "slice", "index", "rindex", "filters", "filters", "copy", "addf", "remf"]
TRACK = ["mask", "mask", "ids", "length", "longer", "period", "area", "toward", "heading", "box", "first", "last", "tsub", "slice", "rindex", "copy", "addf"]
JOIN = ["concat", "concat", "merge", "insert", "mask", "copy", "slice", "addf", "remf"]


def chains(ctx, cls, ops, n, size=(0, 14), length=(1, 5)):
    r = ctx.rng
    return [dict(kind="chain", cls=cls, ops=ops, n=r.randint(*size), len=r.randint(*length)) for _ in range(n)]


def base(ctx, rule):
    ctx.rule = rule
    ctx.nontrivial = lambda c: len(c["src"]) > 0
    ctx.assumptions = ["whole days and degrees; thresholds are never equal to a value, except for dates and lengths",
                       "queries by track only on datasets sorted by track, as the code requires"]
    ctx.design("DatasetMC", init="Init", nxt="Next", constants=dict(N=ctx.pick(3, 4), Gap=1), invariants=LAWS)


def O01(ctx):
    base(ctx, "seeded histories of 1-5 selections on datasets of 0-14 rows (wrap, empty, duplicated index); non trivial: rows selected")
    ctx.run("data_h.py", chains(ctx, "E", ROWS, ctx.pick(900, 9000)) + chains(ctx, "T", ROWS, ctx.pick(500, 6000)), "DatasetCheck")


def O02(ctx):
    base(ctx, "every selection with its options on datasets of 3 rows (TLC), seeded histories of selections by track; non trivial: rows selected")
    sel = ctx.generate("DatasetMC", init="Init", nxt="Emit", constants=dict(N=ctx.pick(3, 4), Gap=1))
    k = ctx.pick(1500, 12000)
    if len(sel) > k:
        sel = ctx.rng.sample(sel, k)
    sc = [dict(kind="select", **s) for s in sel]
    ctx.run("data_h.py", sc + chains(ctx, "T", TRACK, ctx.pick(1200, 12000)), "DatasetCheck")


def O03(ctx):
    base(ctx, "seeded histories of 1-5 gatherings (concatenate, merge, insert) and selections; non trivial: rows")
    ctx.run("data_h.py", chains(ctx, "E", JOIN, ctx.pick(500, 6000)) + chains(ctx, "T", JOIN, ctx.pick(900, 9000)), "DatasetCheck")


REGISTRY = dict(O01=O01, O02=O02, O03=O03)


def O04(ctx):
    ctx.rule = ("every presence of two datasets over NB days x all_ref (TLC), seeded values (any order, unsigned and float fields, empty) "
                "x bins (regular, irregular, default); non trivial: at least one group or one count")
    ctx.nontrivial = lambda c: len(c["groups"]) > 0 or any(v > 0 for v in c["out"])
    ctx.assumptions = ["values and bounds are multiples of 1/4, so that comparisons are exact", "bounds of windows are never equal to a value"]
    nb = ctx.pick(4, 5)
    ctx.design("BinningMC", spec="Spec", constants=dict(NB=nb), invariants=["Joined", "OnceEach", "NothingLost"], properties=["Ends"])
    sc = [dict(kind="presence", nb=nb, **s) for s in ctx.generate("BinningMC", init="Init", nxt="Emit", constants=dict(NB=nb))]
    for k, n in (("iter", 1200), ("align", 800), ("window", 300), ("hist", 900)):
        sc += [dict(kind=k)] * ctx.pick(n, 8 * n)
    ctx.run("bins_h.py", sc, "BinningCheck", nproc=6)


REGISTRY["O04"] = O04


def O05(ctx):
    ctx.rule = ("every chain of formats (netcdf, zarr x packed, decoded) (TLC), seeded tables, options of reading and ways of writing, files of other programs, EddiesMerge; "
                "non trivial: rows read")
    ctx.nontrivial = lambda c: any(s["got"]["n"] > 0 for s in c["steps"])
    ctx.assumptions = ["values are multiples of the packing step and in the range of the stored type (without its missing value)", "tables of at most 8 rows (buffers and chunks as small)",
                       "without options of selection only, once a selection is made the chain stops (a table with only some fields is not of its class)"]
    ctx.design("StorageMC", spec="Spec", constants=dict(N=2, MaxSteps=ctx.pick(2, 3), E=4), invariants=["Kept", "SameSign", "Little"])
    sc = [dict(kind="chain", **s) for s in ctx.generate("StorageMC", init="GInit", nxt="Emit", constants=dict(N=2, MaxSteps=3, E=4))]
    sc = sc * ctx.pick(2, 12) + [dict(kind="chain")] * ctx.pick(250, 2000) + [dict(kind="foreign")] * ctx.pick(120, 2000) + [dict(kind="merge")] * ctx.pick(80, 1500)
    ctx.run("store_h.py", sc, "StorageCheck")


REGISTRY["O05"] = O05


def O06(ctx):
    ctx.rule = "a table of trajectories or of networks; non trivial: two rows in a group (missing rows for insertions)"
    ctx.assumptions = ["times are whole and grow along groups; longitudes are continuous when they are interpolated or smoothed; rows out of networks (group 0) are not judged by smoothing"]
    ctx.nontrivial = lambda c: len(c["out"]) > 1 if "out" in c else len(c["ox"]) > 1
    ctx.design("AlongMC", spec="Spec", constants=dict(N=ctx.pick(3, 4), T=ctx.pick(4, 5), DT2=2), invariants=["Right", "Complete", "Counted", "Same", "Apart"])
    if not ctx.quick:
        ctx.design("AlongMC", spec="Spec", constants=dict(N=3, T=6, DT2=3), invariants=["Counted", "Same", "Apart"])
        ctx.design("AlongMC", spec="Spec", constants=dict(N=3, T=6, DT2=4), invariants=["Right", "Complete", "Counted"])
    sc = [dict(kind=k) for k, n in (("missing", 120), ("virtual", 300), ("fill", 120), ("filter", 300), ("normal", 150), ("azimuth", 100)) for _ in range(ctx.pick(n, 15 * n))]
    ctx.run("along_h.py", sc, "AlongCheck")


REGISTRY["O06"] = O06


def O07(ctx):
    ctx.rule = "two datasets compared (links drawn, or contours made of cells), atlases of trajectories and networks, circles, shapes; non trivial: a link, two rows, a vertex or a cell"
    ctx.assumptions = ["scores are never equal to a threshold", "contours are made of unit cells; circles are of 1 to 300 km between 75 degrees of latitude"]
    ctx.nontrivial = lambda c: bool(c["l"]) if c["kind"] == "groups" else bool(c["a"] and c["b"]) if "a" in c else bool(c["d"]) if "d" in c else bool(c["p"])
    th = dict(INV=1, LOW=2, HIGH=3)
    inv = ["Partition", "SubPartition", "Symmetric", "Families", "Deaf", "Local"]
    ctx.design("CompareMC", spec="Spec", constants=dict(N=ctx.pick(2, 3), M=3, S=ctx.pick(2, 1), **th), invariants=inv)
    if not ctx.quick:
        ctx.design("CompareMC", spec="Spec", constants=dict(N=2, M=3, S=3, **th), invariants=inv)
        ctx.design("CompareMC", spec="Spec", constants=dict(N=4, M=4, S=0, INV=0, LOW=0, HIGH=1), invariants=inv)
    sc = [dict(kind=k) for k, n in (("groups", 250), ("compare", 150), ("app", 60), ("close", 200), ("circle", 150), ("shape", 80)) for _ in range(ctx.pick(n, 12 * n))]
    ctx.run("cmp_h.py", sc, "CompareCheck")


REGISTRY["O07"] = O07
