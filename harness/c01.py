"""C01: sink filling never lowers, keeps the rim, keeps shape and input."""
from .common import elevations, rough, HUB

META = dict(
    bounds="grids of 6 to 12 cells; up to 7 symbolic elevations in [-1e4, 1e4] (quick), up to 9 "
           "(thorough), symbolic eps in [0, 1000] or the default; loop bound 20000 iterations; "
           "one 182x182 grid (33124 cells, fixed but for one symbolic elevation)",
    outside="larger grids, NaN elevations, floating-point rounding (reals), |z| > 1e4",
    assumptions=["elevations are real numbers (no rounding)"])


def body(api, spec, method, sym, base=None, eps="sym", kind="f", lo=-1e4):
    info = api.info(spec)
    g = api.grid(spec)
    if kind == "i":
        z = [api.int(f"z{i}", -3, 3) if sym == "all" or i in sym else int(base[i])
             for i in range(info.n)]
    else:
        z = elevations(api, info, sym, base, lo)
    dem = api.array(z, kind, info.shape)
    kw = {}
    if eps == "sym":
        kw["eps"] = api.real("eps", 0, 1000)
    elif eps != "default":
        kw["eps"] = eps
    out = api.call(api.dany.fill_sinks, g, dem, method=method, **kw)
    api.check("shape", tuple(out.shape) == tuple(info.shape))
    api.check("input shape", tuple(dem.shape) == tuple(info.shape))
    o = api.flat(out)
    d2 = api.flat(dem)
    for i in range(info.n):
        api.check("not lowered", api.le(z[i], o[i]), detail=i)
        if info.edge[i]:
            api.check("rim unchanged", api.eq(o[i], z[i]), detail=i)
        api.check("input unmodified", api.eq(d2[i], z[i]), detail=i)
    api.observe("filled", out)
    api.reach()


R33 = [4, 2, 6, 3, 0, 5, 7, 1, 8]
R34 = [5, 4, 6, 7, 3, 1, 0, 4, 6, 2, 5, 8]
NEST = [0, 4, 2, 1, 3, 2, 0]


def configs(tier):
    out = []

    def add(name, **p):
        out.append(dict(name=name, body=body, params=p))
    for m in ("priority", "complete"):
        add(f"nested-{m}", spec="v:nested", method=m, sym="all")
        add(f"u-nested-{m}-def", spec="u:nested", method=m, sym=[0, 3, 4, 5, 6], base=NEST,
            eps="default")
        add(f"s3x3-{m}", spec="s:3x3", method=m, sym=[0, 1, 4, 7], base=R33)
        add(f"s3x4-{m}", spec="s:3x4", method=m, sym=[1, 5, 6, 10], base=R34)
        add(f"v-tree-{m}", spec="v:tree", method=m, sym=[3, 4, 5, 0], base=[3, 1, 4, 0, 0, 0, 2, 5])
    add("nested-drain", spec="v:nested", method="drain", sym=[3, 4, 5, 6], base=NEST, eps=0.5)
    add("nested-drain-eps", spec="v:nested", method="drain", sym=[0, 3, 6], base=NEST)
    add("s3x4-drain", spec="s:3x4@f", method="drain", sym=[1, 5, 6], base=R34, eps=2.0 ** -19)
    add("s3x3-drain-eps0", spec="s:3x3", method="drain", sym=[1, 4, 7], base=R33, eps=0)
    add("s3x3-int", spec="s:3x3", method="priority", sym=[1, 4, 7], base=R33, kind="i",
        eps="default")
    add("tree-priority-ct", spec="v:tree@ctl", method="priority", sym=[3, 4, 5],
        base=[3, 1, 4, 0, 0, 0, 2, 5])
    add("nested-complete-pmo", spec="u:nested@pmo", method="complete", sym=[0, 2, 3, 5],
        base=NEST[::-1])
    add("nested-drain-p", spec="v:nested@p", method="drain", sym=[1, 2, 3], base=NEST[::-1],
        eps=0.5)
    add("s3x3-priority-mlr", spec="s:3x3@mlrf", method="Priority", sym=[1, 4, 7], base=R33,
        eps="default")
    for m in ("priority", "complete"):
        add(f"fan-{m}", spec="v:fan12", method=m, sym=[0, 3, 9], base=HUB)
        add(f"s8x20-{m}", spec="s:8x20", method=m, sym=[50, 51], base=rough(160), eps=0.5)
    add("fan-drain", spec="u:fan12", method="drain", sym=[0, 9], base=HUB, eps=0.5)
    add("s6x22-drain", spec="s:6x22", method="drain", sym=[50], base=rough(132), eps=0.5)
    # two rows of 600 cells: 1200 rim cells with many pits
    out.append(dict(name="s182x182-priority", body=body, ticks=10 ** 7, params=dict(
        spec="s:182x182", method="priority", sym=[32900], base=rough(33124), eps=0.5, lo=600)))
    add("s2x600-drain", spec="s:2x600", method="drain", sym=[1190, 30], base=rough(1200), eps=0.5)
    if tier == "thorough":
        for m in ("priority", "complete"):
            add(f"nested2-{m}", spec="v:nested2", method=m, sym=[0, 3, 4, 5, 6, 7, 8, 9],
                base=[0, 4, 2, 0, 0, 0, 0, 0, 0, 0])
            add(f"s3x3-{m}-6", spec="s:3x3", method=m, sym=[0, 1, 4, 5, 7, 3], base=R33)
            add(f"s4x4-{m}", spec="s:4x4", method=m, sym=[1, 5, 6, 9, 10],
                base=[5, 4, 6, 7, 3, 0, 0, 4, 6, 0, 0, 8, 9, 2, 4, 6])
        add("nested-drain-all", spec="v:nested", method="drain", sym="all")
    return out
