"""C07: on a draining surface every flow path ends at an outlet."""
from .c06 import surface
from .common import path, sloping, HUB

META = dict(
    bounds="grids of 4 to 9 cells; up to 5 symbolic elevations in [-1e4, 1e4] such that every cell "
           "that is not an outlet has a strictly lower neighbour, up to 3 cells that may be NaN, up "
           "to 2 user terminal cells; loop bound 20000 iterations",
    outside="larger grids, surfaces with flats or pits away from the outlets, floating-point "
            "rounding of slopes (reals)",
    assumptions=["elevations are real numbers (no rounding)"])


def body(api, spec, sym, base, outlet, nan=(), terminal=(), burn="default", accumulate=True):
    info = api.info(spec)
    g = api.grid(spec)
    n = info.n
    z, isn = surface(api, spec, sym, base, nan)
    fixed = set(terminal) | {outlet} | set(i for i in range(n) if isn[i])
    for i in range(n):
        if isn[i]:
            continue
        if i != outlet:
            api.assume(api.lt(z[outlet], z[i]))
        if i not in fixed:
            api.assume(api.Or(*[api.lt(z[j], z[i]) for j in info.queen[i] if not isn[j]]))
    fd = api.call(api.dany.FlowDirections, g, api.array(z, "f", info.shape))
    kw = {}
    if burn != "default":
        kw["burn_threshold"] = burn
    if terminal:
        kw["terminal_cells"] = list(terminal)
    f = [api.conc(x) for x in api.flat(api.call(fd.flow_directions, **kw))]
    ok = True
    for i in range(n):
        res = 0 <= f[i] < n
        api.check("resolved", res, detail=i)
        ok = ok and res
    if ok:
        for i in range(n):
            api.check("path ends at an outlet", path(f, i)[-1] in fixed, detail=i)
    if accumulate:
        acc = api.call(fd.flow_accumulation, as_cells=True)
        api.observe("acc", acc)
        if ok:
            a = api.flat(acc)
            api.check("all cells arrive", api.eq(
                api.sum([a[i] for i in range(n) if f[i] == i]), n))
    api.observe("fdir", f)
    api.reach()


def configs(tier):
    out = []

    def add(name, **p):
        out.append(dict(name=name, body=body, params=p))
    P23 = "rect(2x3;8,8,8;6,6)"
    P33 = "rect(3x3;8,8,8;6,6,6)"
    # 8 by 6 cells and elevations that are multiples of 120: all slopes are exact
    B6 = [0, 0, 840, 0, 0, -24000]
    B9 = [1080, 600, 1080, 600, 480, 360, 720, 240, -24000]
    add("s2x2", spec="s:2x2", sym=[0, 1, 2, 3], base=[0] * 4, outlet=0)
    add("p2x3", spec="s:" + P23, sym=[0, 1, 2, 3, 4], base=B6, outlet=5)
    add("p2x3-nan", spec="s:" + P23, sym=[0, 1, 3, 4], base=B6, outlet=5, nan=[1, 2, 3])
    add("p2x3-term", spec="s:" + P23, sym=[0, 1, 3, 4], base=B6, outlet=5, terminal=[3])
    add("p3x3", spec="s:" + P33, sym=[1, 4, 5, 7], base=B9, outlet=8)
    add("p3x3-term", spec="s:" + P33, sym=[1, 3, 4], base=B9, outlet=8,
        terminal=[4, 0])
    add("p3x3-ties", spec="s:" + P33, sym=[0, 4], base=[1080, 600, 1080, 600, 840, 600, 1080, 600, 0], outlet=8)
    # the centre may drain equally steeply to several corners
    add("p3x3-corners", spec="s:" + P33, sym=[0, 2, 4, 6],
        base=[0, 1200, 0, 1200, 0, 1200, 0, 1200, -24000], outlet=8, terminal=[0, 2, 6])
    add("p3x3-mid", spec="s:" + P33, sym=[0, 2, 6, 8],
        base=[600, 360, 600, 360, 0, 360, 600, 360, 600], outlet=4)
    add("nested", spec="u:nested", sym=[3, 4, 6], base=[-2e4, 4, 5, 1, 3, 2, 6], outlet=0)
    add("nested-in", spec="v:nested", sym=[0, 1, 2, 3, 4], base=[9, 9, 9, 3, 3, 3, -2e4],
        outlet=6)
    add("tree", spec="v:tree", sym=[3, 4, 6], base=[3, 1, 4, 0, 0, -2e4, 2, 5], outlet=5)
    add("hex", spec="v:hex2x3", sym=[0, 1, 4], base=[3, 1, 4, 2, 0, -2e4], outlet=5)
    add("strip4", spec="v:strip4", sym=[0, 1, 2, 3], base=[0] * 4, outlet=0, terminal=[3],
        nan=[1, 2])
    add("p2x3-ml", spec="s:" + P23 + "@mlof", sym=[0, 1, 3, 4], base=B6, outlet=5)
    add("p3x3-mpc", spec="u:" + P33 + "@mpc", sym=[1, 4, 7], base=B9[::-1], outlet=0)
    add("tree-ctp", spec="v:tree@ctpl", sym=[1, 3, 4], base=[3, 1, 4, 0, 0, -2e4, 2, 5][::-1],
        outlet=2)
    add("fan", spec="v:fan12", sym=[0, 3], base=HUB[:1] + [720] * 11 + [-2e4], outlet=12)
    add("fan-out", spec="u:fan12", sym=[1, 5, 9], base=[-2e4] + HUB[1:12] + [1000.], outlet=0)
    add("p8x18", spec="s:rect(8x18;" + ",".join(["8"] * 18) + ";" + ",".join(["6"] * 8) + ")",
        sym=[40, 59], base=sloping(8, 18, 77), outlet=77)
    add("strip300", spec="u:strip300@p", sym=[7], base=[120.0 * i for i in range(300)], outlet=0)
    if tier == "thorough":
        add("p3x3-5", spec="s:" + P33, sym=[0, 1, 4, 5, 7], base=B9,
            outlet=8)
        add("p3x3-5-nan", spec="s:" + P33, sym=[1, 4, 5, 7], base=B9,
            outlet=8, nan=[2, 3, 5])
        add("p3x3-mid-5", spec="s:" + P33, sym=[0, 1, 2, 3, 8],
            base=[600, 360, 600, 360, 0, 360, 600, 360, 600], outlet=4)
        add("tree-5", spec="v:tree", sym=[1, 3, 4, 6, 7], base=[3, 1, 4, 0, 0, -2e4, 2, 5],
            outlet=5)
        add("hex-5", spec="v:hex2x3", sym=[0, 1, 2, 3, 4], base=[3, 1, 4, 2, 0, -2e4], outlet=5)
    return out
