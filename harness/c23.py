"""C23: accumulation from the DEM drains the whole basin to its outlets."""
from .common import elevations, sloping
from .c09 import point_of

META = dict(
    bounds="grids of 4 to 9 cells of all grid classes: the elevations named in the configuration "
           "symbolic in [-1e4, 1e4] (2 to 5 of them, the others fixed); the lowest cell is the only "
           "outlet; rim cells other than it have a lower rim neighbour, or the fill is seeded at "
           "the outlet by a stream mask (then every rim elevation is free); 'priority', 'complete' "
           "(mask) and 'drain' fills with a fixed or symbolic positive epsilon",
    outside="larger grids, NaN elevations, rims with further local minima filled without a stream "
            "mask (the fill leaves rim elevations as they are), floating-point rounding (reals)",
    assumptions=["elevations are real numbers (no rounding)"])


def body(api, spec, sym, base, outlet, method="priority", eps=0.5, mask=False, cells=False,
         scale=1.0, terminal=None, kind="f", lo=0, hi=0):
    info = api.info(spec)
    n = info.n
    g = api.grid(spec)
    if kind == "i":
        z = [api.int(f"z{i}", lo, hi) if i in sym else int(base[i]) for i in range(n)]
    else:
        z = elevations(api, info, sym, base)
    z = [v if i in sym or scale == 1.0 else v * scale for i, v in enumerate(z)]
    for i in range(n):
        if i != outlet:
            api.assume(api.lt(z[outlet], z[i]))
            if info.edge[i] and not mask:
                api.assume(api.Or(*[api.lt(z[j], z[i]) for j in info.queen[i] if info.edge[j]]))
    e = api.real("eps", 2.0 ** -16, 1) if eps == "sym" else eps
    kw = dict(method=method, eps=e)
    if mask:
        kw["stream_mask"] = api.array([int(i == outlet) for i in range(n)], "i", info.shape)
    filled = api.call(api.dany.fill_sinks, g, api.array(z, kind, info.shape), **kw)
    fd = api.call(api.dany.FlowDirections, g, filled)
    kw = {}
    if terminal is not None:
        kw["terminal_cells"] = list(terminal)
    outs = set(terminal or ()) | {outlet}
    api.call(fd.flow_directions, **kw)
    acc = api.flat(api.call(fd.flow_accumulation, as_cells=cells))
    f = [api.conc(x) for x in api.flat(api.call(lambda: fd.flow_direction_array))]
    area = [1.0] * n if cells else info.area
    tot = sum(area)
    self_ = [i for i in range(n) if f[i] == i]
    api.check("every path can end only at an outlet", set(self_) <= outs)
    api.check("all area arrives at the outlets", api.And(
        api.le(api.sum([acc[i] for i in self_]) - tot, 1e-6),
        api.le(tot - api.sum([acc[i] for i in self_]), 1e-6)))
    for i in sorted(outs):
        w = [api.conc(x) for x in api.flat(
            api.call(fd.get_watershed_boundary, point_of(api, info, i, "tuple")))]
        a = sum(area[k] for k in range(n) if w[k] != 0)
        api.check("watershed of an outlet has the accumulated area", api.And(
            api.le(a - acc[i], 1e-6), api.le(acc[i] - a, 1e-6)), detail=i)
    api.observe("fdir", f)
    api.observe("acc", acc)
    api.reach()


def configs(tier):
    out = []

    def add(name, **p):
        out.append(dict(name=name, body=body, params=p))
    P = "rect(3x3;8,8,8;6,6,6)"
    # rim sloping both ways to cell 7 (south), pits possible in the middle
    R = [1440, 1560, 1440, 960, 0, 960, 480, -2400, 480]
    add("p3x3-priority", spec="s:" + P, sym=[1, 4, 5, 6], base=R, outlet=7)
    add("p3x3-drain", spec="v:" + P, sym=[4, 3], base=R, outlet=7, method="drain")
    add("p3x3-cells", spec="u:" + P, sym=[4, 0], base=R, outlet=7, cells=True, eps="sym")
    add("p3x3-term", spec="s:" + P, sym=[4, 0], base=R, outlet=7, terminal=[3, 5])
    add("p2x3-mask", spec="s:rect(2x3;8,8,8;6,6)", sym=[0, 1, 3], base=[0, 0, 600, 0, 360, -24000],
        outlet=5, mask=True, eps=120.0)
    add("strip4-mask", spec="u:strip4", sym=[0, 1, 3], base=[0, 0, -20000., 0], outlet=2,
        mask=True, method="complete", eps=10.0)
    # two interior cells
    R34 = [1440, 1560, 1680, 1800, 960, 0, 0, 1560, 480, -2400, 480, 960]
    add("p3x4-priority", spec="s:rect(3x4;8,8,8,8;6,6,6)", sym=[5, 6], base=R34, outlet=9)
    add("p2x3-mask-4", spec="s:rect(2x3;8,8,8;6,6)", sym=[0, 1, 3, 4],
        base=[0, 0, 720, 0, 0, -24000], outlet=5, mask=True, eps=120.0)
    add("nested", spec="u:nested", sym=[3, 6], base=[30., -100, 20, 5, 12, 15, 3], outlet=1)
    # integer elevations: the fill works in real numbers all the same
    add("p3x3-int", spec="s:" + P, sym=[4], base=R, outlet=7, kind="i", lo=470, hi=490)
    add("p3x4-int", spec="u:rect(3x4;8,8,8,8;6,6,6)", sym=[5, 6], base=R34, outlet=9, kind="i", lo=476,
        hi=484, method="drain")
    add("fan", spec="v:fan12", sym=[0, 3], base=[600., 1, 2, 9, 4, 5, 6, 7, 8, 9, 10, 11, -2e4],
        outlet=12)
    S = sloping(8, 18, 77)
    for k in (40, 41, 42, 60, 93):
        S[k] = -1200.0
    add("p8x18", spec="s:rect(8x18;" + ",".join(["8"] * 18) + ";" + ",".join(["6"] * 8) + ")",
        sym=[41], base=S, outlet=77, cells=True, mask=True)
    if tier == "thorough":
        add("p3x3-priority-5", spec="s:" + P, sym=[1, 3, 4, 5, 6], base=R, outlet=7)
        add("p3x3-drain-sym", spec="v:" + P, sym=[4, 3, 5], base=R, outlet=7, method="drain",
            eps="sym")
        add("p3x4-drain", spec="s:rect(3x4;8,8,8,8;6,6,6)", sym=[5, 6, 1], base=R34, outlet=9,
            method="drain")
        add("p3x4-3", spec="u:rect(3x4;8,8,8,8;6,6,6)", sym=[5, 6, 2], base=R34, outlet=9, cells=True)
        add("nested-3", spec="v:nested", sym=[3, 4, 6], base=[30., -100, 20, 5, 12, 15, 3], outlet=1)
        add("p2x3-mask-all", spec="s:rect(2x3;8,8,8;6,6)", sym=[0, 1, 2, 3, 4],
            base=[0, 0, 0, 0, 0, -24000], outlet=5, mask=True, eps=120.0)
        add("p3x3-mask", spec="s:" + P, sym=[0, 1, 4, 5], base=R, outlet=7, mask=True, eps=120.0)
    return out
