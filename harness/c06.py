"""C06: each cell flows to a steepest-descent queen neighbour."""
from .common import Z, sloping, HUB

META = dict(
    bounds="grids of 4 to 9 cells (square, rectangular with unequal rows and columns, irregular "
           "polygons); up to 6 symbolic elevations in [-1e4, 1e4], up to 2 cells that may be NaN, "
           "up to 2 user terminal cells; any burn threshold in [0, 1]; "
           "threshold 0 included; one 182x182 grid (33124 cells, fixed but for one symbolic elevation)",
    outside="larger grids, floating-point rounding of slopes (reals), several terminal cells per "
            "grid beyond two",
    assumptions=["elevations are real numbers (no rounding)",
                 "in the concrete replay slopes within 1e-9 of each other count as equal"])
NAN = float("nan")


def surface(api, spec, sym, base, nan=(), lo=-Z, hi=Z):
    info = api.info(spec)
    isn = [api.flag(f"nan{i}") if i in nan else False for i in range(info.n)]
    z = []
    for i in range(info.n):
        if isn[i]:
            z.append(NAN)
        elif i in sym:
            z.append(api.real(f"z{i}", lo, hi))
        else:
            z.append(float(base[i]))
    return z, isn


def check_steepest(api, info, z, isn, fixed, fd, burn):
    """fixed: cells that route to themselves"""
    for i in range(info.n):
        d = fd[i]
        if i in fixed or isn[i]:
            api.check("outlet routes to itself", api.eq(d, i), detail=i)
            continue
        nb = [j for j in info.queen[i] if not isn[j]]
        lower = api.Or(*[api.lt(z[j], z[i]) for j in nb])
        d = api.conc(d)
        if d in nb:
            # steepest: no neighbour has a larger drop per distance
            for j in nb:
                api.check("steepest", api.Implies(lower, api.le(
                    (z[i] - z[j]) / info.dist(i, j),
                    (z[i] - z[d]) / info.dist(i, d))), detail=(i, j))
            api.check("not over a rise past a flat", api.Implies(
                api.Or(*[api.Or(api.lt(z[j] - z[i], burn), api.le(z[j], z[i])) for j in nb]),
                api.le(z[d] - z[i], burn)), detail=i)
        else:
            api.check("stays in the grid", d == -2 or (d == i and not nb), detail=i)
            api.check("routed", api.Not(lower), detail=i)


def body(api, spec, sym, base, nan=(), terminal=(), outlet=None, burn="default", rc=False,
         unique=True):
    info = api.info(spec)
    g = api.grid(spec)
    n = info.n
    z, isn = surface(api, spec, sym, base, nan)
    known = [i for i in range(n) if not isn[i]]
    api.assume(len(known) > 0)
    if outlet is not None:
        for i in known:
            if i != outlet:
                api.assume(api.lt(z[outlet], z[i]))
        mins = [outlet]
    else:
        # fork over the set of minimum cells
        mins = [i for i in known if not any(
            api.decide(api.lt(z[j], z[i])) for j in known if j != i)]
        if unique:
            api.assume(len(mins) == 1)
    fd = api.call(api.dany.FlowDirections, g, api.array(z, "f", info.shape),
                  check_elevations=unique)
    kw = {}
    thr = 1e-6
    if burn == "sym":
        thr = kw["burn_threshold"] = api.real("burn", 0, 1)
    elif burn != "default":
        thr = kw["burn_threshold"] = burn
    if terminal:
        kw["terminal_cells"] = [list(info.lrc(t)) for t in terminal] if rc else list(terminal)
    out = api.call(fd.flow_directions, **kw)
    api.check("shape", tuple(out.shape) == tuple(info.shape))
    f = api.flat(out)
    check_steepest(api, info, z, isn, set(mins) | set(terminal), f, thr)
    api.observe("fdir", out)
    api.reach()


def configs(tier):
    out = []

    def add(name, **p):
        out.append(dict(name=name, body=body, params=p))
    # 8 by 6 cells: centre distances 6, 8 and 10, exact as rationals
    P23 = "rect(2x3;8,8,8;6,6)"
    P33 = "rect(3x3;8,8,8;6,6,6)"
    Q33 = "rect(3x3;6,10,6;6,6,12)"   # unequal columns and rows
    # multiples of 120: slopes between concrete cells are exact as well
    B6 = [0, 0, 840, 0, 0, -24000]
    B9 = [720, 600, 720, 600, 480, 600, 720, 600, -24000]
    add("s2x2", spec="s:2x2", sym=[0, 1, 2, 3], base=[0] * 4)
    add("s2x2-ties", spec="s:2x2", sym=[0, 1, 2, 3], base=[0] * 4, unique=False)
    add("p2x3", spec="s:" + P23, sym=[0, 1, 3, 4], base=B6, outlet=5)
    add("u2x3", spec="u:" + P23, sym=[0, 1, 3, 4], base=B6, outlet=5, burn=2.0 ** -20)
    add("p2x3-burn", spec="s:" + P23, sym=[0, 1, 4], base=B6, outlet=5, burn="sym")
    # no tolerance at all: every rise counts
    add("p2x3-exact", spec="s:" + P23, sym=[0, 1, 3, 4], base=B6, outlet=5, burn=0)
    add("strip4-exact", spec="v:strip4", sym=[0, 1, 2, 3], base=[0] * 4, burn=0.0)
    add("p2x3-nan", spec="s:" + P23, sym=[0, 1, 3, 4], base=B6, outlet=5, nan=[1, 2, 3, 4])
    add("v2x3-nan-min", spec="v:" + P23, sym=[0, 1, 5], base=[360, 120, 240, 240, 120, 0], nan=[0, 2, 3, 4])
    add("p2x3-term", spec="s:" + P23, sym=[0, 1, 3, 4], base=B6, outlet=5, terminal=[3])
    add("p2x3-term-rc", spec="s:" + P23, sym=[0, 1, 3, 4], base=B6, outlet=5, terminal=[2, 3],
        rc=True)
    add("p3x3-centre", spec="s:" + P33, sym=[1, 3, 4, 5], base=B9,
        outlet=8)
    add("q3x3-centre", spec="v:" + Q33, sym=[0, 2, 4, 7], base=B9,
        outlet=8)
    add("p3x3-flat", spec="s:" + P33, sym=[4, 5], base=[720, 600, 600, 720, 600, 600, 720, 720, -24000], outlet=8)
    add("strip4", spec="v:strip4", sym=[0, 1, 2, 3], base=[0] * 4, unique=False, nan=[1, 2])
    add("nested", spec="u:nested", sym=[3, 4, 6], base=[-2e4, 4, 2, 1, 3, 2, 0], outlet=0)
    add("tree", spec="v:tree", sym=[3, 4, 6], base=[3, 1, 4, 0, 0, -2e4, 2, 5], outlet=5)
    add("hex", spec="v:hex2x3", sym=[0, 1, 4], base=[3, 1, 4, 2, 0, -2e4], outlet=5)
    add("p2x3-m", spec="s:" + P23 + "@mlof", sym=[0, 1, 3, 4], base=B6, outlet=5)
    add("u2x3-mpc", spec="u:" + P23 + "@mpc", sym=[1, 2, 4, 5], base=B6[::-1], outlet=0)
    add("strip4-m", spec="v:strip4@mctl", sym=[0, 1, 2, 3], base=[0] * 4, unique=False, nan=[1])
    add("p2x3-r", spec="s:" + P23 + "@rf", sym=[0, 1, 4], base=B6, outlet=5)
    add("fan", spec="v:fan12", sym=[0, 3, 9], base=HUB, outlet=12, terminal=[6])
    add("fan-nan", spec="u:fan12", sym=[0, 9], base=HUB, outlet=12, nan=[0, 9, 6], burn=0.5)
    B144 = sloping(8, 18, 77)
    B144[40] = B144[41] = 120.0
    add("p8x18", spec="s:rect(8x18;" + ",".join(["8"] * 18) + ";" + ",".join(["6"] * 8) + ")",
        sym=[40, 59], base=B144, outlet=77, terminal=[130], rc=True)
    # more cells than a 16-bit index can number
    out.append(dict(name="s182x182", body=body, ticks=10 ** 7, params=dict(
        spec="s:182x182", sym=[33000], base=sloping(182, 182, 33100), outlet=33100)))
    if tier == "thorough":
        add("p2x3-5", spec="s:" + P23, sym=[0, 1, 2, 3, 4], base=B6, outlet=5)
        add("p2x3-6", spec="s:" + P23, sym=[0, 1, 2, 3, 4, 5], base=B6, unique=False)
        add("p2x3-nan-5", spec="s:" + P23, sym=[0, 1, 3, 4, 2], base=B6, outlet=5, nan=[1, 2, 4])
        add("p3x3-5", spec="s:" + P33, sym=[0, 1, 3, 4, 5], base=B9,
            outlet=8)
        add("q3x3-5", spec="v:" + Q33, sym=[0, 2, 4, 7, 5], base=B9,
            outlet=8)
        add("nested-5", spec="u:nested", sym=[2, 3, 4, 5, 6], base=[-2e4, 4, 2, 1, 3, 2, 0],
            outlet=0)
        add("tree-5", spec="v:tree", sym=[1, 3, 4, 6, 7], base=[3, 1, 4, 0, 0, -2e4, 2, 5],
            outlet=5)
        add("hex-4", spec="v:hex2x3", sym=[0, 1, 4, 3], base=[3, 1, 4, 2, 0, -2e4], outlet=5)
    return out
