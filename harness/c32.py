"""C32: results depend on relative elevations and positions only."""
from .common import elevations
from .c09 import point_of
from .c24 import norm, same
from .c27 import flatn

META = dict(
    bounds="grids of 4 to 9 cells (all grid classes): the elevations named in the configuration "
           "symbolic in [-1e4, 1e4], every vertical shift in [-1e5, 1e5], one horizontal shift of "
           "the grid (500000, 4000000); all fills, flow directions, accumulation, watersheds, "
           "subbasins, slopes, aspects, streams, package data, cascades",
    outside="larger grids and shifts, other horizontal shifts, rotation, floating-point rounding "
            "of the elevations (reals); areas far from the origin are compared within 1e-4 "
            "(floating-point cancellation)",
    assumptions=["elevations are real numbers (no rounding)"])


def shift(api):
    return api.real("shift", -1e5, 1e5)


def moved(spec):
    return spec + ("o" if "@" in spec else "@o")


def body_fill(api, spec, sym, base, nan=(), methods=("priority", "complete", "drain")):
    info = api.info(spec)
    z = elevations(api, info, sym, base)
    z = [float("nan") if i in nan else v for i, v in enumerate(z)]
    c = shift(api)
    what = api.pick("method", list(methods))
    res = []
    for s, t in ((spec, None), (spec, c), (moved(spec), None)):
        v = [x if t is None or x != x else x + t for x in z] if not nan else \
            [x if t is None or i in nan else x + t for i, x in enumerate(z)]
        dem = api.array(v, "f", info.shape)
        g = api.grid(s)
        if what in ("mean", "median", "min", "max"):
            r = api.call(api.dany.fill_nan_values, g, dem, method=what)
        elif what == "mask":
            m = api.array([int(i in (0, 4)) for i in range(info.n)], "i", info.shape)
            r = api.call(api.dany.fill_sinks, g, dem, stream_mask=m, eps=0.5)
        elif what == "complete":
            r = api.call(api.dany.fill_sinks, g, dem, method=what)
        else:
            r = api.call(api.dany.fill_sinks, g, dem, method=what, eps=0.5)
        res.append(api.flat(r))
    for i in range(info.n):
        api.check("filled surface moves with the DEM", api.eq(res[1][i], res[0][i] + c), detail=i)
        api.check("same filled surface on a moved grid", api.eq(res[2][i], res[0][i]), detail=i)
    api.observe("filled", res[0])
    api.reach()


def tolerant(api, label, a, b, tol):
    api.check(label + " structure", len(a) == len(b))
    for i, (x, y) in enumerate(zip(a, b)):
        t = tol * (1 + api.abs(x))
        api.check(label, api.And(api.le(x - y, t), api.le(y - x, t)), detail=i)


def body_flow(api, spec, sym, base, terminal=None, nan=(), burn=1e-6):
    info = api.info(spec)
    n = info.n
    z = elevations(api, info, sym, base)
    z = [float("nan") if i in nan else v for i, v in enumerate(z)]
    lo = min(range(n), key=lambda i: base[i] if i not in nan else 1e9)
    for i in sym:
        if i not in nan and i != lo:
            api.assume(api.lt(z[lo], z[i]))
    c = shift(api)
    res = []
    for s, t in ((spec, None), (spec, c), (moved(spec), None)):
        inf = api.info(s)
        v = [x if t is None or i in nan else x + t for i, x in enumerate(z)]
        g = api.grid(s)
        fd = api.call(api.dany.FlowDirections, g, api.array(v, "f", info.shape))
        kw = dict(burn_threshold=burn)
        if terminal:
            kw["terminal_cells"] = list(terminal)
        r = dict(exact=[], near=[])

        def add(f, *a, kind="exact", **k):
            r[kind].append(flatn(api, api.call(f, *a, **k)))
        add(fd.flow_directions, **kw)
        add(fd.flow_accumulation, as_cells=True)
        add(fd.flow_accumulation, kind="near")
        for i in range(n):
            add(fd.get_watershed_boundary, point_of(api, inf, i, "tuple"))
        add(fd.get_subbasins, [point_of(api, inf, i, "tuple") for i in (0, n - 1, n // 2)])
        if not nan:
            add(lambda: fd.slope)
            add(lambda: fd.aspect, kind="near")
            add(lambda: fd.hru_len, kind="near")
        res.append(r)
    for k, nm in ((1, "a shifted DEM"), (2, "a moved grid")):
        same(api, "directions, basins and slopes on " + nm, res[k]["exact"], res[0]["exact"])
        for a, b in zip(res[k]["near"], res[0]["near"]):
            tolerant(api, "areas, aspects and lengths on " + nm, a, b, 1e-4)
    api.observe("directions", res[0]["exact"][0])
    api.reach()


def body_streams(api, spec, sym, base, smask, bmask):
    info = api.info(spec)
    n = info.n
    z = elevations(api, info, sym, base)
    lo = min(range(n), key=lambda i: base[i])
    for i in range(n):
        if i != lo and sym:
            api.assume(api.Or(*[api.le(z[j] + 0.01, z[i]) for j in info.queen[i]]))
            api.assume(api.lt(z[lo], z[i]))
    c = shift(api)
    m = [api.flag(f"s{i}") if smask[i] == "?" else smask[i] == "1" for i in range(n)]
    b = [api.flag(f"b{i}") if bmask[i] == "?" else bmask[i] == "1" for i in range(n)]
    res = []
    for s, t in ((spec, None), (spec, c), (moved(spec), None)):
        v = [x if t is None else x + t for x in z]
        g = api.grid(s)
        fd = api.call(api.dany.FlowDirections, g, api.array(v, "f", info.shape))
        api.call(fd.flow_directions)
        api.call(fd.flow_accumulation, as_cells=True)
        sa = api.array([int(x) for x in m], "i", info.shape)
        ba = api.array([int(x) for x in b], "i", info.shape)
        r = dict(exact=[], top=[])

        def add(f, *a, **k):
            r["exact"].append(flatn(api, api.call(f, *a, **k)))
        o = api.call(api.dany.Sfr6, g, fd)
        add(o.delineate_streams, 2, ba)
        add(o.threshold_from_control_points,
            [point_of(api, api.info(s), n - 1, "list")], threshold=7)
        add(o.get_stream_connectivity, sa)
        add(o.connectiondata)
        p = api.call(o.packagedata)
        for f in ("ifno", "rlen", "rgrd", "ncon"):
            r["exact"].append([p[f][k] for k in range(len(p))])
        top = [p["rtp"][k] for k in range(len(p))]
        r["top"] += [x if t is None else x - t for x in top]
        o = api.call(api.dany.Sfr2005, g, fd)
        add(o.get_stream_connectivity, sa)
        add(o.irunbnd)
        o = api.call(api.dany.PrmsStreams, g, fd)
        for mm in (False, True):
            add(o.get_cascades, stream_array=sa, basin_boundary=ba, many2many=mm)
        res.append(r)
    for k, nm in ((1, "a shifted DEM"), (2, "a moved grid")):
        same(api, "networks and cascades on " + nm, res[k]["exact"], res[0]["exact"])
        same(api, "reach tops on " + nm, res[k]["top"], res[0]["top"])
    api.observe("network", norm(api, res[0]["exact"][2]))
    api.reach()


P23 = "rect(2x3;8,8,8;6,6)"
P33 = "rect(3x3;8,8,8;6,6,6)"
B23 = [960., 840, 720, 600, 480, 360]
R33 = [4, 2, 6, 3, 0, 5, 7, 1, 8]
NEST = [0, 4, 2, 1, 3, 2, 0]


def configs(tier):
    out = []

    def add(name, b, **p):
        out.append(dict(name=name, body=b, params=p))
    NAN = ("mean", "median", "min", "max")
    add("fill-s3x3", body_fill, spec="s:3x3", sym=[1, 4, 7], base=R33)
    add("fill-nested", body_fill, spec="v:nested@l", sym=[0, 3, 6], base=NEST)
    add("fill-u", body_fill, spec="u:nested@p", sym=[0, 3, 4], base=NEST[::-1])
    add("mask-s3x3", body_fill, spec="s:3x3", sym=[1, 5], base=R33, methods=("mask",))
    add("nan-s2x3", body_fill, spec="s:2x3", sym=[0, 3, 5], base=R33, nan=[1, 4], methods=NAN)
    add("nan-u", body_fill, spec="u:strip5", sym=[0, 3], base=R33, nan=[1, 2, 4], methods=NAN)
    add("flow-s2x3", body_flow, spec="s:" + P23, sym=[0, 1, 4], base=[0, 0, 840, 0, 0, -24000])
    add("flow-u2x3", body_flow, spec="u:" + P23, sym=[0, 3], base=[0, 120, 840, 0, 600, -24000],
        burn=50.0)
    add("flow-v3x3", body_flow, spec="v:" + P33, sym=[4, 5], terminal=[3],
        base=[1080, 600, 1080, 600, 480, 360, 720, 240, -24000])
    add("flow-nan", body_flow, spec="s:" + P33 + "@lf", sym=[4, 1], nan=[3, 0],
        base=[1080, 600, 1080, 600, 480, 360, 720, 240, -24000])
    add("streams-s", body_streams, spec="s:" + P23, sym=[], base=B23, smask="0?1???", bmask="1?1?11")
    add("streams-v", body_streams, spec="v:" + P23, sym=[], base=B23, smask="??1?11", bmask="1?1111")
    add("streams-u-z", body_streams, spec="u:" + P23, sym=[1], base=B23, smask="0?1011",
        bmask="111?11")
    if tier == "thorough":
        add("fill-nested-5", body_fill, spec="v:nested", sym=[0, 3, 4, 5, 6], base=NEST)
        add("flow-s3x3-4", body_flow, spec="s:" + P33, sym=[1, 4, 5, 7],
            base=[1080, 600, 1080, 600, 480, 360, 720, 240, -24000])
        add("streams-s3x3", body_streams, spec="s:" + P33, sym=[4], smask="?0?0?1?11",
            base=[1080, 600, 1080, 600, 480, 360, 720, 240, -24000], bmask="1?1111?11")
    return out
