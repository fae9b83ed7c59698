"""C29: calls leave the arrays, tables and lists passed to them unaltered."""
from .common import elevations
from .c09 import point_of
from .c24 import norm, same

META = dict(
    bounds="grids of 4 to 9 cells (all grid classes): the elevations named in the configuration "
           "symbolic, stream and basin masks symbolic, thresholds symbolic; every public call that "
           "takes an array, a table, a graph or a list of points or cells",
    outside="larger grids; writing into arrays returned by the FlowDirections properties (they "
            "show the object's own state); the grid's top (the stream classes store the DEM "
            "there); in-place use of the internal subbasins keyword",
    assumptions=["elevations are real numbers (no rounding)"])


class Kept:
    """contents of the inputs before the calls"""

    def __init__(self, api):
        self.api = api
        self.items = []

    def __call__(self, name, x):
        self.items.append((name, x, norm(self.api, x), getattr(x, "shape", None)))
        return x

    def check(self, label):
        for name, x, before, shape in self.items:
            self.api.check(label, getattr(x, "shape", None) == shape, detail=name + " shape")
            same(self.api, label, norm(self.api, x), before, name)


def body_fill(api, spec, sym, base, nan=()):
    info = api.info(spec)
    z = elevations(api, info, sym, base)
    keep = Kept(api)
    dem = keep("dem", api.array(z, "f", info.shape))
    mask = keep("stream mask", api.array(
        [api.choice(f"m{i}", [0, 1]) if i in sym[:2] else int(i == 0) for i in range(info.n)],
        "i", info.shape))
    hole = keep("dem with NaN", api.array(
        [float("nan") if i in nan else v for i, v in enumerate(z)], "f", info.shape))
    g = api.grid(spec)
    what = api.pick("call", ["priority", "complete", "drain", "mask", "mask-complete", "mean",
                             "median", "min", "max"])
    if what in ("priority", "complete", "drain"):
        r = api.call(api.dany.fill_sinks, g, dem, method=what, eps=0.5)
    elif what == "mask":
        r = api.call(api.dany.fill_sinks, g, dem, stream_mask=mask)
    elif what == "mask-complete":
        r = api.call(api.dany.fill_sinks, g, dem, stream_mask=mask, method="complete")
    else:
        r = api.call(api.dany.fill_nan_values, g, hole, method=what)
    keep.check("inputs of " + what)
    # the result is an array of its own
    r[tuple([0] * len(info.shape))] = 12345.0
    keep.check("result of " + what + " is independent of its input")
    api.reach()


def body_flow(api, spec, sym, base, terminal):
    info = api.info(spec)
    n = info.n
    z = elevations(api, info, sym, base)
    lo = min(range(n), key=lambda i: base[i])
    for i in range(n):
        if i != lo and (i in sym or lo in sym):
            api.assume(api.lt(z[lo], z[i]))
    keep = Kept(api)
    dem = keep("dem", api.array(z, "f", info.shape))
    tc = keep("terminal cells", list(terminal))
    g = api.grid(spec)
    fd = api.call(api.dany.FlowDirections, g, dem)
    api.call(fd.flow_directions, terminal_cells=tc)
    d0 = norm(api, api.call(lambda: fd.flow_direction_array))
    e0 = norm(api, api.call(lambda: fd.dem))
    w0 = norm(api, api.call(lambda: fd.area))
    api.call(fd.flow_accumulation, as_cells=api.flag("cells"))
    a0 = norm(api, api.call(lambda: fd.flow_accumulation_array))
    p = keep("point", point_of(api, info, 1, "list"))
    pts = keep("points", [point_of(api, info, n - 1, "list"), point_of(api, info, 0, "list")])
    arr = keep("point array", api.np.array([list(q) for q in pts]))
    what = api.pick("call", ["watershed", "subbasins", "subbasins array", "attributes", "control"])
    if what == "watershed":
        api.call(fd.get_watershed_boundary, p)
    elif what == "subbasins":
        api.call(fd.get_subbasins, pts)
    elif what == "subbasins array":
        api.call(fd.get_subbasins, arr)
    elif what == "attributes":
        for nm in ("slope", "aspect", "hru_len", "vectors"):
            api.call(lambda: getattr(fd, nm))
    else:
        o = api.call(api.dany.PrmsStreams, g, fd)
        api.call(o.threshold_from_control_points, pts, threshold=3.5)
        api.call(o.threshold_from_control_points, arr)
    keep.check("inputs of " + what)
    same(api, "flow directions kept by " + what, norm(api, api.call(lambda: fd.flow_direction_array)), d0)
    same(api, "accumulation kept by " + what, norm(api, api.call(lambda: fd.flow_accumulation_array)), a0)
    same(api, "elevations kept by " + what, norm(api, api.call(lambda: fd.dem)), e0)
    same(api, "areas kept by " + what, norm(api, api.call(lambda: fd.area)), w0)
    api.reach()


def body_streams(api, spec, cls, base, smask, bmask, sym=()):
    info = api.info(spec)
    n = info.n
    z = elevations(api, info, list(sym), base)
    lo = min(range(n), key=lambda i: base[i])
    for i in range(n):
        if i != lo and (i in sym or lo in sym):
            api.assume(api.lt(z[lo], z[i]))
    g = api.grid(spec)
    fd = api.call(api.dany.FlowDirections, g, api.array(z, "f", info.shape))
    api.call(fd.flow_directions)
    api.call(fd.flow_accumulation)
    d0 = norm(api, api.call(lambda: fd.flow_direction_array))
    a0 = norm(api, api.call(lambda: fd.flow_accumulation_array))
    e0 = norm(api, api.call(lambda: fd.dem))
    keep = Kept(api)
    kind = api.pick("kind", ["i", "b", "2", "n"])

    def mask(name, m):
        v = [api.flag(f"{name}{i}") if m[i] == "?" else m[i] == "1" for i in range(n)]
        if kind == "b":
            return api.array(v, "b", info.shape)
        if kind == "n" and name == "s":
            return api.array([1.0 if x else float("nan") for x in v], "f", info.shape)
        return api.array([int(x) * (2 if kind == "2" else 1) for x in v], "i", info.shape)
    sa = keep("stream array", mask("s", smask))
    ba = keep("basin boundary", mask("b", bmask))
    thr = keep("threshold", api.array([api.real(f"t{i}", 0, 500) if i < 2 else 60.0
                                       if i != 2 or kind != "n" else float("nan")
                                       for i in range(n)], "f", info.shape))
    o = api.call(getattr(api.dany, cls), g, fd)
    calls = {
        "set": lambda: api.call(o.set_stream_array, sa),
        "delineate": lambda: api.call(o.delineate_streams, thr, ba),
        "connectivity": lambda: api.call(o.get_stream_connectivity, sa),
        "vectors": lambda: api.call(o.create_stream_vectors, sa),
        "vectors cells": lambda: api.call(o.create_stream_vectors, sa, group_segments=False),
    }
    if cls == "Sfr6":
        def condata():
            gr = keep("graph", api.call(o.get_stream_connectivity, sa))
            api.call(o.connectiondata, gr)
        calls["packagedata"] = lambda: (api.call(o.packagedata, sa),
                                        api.call(o.packagedata, sa, True))
        calls["connectiondata"] = condata
    elif cls == "Sfr2005":
        def irun():
            gr = keep("graph", api.call(o.get_stream_connectivity, sa))
            api.call(o.irunbnd, sa, gr)
        calls["irunbnd"] = lambda: api.call(o.irunbnd, sa)
        calls["irunbnd graph"] = irun
        if spec[0] == "s":
            def builder():
                rd = keep("reach data", api.call(o.reach_data, sa))
                sd = keep("segment data", api.call(o.segment_data))
                ib = keep("irunbnd", api.call(o.irunbnd))
                api.call(o.get_pygsflow_builder_object, rd, sd, ib, roughch=0.5, min_slope=0.1)
            calls["tables"] = lambda: (api.call(o.reach_data, sa), api.call(o.segment_data, sa))
            calls["builder"] = builder
    else:
        calls["cascades"] = lambda: api.call(o.get_cascades, stream_array=sa, basin_boundary=ba)
        calls["cascades m2m"] = lambda: api.call(o.get_cascades, stream_array=sa,
                                                 basin_boundary=ba, many2many=True)
        calls["builder"] = lambda: api.call(o.get_pygsflow_builder_object, sa, ba)
    what = api.pick("call", list(calls))
    calls[what]()
    keep.check("inputs of " + what)
    same(api, "flow directions kept by " + what, norm(api, api.call(lambda: fd.flow_direction_array)), d0)
    same(api, "accumulation kept by " + what, norm(api, api.call(lambda: fd.flow_accumulation_array)), a0)
    same(api, "elevations kept by " + what, norm(api, api.call(lambda: fd.dem)), e0)
    api.reach()


P23 = "rect(2x3;8,8,8;6,6)"
B6 = [960., 480, 720, 840, 240, -240]
R33 = [9., 7, 8, 6, 0, 3, 5, 2, 1]


def configs(tier):
    out = []

    def add(name, b, **p):
        out.append(dict(name=name, body=b, params=p))
    add("fill-s3x3", body_fill, spec="s:3x3", sym=[4, 1], base=R33, nan=[3, 4, 8])
    add("fill-v", body_fill, spec="v:nested@l", sym=[3, 6], base=[0, 4, 2, 1, 3, 2, 0], nan=[0, 6])
    add("fill-u", body_fill, spec="u:hex2x3", sym=[1, 4], base=B6, nan=[2, 3])
    add("flow-s", body_flow, spec="s:" + P23, sym=[1], base=B6, terminal=[0])
    add("flow-v", body_flow, spec="v:" + P23 + "@l", sym=[3], base=B6, terminal=[2, 0])
    add("flow-u", body_flow, spec="u:" + P23, sym=[0], base=B6, terminal=[3])
    add("flow-rc", body_flow, spec="s:" + P23, sym=[1], base=B6, terminal=[[0, 2], [1, 0]])
    add("sfr6-v", body_streams, spec="v:" + P23, cls="Sfr6", base=B6, smask="?1?0?1", bmask="1??111")
    add("sfr6-s", body_streams, spec="s:" + P23, cls="Sfr6", base=B6, smask="01??11", bmask="?11?11",
        sym=[0])
    add("sfr2005-s", body_streams, spec="s:" + P23, cls="Sfr2005", base=B6, smask="??1?11",
        bmask="1??111")
    add("sfr2005-u", body_streams, spec="u:" + P23, cls="Sfr2005", base=B6, smask="??1?1?",
        bmask="1??111")
    add("prms-s", body_streams, spec="s:" + P23, cls="PrmsStreams", base=B6, smask="?01?1?",
        bmask="?1?111")
    add("prms-u", body_streams, spec="u:" + P23, cls="PrmsStreams", base=B6, smask="?0?01?",
        bmask="?1??11")
    LOW = [v - 13000 for v in B6]
    add("fill-low", body_fill, spec="u:2x3", sym=[5], base=LOW, nan=[1, 3])
    add("flow-low-s", body_flow, spec="s:" + P23, sym=[5], base=B6, terminal=[0])
    add("flow-low-v", body_flow, spec="v:" + P23, sym=[], base=LOW, terminal=[3])
    add("sfr6-low", body_streams, spec="u:" + P23, cls="Sfr6", base=B6, smask="?1?0?1",
        bmask="1??111", sym=[5])
    add("prms-low", body_streams, spec="s:" + P23, cls="PrmsStreams", base=LOW, smask="?1?0?1",
        bmask="1?1111")
    if tier == "thorough":
        add("fill-s3x3-4", body_fill, spec="s:3x3", sym=[4, 1, 5, 7], base=R33, nan=[3, 4, 8])
        add("flow-s3x3", body_flow, spec="s:rect(3x3;8,8,8;6,6,6)", sym=[4, 1], base=[
            1080, 600, 1080, 600, 480, 360, 720, 240, -24000], terminal=[2])
        add("sfr2005-s-all", body_streams, spec="s:" + P23, cls="Sfr2005", base=B6, smask="??????",
            bmask="1?????")
        add("sfr6-all", body_streams, spec="u:" + P23, cls="Sfr6", base=B6, smask="??????",
            bmask="1??11?")
        add("prms-all", body_streams, spec="v:" + P23, cls="PrmsStreams", base=B6, smask="??????",
            bmask="1??1??")
    return out
