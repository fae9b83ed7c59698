"""C27: results are independent of the grid representation."""
from .common import elevations
from .c09 import point_of
from .c24 import norm, same

META = dict(
    bounds="rectangular grids of 4 to 9 cells described as a structured, a vertex and an "
           "unstructured grid: the elevations named in the configuration symbolic in [-1e4, 1e4], "
           "the stream and basin masks named symbolic; fills (priority, complete, drain, stream "
           "mask, NaN), flow directions, accumulation, watersheds, subbasins, cell attributes, MF6 "
           "and segment networks, package data, cascades and control-point thresholds",
    outside="larger grids, layered unstructured grids, grids whose nodes are numbered differently, "
            "floating-point rounding (reals)",
    assumptions=["elevations are real numbers (no rounding)"])
KINDS = ("s", "v", "u")
LAYERED = ("s", "s@lf", "v@l")
CLOSED = ("v", "v@ct", "u@c")     # same neighbours, found in another order: no ties
NAME = {"v": "vertex", "u": "unstructured", "s@lf": "layered structured", "v@l": "layered vertex",
        "v@ct": "reversed closed vertex", "u@c": "closed unstructured"}
LIKE = {"flow directions", "accumulation", "watershed", "subbasins", "slope", "aspect",
        "delineated", "reach numbers", "control points", "segment numbers", "runoff", "nan fill",
        "filled"}


def spec_of(k, body):
    return k[0] + ":" + body + k[1:]


def shapes(api, info, nm, x):
    """maps have the shape of a grid layer"""
    if nm in LIKE or nm.startswith("nan fill"):
        api.check("shape of a layer", tuple(x.shape) == tuple(info.shape), detail=nm)
    return flatn(api, x)


def links(api, t):
    """cascade table with the rows in order of the two cells"""
    up, down = [[api.conc(v) for v in api.flat(x)] for x in t[:2]]
    rows = sorted(range(len(up)), key=lambda k: (up[k], down[k]))
    return [[api.flat(x)[k] for k in rows] for x in t]


def flatn(api, x):
    """nested lists without array shapes"""
    if hasattr(x, "dtype") and getattr(x.dtype, "names", None):
        return [[nm, [flatn(api, x[nm][k]) for k in range(len(x))]]
                for nm in x.dtype.names if nm not in ("cellid", "k", "i", "j", "node")]
    if hasattr(x, "shape") and x.shape != ():
        return list(api.flat(x))
    if isinstance(x, (list, tuple)):
        return [flatn(api, v) for v in x]
    if isinstance(x, dict):
        return [[flatn(api, k), flatn(api, v)] for k, v in sorted(
            x.items(), key=lambda kv: api.conc(kv[0]))]
    return x


def compare(api, res):
    for k in list(res)[1:]:
        for (nm, a), (_, b) in zip(res[list(res)[0]], res[k]):
            same(api, f"{nm}: same on {NAME.get(k, NAME.get(k[0]))} grids", a, b)


def body_fill(api, body, sym, base, what, eps=0.5, nan=(), kinds=KINDS):
    res = {}
    for k in kinds:
        info = api.info(spec_of(k, body))
        if k == kinds[0]:
            z = elevations(api, info, sym, base)
            z = [float("nan") if i in nan else v for i, v in enumerate(z)]
            shape = info.shape
        g = api.grid(spec_of(k, body))
        dem = api.array(z, "f", info.shape)
        if what == "nan":
            r = [["nan fill " + m, shapes(api, info, "nan fill", api.call(
                api.dany.fill_nan_values, g, dem, method=m))]
                 for m in ("mean", "median", "min", "max")]
        else:
            kw = dict(method="priority" if what == "mask" else what)
            if what != "complete":
                kw["eps"] = eps
            if what == "mask":
                kw["stream_mask"] = api.array([int(i in (1, 5)) for i in range(info.n)], "i",
                                              info.shape)
            out = api.call(api.dany.fill_sinks, g, dem, **kw)
            r = [["filled", shapes(api, info, "filled", out)]]
        res[k] = r
    compare(api, res)
    api.observe("res", res[kinds[0]])
    api.reach()


def body_flow(api, body, sym, base, terminal=None, burn=1e-6, nan=(), kinds=KINDS):
    res = {}
    for k in kinds:
        spec = spec_of(k, body)
        info = api.info(spec)
        n = info.n
        if k == kinds[0]:
            z = elevations(api, info, sym, base)
            z = [float("nan") if i in nan else v for i, v in enumerate(z)]
            lo = min(range(n), key=lambda i: base[i] if i not in nan else 1e9)
            for i in sym:
                if i not in nan and i != lo:
                    api.assume(api.lt(z[lo], z[i]))
        g = api.grid(spec)
        fd = api.call(api.dany.FlowDirections, g, api.array(z, "f", info.shape))
        kw = dict(burn_threshold=burn)
        if terminal:
            kw["terminal_cells"] = list(terminal)
        r = [["flow directions", shapes(api, info, "flow directions", api.call(fd.flow_directions, **kw))],
             ["accumulation", shapes(api, info, "accumulation", api.call(fd.flow_accumulation))],
             ["cells", shapes(api, info, "accumulation", api.call(fd.flow_accumulation, as_cells=True))],
             ["area", flatn(api, api.call(lambda: fd.area))]]
        for i in range(n):
            r.append(["watershed", shapes(api, info, "watershed", api.call(
                fd.get_watershed_boundary, point_of(api, info, i, "tuple")))])
        r.append(["subbasins", shapes(api, info, "subbasins", api.call(
            fd.get_subbasins, [point_of(api, info, i, "tuple") for i in (0, n - 1, n // 2)]))])
        if not nan:
            for nm in ("slope", "aspect", "hru_len", "vectors"):
                r.append([nm, shapes(api, info, nm, api.call(lambda: getattr(fd, nm)))])
        res[k] = r
    compare(api, res)
    api.observe("res", res[kinds[0]][:4])
    api.reach()


def body_streams(api, body, sym, base, smask, bmask, kinds=KINDS):
    res = {}
    for k in kinds:
        spec = spec_of(k, body)
        info = api.info(spec)
        n = info.n
        if k == kinds[0]:
            z = elevations(api, info, sym, base)
            lo = min(range(n), key=lambda i: base[i])
            for i in range(n):
                if i != lo and sym:
                    api.assume(api.Or(*[api.le(z[j] + 0.01, z[i]) for j in info.queen[i]]))
                    api.assume(api.lt(z[lo], z[i]))
            m = [api.flag(f"s{i}") if smask[i] == "?" else smask[i] == "1" for i in range(n)]
            b = [api.flag(f"b{i}") if bmask[i] == "?" else bmask[i] == "1" for i in range(n)]
        g = api.grid(spec)
        fd = api.call(api.dany.FlowDirections, g, api.array(z, "f", info.shape))
        api.call(fd.flow_directions)
        api.call(fd.flow_accumulation)
        sa = api.array([int(x) for x in m], "i", info.shape)
        ba = api.array([int(x) for x in b], "i", info.shape)
        r = []

        def add(nm, f, *a, **kw):
            v = api.call(f, *a, **kw)
            r.append([nm, links(api, v) if nm == "cascades" else shapes(api, info, nm, v)])
        o = api.call(api.dany.Sfr6, g, fd)
        add("delineated", o.delineate_streams, 60, ba)
        add("MF6 network", o.get_stream_connectivity, sa)
        add("reach numbers", lambda: o.stream_array)
        add("package data", o.packagedata)
        add("connection data", o.connectiondata)
        add("control points", o.threshold_from_control_points,
            [point_of(api, info, n - 1, "list")], threshold=7)
        o = api.call(api.dany.Sfr2005, g, fd)
        for grp in (True, False):
            add("segments", o.get_stream_connectivity, sa, group_segments=grp)
            add("segment numbers", lambda: o.stream_array)
            add("runoff", o.irunbnd)
            add("vectors", o.create_stream_vectors, sa, group_segments=grp)
        o = api.call(api.dany.PrmsStreams, g, fd)
        for mm in (False, True):
            add("cascades", o.get_cascades, stream_array=sa, basin_boundary=ba, many2many=mm)
        res[k] = r
    compare(api, res)
    api.observe("res", res[kinds[0]])
    api.reach()


def configs(tier):
    out = []

    def add(name, b, **p):
        out.append(dict(name=name, body=b, params=p))
    P23 = "rect(2x3;8,8,8;6,6)"
    P33 = "rect(3x3;8,8,8;6,6,6)"
    R33 = [9., 7, 8, 6, 0, 3, 5, 2, 1]
    R34 = [12., 13, 14, 15, 8, 0, 0, 13, 4, -20, 4, 8]
    add("fill-priority", body_fill, body=P33, sym=[1, 4, 5], base=R33, what="priority")
    add("fill-complete", body_fill, body="3x4", sym=[5, 6, 9], base=R34, what="complete")
    add("fill-drain", body_fill, body=P33, sym=[1, 4], base=R33, what="drain")
    add("fill-mask", body_fill, body=P23, sym=[0, 3, 4], base=R33[:6], what="mask")
    add("fill-nan", body_fill, body=P33, sym=[0, 1, 5], base=R33, what="nan", nan=[4, 3, 8])
    B9 = [1080, 600, 1080, 600, 480, 360, 720, 240, -24000]
    add("flow-p2x3", body_flow, body=P23, sym=[0, 1, 4], base=[0, 0, 840, 0, 0, -24000])
    add("flow-p3x3", body_flow, body=P33, sym=[4, 5], base=B9, terminal=[3])
    add("flow-nan", body_flow, body=P33, sym=[4, 1], base=B9, nan=[3, 0])
    add("flow-burn", body_flow, body="2x2", sym=[0, 1, 2], base=[0, 0, 0, -9000.], burn=50.0)
    B23 = [960., 840, 720, 600, 480, 360]
    add("streams-p2x3", body_streams, body=P23, sym=[0, 1], base=B23, smask="0?1?11", bmask="1?1111")
    add("streams-rect", body_streams, body="rect(2x3;8,5,20;6,7)", sym=[], base=B23,
        smask="??????", bmask="1?11?1")
    add("layers-fill", body_fill, body=P33, sym=[1, 4], base=R33, what="priority", kinds=LAYERED)
    add("layers-drain", body_fill, body=P33, sym=[4], base=R33, what="drain", kinds=LAYERED)
    add("layers-mask", body_fill, body=P23, sym=[0, 3], base=R33[:6], what="mask", kinds=LAYERED)
    add("layers-nan", body_fill, body=P33, sym=[0, 1], base=R33, what="nan", nan=[4, 3, 8],
        kinds=LAYERED)
    add("layers-flow", body_flow, body=P23, sym=[0, 4], base=[0, 0, 840, 0, 0, -24000],
        kinds=LAYERED)
    add("layers-streams", body_streams, body=P23, sym=[0], base=B23, smask="0?1?11",
        bmask="1?1111", kinds=LAYERED)
    add("closed-fill", body_fill, body=P33, sym=[1, 4], base=R33, what="priority", kinds=CLOSED)
    add("closed-nan", body_fill, body=P33, sym=[0, 1], base=R33, what="nan", nan=[4, 3, 8],
        kinds=CLOSED)
    add("closed-flow", body_flow, body=P23, sym=[], base=B23, kinds=CLOSED)
    add("closed-streams", body_streams, body=P23, sym=[], base=B23, smask="0?1?1?",
        bmask="1?1111", kinds=CLOSED)
    add("small-flow", body_flow, body=P23, sym=[0, 4], base=[0, 0, 840, 0, 0, -24000],
        kinds=("s@mf", "v@m", "u@m"))
    if tier == "thorough":
        add("fill-priority-5", body_fill, body=P33, sym=[0, 1, 4, 5, 7], base=R33, what="priority")
        add("fill-priority-eps", body_fill, body="3x4", sym=[5, 6, 9], base=R34, what="priority",
            eps=0.0)
        add("fill-drain-3", body_fill, body="3x4", sym=[1, 5, 6], base=R34, what="drain")
        add("flow-p3x3-4", body_flow, body=P33, sym=[1, 4, 5, 7], base=B9)
        add("flow-p2x3-all", body_flow, body=P23, sym=[0, 1, 2, 3, 4],
            base=[0, 0, 840, 0, 0, -24000])
        add("streams-p3x3", body_streams, body=P33, sym=[4], base=B9, smask="?0?0?1?11",
            bmask="1?1111?11")
    return out
