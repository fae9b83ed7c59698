"""C24: results do not depend on what was computed before."""
from .common import elevations
from .c09 import point_of

META = dict(
    bounds="grids of 6 cells (all grid classes), every history of up to 2 earlier public calls "
           "(3 in the thorough tier; 1 where the grouping is named and the earlier stream array may "
           "be the same) drawn from the calls listed in the harness, with other terminal "
           "cells, thresholds, stream arrays, grouping and basin masks, followed by the calls under "
           "test; the elevations and stream masks named symbolic; neighbours queried before as rook "
           "or queen; other flow direction and stream objects with another DEM on the same grid",
    outside="longer histories, larger grids; tables requested without naming a grouping for the "
            "stream array whose connectivity is stored (they use the stored grouping)",
    assumptions=["elevations are real numbers (no rounding)"])


BUDGET = dict(quick=250, thorough=1500)


def norm(api, x):
    """nested lists of scalars for comparison"""
    if x is None or isinstance(x, (str, bool, int, float)):
        return x
    if isinstance(x, dict):
        return [[norm(api, k), norm(api, v)] for k, v in sorted(
            x.items(), key=lambda kv: api.conc(kv[0]))]
    names = getattr(getattr(x, "dtype", None), "names", None)
    if names:
        return [[nm, [norm(api, x[nm][k]) for k in range(len(x))]] for nm in names]
    if isinstance(x, (list, tuple)):
        return [norm(api, v) for v in x]
    if hasattr(x, "shape") and x.shape != ():
        return [list(x.shape), [norm(api, v) for v in api.flat(x)]]
    if hasattr(x, "ncascade"):
        return [[k, norm(api, v)] for k, v in sorted(vars(x).items())]
    if hasattr(x, "segment_data"):
        return [norm(api, x.reach_data), norm(api, x.segment_data), norm(api, x.irunbnd)]
    return x


def same(api, label, a, b, path=""):
    if isinstance(a, list) or isinstance(b, list):
        ok = isinstance(a, list) and isinstance(b, list) and len(a) == len(b)
        api.check(label, ok, detail=path + " structure")
        if ok:
            for k, (x, y) in enumerate(zip(a, b)):
                same(api, label, x, y, f"{path}/{k}")
        return
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        api.check(label, a == b, detail=path)
        return
    api.check(label, api.same(a, b), detail=path)


def neighbours(api, g):
    q = api.pick("queried before", ["none", "rook", "queen"])
    if q != "none":
        api.call(g.neighbors, method=q)
    return q


# ------------------------------------------------------------ flow directions
def fd_ops(api, info, fd, g, dem2):
    def pt(i):
        return point_of(api, info, i, "tuple")

    def other():
        f = api.call(api.dany.FlowDirections, g, dem2)
        api.call(f.flow_directions)
        api.call(f.flow_accumulation)

    ran = []

    def first():
        if not ran:
            ran.append(1)
            api.call(fd.flow_directions)

    def run(f, acc=False):
        first()
        if acc:
            api.call(fd.flow_accumulation)
        f()
    n = info.n
    return [
        lambda: (ran.append(1), api.call(fd.flow_directions)),
        lambda: (ran.append(1), api.call(fd.flow_directions, terminal_cells=[1])),
        lambda: (ran.append(1), api.call(fd.flow_directions, burn_threshold=400.0,
                                         terminal_cells=[2, 3])),
        lambda: run(lambda: api.call(fd.flow_accumulation)),
        lambda: run(lambda: api.call(fd.flow_accumulation, as_cells=True)),
        lambda: run(lambda: api.call(fd.get_watershed_boundary, pt(n - 1))),
        lambda: run(lambda: api.call(fd.get_subbasins, [pt(4), pt(n - 1)])),
        lambda: run(lambda: (api.call(lambda: fd.slope), api.call(lambda: fd.aspect),
                             api.call(lambda: fd.hru_len), api.call(lambda: fd.vectors))),
        other,
        lambda: api.call(g.neighbors, method="rook", reset=True),
    ]


def fd_final(api, info, fd, term):
    def pt(i):
        return point_of(api, info, i, "tuple")
    out = []
    kw = {} if term is None else dict(burn_threshold=150.0) if term == "burn" else dict(
        terminal_cells=term)
    out.append(["fdir", norm(api, api.call(fd.flow_directions, **kw))])
    out.append(["acc", norm(api, api.call(fd.flow_accumulation))])
    for i in range(info.n):
        out.append(["watershed", norm(api, api.call(fd.get_watershed_boundary, pt(i)))])
    out.append(["subbasins", norm(api, api.call(fd.get_subbasins, [pt(4), pt(2)]))])
    out.append(["cells", norm(api, api.call(fd.flow_accumulation, as_cells=True))])
    for nm in ("slope", "aspect", "hru_len", "area", "dem"):
        out.append([nm, norm(api, api.call(lambda: getattr(fd, nm)))])
    return out


def body_fd(api, spec, sym, base, length):
    info = api.info(spec)
    z = elevations(api, info, sym, base)
    for i in sym:
        api.assume(api.lt(min(base), z[i]))
    dem = api.array(z, "f", info.shape)
    dem2 = api.array([float(v) for v in reversed(base)], "f", info.shape)
    g = api.grid(spec)
    if api.flag("long history"):
        hist = length
        api.call(g.neighbors, method="rook")
    else:
        hist = 1
        neighbours(api, g)
    fd = api.call(api.dany.FlowDirections, g, dem)
    ops = fd_ops(api, info, fd, g, dem2)
    for k in range(hist):
        ops[api.pick(f"op{k}", list(range(len(ops))))]()
    term = api.pick("terminal", [None, [0], "burn"])
    used = fd_final(api, info, fd, term)
    fresh = api.call(api.dany.FlowDirections, api.grid(spec), dem)
    ref = fd_final(api, info, fresh, term)
    for (nm, a), (_, b) in zip(used, ref):
        same(api, nm + " as from a fresh object", a, b)
    api.observe("used", used)
    api.reach()


# -------------------------------------------------------------------- filling
def body_fill(api, spec, sym, base):
    """fill functions on a grid whose neighbours were queried before"""
    info = api.info(spec)
    z = elevations(api, info, sym, base)
    g = api.grid(spec)
    neighbours(api, g)
    what = api.pick("what", ["priority", "complete", "drain", "nan", "mask"])
    vals = list(z)
    if what == "nan":
        vals[1] = float("nan")
        vals[4] = float("nan")
    dem = api.array(vals, "f", info.shape)

    def run(grid):
        if what == "nan":
            return api.call(api.dany.fill_nan_values, grid, dem)
        kw = dict(eps=0.5)
        if what == "mask":
            kw["stream_mask"] = api.array([int(i in (2, 5)) for i in range(info.n)], "i", info.shape)
        return api.call(api.dany.fill_sinks, grid, dem,
                        method="priority" if what == "mask" else what, **kw)
    a = norm(api, run(g))
    a2 = norm(api, run(g))
    b = norm(api, run(api.grid(spec)))
    same(api, "fill as on a fresh grid", a, b)
    same(api, "fill repeated", a2, b)
    api.observe("filled", a)
    api.reach()


# -------------------------------------------------------------------- streams
def stream_obj(api, spec, cls, z, info):
    g = api.grid(spec)
    fd = api.call(api.dany.FlowDirections, g, api.array(z, "f", info.shape))
    api.call(fd.flow_directions)
    api.call(fd.flow_accumulation)
    return api.call(getattr(api.dany, cls), g, fd), g, fd


def body_streams(api, spec, cls, sym, base, amask, bmask, length, finals=None, grouped=None):
    info = api.info(spec)
    n = info.n
    z = elevations(api, info, sym, base)
    for i in sym:
        api.assume(api.lt(min(base), z[i]))
    o, g, fd = stream_obj(api, spec, cls, z, info)
    A = [api.flag(f"a{i}") if amask[i] == "?" else amask[i] == "1" for i in range(n)]
    B = [api.flag(f"b{i}") if bmask[i] == "?" else bmask[i] == "1" for i in range(n)]
    fin = api.pick("final", finals)
    # earlier arrays have other stream cells than the one under test, except where
    # every table is asked for with its grouping given
    if fin not in ("seg0", "seg1"):
        api.assume(A != B)
    elif api.flag("same streams before"):
        A = B

    def arr(m, kind="i"):
        return api.array([int(x) for x in m] if kind == "i" else m, kind, info.shape)

    def other(cls2):
        """another stream object with another DEM on the same grid"""
        fd2 = api.call(api.dany.FlowDirections, g,
                       api.array([float(v) for v in reversed(base)], "f", info.shape))
        api.call(fd2.flow_directions)
        api.call(fd2.flow_accumulation)
        o2 = api.call(getattr(api.dany, cls2), g, fd2)
        api.call(o2.get_stream_connectivity, arr(A))

    def queries():
        p = point_of(api, info, n - 1, "tuple")
        api.call(fd.get_watershed_boundary, p)
        api.call(fd.get_subbasins, [p])
        api.call(lambda: (fd.slope, fd.aspect, fd.hru_len, fd.vectors))
        api.call(g.neighbors, method="rook", reset=True)
    bb = arr([i != 1 for i in range(n)])
    two = dict(
        set=lambda: api.call(o.set_stream_array, arr(A)),
        setb=lambda: api.call(o.set_stream_array, arr(A, "b")),
        delineate=lambda: api.call(o.delineate_streams, 100),
        vectors=lambda: api.call(o.create_stream_vectors, arr(A)),
        vectors1=lambda: api.call(o.create_stream_vectors, arr(A), group_segments=False),
        points=lambda: api.call(o.threshold_from_control_points,
                                [point_of(api, info, n - 1, "list")]),
        other=lambda: other("Sfr6" if cls == "Sfr2005" else "Sfr2005"),
        queries=queries)
    if cls == "Sfr6":
        two.update(
            conn=lambda: api.call(o.get_stream_connectivity, arr(A)),
            pkg=lambda: api.call(o.packagedata, arr(A)),
            con=lambda: (two["set"](), api.call(o.connectiondata)))
    elif cls == "Sfr2005":
        two.update(
            conn=lambda: api.call(o.get_stream_connectivity, arr(A)),
            conn1=lambda: api.call(o.get_stream_connectivity, arr(A), group_segments=False),
            irunbnd=lambda: api.call(o.irunbnd, arr(A), group_segments=False))
        if spec[0] == "s":
            two.update(
                reach=lambda: api.call(o.reach_data, arr(A)),
                segment=lambda: api.call(o.segment_data, arr(A), group_segments=False),
                builder=lambda: (two["set"](), api.call(o.get_pygsflow_builder_object)))
    else:
        two.update(
            conn=lambda: api.call(o.get_stream_connectivity, arr(A)),
            conn1=lambda: api.call(o.get_stream_connectivity, arr(A), group_segments=True),
            casc=lambda: api.call(o.get_cascades, stream_array=arr(A)),
            casc1=lambda: api.call(o.get_cascades, stream_array=arr(A), basin_boundary=bb,
                                   group_segments=True),
            casc2=lambda: api.call(o.get_cascades, stream_array=arr(A), many2many=True),
            builder=lambda: (two["set"](), api.call(o.get_pygsflow_builder_object)))
    names = list(two)
    for k in range(1 if fin in ("seg0", "seg1") else length):
        two[api.pick(f"op{k}", names)]()

    def final(o):
        out = []

        def add(nm, f, *a, **k):
            out.append([nm, norm(api, api.call(f, *a, **k))])
        if fin == "delineate":
            add("streams", o.delineate_streams, 60)
        elif fin == "set":
            api.call(o.set_stream_array, arr(B))
        elif fin == "setb":
            api.call(o.set_stream_array, arr(B, "b"))
        if fin in ("delineate", "set", "setb"):
            a = []
        else:
            a = [arr(B)]
        kw = dict(group_segments=fin == "seg1") if fin in ("seg0", "seg1") else {}
        if cls == "Sfr6":
            if fin == "conn":
                add("connectivity", o.get_stream_connectivity, *a)
                a = []
            add("package data", o.packagedata, *a)
            add("connection data", o.connectiondata)
            add("connectivity", o.get_stream_connectivity)
        elif cls == "Sfr2005":
            if fin == "conn1":
                add("connectivity", o.get_stream_connectivity, *a, group_segments=False)
                a = []
            if fin == "irunbnd":
                add("irunbnd", o.irunbnd, *a)
                a = []
            tables = [("irunbnd", o.irunbnd)]
            if spec[0] == "s":
                tables += [("reach data", o.reach_data), ("segment data", o.segment_data)]
                if not kw:
                    tables = tables[1:] + tables[:1]
            for nm, f in tables[api.pick("first", range(len(tables))) if kw else 0:]:
                add(nm, f, *a, **kw)
            add("connectivity", o.get_stream_connectivity, *a, **kw)
        else:
            if fin == "conn1":
                add("connectivity", o.get_stream_connectivity, *a, group_segments=True)
                a = []
            k = dict(stream_array=a[0], **kw) if a else {}
            add("cascades", o.get_cascades, basin_boundary=bb, **k)
            add("cascades", o.get_cascades, many2many=True, **k)
            add("builder", o.get_pygsflow_builder_object, *a)
            add("connectivity", o.get_stream_connectivity, *a, **kw)
        add("vectors", o.create_stream_vectors, *a, **kw)
        add("streams", lambda: o.stream_array)
        return out
    used = final(o)
    o2, _, _ = stream_obj(api, spec, cls, z, info)
    ref = final(o2)
    for (nm, a), (_, b) in zip(used, ref):
        same(api, nm + " as from a fresh object", a, b)
    api.reach()


P23 = "rect(2x3;8,8,8;6,6)"
B6 = [960., 480, 720, 840, 240, -240]


def configs(tier):
    out = []
    L = 2 if tier == "quick" else 3

    def add(name, b, **p):
        out.append(dict(name=name, body=b, params=p))
    add("fd-s", body_fd, spec="s:" + P23, sym=[1], base=B6, length=L)
    # drops on both sides of the thresholds
    D6 = [960., 360, 720, 840, 240, 0]
    add("fd-s-burn", body_fd, spec="s:" + P23 + "@mlf", sym=[0], base=D6, length=1)
    add("fd-v-burn", body_fd, spec="v:" + P23 + "@c", sym=[], base=D6, length=L)
    add("fd-u", body_fd, spec="u:hex2x3", sym=[], base=B6, length=L)
    add("fill-s3x3", body_fill, spec="s:3x3", sym=[4], base=[9, 7, 8, 6, 0, 3, 5, 2, 1])
    add("fill-v-pc", body_fill, spec="v:3x3@pcl", sym=[4], base=[9, 7, 8, 6, 0, 3, 5, 2, 1][::-1])
    add("fill-v3x3", body_fill, spec="v:3x3", sym=[4, 1], base=[9, 7, 8, 6, 0, 3, 5, 2, 1])
    F = ["set", "setb", "delineate", "conn", "arg"]
    for cls, spec in (("Sfr6", "v:" + P23), ("Sfr2005", "s:" + P23), ("PrmsStreams", "u:" + P23)):
        fin = {"Sfr6": F, "Sfr2005": ["set", "setb", "delineate", "conn1", "arg", "irunbnd",
                           "seg0", "seg1"],
               "PrmsStreams": ["set", "setb", "delineate", "conn1", "arg", "seg0",
                               "seg1"]}[cls]
        add(f"{cls}-{spec[0]}", body_streams, spec=spec, cls=cls, sym=[], base=B6,
            amask="?10011", bmask="0?1?11" if L == 2 else "011?11", length=L, finals=fin)
    if tier == "thorough":
        add("Sfr2005-u", body_streams, spec="u:hex2x3", cls="Sfr2005", sym=[0], base=B6,
            amask="?10011", bmask="0?1?11", length=1,
            finals=["set", "delineate", "conn1", "arg", "irunbnd", "seg0", "seg1"])
        add("Sfr6-s", body_streams, spec="s:" + P23, cls="Sfr6", sym=[0, 1], base=B6,
            amask="?10011", bmask="0?1?11", length=1, finals=F)
    return out
