"""C30: misuse is refused and leaves stored results intact."""
from .common import elevations
from .c09 import point_of
from .c24 import norm, same

META = dict(
    bounds="the minimum check for every DEM of 4 to 6 cells (NaN cells included, symbolic "
           "elevations); refused calls on grids of 4 to 6 cells (all grid classes) for every stream "
           "mask named symbolic: missing stream arrays, arrays of a wrong size, points with a "
           "wrong number of coordinates or outside the grid, unknown methods and keywords, row "
           "and column terminal cells on unstructured or vertex grids or outside a structured grid",
    outside="larger grids, arguments of a wrong type, DEMs of a wrong size, terminal cell numbers "
            "outside the grid",
    assumptions=["elevations are real numbers (no rounding)"])


def refused(api, label, f, *a, **k):
    e = api.raises(f, *a, **k)
    api.check("refused: " + label, e is not None)
    return e


def body_minimum(api, spec, nan=()):
    info = api.info(spec)
    n = info.n
    z = [api.real(f"z{i}", -1e4, 1e4) for i in range(n)]
    hole = [i in nan and api.flag(f"nan{i}") for i in range(n)]
    ok = [i for i in range(n) if not hole[i]]
    dem = api.array([float("nan") if hole[i] else z[i] for i in range(n)], "f", info.shape)
    check = api.pick("check_elevations", [True, False, None])
    kw = {} if check is None else dict(check_elevations=check)
    e = api.raises(api.dany.FlowDirections, api.grid(spec), dem, **kw)
    twice = api.Or(*[api.And(api.eq(z[i], z[j]), *[api.le(z[i], z[k]) for k in ok])
                     for i in ok for j in ok if i < j])
    if check is False:
        api.check("accepted without the check", e is None)
    elif e is None:
        api.check("several lowest cells are refused", api.Not(twice))
    else:
        api.check("one lowest cell is accepted", twice)
        api.check("kind of error", isinstance(e, AssertionError))
    api.observe("refused", e is not None)
    api.reach()


def body_nan(api, spec, nan):
    info = api.info(spec)
    n = info.n
    hole = [i in nan and api.flag(f"nan{i}") for i in range(n)]
    z = [float("nan") if hole[i] else api.real(f"z{i}", -1e4, 1e4) for i in range(n)]
    dem = api.array(z, "f", info.shape)
    before = norm(api, dem)
    m = api.pick("method", ["nearest", "avg", ""])
    e = api.raises(api.dany.fill_nan_values, api.grid(spec), dem, method=m)
    if any(hole):
        api.check("unknown fill method refused", e is not None)
    same(api, "DEM kept", norm(api, dem), before)
    api.reach()


B6 = [960., 480, 720, 840, 240, -240]
P23 = "rect(2x3;8,8,8;6,6)"
BAD = ["set", "set2d", "threshold", "threshold2", "basin", "connectivity", "vectors", "control3",
       "control outside"]


def objects(api, spec, base, cls):
    info = api.info(spec)
    g = api.grid(spec)
    fd = api.call(api.dany.FlowDirections, g, api.array(base, "f", info.shape))
    api.call(fd.flow_directions)
    api.call(fd.flow_accumulation)
    return info, g, fd, api.call(getattr(api.dany, cls), g, fd)


def body_empty(api, spec, cls, base):
    """no stream array was given"""
    info, g, fd, o = objects(api, spec, base, cls)
    names = ["stream_array", "get_stream_connectivity", "create_stream_vectors"]
    names += {"Sfr6": ["packagedata", "connectiondata"],
              "Sfr2005": ["irunbnd"] + (["reach_data", "segment_data"] if spec[0] == "s" else []),
              "PrmsStreams": ["get_cascades", "get_pygsflow_builder_object"]}[cls]
    what = api.pick("call", names)
    if what == "stream_array":
        e = refused(api, what, lambda: o.stream_array)
    else:
        e = refused(api, what, getattr(o, what))
    api.check("kind of error", isinstance(e, AssertionError))
    # the object still works
    m = [api.bool(f"s{i}") for i in range(info.n)]
    api.call(o.set_stream_array, api.array([api.num(x) for x in m], "i", info.shape))
    for i, v in enumerate(api.flat(api.call(lambda: o.stream_array))):
        api.check("usable afterwards", api.eq(v, api.num(m[i])), detail=i)
    api.reach()


def body_streams(api, spec, cls, base, smask, how):
    info, g, fd, o = objects(api, spec, base, cls)
    n = info.n
    m = [api.flag(f"s{i}") if smask[i] == "?" else smask[i] == "1" for i in range(n)]
    arr = api.array([int(x) for x in m], "i", info.shape)

    def results(o):
        out = [norm(api, api.call(lambda: o.stream_array))]
        if cls == "Sfr6":
            out += [norm(api, api.call(o.connectiondata)), norm(api, api.call(o.packagedata))]
        elif cls == "Sfr2005":
            out += [norm(api, api.call(o.irunbnd))]
            if spec[0] == "s":
                out += [norm(api, api.call(o.segment_data)), norm(api, api.call(o.reach_data))]
        else:
            out += [norm(api, x) for x in api.call(o.get_cascades)]
        return out
    if how == "connectivity":
        api.call(o.get_stream_connectivity, arr)
    else:
        api.call(o.set_stream_array, arr)
    before = norm(api, api.call(lambda: o.stream_array))
    bad = list(BAD)
    if cls == "Sfr6":
        bad += ["packagedata"]
    elif cls == "Sfr2005":
        bad += ["irunbnd"] + (["reach_data", "segment_data", "keyword"] if spec[0] == "s" else [])
    else:
        bad += ["cascades", "builder"]
    what = api.pick("call", bad)
    wrong = api.array([1] * (n + api.pick("size", [-1, 1, 2])), "i")
    far = [min(info.xc) - 1e4, min(info.yc) - 1e4]
    pt = list(point_of(api, info, 0, "list"))
    e = {
        "set": lambda: refused(api, what, o.set_stream_array, wrong),
        "set2d": lambda: refused(api, what, o.set_stream_array, api.array([1] * (2 * n), "i", (2, n))),
        "threshold": lambda: refused(api, what, o.delineate_streams,
                                     api.array([60.0] * (n + 1), "f")),
        "threshold2": lambda: refused(api, what, o.delineate_streams,
                                      api.array([60.0] * (2 * n), "f", (2, n))),
        "basin": lambda: refused(api, what, o.delineate_streams, 60.0, wrong),
        "connectivity": lambda: refused(api, what, o.get_stream_connectivity, wrong),
        "vectors": lambda: refused(api, what, o.create_stream_vectors, wrong),
        "control3": lambda: refused(api, what, o.threshold_from_control_points, [pt, pt + [1.0]]),
        "control outside": lambda: refused(api, what, o.threshold_from_control_points, [pt, far]),
        "packagedata": lambda: refused(api, what, o.packagedata, wrong),
        "irunbnd": lambda: refused(api, what, o.irunbnd, wrong),
        "reach_data": lambda: refused(api, what, o.reach_data, wrong),
        "segment_data": lambda: refused(api, what, o.segment_data, wrong),
        "keyword": lambda: refused(api, what, o.get_pygsflow_builder_object, slope=1.0),
        "cascades": lambda: refused(api, what, o.get_cascades, stream_array=wrong),
        "builder": lambda: refused(api, what, o.get_pygsflow_builder_object, stream_array=wrong),
    }[what]()
    if what in ("set", "set2d"):
        api.check("kind of error", isinstance(e, ValueError))
    elif what in ("threshold", "threshold2", "control3"):
        api.check("kind of error", isinstance(e, AssertionError))
    elif what == "keyword":
        api.check("kind of error", isinstance(e, KeyError))
    same(api, "streams kept", norm(api, api.call(lambda: o.stream_array)), before)
    _, _, _, o2 = objects(api, spec, base, cls)
    if how == "connectivity":
        api.call(o2.get_stream_connectivity, arr)
    else:
        api.call(o2.set_stream_array, arr)
    same(api, "networks and tables kept", results(o), results(o2))
    api.reach()


def body_flow(api, spec, sym, base):
    """refused queries keep directions and accumulation"""
    info = api.info(spec)
    n = info.n
    z = elevations(api, info, sym, base)
    lo = min(range(n), key=lambda i: base[i])
    for i in sym:
        api.assume(api.lt(z[lo], z[i]))
    g = api.grid(spec)
    fd = api.call(api.dany.FlowDirections, g, api.array(z, "f", info.shape))
    api.call(fd.flow_directions)
    api.call(fd.flow_accumulation)

    def state():
        return [norm(api, api.call(lambda: fd.flow_direction_array)),
                norm(api, api.call(lambda: fd.flow_accumulation_array))]
    s0 = state()
    far = [max(info.xc) + 1e4, max(info.yc) + 1e4]
    pt = list(point_of(api, info, 1, "list"))
    what = api.pick("call", ["1", "3", "far", "sub 3", "sub far", "rc"])
    if what == "1":
        refused(api, "point with one coordinate", fd.get_watershed_boundary, pt[:1])
    elif what == "3":
        refused(api, "point with three coordinates", fd.get_watershed_boundary, pt + [0.0])
    elif what == "far":
        refused(api, "point outside the grid", fd.get_watershed_boundary, far)
    elif what == "sub 3":
        refused(api, "point with three coordinates", fd.get_subbasins, [pt, pt + [0.0]])
    elif what == "sub far":
        refused(api, "point outside the grid", fd.get_subbasins, [pt, far])
    elif spec[0] != "s":
        refused(api, "row and column on this grid", fd.flow_directions,
                terminal_cells=[api.pick("rc", [[0, 1], (1, 0)])])
    else:
        refused(api, "row and column outside the grid", fd.flow_directions, burn_threshold=0.5,
                terminal_cells=[api.pick("rc", [[0, 3], [2, 0]]), [0, 1]])
    same(api, "directions and accumulation kept", state(), s0)
    w = norm(api, api.call(fd.get_watershed_boundary, pt))
    api.call(fd.flow_directions)
    api.call(fd.flow_accumulation)
    same(api, "usable afterwards", [state(), norm(api, api.call(fd.get_watershed_boundary, pt))],
         [s0, w])
    api.reach()


def configs(tier):
    out = []

    def add(name, b, **p):
        out.append(dict(name=name, body=b, params=p))
    add("minimum-s2x2", body_minimum, spec="s:2x2", nan=[0, 3])
    add("minimum-u", body_minimum, spec="u:strip5", nan=[1, 2])
    add("minimum-v", body_minimum, spec="v:2x3@l")
    add("nan-s", body_nan, spec="s:2x3", nan=[0, 1, 4])
    add("nan-u", body_nan, spec="u:strip4", nan=[0, 3])
    for s in ("s", "v", "u"):
        add("flow-" + s, body_flow, spec=s + ":" + P23, sym=[1, 3], base=B6)
    for cls, s in (("Sfr6", "v"), ("Sfr6", "s"), ("Sfr2005", "s"), ("Sfr2005", "u"),
                   ("PrmsStreams", "s"), ("PrmsStreams", "v")):
        add(f"empty-{cls}-{s}", body_empty, spec=s + ":" + P23, cls=cls, base=B6)
        for how in ("set", "connectivity"):
            add(f"{how}-{cls}-{s}", body_streams, spec=s + ":" + P23, cls=cls, base=B6,
                smask="?10?1?", how=how)
    if tier == "thorough":
        add("minimum-s2x3", body_minimum, spec="s:2x3", nan=[0, 2, 4])
        add("minimum-nested", body_minimum, spec="v:nested", nan=[0])
        for cls, s in (("Sfr6", "u"), ("Sfr2005", "v"), ("PrmsStreams", "u"), ("Sfr2005", "s")):
            for how in ("set", "connectivity"):
                add(f"{how}-{cls}-{s}-all", body_streams, spec=s + ":" + P23, cls=cls, base=B6,
                    smask="??????", how=how)
    return out
