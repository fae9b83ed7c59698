"""C31: results do not depend on how the cells are numbered."""
from symx.grids import numbering
from .common import elevations
from .c09 import point_of

META = dict(
    bounds="vertex and unstructured grids of 6 to 10 cells numbered in three ways: the elevations "
           "named in the configuration symbolic in [-1e4, 1e4] (no equally steep neighbours), "
           "stream and basin masks symbolic; fills (complete and drain), flow directions, "
           "accumulation, cell attributes, watersheds, subbasins, stream "
           "networks, stream lines, package data, runoff cells and cascades; the drain fill of a "
           "depression of 60 cells in a row",
    outside="larger grids, other renumberings, surfaces with flats or equally steep neighbours, "
            "the values (not the order) of the numbers given to reaches, segments and subbasins, "
            "'priority' and NaN filling (any admissible surface will do), rounding (reals)",
    assumptions=["elevations are real numbers (no rounding)"])


def views(spec):
    """(spec, old cell number of every cell) for the three numberings"""
    kind, _, mod = spec.partition("@")
    out = []
    for m in ("", "p", "q"):
        s = kind + ("@" + mod + m if mod + m else "")
        out.append((s, m))
    return out


def old(info, m, values):
    """values in the order of the first numbering"""
    order = numbering(info.n, m)
    out = [None] * info.n
    for k, v in enumerate(values):
        out[order[k]] = v
    return out


def agree(api, res):
    for k in (1, 2):
        for (nm, a), (_, b) in zip(res[0], res[k]):
            api.check(f"{nm}: same shape of result", len(a) == len(b))
            for i, (x, y) in enumerate(zip(a, b)):
                if isinstance(x, (list, tuple, set, str)) or x is None or y is None:
                    api.check(f"{nm}: same under renumbering", x == y, detail=(k, i))
                else:
                    api.check(f"{nm}: same under renumbering", api.same(x, y), detail=(k, i))


def arr(api, info, m, v, kind):
    return api.array([v[k] for k in numbering(info.n, m)], kind, info.shape)


def body_fill(api, spec, sym, base, method, eps=0.5):
    res = []
    z = None
    for s, m in views(spec):
        info = api.info(s)
        if z is None:
            z = elevations(api, info, sym, base)
        kw = dict(method=method)
        if method == "drain":
            kw["eps"] = eps
        o = api.flat(api.call(api.dany.fill_sinks, api.grid(s), arr(api, info, m, z, "f"), **kw))
        res.append([["filled", old(info, m, o)]])
    agree(api, res)
    api.observe("filled", res[0][0][1])
    api.reach()


def distinct(api, info, z):
    """unique steepest neighbours: no two slopes of a cell are equal"""
    for i in range(info.n):
        for a in info.queen[i]:
            for b in info.queen[i]:
                if a < b:
                    api.assume(api.Not(api.eq((z[i] - z[a]) / info.dist(i, a),
                                              (z[i] - z[b]) / info.dist(i, b))))


def drained(api, info, z, lo):
    for i in range(info.n):
        if i != lo:
            api.assume(api.Or(*[api.le(z[j] + 0.01, z[i]) for j in info.queen[i]]))
            api.assume(api.lt(z[lo], z[i]))


def cellmap(order, v):
    """cell numbers in the first numbering"""
    return [order[x] if 0 <= x < len(order) else x for x in v]


def parts(labels):
    """partition described by labels, as a label-free list"""
    return [min(j for j in range(len(labels)) if labels[j] == labels[i])
            if labels[i] != 0 else -1 for i in range(len(labels))]


def body_flow(api, spec, sym, base, terminal=()):
    res = []
    z = None
    for s, m in views(spec):
        info = api.info(s)
        n = info.n
        order = numbering(n, m)
        new = {o: k for k, o in enumerate(order)}
        if z is None:
            z = elevations(api, info, sym, base)
            drained(api, info, z, min(range(n), key=lambda i: base[i]))
            distinct(api, info, z)
        g = api.grid(s)
        fd = api.call(api.dany.FlowDirections, g, arr(api, info, m, z, "f"))
        kw = dict(terminal_cells=[new[t] for t in terminal]) if terminal else {}
        d = [api.conc(x) for x in api.flat(api.call(fd.flow_directions, **kw))]
        r = [["flow directions", old(info, m, cellmap(order, d))]]

        def add(nm, f, *a, **k):
            r.append([nm, old(info, m, api.flat(api.call(f, *a, **k)))])
        add("accumulation", fd.flow_accumulation)
        add("cells", fd.flow_accumulation, as_cells=True)
        for nm in ("area", "slope", "aspect", "hru_len"):
            add(nm, lambda: getattr(fd, nm))
        for o in range(n):
            add("watershed", fd.get_watershed_boundary, point_of(api, info, new[o], "tuple"))
        sb = api.flat(api.call(fd.get_subbasins, [point_of(api, info, new[o], "tuple")
                                                  for o in (0, n - 1, n // 2)]))
        r.append(["subbasins", parts(old(info, m, [api.conc(x) for x in sb]))])
        res.append(r)
    agree(api, res)
    api.observe("directions", res[0][0][1])
    api.reach()


def body_streams(api, spec, sym, base, smask, bmask):
    res = []
    z = None
    for s, m in views(spec):
        info = api.info(s)
        n = info.n
        order = numbering(n, m)
        new = {o: k for k, o in enumerate(order)}
        if z is None:
            z = elevations(api, info, sym, base)
            drained(api, info, z, min(range(n), key=lambda i: base[i]))
            distinct(api, info, z)
            sm = [api.flag(f"s{i}") if smask[i] == "?" else smask[i] == "1" for i in range(n)]
            bm = [api.flag(f"b{i}") if bmask[i] == "?" else bmask[i] == "1" for i in range(n)]
        g = api.grid(s)
        fd = api.call(api.dany.FlowDirections, g, arr(api, info, m, z, "f"))
        api.call(fd.flow_directions)
        api.call(fd.flow_accumulation)
        sa = arr(api, info, m, [int(x) for x in sm], "i")
        ba = arr(api, info, m, [int(x) for x in bm], "i")
        r = []
        o = api.call(api.dany.Sfr6, g, fd)
        r.append(["delineated", old(info, m, api.flat(api.call(o.delineate_streams, 60, ba)))])
        graph = api.call(o.get_stream_connectivity, sa)
        num = [api.conc(x) for x in api.flat(api.call(lambda: o.stream_array))]
        at = {v: order[k] for k, v in enumerate(num) if v}
        r.append(["network", sorted((at[a], at.get(api.conc(b), -1)) for a, b in graph.items())])
        pkg = api.call(o.packagedata)
        ix = sorted(range(len(pkg)), key=lambda k: at[api.conc(pkg["ifno"][k]) + 1])
        for f in ("rlen", "rgrd", "rtp", "ncon"):
            r.append(["package data " + f, [pkg[f][k] for k in ix]])
        con = api.call(o.connectiondata)
        r.append(["connections", sorted(
            (at[api.conc(c[0]) + 1],) + tuple(sorted(at[abs(api.conc(v)) + 1] for v in c[1:]))
            for c in con)])
        for grp in (True, False):
            o = api.call(api.dany.Sfr2005, g, fd)
            graph = api.call(o.get_stream_connectivity, sa, group_segments=grp)
            seg = old(info, m, [api.conc(x) for x in api.flat(api.call(lambda: o.stream_array))])
            lead = {}
            for i, v in enumerate(seg):
                if v and v not in lead:
                    lead[v] = i
            r.append(["segments", parts(seg)])
            r.append(["segment network", sorted((lead[a], lead.get(api.conc(b), -1))
                                                for a, b in graph.items())])
            ib = old(info, m, [api.conc(x) for x in api.flat(api.call(o.irunbnd))])
            r.append(["runoff", [lead.get(v, -1) for v in ib]])
            vec = api.call(o.create_stream_vectors, sa, group_segments=grp)
            r.append(["stream lines", sorted([[api.conc(x), api.conc(y)] for x, y in line]
                                             for line in vec.values())])
        o = api.call(api.dany.PrmsStreams, g, fd)
        # (float sums of the gradients depend on their order)
        for mm in (False, True) if not sym else (False,):
            up, down, pct, sg = [api.flat(x) for x in api.call(
                o.get_cascades, stream_array=sa, basin_boundary=ba, many2many=mm)]
            rows = sorted((order[api.conc(u) - 1], order[api.conc(v) - 1], k)
                          for k, (u, v) in enumerate(zip(up, down)))
            r.append(["cascades", [(u, v) for u, v, _ in rows]])
            r.append(["cascade fractions", [pct[k] for _, _, k in rows]])
        res.append(r)
    agree(api, res)
    api.observe("network", res[0][1][1])
    api.reach()


P23 = "rect(2x3;8,8,8;6,6)"
P33 = "rect(3x3;8,8,8;6,6,6)"
B23 = [960., 841, 722, 603, 484, 365]
B33 = [1081., 602, 1083, 604, 485, 366, 727, 248, -24000]
R33 = [4, 2, 6, 3, 0, 5, 7, 1, 8]
NEST = [0, 4, 2, 1, 3, 2, 0]


def configs(tier):
    out = []

    def add(name, b, **p):
        out.append(dict(name=name, body=b, params=p))
    add("complete-nested", body_fill, spec="v:nested", method="complete", sym=[0, 3, 4, 5, 6],
        base=NEST)
    add("complete-u3x3", body_fill, spec="u:3x3", method="complete", sym=[1, 4, 7], base=R33)
    add("drain-nested", body_fill, spec="u:nested", method="drain", sym=[3, 6], base=NEST)
    add("drain-v3x3", body_fill, spec="v:3x3@c", method="drain", sym=[4, 1], base=R33)
    n = 62
    add("drain-trench", body_fill, spec=f"u:3x{n}", method="drain", sym=[30],
        base=[200.] * (n + 1) + [100.] * (n - 2) + [50.] + [200.] * n, eps=1 / 64)
    add("flow-v2x3", body_flow, spec="v:" + P23, sym=[0, 1], base=B23)
    add("flow-u3x3", body_flow, spec="u:" + P33, sym=[4], base=B33, terminal=[2])
    add("flow-strip5", body_flow, spec="v:strip5@c", sym=[0, 1, 2], base=[5., 4, 3, 2, -9])
    add("streams-v2x3", body_streams, spec="v:" + P23, sym=[1], base=B23, smask="0?1?11",
        bmask="1?11?1")
    add("streams-u2x3", body_streams, spec="u:" + P23, sym=[], base=B23, smask="??????",
        bmask="1?1111")
    add("streams-u3x3", body_streams, spec="u:" + P33, sym=[4], base=B33, smask="01?0?1011",
        bmask="1?1111111")
    add("streams-v2x4", body_streams, spec="v:rect(2x4;8,8,8,8;6,6)", sym=[],
        base=[700., 2000, 2101, 2200, 650, 500, 400, 300], smask="1?0?1111", bmask="11?11111")
    if tier == "thorough":
        add("complete-nested2", body_fill, spec="v:nested2", method="complete",
            sym=[3, 6, 7, 9, 4], base=[0, 4, 2, 0, 3, 1, 0, 0, 1, 0])
        add("drain-nested-4", body_fill, spec="v:nested", method="drain", sym=[3, 4, 6, 0], base=NEST)
        add("flow-v2x3-4", body_flow, spec="v:" + P23, sym=[0, 1, 2, 3], base=B23)
        add("flow-u3x3-3", body_flow, spec="u:" + P33, sym=[4, 1, 3], base=B33)
        add("streams-v3x3", body_streams, spec="v:" + P33, sym=[4, 3], base=B33,
            smask="?1?0?1??1", bmask="1?1111?11")
    return out
