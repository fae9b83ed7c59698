"""C25: pyGSFLOW builder objects agree with the network they describe."""
import math
from .common import Z
from .c12 import network, R23, Y33, TREE, PTREE
from .c14 import segmented, position
from .c17 import prms

META = dict(
    bounds="cascade builder: flow-direction forests, stream masks and basin masks on grids of 4 to "
           "8 cells (all grid classes), every elevation symbolic in [-1e4, 1e4], many-to-one (and "
           "many-to-many on a fixed draining surface); stream builder: structured grids of 4 to 9 "
           "cells of unequal size with every elevation symbolic, every numeric keyword symbolic, "
           "defaults or user values, grouped and ungrouped",
    outside="larger networks, cyclic flow directions, file input and output; the tables' single "
            "precision is allowed for by a relative 1e-6",
    assumptions=["elevations and keyword values are real numbers (no rounding)",
                 "min_slope <= default_slope <= max_slope"])


def near(api, a, e, t=None):
    t = 1e-6 * api.abs(e) + 1e-9 if t is None else t
    return api.And(api.le(a - e, t), api.le(e - a, t))


def body_cascades(api, spec, options=None, smask=None, bmask=None, how="set", group=True,
                  unresolved=False):
    info = api.info(spec)
    n = info.n
    z = [api.real(f"z{i}", -Z, Z) for i in range(n)]
    info, o, fd, d, m, b, kw = prms(api, spec, options, unresolved, smask, bmask, how, "i", "i",
                                    dem=z)
    if not group:
        kw["group_segments"] = False
    r = api.call(o.get_pygsflow_builder_object, **kw)
    mask = [api.decide(x) for x in m]
    c = [api.conc(x) for x in d]
    act = [api.decide(x) for x in b]
    num = [api.conc(x) for x in api.flat(api.call(lambda: o.stream_array))]
    api.check("reaches are the stream cells", api.eq(r.nreaches, sum(mask)))
    api.check("segments of the network", api.eq(r.nsegments, len(set(
        num[i] for i in range(n) if mask[i]))))
    up = [api.conc(x) for x in api.flat(r.hru_up_id)]
    down = [api.conc(x) for x in api.flat(r.hru_down_id)]
    api.check("number of links", api.eq(r.ncascade, len(up)))
    api.check("table lengths", len(down) == len(up) == len(api.flat(r.hru_pct_up))
              == len(api.flat(r.hru_strmseg_down_id)))
    exp = set()
    for i in range(n):
        if act[i]:
            t = c[i] if c[i] >= 0 else i
            exp.add((i + 1, (t if act[t] else i) + 1))
    api.check("links of the network", set(zip(up, down)) == exp)
    api.check("many to one flag", api.eq(r.cascade_flag, 1))
    attributes(api, info, r, z, c)
    api.observe("nseg", [api.conc(r.nsegments), api.conc(r.nreaches)])
    api.observe("slope", r.hru_slope)
    api.reach()


def attributes(api, info, r, z, c):
    n = info.n
    s, a, w = api.flat(r.hru_slope), api.flat(r.hru_aspect), api.flat(r.hru_area)
    api.check("one value per cell", len(s) == len(a) == len(w) == n)
    for i in range(n):
        t = c[i] if c[i] >= 0 else i
        if t == i:
            api.check("slope in node order", api.eq(s[i], 0), detail=i)
            ang = 0.0
        else:
            e = (z[i] - z[t]) / info.dist(i, t)
            api.check("slope in node order", near(api, s[i], e, 1e-6 + 1e-6 / info.dist(i, t)), detail=i)
            ang = math.degrees(math.atan2(info.yc[t] - info.yc[i], info.xc[t] - info.xc[i])) % 360
        api.check("aspect in node order", api.And(
            api.le(ang - 1e-6, a[i]), api.le(a[i], ang + 1e-6)), detail=i)
        api.check("area in node order", api.And(
            api.le(info.area[i] - 1e-6, w[i]), api.le(w[i], info.area[i] + 1e-6)), detail=i)


def body_m2m(api, spec, base, smask, bmask, group):
    """many-to-many builder on a fixed draining surface"""
    info = api.info(spec)
    n = info.n
    m = [api.flag(f"s{i}") if smask[i] == "?" else smask[i] == "1" for i in range(n)]
    b = [api.flag(f"b{i}") if bmask[i] == "?" else bmask[i] == "1" for i in range(n)]
    g = api.grid(spec)
    fd = api.call(api.dany.FlowDirections, g, api.array([float(v) for v in base], "f", info.shape))
    c = [api.conc(x) for x in api.flat(api.call(fd.flow_directions))]
    api.call(fd.flow_accumulation)
    o = api.call(api.dany.PrmsStreams, g, fd)
    sa = api.array([int(x) for x in m], "i", info.shape)
    ba = api.array([int(x) for x in b], "i", info.shape)
    r = api.call(o.get_pygsflow_builder_object, stream_array=sa, basin_boundary=ba,
                 group_segments=group, many2many=True)
    num = [api.conc(x) for x in api.flat(api.call(lambda: o.stream_array))]
    api.check("reaches are the stream cells", api.eq(r.nreaches, sum(m)))
    api.check("segments of the network", api.eq(r.nsegments, len(set(
        num[i] for i in range(n) if m[i]))))
    up = [api.conc(x) for x in api.flat(r.hru_up_id)]
    down = [api.conc(x) for x in api.flat(r.hru_down_id)]
    api.check("number of links", api.eq(r.ncascade, len(up)))
    api.check("many to many flag", api.eq(r.cascade_flag, 0))
    for i in range(n):
        lk = [v - 1 for u, v in zip(up, down) if u == i + 1]
        if not b[i]:
            api.check("no links of inactive cells", lk == [], detail=i)
        elif m[i]:
            api.check("stream link", lk == [c[i] if b[c[i]] else i], detail=i)
        else:
            low = [j for j in info.queen[i] if b[j] and base[j] < base[i]]
            s = {j: (base[i] - base[j]) / info.dist(i, j) for j in low}
            big = {j for j in low if s[j] > 0.0101 * sum(s.values())}
            api.check("links downslope", big <= set(lk) <= set(low), detail=i)
    attributes(api, info, r, [float(v) for v in base], c)
    api.observe("links", sorted(zip(up, down)))
    api.reach()


REACH = dict(strhc1=1.0, strthick=1.0)
SEG = dict(etsw=0.0, flow=1.0, icalc=1, iprior=0, pptsw=0.0, roughch=0.025, runoff=0.0,
           width1=10, width2=10)
SLOPES = dict(default_slope=0.001, min_slope=0.0001, max_slope=1)


def body_sfr(api, group=True, given="none", user=(), defaults=True, own=(),
             reject=False, fixed=None, **p):
    info = api.info(p["spec"])
    n = info.n
    z = [float(fixed[i]) if fixed and i in fixed else api.real(f"z{i}", -Z, Z) for i in range(n)]
    info, o, fd, d, m, arg = network(api, dem=z, cls="Sfr2005", **p)
    if api.conc(api.sum([api.num(x) for x in m])) == 0:
        return api.reach()
    vals = {**REACH, **SEG, **SLOPES}
    kw = {}
    for k in user:
        if k in ("icalc", "iprior"):
            v = api.int(k, 0, 4)
        else:
            v = api.real(k, 0.00001, 50)
        vals[k] = kw[k] = v
    api.assume(api.le(vals["min_slope"], vals["default_slope"]))
    api.assume(api.le(vals["default_slope"], vals["max_slope"]))
    if not group:
        kw["group_segments"] = False
    bad = api.pick("unknown keyword", [None, "roughness", "Width1", "k"]) if reject else None
    if bad is not None:
        e = api.raises(o.get_pygsflow_builder_object, **kw, **{bad: 1.0})
        api.check("unknown keyword rejected", isinstance(e, KeyError))
        return api.reach()
    if not defaults:
        kw["apply_defaults"] = False
    if given == "tables":
        kg = {} if group else dict(group_segments=False)
        kw["reach_data"] = api.call(o.reach_data, **kg)
        kw["segment_data"] = api.call(o.segment_data)
        kw["irunbnd"] = api.call(o.irunbnd)
    if own:
        # values the user has put into the tables
        for k in range(len(kw["segment_data"])):
            for j, f in enumerate(own):
                if f in SEG:
                    kw["segment_data"][f][k] = 3 + j
        for k in range(len(kw["reach_data"])):
            for j, f in enumerate(own):
                if f in REACH:
                    kw["reach_data"][f][k] = 3 + j
    r = api.call(o.get_pygsflow_builder_object, **kw)
    graph = api.call(o.get_stream_connectivity, **({} if group else dict(group_segments=False)))
    c, mask, num, g, first = segmented(api, info, o, graph, d, m, group)
    cells = [i for i in range(n) if mask[i]]
    rd, sd, ib = r.reach_data, r.segment_data, api.flat(r.irunbnd)
    seq = sorted((num[i], position(c, first, i), i) for i in cells)
    api.check("one reach record per stream cell", len(rd) == len(cells))
    for k, (s, q, i) in enumerate(seq):
        for f, e in (("iseg", s), ("ireach", q), ("node", i)):
            api.check(f, api.eq(rd[f][k], e), detail=i)
        api.check("reach elevation", near(api, rd["strtop"][k], z[i]), detail=i)
        t = c[i]
        down = t >= 0 and t != i and mask[t]
        if defaults:
            if down:
                e = (z[i] - z[t]) / info.dist(i, t)
                e = api.min(api.max(e, vals["min_slope"]), vals["max_slope"])
            else:
                e = vals["default_slope"]
            api.check("reach slope", near(api, rd["slope"][k], e), detail=i)
            for f in REACH:
                api.check("reach default", near(api, rd[f][k], vals[f]), detail=f)
        else:
            e = (z[i] - z[t]) / (1.5 * info.dist(i, t)) if down else 0.0001
            api.check("reach slope of the table", near(api, rd["slope"][k], e), detail=i)
    rows = [(api.conc(sd["nseg"][k]), api.conc(sd["outseg"][k])) for k in range(len(sd))]
    api.check("every segment once with its out-segment", sorted(rows) == sorted(g.items()))
    if defaults:
        for k in range(len(sd)):
            for f in SEG:
                api.check("segment default", near(api, sd[f][k], vals[f]), detail=(k, f))
    elif own:
        for j, f in enumerate(own):
            for t in (sd if f in SEG else rd)[f]:
                api.check("values of the given tables", api.eq(t, 3 + j), detail=f)
    for i in range(n):
        k = i
        while not mask[k] and c[k] >= 0 and c[k] != k:
            k = c[k]
        api.check("runoff segment", api.eq(ib[i], num[k] if mask[k] else 0), detail=i)
    api.observe("slope~", [rd["slope"][k] for k in range(len(rd))])
    api.observe("irunbnd", ib)
    api.reach()


S22 = "s:rect(2x2;8,5;6,7)"
S23 = "s:rect(2x3;8,5,20;6,7)"
S33 = "s:rect(3x3;8,5,20;6,7,9)"
E23 = "s:rect(2x3;8,8,8;6,6)"
B23 = [960., 840, 720, 600, 480, 360]
LIN = {0: [1, 3, 4], 1: [4], 2: [5, 4], 3: [4], 4: [5], 5: [5]}


def configs(tier):
    out = []

    def add(name, b, **p):
        out.append(dict(name=name, body=b, params=p))
    add("casc-s2x2", body_cascades, spec=S22, bmask="1??1", how="arg")
    add("casc-strip4", body_cascades, spec="u:strip4", bmask="none", group=False, unresolved=True)
    add("casc-tree", body_cascades, spec="v:tree", options=TREE, smask="00?10101",
        bmask="111?1111", how="delineate")
    add("m2m-s2x3", body_m2m, spec=E23, base=B23, smask="0?0?1?", bmask="1??1?1", group=True)
    add("m2m-u", body_m2m, spec="u:hex2x3", base=B23, smask="0?0011", bmask="?11?11", group=False)
    add("sfr-s2x2", body_sfr, spec=S22, how="set", reject=True)
    add("sfr-user", body_sfr, spec=S23, how="delineate", options=LIN, mask="1?1?11",
        user=tuple(REACH) + tuple(SEG))
    add("sfr-slopes", body_sfr, spec=S23, how="set", options=LIN, mask="1?1111", user=tuple(SLOPES), reject=True,
        given="tables")
    add("sfr-cells", body_sfr, spec=S23, how="delineate", options=R23, mask="111111", group=False,
        fixed={0: 30, 2: 90, 5: 2})
    add("sfr-tables", body_sfr, spec=S23, how="set", options=LIN, mask="1?11?1", given="tables",
        defaults=False)
    add("sfr-s3x3", body_sfr, spec=S33, how="set", options={**Y33, 0: [3], 2: [4, 5], 8: [7]},
        mask="111111111", user=("min_slope", "width1", "strhc1"),
        fixed={0: 90, 2: 80, 5: 30, 6: 41, 8: 40})
    add("sfr-own", body_sfr, spec=S23, how="set", options=LIN, mask="1111?1", given="tables",
        own=tuple(REACH) + tuple(SEG), fixed={0: 30, 1: 20, 3: 15, 4: 12, 5: 2},
        user=("width2", "strhc1"))
    add("sfr-own-plain", body_sfr, spec=S23, how="set", options=LIN, mask="1111?1", given="tables",
        own=tuple(REACH) + tuple(SEG), fixed={0: 30, 1: 20, 3: 15, 4: 12, 5: 2}, defaults=False)
    add("casc-tree-p", body_cascades, spec="v:tree@ctpl", options=PTREE, smask="10101?00",
        bmask="1111?111", how="set")
    add("casc-s2x2-m", body_cascades, spec=S22 + "@mlof", bmask="1?11", how="delineate")
    add("m2m-s2x3-m", body_m2m, spec=E23 + "@mlof", base=B23, smask="0?0?1?", bmask="1??111",
        group=False)
    add("sfr-s2x3-lm", body_sfr, spec=S23 + "@lmof", how="delineate", options=LIN, mask="1?1?11")
    add("sfr-far", body_sfr, spec=S23 + "@o", how="set", options=LIN, mask="111111",
        fixed={0: 30, 1: 20, 3: 15, 4: 12})
    if tier == "thorough":
        add("casc-s2x2-all", body_cascades, spec=S22, how="set", group=False)
        add("casc-s2x3", body_cascades, spec=S23, options=R23, smask="0?1?01", bmask="1?1?11")
        add("m2m-s2x3-all", body_m2m, spec=E23, base=B23, smask="??????", bmask="1?????",
            group=False)
        add("sfr-s2x3-all", body_sfr, spec=S23, how="delineate", options=R23)
        add("sfr-s2x3-cells", body_sfr, spec=S23, how="set", options=R23, mask="?1?1?1", group=False,
            user=tuple(SLOPES) + ("roughch",))
        add("sfr-s3x3-user", body_sfr, spec=S33, how="set", options=Y33, mask="111111111",
            user=tuple(SLOPES) + tuple(SEG))
    return out
