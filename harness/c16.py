"""C16: the runoff array routes every cell to the first stream segment downstream."""
from .c12 import network, R23, TREE, HEX, Y33, PTREE, LONG, COMB, COMBM, FAN, FANM, comb
from .c14 import segmented, connect

META = dict(
    bounds="every flow-direction forest and every stream mask on 4-cell grids, restricted forests "
           "(2-3 receivers per cell) with symbolic or partly symbolic masks on 6 to 9 cells; "
           "grouped and ungrouped; stream array delineated, set or given, connectivity computed "
           "before or by the call, or the segment graph handed over with "
           "the numbers (0 or NaN off the streams)",
    outside="larger networks, cyclic flow directions, NaN in an unnumbered stream array")


def body(api, group=True, order="call", **p):
    p.setdefault("cls", "Sfr2005")
    info, o, fd, d, m, arg = network(api, **p)
    n = info.n
    if api.conc(api.sum([api.num(x) for x in m])) == 0:
        return api.reach()
    a = [arg] if arg is not None else []
    kw = {} if group else dict(group_segments=False)
    if order == "call":
        r = api.call(o.irunbnd, *a, **kw)
        graph = connect(api, o, arg, group, "Sfr2005")
    elif order == "before":
        graph = connect(api, o, arg, group, "Sfr2005")
        r = api.call(o.irunbnd)
    elif order == "before-arg":
        graph = connect(api, o, arg, group, "Sfr2005")
        r = api.call(o.irunbnd, *a)
    elif order == "graph-nan":
        # the numbered network as a float array, no value (NaN) off the streams
        graph = connect(api, o, arg, group, "Sfr2005")
        num = [api.conc(x) for x in api.flat(api.call(lambda: o.stream_array))]
        sa = api.array([float(x) if x else float("nan") for x in num], "f", info.shape)
        r = api.call(o.irunbnd, stream_array=sa, segment_graph=graph)
    else:
        graph = connect(api, o, arg, group, "Sfr2005")
        r = api.call(o.irunbnd, stream_array=o.stream_array, segment_graph=graph)
    api.check("shape", tuple(r.shape) == tuple(info.shape))
    r = api.flat(r)
    c, mask, num, g, first = segmented(api, info, o, graph, d, m, group)
    for i in range(n):
        k, steps = i, 0
        while not mask[k] and c[k] >= 0 and c[k] != k:
            k = c[k]
        e = num[k] if mask[k] else 0
        api.check("first segment downstream", api.eq(r[i], e), detail=i)
    api.observe("irunbnd", r)
    api.reach()


def configs(tier):
    out = []

    def add(name, **p):
        out.append(dict(name=name, body=body, params=p))
    S23F = {0: [0, 1, 3], 1: [2, 4], 2: [2, 1, 5], 3: [4, 0], 4: [5, 1], 5: [5, 4]}
    add("s2x2-arg", spec="s:2x2", val=2)
    add("strip4-cells", spec="v:strip4", group=False, how="set", unresolved=True, order="before")
    add("s2x3", spec="s:2x3", options=S23F, kind="b")
    add("s2x3-graph", spec="s:2x3", options=S23F, mask="??0??1", order="graph", how="delineate")
    add("s2x3-graph-nan", spec="s:2x3", options=S23F, mask="?00??1", order="graph-nan")
    add("tree-graph-nan", spec="u:tree", options=TREE, mask="0?01???1", order="graph-nan",
        how="set", group=False)
    add("s2x3-cells", spec="s:2x3", options=S23F, mask="0?1???", group=False, order="before-arg")
    add("hex", spec="u:hex2x3", options=HEX, how="delineate")
    add("tree", spec="v:tree", options=TREE, mask="0?01???1", how="set")
    add("s3x3", spec="s:3x3", options=Y33, mask="0?0?1??1?", order="before")
    add("tree-pl", spec="v:tree@pctl", options=PTREE, mask="?11?0?00", how="set")
    add("s2x3-l", spec="s:2x3@lrf", options=R23, mask="0??01?", how="delineate")
    add("strip30", spec="u:strip30@p", options=LONG, mask="0" * 20 + "?00000000?")
    from .c12 import CHAIN
    out.append(dict(name="strip1200", body=body, ticks=10 ** 6, params=dict(
        spec="u:strip1200", options=CHAIN, mask="0" * 1150 + "?" + "0" * 48 + "1")))
    add("strip30-cells", spec="s:1x30@mf", options=LONG, mask="00?0" + "0" * 25 + "1", group=False,
        order="before")
    add("fan", spec="v:fan12", options=FAN, mask="?0010?0000101", how="set")
    add("comb", spec="v:2x70", options=COMB, mask=COMBM)
    # more segments than a byte can number
    add("comb-wide", spec="s:2x130", options=comb(130), mask="1" * 260)
    add("comb-cells", spec="s:2x70", options=COMB, mask=COMBM, group=False, order="before")
    if tier == "thorough":
        add("s2x2-cells", spec="s:2x2", group=False, how="set", unresolved=True)
        add("s2x3-all", spec="s:2x3", mask="0?1?01")
        add("s2x3-masks", spec="s:2x3", options=R23, how="set", unresolved=True)
        add("tree-masks", spec="u:tree", options=TREE, order="graph")
        add("s3x3-masks", spec="s:3x3", options=Y33)
        add("strip6", spec="u:strip6", order="before")
    return out
