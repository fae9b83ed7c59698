"""C14: SFR2 segments partition the stream and break at confluences."""
from .c12 import network, R23, TREE, HEX, Y33, PTREE, LONG, LONGM, COMB, COMBM, FAN, FANM, comb

META = dict(
    bounds="every flow-direction forest and every stream mask on 4-cell grids, restricted forests "
           "(2-3 receivers per cell) with full or partly symbolic masks on 6 to 9 cells; grouped "
           "and ungrouped; stream array delineated, set or given as argument; reach numbers on "
           "structured grids (through the reach table)",
    outside="larger networks, cyclic flow directions, NaN in the stream array")


def segments(api, info, c, mask, group, got=None):
    """oracle: cell -> first cell of its segment (walking upstream). A
    self-draining outlet with one inflow may or may not start its own segment:
    decided by the numbers actually given (got)"""
    cells = [i for i in range(info.n) if mask[i]]
    if not group:
        return {i: i for i in cells}
    ups = {i: [j for j in cells if c[j] == i and j != i] for i in cells}
    first = {}
    for i in cells:
        k = i
        while len(ups[k]) == 1:
            if c[k] == k and got is not None and got[k] != got[ups[k][0]]:
                break
            k = ups[k][0]
        first[i] = k
    return first


def segmented(api, info, o, graph, d, m, group):
    """the C14 obligations; returns concrete forest, mask, segment numbers and
    the out-segment of every segment"""
    n = info.n
    num = api.call(lambda: o.stream_array)
    api.check("shape", tuple(num.shape) == tuple(info.shape))
    num = api.flat(num)
    mask = [api.decide(x) for x in m]
    c = [api.conc(x) for x in d]
    num = [api.conc(x) for x in num]
    cells = [i for i in range(n) if mask[i]]
    first = segments(api, info, c, mask, group, num)
    ns = len(set(first.values()))
    api.check("0 off the stream", all(num[i] == 0 for i in range(n) if not mask[i]))
    api.check("segments numbered 1..n", set(num[i] for i in cells) == set(range(1, ns + 1)))
    for i in cells:
        for j in cells:
            if i < j:
                api.check("same segment", (num[i] == num[j]) == (first[i] == first[j]),
                          detail=(i, j))
    g = {int(api.conc(k)): api.conc(v) for k, v in graph.items()}
    api.check("one entry per segment", sorted(g) == list(range(1, ns + 1)))
    for i in cells:
        t = c[i]
        if t == i:
            api.check("self-draining outlet", g.get(num[i]) in (0, num[i]), detail=i)
        elif t < 0 or not mask[t]:
            api.check("leaves the network", g.get(num[i]) == 0, detail=i)
        elif first[t] != first[i]:
            api.check("out-segment", g.get(num[i]) == num[t], detail=i)
            api.check("numbers increase downstream", num[i] < num[t], detail=i)
    api.observe("numbers", num)
    api.observe("graph", sorted(g.items()))
    return c, mask, num, g, first


def position(c, first, i):
    """1-based reach number of a stream cell"""
    k, r = first[i], 1
    while k != i:
        k, r = c[k], r + 1
    return r


def connect(api, o, arg, group, cls):
    a = [arg] if arg is not None else []
    if cls == "PrmsStreams":
        return api.call(o.get_stream_connectivity, *a, group_segments=group)
    if group:
        return api.call(o.get_stream_connectivity, *a)
    return api.call(o.get_stream_connectivity, *a, group_segments=False)


def body(api, group=True, reaches=True, **p):
    p.setdefault("cls", "Sfr2005")
    info, o, fd, d, m, arg = network(api, **p)
    before = list(api.flat(arg)) if arg is not None else None
    if api.conc(api.sum([api.num(x) for x in m])) == 0:
        return api.reach()
    graph = connect(api, o, arg, group, p["cls"])
    c, mask, num, g, first = segmented(api, info, o, graph, d, m, group)
    if arg is not None:
        for x, y in zip(before, api.flat(arg)):
            api.check("argument unaltered", api.eq(x, y))
    if reaches and p["spec"][0] == "s" and p["cls"] == "Sfr2005":
        rd = api.call(o.reach_data)
        rows = [(api.conc(rd["node"][k]), api.conc(rd["iseg"][k]), api.conc(rd["ireach"][k]))
                for k in range(len(rd))]
        exp = [(i, num[i], position(c, first, i)) for i in range(info.n) if mask[i]]
        api.check("reaches consecutive along the flow", sorted(rows) == sorted(exp))
    api.reach()


def configs(tier):
    out = []

    def add(name, **p):
        out.append(dict(name=name, body=body, params=p))
    add("s2x2-grouped", spec="s:2x2", val=4)
    add("s2x2-cells", spec="s:2x2", group=False, how="set")
    add("strip4-prms", spec="u:strip4", how="set", cls="PrmsStreams", kind="b", unresolved=True)
    add("s2x3-grouped", spec="s:2x3", how="delineate", options=R23, mask="1?1111")
    add("s2x3-cells", spec="s:2x3", options=R23, mask="1111?1", group=False)
    add("hex-grouped", spec="v:hex2x3", kind="b", options=HEX)
    add("tree-grouped", spec="v:tree", options=TREE, mask="11111111", how="set")
    add("tree-cells", spec="u:tree", options=TREE, mask="11111111", group=False, kind="b")
    add("s3x3-grouped", spec="s:3x3", options=Y33, mask="111111111")
    add("s3x3-prms", spec="s:3x3", options=Y33, mask="11111?111", cls="PrmsStreams")
    add("tree-pl", spec="v:tree@pctl", options=PTREE, mask="?1111111", how="set")
    add("s2x3-l", spec="s:2x3@lrf", options=R23, mask="11?11?", how="delineate", group=False)
    add("strip30", spec="u:strip30@p", options=LONG, mask=LONGM)
    add("strip30-cells", spec="u:strip30@p", options=LONG, mask=LONGM, group=False)
    from .c12 import CHAIN, CHAINM
    out.append(dict(name="strip1200", body=body, ticks=10 ** 6, params=dict(
        spec="s:1x1200", options=CHAIN, mask=CHAINM)))
    add("fan", spec="v:fan12", options=FAN, mask=FANM)
    add("comb", spec="s:2x70", options=COMB, mask=COMBM)
    # more segments than a byte can number
    add("comb-wide", spec="s:2x130", options=comb(130), mask="1" * 259 + "?")
    add("comb-cells", spec="u:2x70", options=COMB, mask=COMBM, group=False, kind="b", cls="PrmsStreams")
    if tier == "thorough":
        add("strip4-cells-b", spec="v:strip4", group=False, kind="b", unresolved=True)
        add("s2x3-all", spec="s:2x3", mask="111111")
        add("s2x3-all-cells", spec="s:2x3", mask="111111", group=False)
        add("s2x3-masks", spec="s:2x3", options=R23, how="set", unresolved=True)
        add("tree-masks", spec="v:tree", options=TREE)
        add("s3x3-masks", spec="s:3x3", options=Y33, how="set")
        add("strip6", spec="u:strip6", cls="PrmsStreams")
    return out
