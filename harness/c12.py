"""C12: MF6 reach numbering is a bijection that follows the flow."""
from .common import flowdir, forest, fixed_map

META = dict(
    bounds="every flow-direction forest and every stream mask on 4-cell grids, restricted forests "
           "(2-3 receivers per cell) with every mask on 6 to 8 cells; masks given as integer or "
           "boolean arrays, as argument, custom array or delineated; classes Sfr6 and PrmsStreams; "
           "one 182x182 grid (33124 cells, fixed but for one symbolic flow direction and one symbolic mask flag)",
    outside="networks larger than these (the largest: a chain of 1200 reaches under Python's default "
            "recursion limit), cyclic flow directions, NaN in the stream array")


def network(api, spec, options=None, unresolved=False, mask=None, cls="Sfr6", how="arg",
            kind="i", val=1, dem=None):
    """stream object over a symbolic forest with a symbolic stream mask ->
    (info, object, forest, mask, call argument)"""
    info = api.info(spec)
    n = info.n
    d = forest(api, info, options=options, unresolved=unresolved)
    m = [api.bool(f"s{i}") if mask is None or mask[i] == "?" else mask[i] == "1"
         for i in range(n)]
    if how == "delineate":
        acc = [api.If(x, 100.0, 1.0) for x in m]
        fd, g = flowdir(api, spec, fdir=d, facc=acc, dem=dem)
    else:
        fd, g = flowdir(api, spec, fdir=d, facc=[1.0] * n, dem=dem)
    o = api.call(getattr(api.dany, cls), g, fd)
    arg = None
    if how == "delineate":
        api.call(o.delineate_streams, 50)
    else:
        if kind == "nan":
            m = [api.decide(x) for x in m]
            arr = api.array([1.0 if x else float("nan") for x in m], "f", info.shape)
        else:
            arr = api.array(m if kind == "b" else [api.num(x) * val for x in m], kind,
                            info.shape)
        if how == "set":
            api.call(o.set_stream_array, arr)
        else:
            arg = arr
    return info, o, fd, d, m, arg


def numbered(api, info, o, graph, d, m):
    """the C12 obligations; returns the concrete forest, mask and numbers"""
    n = info.n
    num = api.flat(api.call(lambda: o.stream_array))
    api.check("shape", len(num) == n)
    mask = [api.decide(x) for x in m]
    c = [api.conc(x) for x in d]
    num = [api.conc(x) for x in num]
    cells = [i for i in range(n) if mask[i]]
    api.check("one number per stream cell, no gaps",
              sorted(num[i] for i in cells) == list(range(1, len(cells) + 1)))
    api.check("0 elsewhere", all(num[i] == 0 for i in range(n) if not mask[i]))
    g = {int(k): api.conc(v) for k, v in graph.items()}
    api.check("one entry per reach", sorted(g) == list(range(1, len(cells) + 1)))
    for i in cells:
        to = num[c[i]] if c[i] >= 0 and mask[c[i]] else 0
        api.check("flows to the receiver's reach", g.get(num[i]) == to, detail=i)
        if to and c[i] != i:
            api.check("numbers increase downstream", num[i] < to, detail=i)
    api.observe("numbers", num)
    api.observe("graph", sorted(g.items()))
    return c, mask, num, g


def body(api, **p):
    info, o, fd, d, m, arg = network(api, **p)
    before = list(api.flat(arg)) if arg is not None else None
    if arg is None:
        graph = api.call(o.get_stream_connectivity)
    else:
        graph = api.call(o.get_stream_connectivity, arg)
    numbered(api, info, o, graph, d, m)
    if arg is not None:
        for x, y in zip(before, api.flat(arg)):
            api.check("argument unaltered", api.eq(x, y))
    api.reach()


R23 = {0: [0, 1, 3, 4], 1: [2, 4, 5], 2: [1, 5], 3: [4, 0], 4: [5, 1], 5: [5, 4]}
TREE = {0: [1, 3], 1: [2, 4], 2: [5, 2], 3: [4, 6], 4: [5, 3], 5: [5, 7], 6: [7], 7: [4, 7]}
HEX = {0: [1, 3], 1: [4], 2: [1, 5], 3: [3, 4], 4: [4, 5], 5: [4, 5]}
Y33 = {0: [3, 4], 1: [4], 2: [4, 5], 3: [4, 6], 4: [7], 5: [7, 8], 6: [7], 7: [7], 8: [7, 8]}

# the tree grid numbered in reverse
PTREE = {7 - k: [7 - v for v in o] for k, o in TREE.items()}
# a corridor of 30 cells with two places where the direction varies
LONG = {**{i: [i + 1] for i in range(29)}, 29: [29], 7: [8, 6, 7], 15: [16, 15]}
LONGM = "111?11111?1111111111?11111111?"
# two rows of cells, the upper one draining into the lower one: 140 reaches and 139 segments in
# two rows of 70
def comb(n):
    return {**{i: [i + n] for i in range(n)}, **{n + i: [n + 1 + i] for i in range(n - 1)},
            2 * n - 1: [2 * n - 1], 20: [n + 20, n + 21], 5: [n + 4, n + 5]}


COMB = comb(70)
COMBM = "1" * 40 + "?" + "1" * 98 + "?"
# a hub with twelve neighbours
FAN = {0: [0, 4], **{i: [0] for i in range(1, 13)}, 1: [0, 12], 4: [0, 4, 5], 9: [0, 9, 10]}
FANM = "11?111111?111"


# a chain of 1200 cells with one place where the direction varies
CHAIN = {**{i: [i + 1] for i in range(1199)}, 1199: [1199], 700: [701, 700]}
CHAINM = "1" * 10 + "?" + "1" * 1189


def configs(tier):
    out = []

    def add(name, **p):
        out.append(dict(name=name, body=body, params=p))
    add("s2x2-arg", spec="s:2x2", val=3)
    add("strip4-set", spec="u:strip4", how="set", cls="PrmsStreams", kind="b", unresolved=True)
    add("s2x3-set", spec="s:2x3", how="set", options=R23)
    add("hex-arg-b", spec="v:hex2x3", kind="b", options=HEX)
    add("s2x3-delineate", spec="s:2x3", how="delineate", options=R23, cls="PrmsStreams",
        mask="?1??11")
    add("tree-all", spec="v:tree", options=TREE, mask="11111111")
    add("s3x3-all", spec="s:3x3", options=Y33, mask="111111111", kind="b")
    add("tree-pl", spec="v:tree@pctl", options=PTREE, mask="?1111111", how="set")
    add("s2x3-l", spec="s:2x3@lrf", options=R23, mask="11?11?", how="delineate")
    add("strip30", spec="u:strip30@p", options=LONG, mask=LONGM)
    add("fan", spec="u:fan12", options=FAN, mask=FANM, how="set")
    add("comb", spec="s:2x70", options=COMB, mask=COMBM)
    out.append(dict(name="strip1200", body=body, recursion=1100, ticks=200000,
                    params=dict(spec="u:strip1200", options=CHAIN, mask=CHAINM)))
    # more cells than a 16-bit index can number
    out.append(dict(name="s182x182", body=body, ticks=10 ** 7, params=dict(
        spec="s:182x182", options=fixed_map(182, 182, {32900: [32901, 33083]}),
        mask="1" * 33000 + "?" + "1" * 123)))
    if tier == "thorough":
        add("s2x2-del-prms", spec="s:2x2", how="delineate", cls="PrmsStreams", unresolved=True)
        add("s2x3-all", spec="s:2x3", mask="111111")
        add("s2x3-masks", spec="s:2x3", mask="?1?11?")
        add("tree-masks", spec="u:tree", options=TREE, kind="b")
        add("s3x3-masks", spec="s:3x3", options=Y33, how="set")
        add("strip6", spec="u:strip6")
    return out
