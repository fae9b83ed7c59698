"""C17: many-to-one cascades carry each active cell to its receiver."""
from .common import flowdir, forest
from .c12 import R23, TREE, HEX, Y33, PTREE, LONG, COMB, COMBM, FAN, FANM

META = dict(
    bounds="every flow-direction forest, stream mask and basin mask on 4-cell grids, restricted "
           "forests (2-3 receivers per cell) with full or partly symbolic masks on 6 to 9 cells; "
           "streams by cell or grouped; stream array delineated, set or given",
    outside="larger grids, cyclic flow directions, NaN in the masks",
    assumptions=["links are compared as a set: the same link may be listed more than once"])


def masks(api, info, name, pat):
    return [api.bool(f"{name}{i}") if pat is None or pat[i] == "?" else pat[i] == "1"
            for i in range(info.n)]


def prms(api, spec, options, unresolved, smask, bmask, how, skind, bkind, dem=None, d=None):
    info = api.info(spec)
    n = info.n
    if d is None:
        d = forest(api, info, options=options, unresolved=unresolved)
    m = masks(api, info, "s", smask)
    b = masks(api, info, "b", bmask) if bmask != "none" else [True] * n
    acc = [api.If(x, 100.0, 1.0) for x in m]
    fd, g = flowdir(api, spec, fdir=d, facc=acc, dem=dem)
    o = api.call(api.dany.PrmsStreams, g, fd)
    kw = {}
    if bmask != "none":
        # "f": the part of the cell that is inside
        kw["basin_boundary"] = api.array(
            b if bkind == "b" else [api.num(x) * 0.25 for x in b] if bkind == "f" else
            [api.num(x) for x in b], bkind, info.shape)
    arr = api.array(m if skind == "b" else [api.num(x) for x in m], skind, info.shape)
    if how == "delineate":
        api.call(o.delineate_streams, 50)
    elif how == "set":
        api.call(o.set_stream_array, arr)
    else:
        kw["stream_array"] = arr
    return info, o, fd, d, m, b, kw


def body(api, spec, options=None, unresolved=False, smask=None, bmask=None, how="set",
         skind="i", bkind="i", group=None, before=False):
    info, o, fd, d, m, b, kw = prms(api, spec, options, unresolved, smask, bmask, how, skind, bkind)
    n = info.n
    if before:
        api.call(o.get_stream_connectivity, *([kw["stream_array"]] if how == "arg" else []),
                 group_segments=bool(group))
    elif group is not None:
        kw["group_segments"] = group
    up, down, pct, seg = api.call(o.get_cascades, **kw)
    up, down, pct, seg = (api.flat(x) for x in (up, down, pct, seg))
    api.check("equal lengths", len(up) == len(down) == len(pct) == len(seg))
    c = [api.conc(x) for x in d]
    act = [api.decide(x) for x in b]
    mask = [api.decide(x) for x in m]
    num = [api.conc(x) for x in api.flat(api.call(lambda: o.stream_array))]
    exp = {}
    for i in range(n):
        if act[i]:
            t = c[i] if c[i] >= 0 else i
            exp[i + 1] = (t if act[t] else i) + 1
    got = {}
    up = [api.conc(x) for x in up]
    down = [api.conc(x) for x in down]
    for u, v in zip(up, down):
        got.setdefault(u, set()).add(v)
    api.check("a link for exactly the active cells", sorted(got) == sorted(exp))
    for u, v in exp.items():
        api.check("to the receiver (itself at the boundary)", got.get(u) == {v}, detail=u)
    for k in range(len(up)):
        api.check("fraction 1", api.eq(pct[k], 1))
        t = down[k] - 1
        ok = 0 <= t < n
        api.check("stream number of the downslope cell",
                  api.eq(seg[k], num[t] if ok and mask[t] else 0), detail=t)
    for i in range(n):
        api.check("a stream number at each stream cell", (num[i] > 0) == mask[i], detail=i)
    api.observe("links", sorted(zip(up, down)))
    api.observe("numbers", num)
    api.reach()


def configs(tier):
    out = []

    def add(name, **p):
        out.append(dict(name=name, body=body, params=p))
    F22 = {0: [0, 1, 3], 1: [1, 2, 0], 2: [2, 3], 3: [3, 0, 1]}
    add("s2x2-streams", spec="s:2x2", bmask="none", how="arg", unresolved=True)
    add("s2x2-basin", spec="s:2x2", smask="0100", bkind="b")
    add("s2x2-part", spec="s:2x2", options=F22, smask="0110", bkind="f")
    add("s2x2-both", spec="s:2x2", options=F22, how="delineate", skind="i")
    add("strip4-group", spec="u:strip4", group=True, how="set", bkind="b", unresolved=True)
    add("s2x3-basin", spec="s:2x3", options=R23, smask="010011", how="delineate", bmask="?1??1?")
    add("hex-group", spec="v:hex2x3", options=HEX, smask="0?1?11", bmask="1??1??", how="arg",
        group=True, before=True)
    add("tree-basin", spec="v:tree", options=TREE, smask="00010101", bmask="1??11?11", how="set")
    add("s3x3", spec="s:3x3", options=Y33, smask="000010010", bmask="1?11?11?1", skind="b",
        how="arg")
    add("tree-pl", spec="v:tree@pctl", options=PTREE, smask="?11?0?00", bmask="1??11?11",
        how="set")
    add("s2x3-l", spec="s:2x3@lrf", options=R23, smask="0??01?", bmask="1?1?11", how="delineate")
    from .c12 import CHAIN
    out.append(dict(name="strip400", body=body, ticks=10 ** 6, params=dict(
        spec="u:strip400", options={**{i: [i + 1] for i in range(399)}, 399: [399], 200: [201, 200]},
        smask="0" * 200 + "?" + "0" * 198 + "1", bmask="1" * 150 + "?" + "1" * 249)))
    add("strip30", spec="u:strip30@p", options=LONG, smask="0" * 20 + "?00000000?",
        bmask="1" * 12 + "??" + "1" * 16, how="arg")
    add("fan", spec="v:fan12", options=FAN, smask="?0010?0000101", bmask="111?11111?111",
        how="set")
    add("comb", spec="v:2x70", options=COMB, smask=COMBM, bmask="1" * 15 + "?" + "1" * 124)
    if tier == "thorough":
        add("s2x2-all", spec="s:2x2", how="arg", skind="b")
        add("s2x2-all-group", spec="s:2x2", how="arg", group=True)
        add("s2x3-masks", spec="s:2x3", options=R23, smask="0?10?1", how="set", unresolved=True)
        add("tree-masks", spec="u:tree", options=TREE, smask="0001?1?1", how="delineate")
        add("s3x3-masks", spec="s:3x3", options=Y33, smask="0?001001?", bmask="??1?11???")
        add("strip6", spec="u:strip6", smask="001?11")
    return out
