"""C18: many-to-many cascades conserve flow and stay downslope and active."""
from .common import Z
from .c17 import masks

META = dict(
    bounds="grids of 4 to 13 cells and one of 260: the elevations named in the configuration symbolic (others "
           "fixed), every strictly draining surface among them, with the stream and basin masks "
           "named symbolic; flow directions computed by the code itself",
    outside="larger grids, surfaces with flats or pits, NaN elevations, floating-point rounding "
            "(reals)",
    assumptions=["elevations are real numbers (no rounding)",
                 "lower neighbours with at most 1 percent of the outflow may be left out"])


def surface(api, info, spec, sym, base, options, chain):
    """a strictly draining surface with its flow directions"""
    n = info.n
    z = [api.real(f"z{i}", -Z, Z) if sym == "all" or i in sym else float(base[i])
         for i in range(n)]
    lo = min(range(n), key=lambda i: base[i])
    for i in range(n):
        if i != lo:
            # strictly draining: a neighbour lower by more than any digital threshold
            api.assume(api.Or(*[api.le(z[j] + 0.01, z[i]) for j in info.queen[i]]))
            api.assume(api.lt(z[lo], z[i]))
    g = api.grid(spec)
    if chain:
        fd = api.call(api.dany.FlowDirections, g, api.array(z, "f", info.shape))
        f = api.flat(api.call(fd.flow_directions))
        return z, g, fd, f
    fd = api.call(api.dany.FlowDirections, g, api.array([float(v) for v in base], "f", info.shape))
    api.call(fd.flow_directions)
    f = []
    for i in range(n):
        o = options.get(i, info.queen[i]) if options else info.queen[i]
        j = lo if i == lo else api.conc(api.choice(f"d{i}", sorted(o)) if len(o) > 1 else o[0])
        f.append(j)
        if i != lo:
            # the receiver is the steepest neighbour
            for k in info.queen[i]:
                if k != j:
                    api.assume(api.lt((z[i] - z[k]) / info.dist(i, k),
                                      (z[i] - z[j]) / info.dist(i, j)))
    api.set_internal(fd, _dem=api.array(z + [1e10]), _fdir=api.array(f, "i"))
    return z, g, fd, f


def body(api, spec, sym, base, options=None, land=None, smask=None, bmask=None, how="set",
         bkind="i", group=None, chain=False, tol=0):
    info = api.info(spec)
    n = info.n

    def equal(a, b):
        # tol: cell distances that are no exact numbers
        if isinstance(a, float) and isinstance(b, float):
            return abs(a - b) <= 1e-9
        return api.eq(a, b) if not tol else api.And(api.le(a - b, tol), api.le(b - a, tol))
    if land is not None:
        k = api.pick("land", land)
        smask = "".join("0" if i in k else "1" for i in range(n))
    z, g, fd, f = surface(api, info, spec, sym, base, options, chain)
    m = masks(api, info, "s", smask)
    b = masks(api, info, "b", bmask) if bmask != "none" else [True] * n
    api.set_internal(fd, _facc=api.array([api.If(x, 100.0, 1.0) for x in m]))
    o = api.call(api.dany.PrmsStreams, g, fd)
    kw = {}
    if bmask != "none":
        kw["basin_boundary"] = api.array(
            b if bkind == "b" else [api.If(x, 0.25, 0.0) for x in b] if bkind == "f" else
            [api.num(x) for x in b], bkind, info.shape)
    if how == "delineate":
        api.call(o.delineate_streams, 50)
    else:
        arr = api.array([api.num(x) for x in m], "i", info.shape)
        if how == "set":
            api.call(o.set_stream_array, arr)
        else:
            kw["stream_array"] = arr
    if group is not None:
        kw["group_segments"] = group
    up, down, pct, seg = api.call(o.get_cascades, many2many=True, **kw)
    up, down, pct, seg = (api.flat(x) for x in (up, down, pct, seg))
    api.check("equal lengths", len(up) == len(down) == len(pct) == len(seg))
    up = [api.conc(x) - 1 for x in up]
    down = [api.conc(x) - 1 for x in down]
    c = [api.conc(x) for x in f]
    act = [api.decide(x) for x in b]
    mask = [api.decide(x) for x in m]
    num = [api.conc(x) for x in api.flat(api.call(lambda: o.stream_array))]
    links = {}
    for k, u in enumerate(up):
        links.setdefault(u, []).append((down[k], pct[k]))
        ok = 0 <= down[k] < n
        api.check("stream number of the downslope cell",
                  api.eq(seg[k], num[down[k]] if ok and mask[down[k]] else 0), detail=u)
    api.check("no links from inactive cells", all(0 <= u < n and act[u] for u in links))
    for i in range(n):
        if not act[i]:
            continue
        L = links.get(i, [])
        if mask[i]:
            t = c[i] if act[c[i]] else i
            api.check("one link of a stream cell", len(L) == 1 and L[0][0] == t, detail=i)
            if L:
                api.check("fraction 1 of a stream cell", api.eq(L[0][1], 1), detail=i)
            continue
        to = [v for v, _ in L]
        api.check("distinct active neighbours", len(set(to)) == len(to) and
                  all(v in info.queen[i] and act[v] for v in to), detail=i)
        if any(v not in info.queen[i] for v in to):
            continue
        for v, p in L:
            api.check("not higher", api.le(z[v], z[i]), detail=(i, v))
            api.check("positive fraction", api.lt(0, p), detail=(i, v))
        if L:
            api.check("sum to 1", equal(api.sum([p for _, p in L]), 1), detail=i)
        s = {v: (z[i] - z[v]) / info.dist(i, v) for v in info.queen[i]}
        for (v, p), (w, q) in zip(L, L[1:]):
            api.check("proportional to the gradients",
                      equal(p * s[w], q * s[v]), detail=(i, v, w))
        # every lower active neighbour with more than 1% of the outflow has a link
        low = [v for v in info.queen[i] if act[v]]
        tot = api.sum([api.max(s[v], 0) for v in low]) if low else 0
        for v in low:
            if v not in to:
                api.check("no missing link", api.le(s[v] * 100, tot * 1.000001 + 1e-9), detail=(i, v))
        if low and not L:
            api.check("lower neighbours are linked", api.Not(api.lt(0.005, tot)), detail=i)
    api.observe("links", sorted(zip(up, down)))
    api.reach()


E22 = "s:rect(2x2;8,8;6,6)"
E23 = "s:rect(2x3;8,8,8;6,6)"
E33 = "s:rect(3x3;8,8,8;6,6,6)"
B22 = [480., 240, 360, 0]
B23 = [960., 840, 720, 600, 480, 360]
B33 = [960., 840, 960, 720, 600, 720, 480, 0, 480]


def configs(tier):
    out = []

    def add(name, **p):
        out.append(dict(name=name, body=body, params=p))
    add("s2x2-land", spec=E22, sym="all", base=B22, land=[[0], [1], [2], [3]], bmask="none")
    add("s2x2-basin", spec=E22, sym=[0, 2], base=B22, land=[[0], [1], [2]], how="arg")
    add("s2x2-part", spec=E22, sym=[0, 1], base=B22, smask="0010", bmask="1??1", bkind="f")
    add("s2x2-chain", spec=E22, sym=[0, 1], base=B22, smask="0010", bmask="1??1", bkind="b",
        chain=True)
    add("s2x3-land", spec=E23, sym=[0, 2, 4], base=B23, land=[[1], [4], [0, 2]],
        options={0: [3, 4], 1: [3, 4], 2: [4, 5], 3: [4]}, bmask="none", how="delineate")
    add("s2x3-basin", spec=E23, sym=[1, 4], base=B23, smask="100001", bmask="1?1?1?",
        options={0: [3, 4], 1: [4, 5], 2: [4, 5], 3: [4]}, bkind="b")
    add("s3x3-centre", spec=E33, sym=[4, 5], base=B33, land=[[4]], bmask="1?11?1??1",
        options={0: [3], 1: [4, 3], 2: [5], 3: [7], 4: [7], 5: [7, 4], 6: [7], 8: [7]})
    add("strip4-streams", spec="u:strip4", sym="all", base=[40., 30, 20, 10], group=True)
    add("s2x2-lm", spec=E22 + "@lmof", sym=[0, 1, 2], base=B22, land=[[0], [1], [2]], how="arg")
    add("u2x3-p", spec="u:rect(2x3;8,8,8;6,6)@pcm", sym=[1, 4], base=B23[::-1], smask="100001",
        bmask="?1?1?1", options={1: [0, 1], 3: [0, 1], 4: [1, 2], 5: [1, 2], 2: [1]})
    # a summit with lower neighbours all around
    HZ = [2400.0] + [1200.0 - 90 * i for i in range(12)]
    add("fan", spec="u:fan12", tol=1e-9, sym=[4], base=HZ, land=[[0]], bmask="111?11111?111",
        options={0: [4, 12], 1: [12], **{i: [i + 1] for i in range(2, 12)}})
    # stream numbers of more than a byte
    W = [5.0 * i + 3 for i in range(130)] + [5.0 * i for i in range(130)]
    add("comb-wide", spec="u:rect(2x130;" + ",".join(["8"] * 130) + ";6,6)", tol=1e-9, sym=[60],
        base=W, smask="0" * 130 + "1" * 130, bmask="none", how="arg",
        options={**{i: [i + 129] for i in range(1, 130)}, 0: [130], **{130 + i: [129 + i] for i in range(1, 130)}})
    if tier == "thorough":
        add("s2x2-all-land", spec=E22, sym="all", base=B22, smask="0000", bmask="none")
        add("s2x2-all-masks", spec=E22, sym="all", base=B22, how="arg")
        add("s2x3-wide", spec=E23, sym="all", base=B23, land=[[1], [4], [0]], bmask="none",
            options={0: [3, 4], 1: [3, 4, 5], 2: [4, 5], 3: [4, 5]}, how="delineate")
        add("hex-land", spec="u:hex2x3", sym="all", base=B23, land=[[1], [3], [4]], bmask="none",
            options={0: [3, 1], 1: [3, 4], 2: [4, 5], 3: [4], 4: [5]})
        add("tree-land", spec="v:tree", sym=[4], base=[90., 80, 70, 60, 50, 40, 30, 20],
            land=[[3], [4]], bmask="1?111111", chain=True)
        add("s3x3-centre-wide", spec=E33, sym=[1, 4, 5], base=B33, land=[[4]],
            bmask="11111?111",
            options={0: [3, 4], 1: [4, 3], 2: [5], 3: [7, 4], 4: [7], 5: [7, 4], 6: [7], 8: [7]})
    return out
