"""C13: MF6 SFR package and connection data are mutually consistent."""
import math
from .common import Z
from .c12 import network, numbered, R23, TREE, HEX, Y33, PTREE, LONG, LONGM, COMB, COMBM, FAN, FANM

META = dict(
    bounds="every flow-direction forest and stream mask on 4-cell grids, restricted forests (2-3 "
           "receivers per cell) with full or partly symbolic masks on 6 to 9 cells of unequal "
           "size; every elevation symbolic in [-1e4, 1e4]; stream array delineated, set or given "
           "as argument, expanded cell ids or tuples",
    outside="larger networks, cyclic flow directions, NaN elevations, floating-point rounding "
            "(reals); elevation drops below 1e-6 may count as 0",
    assumptions=["elevations are real numbers (no rounding)"])


def sides(info, i):
    c = [info.verts[k] for k in info.iverts[i]]
    return [math.dist(c[k - 1], c[k]) for k in range(len(c))]


def near(api, a, b, t=1e-6):
    return api.And(api.le(a - b, t), api.le(b - a, t))


def body(api, detuple=False, order="pkg", zsym=None, **p):
    info = api.info(p["spec"])
    n = info.n
    z = [api.real(f"z{i}", -Z, Z) if zsym is None or i in zsym else 1000.1234567 - 37.0371 * i
         for i in range(n)]
    info, o, fd, d, m, arg = network(api, dem=z, **p)
    if api.conc(api.sum([api.num(x) for x in m])) == 0:
        return api.reach()          # no reaches: nothing to describe
    if order == "conn":
        graph = api.call(o.get_stream_connectivity, *([arg] if arg is not None else []))
        con = api.call(o.connectiondata, graph)
        pkg = api.call(o.packagedata, detuple=detuple)
    elif order == "shuffled":
        # the graph comes back from the user with its reaches in another order
        graph = api.call(o.get_stream_connectivity, *([arg] if arg is not None else []))
        ks = list(graph)[::-1]
        ks = ks[1::2] + ks[::2]
        con = api.call(o.connectiondata, {k: graph[k] for k in ks})
        pkg = api.call(o.packagedata, detuple=detuple)
    elif order == "conn0":
        if arg is not None:
            api.call(o.set_stream_array, arg)
        con = api.call(o.connectiondata)
        pkg = api.call(o.packagedata, detuple=detuple)
        graph = api.call(o.get_stream_connectivity)
    else:
        pkg = api.call(o.packagedata, arg, detuple) if arg is not None else \
            api.call(o.packagedata, detuple=detuple)
        con = api.call(o.connectiondata)
        graph = api.call(o.get_stream_connectivity)
    c, mask, num, g = numbered(api, info, o, graph, d, m)
    nr = sum(mask)
    node = {num[i]: i for i in range(n) if mask[i]}
    # ---- connection data
    rec = [[api.conc(v) for v in r] for r in con]
    api.check("one connection record per reach, ascending",
              [r[0] for r in rec] == list(range(nr)))
    for r in rec:
        k = r[0] + 1
        exp = [u - 1 for u, t in g.items() if t == k and u != k]
        if g[k] not in (0, k):
            exp.append(-(g[k] - 1))
        api.check("connections", sorted(r[1:]) == sorted(exp), detail=k)
    # ---- package data
    api.check("one package record per reach", len(pkg) == nr)
    for ix in range(nr):
        k = ix + 1
        i = node[k]
        j = node[g[k]] if g[k] else i
        api.check("reach number", api.eq(pkg["ifno"][ix], ix), detail=ix)
        if p["spec"][0] == "s":
            cid = (0,) + tuple(info.lrc(i))
            names = ("k", "i", "j")
        elif p["spec"][0] == "v":
            cid, names = (0, i), ("k", "node")
        else:
            cid, names = (i,), ("node",)
        if detuple:
            got = [pkg[nm][ix] for nm in names]
        else:
            got = list(pkg["cellid"][ix])
        api.check("cell id", len(got) == len(cid) and
                  api.And(*[api.eq(a, b) for a, b in zip(got, cid)]), detail=ix)
        api.check("number of connections", api.eq(pkg["ncon"][ix], len(rec[ix]) - 1), detail=ix)
        api.check("reach top", api.eq(pkg["rtp"][ix], z[i]), detail=ix)
        rl = pkg["rlen"][ix]
        api.check("positive length", api.lt(0, rl), detail=ix)
        if j != i:
            api.check("reach length", near(api, rl, 1.5 * info.dist(i, j)), detail=ix)
        else:
            s = sides(info, i)
            api.check("length at an outlet", api.And(
                api.le(1.5 * min(s), rl), api.le(rl, 1.5 * max(s))), detail=ix)
        to = c[i] if c[i] >= 0 else i
        e = (z[i] - z[to]) / info.dist(i, to) / 1.5 if to != i else 0.0
        gr = pkg["rgrd"][ix]
        if to == i:
            api.check("gradient at an outlet", near(api, gr, 0), detail=ix)
        else:
            # drops below the digital threshold may be set to 0
            api.check("gradient", near(api, gr, e, 1e-6 * (1 + 1 / info.dist(i, to))), detail=ix)
    api.observe("con", rec)
    for f in ("ifno", "rlen", "rgrd", "rtp", "ncon"):
        api.observe(f, [pkg[f][ix] for ix in range(nr)])
    api.reach()


def configs(tier):
    out = []

    def add(name, **p):
        out.append(dict(name=name, body=body, params=p))
    S22 = "s:rect(2x2;8,5;6,7)"
    S23 = "s:rect(2x3;8,5,20;6,7)"
    add("s2x2-arg", spec=S22)
    add("strip4-set", spec="u:strip4", how="set", unresolved=True, detuple=True)
    add("s2x3", spec=S23, how="delineate", options=R23, mask="?111?1", detuple=True, order="conn")
    add("hex-arg", spec="v:hex2x3", kind="b", options=HEX, order="conn0", mask="?1111?")
    add("tree-all", spec="v:tree", options=TREE, mask="1111?111", detuple=True)
    add("s3x3-shuffled", spec="s:3x3", options=Y33, mask="11111111?", order="shuffled")
    add("tree-shuffled", spec="v:tree", options=TREE, mask="1?111111", order="shuffled", how="set")
    add("tree-u", spec="u:tree", options=TREE, mask="11111111", order="conn")
    add("s3x3-all", spec="s:3x3", options=Y33, mask="111111111", order="conn0")
    add("tree-pl", spec="v:tree@pctl", options=PTREE, mask="1111?111", order="conn")
    add("s2x3-lm", spec=S23 + "@lmf", options=R23, mask="11?111", how="delineate", detuple=True)
    add("u2x3-pm", spec="u:rect(2x3;8,5,20;6,7)@pmco", options=R23, mask="1111?1", order="conn0")
    add("v2x3-lm", spec="v:rect(2x3;8,5,20;6,7)@lo", options=R23, mask="1111?1", how="set")
    add("strip30", spec="u:strip30@p", options=LONG, mask=LONGM)
    add("fan", spec="v:fan12", options=FAN, mask=FANM, how="set", zsym=[0, 4, 9], detuple=True)
    add("comb", spec="s:2x70", options=COMB, mask=COMBM, zsym=[20, 90])
    if tier == "thorough":
        add("s2x2-del", spec=S22, how="delineate", unresolved=True, order="conn")
        add("s2x3-full", spec=S23, mask="111111")
        add("s2x3-masks", spec=S23, options=R23, detuple=True)
        add("tree-masks", spec="v:tree", options=TREE, order="conn")
        add("hex-masks", spec="u:hex2x3", how="set", options=HEX, unresolved=True)
        add("s3x3-masks", spec="s:3x3", options=Y33, how="set", mask="?1?111?1?")
    return out
