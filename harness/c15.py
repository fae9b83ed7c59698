"""C15: SFR2 reach and segment tables describe the network's cells."""
from .common import Z
from .c12 import network, R23, Y33, COMB, COMBM
from .c14 import segmented, position, connect

META = dict(
    bounds="structured grids with unequal cell sizes; every flow-direction forest and stream mask "
           "on 2x2 cells, restricted forests (2-3 receivers per cell) with full or partly symbolic "
           "masks on 2x3 and 3x3 cells; every elevation (part of them on more "
           "than 6 cells) symbolic in [-1e4, 1e4]; grouped and "
           "ungrouped; tables built from a delineated, set or given stream array, before or after "
           "the connectivity was requested",
    outside="larger networks, other grid classes (the tables hold row and column), cyclic flow "
            "directions; the tables' single precision is allowed for by a relative 1e-6",
    assumptions=["elevations are real numbers (no rounding)"])


def near(api, a, e):
    t = 1e-6 * (1 + api.abs(e))
    return api.And(api.le(a - e, t), api.le(e - a, t))


def body(api, group=True, order="tables", zsym=None, **p):
    info = api.info(p["spec"])
    n = info.n
    z = [api.real(f"z{i}", -Z, Z) if zsym is None or i in zsym else 1000.0 - 37 * i
         for i in range(n)]
    info, o, fd, d, m, arg = network(api, dem=z, cls="Sfr2005", **p)
    if api.conc(api.sum([api.num(x) for x in m])) == 0:
        return api.reach()
    a = [arg] if arg is not None else []
    kw = {} if group else dict(group_segments=False)
    if order == "tables":
        rd = api.call(o.reach_data, *a, **kw)
        sd = api.call(o.segment_data, *a)
        graph = connect(api, o, arg, group, "Sfr2005")
    elif order == "segments":
        sd = api.call(o.segment_data, *a, **kw)
        rd = api.call(o.reach_data)
        graph = connect(api, o, arg, group, "Sfr2005")
    else:
        graph = connect(api, o, arg, group, "Sfr2005")
        sd = api.call(o.segment_data)
        rd = api.call(o.reach_data, *a)
    c, mask, num, g, first = segmented(api, info, o, graph, d, m, group)
    cells = [i for i in range(n) if mask[i]]
    seq = sorted((num[i], position(c, first, i), i) for i in cells)
    api.check("one row per stream cell", len(rd) == len(cells))
    for k, (s, r, i) in enumerate(seq):
        row, col = info.lrc(i)
        for f, e in (("iseg", s), ("ireach", r), ("node", i), ("k", 0), ("i", row), ("j", col)):
            api.check(f, api.eq(rd[f][k], e), detail=(k, i))
        api.check("stream top", near(api, rd["strtop"][k], z[i]), detail=i)
        t = c[i]
        if t >= 0 and t != i and mask[t]:
            ln = 1.5 * info.dist(i, t)
            sl = (z[i] - z[t]) / ln
        else:
            ln = 1.5 * (info.delr[col] + info.delc[row]) / 2
            sl = 0.0001
        api.check("reach length", near(api, rd["rchlen"][k], ln), detail=i)
        if sl == 0.0001:
            api.check("default slope", api.And(api.le(0.0000999, rd["slope"][k]),
                                               api.le(rd["slope"][k], 0.0001001)), detail=i)
        else:
            api.check("slope", near(api, rd["slope"][k], sl), detail=i)
    ids = [api.conc(v) for v in rd["reachID"]]
    api.check("reach ids 1..n", sorted(ids) == list(range(1, len(cells) + 1)))
    rows = [(api.conc(sd["nseg"][k]), api.conc(sd["outseg"][k])) for k in range(len(sd))]
    api.check("every segment once with its out-segment", sorted(rows) == sorted(g.items()))
    for f in ("node", "iseg", "ireach", "reachID"):
        api.observe(f, [rd[f][k] for k in range(len(rd))])
    for f in ("strtop", "slope", "rchlen"):
        api.observe(f + "~", [rd[f][k] for k in range(len(rd))])
    api.reach()


LIN = {0: [1, 3, 4], 1: [4], 2: [5, 4], 3: [4], 4: [5], 5: [5]}


def configs(tier):
    out = []

    def add(name, **p):
        out.append(dict(name=name, body=body, params=p))
    S22 = "s:rect(2x2;8,5;6,7)"
    S23 = "s:rect(2x3;8,5,20;6,7)"
    S33 = "s:rect(3x3;8,5,20;6,7,9)"
    add("s2x2-arg", spec=S22)
    add("s2x2-cells", spec=S22, group=False, how="set", order="segments")
    add("s2x3", spec=S23, options=R23, how="delineate", mask="1?1111", order="graph")
    add("s2x3-b", spec=S23, options=R23, kind="b", mask="111?11")
    add("s2x3-cells", spec=S23, options=R23, mask="11111?", group=False, order="graph")
    add("s3x3", spec=S33, options=Y33, mask="111111111", how="set", order="segments",
        zsym=[0, 1, 2, 4, 5, 7])
    add("s2x3-lm", spec=S23 + "@lmf", options=R23, how="delineate", mask="1111?1", order="graph")
    add("s2x3-or", spec=S23 + "@orf", options=LIN, how="set", mask="11111?", order="segments")
    add("strip20", spec="s:rect(1x20;" + ",".join(["8", "5", "20", "6"] * 5) + ";10)",
        options={**{i: [i + 1] for i in range(19)}, 19: [19], 7: [8, 6]},
        mask="111?1111?11111?11111", zsym=[2, 9])
    add("strip60", spec="s:rect(1x60;" + ",".join(["8", "5", "20", "6"] * 15) + ";10)",
        options={**{i: [i + 1] for i in range(59)}, 59: [59], 7: [8, 6]},
        mask="111?" + "1" * 56, zsym=[2, 50])
    add("comb", spec="s:2x70", options=COMB, mask=COMBM, zsym=[20, 90])
    if tier == "thorough":
        add("s3x3-full", spec=S33, options=Y33, mask="111111111", how="set", order="segments")
        add("s2x3-all", spec=S23, mask="111111")
        add("s2x3-all-cells", spec=S23, mask="111111", group=False, order="segments")
        add("s2x3-masks", spec=S23, options=R23, how="delineate", unresolved=True)
        add("s3x3-masks", spec=S33, options=Y33, mask="11?1?1?1?")
        add("s3x3-masks-cells", spec=S33, options=Y33, mask="1?11111??", group=False)
        add("strip6", spec="s:rect(1x6;8,5,20,6,7,9;10)")
    return out
