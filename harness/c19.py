"""C19: stream vectors trace each segment to its downstream segment."""
from .c12 import network, R23, TREE, HEX, Y33, PTREE, LONG, LONGM, COMB, COMBM, FAN, FANM
from .c14 import segmented

META = dict(
    bounds="every flow-direction forest and stream mask on 4-cell grids, restricted forests (2-3 "
           "receivers per cell) with full or partly symbolic masks on 6 to 9 cells; grouped and "
           "ungrouped; stream array delineated, set or given (NaN marking the land in one configuration); all grid classes",
    outside="larger networks, cyclic flow directions, infinite values in the stream array")


def body(api, group=True, before=None, **p):
    p.setdefault("cls", "Sfr2005")
    info, o, fd, d, m, arg = network(api, **p)
    n = info.n
    if api.conc(api.sum([api.num(x) for x in m])) == 0:
        return api.reach()
    kept = list(api.flat(arg)) if arg is not None else None
    a = [arg] if arg is not None else []
    kw = {} if group else dict(group_segments=False)
    vec = api.call(o.create_stream_vectors, *a, **kw)
    num = [api.conc(x) for x in api.flat(api.call(lambda: o.stream_array))]
    mask = [api.decide(x) for x in m]
    api.check("stream cells unchanged", all((num[i] > 0) == mask[i] for i in range(n)))
    if arg is not None:
        for x, y in zip(kept, api.flat(arg)):
            api.check("argument unaltered", api.same(x, y))
    # the segments the lines are named after: the stored stream array holds them;
    # C14's oracle says which cell continues which
    c = [api.conc(x) for x in d]
    cells = [i for i in range(n) if mask[i]]
    from .c14 import segments
    first = segments(api, info, c, mask, group, num)
    for i in cells:
        for j in cells:
            if i < j:
                api.check("same segment", (num[i] == num[j]) == (first[i] == first[j]),
                          detail=(i, j))
    exp = {}
    for f in sorted(set(first.values())):
        line, k = [f], f
        while True:
            t = c[k]
            if t < 0 or t == k or not mask[t]:
                break
            line.append(t)
            if first[t] != f:
                break
            k = t
        exp[num[f]] = line
    # a self-draining outlet may be listed as its own downstream segment
    alt = {num[f]: exp[num[f]] + [f] for f in first.values()
           if exp[num[f]] == [f] and c[f] == f}
    got = {}
    for k, v in vec.items():
        got[int(api.conc(k))] = [(round(api.conc_float(x), 6), round(api.conc_float(y), 6)) for x, y in v]
    want = {k: [(round(info.xc[i], 6), round(info.yc[i], 6)) for i in v] for k, v in exp.items() if len(v) > 1}
    for k, v in got.items():
        if k in alt and k not in want:
            i = alt[k][0]
            api.check("line of a self-draining cell", v == [(round(info.xc[i], 6), round(info.yc[i], 6))] * 2)
        else:
            api.check("line along the segment", v == want.get(k), detail=k)
    api.check("every segment with several vertices has a line",
              all(k in got for k in want))
    api.observe("lines", sorted([k] + [list(q) for q in v] for k, v in got.items()))
    api.reach()


def configs(tier):
    out = []

    def add(name, **p):
        out.append(dict(name=name, body=body, params=p))
    add("s2x2-arg", spec="s:2x2", val=4)
    add("s2x2-cells", spec="s:2x2", group=False, how="set")
    add("strip4-prms", spec="u:strip4", how="set", cls="PrmsStreams", kind="b", unresolved=True)
    add("s2x3-grouped", spec="s:2x3", how="delineate", options=R23, mask="1?1111", cls="Sfr6")
    add("s2x3-cells", spec="s:2x3", options=R23, mask="1111?1", group=False)
    add("hex-grouped", spec="v:hex2x3", options=HEX)
    add("tree-grouped", spec="v:tree", options=TREE, mask="11111111", how="set")
    add("tree-cells", spec="u:tree", options=TREE, mask="11111111", group=False)
    add("s3x3-grouped", spec="s:3x3", options=Y33, mask="111111111")
    add("s2x3-nan", spec="s:2x3", options=R23, mask="1??1?1", kind="nan")
    add("tree-pl", spec="v:tree@pctl", options=PTREE, mask="?1111111", how="set")
    add("s2x3-l", spec="s:2x3@lrmf", options=R23, mask="11?11?", how="delineate", group=False)
    from .c12 import CHAIN, CHAINM
    out.append(dict(name="strip1200", body=body, ticks=10 ** 6, params=dict(
        spec="u:strip1200", options=CHAIN, mask=CHAINM)))
    add("strip30", spec="u:strip30@p", options=LONG, mask=LONGM)
    add("strip30-cells", spec="s:1x30@mf", options=LONG, mask=LONGM, group=False)
    add("fan", spec="u:fan12", options=FAN, mask=FANM, how="set")
    add("comb", spec="s:2x70", options=COMB, mask=COMBM)
    # tributaries joining long segments
    add("comb24", spec="s:2x24", mask="1100001?000000000010?0?0" + "1" * 24, options={
        **{i: [i + 24] for i in range(24)}, **{i: [i + 1] for i in range(24, 47)}, 47: [47],
        6: [29, 30, 31], 18: [42, 43]})
    if tier == "thorough":
        add("strip4-cells-b", spec="v:strip4", group=False, kind="b", unresolved=True)
        add("s2x3-all", spec="s:2x3", mask="111111")
        add("s2x3-all-cells", spec="s:2x3", mask="111111", group=False)
        add("s2x3-masks", spec="s:2x3", options=R23, how="set", unresolved=True)
        add("tree-masks", spec="v:tree", options=TREE)
        add("s3x3-masks", spec="s:3x3", options=Y33, how="set")
        add("strip6", spec="u:strip6", cls="PrmsStreams")
    return out
