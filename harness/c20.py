"""C20: control-point thresholds follow the main stem upstream."""
from .common import flowdir, forest
from .c09 import point_of
from .c12 import R23, TREE, HEX, Y33, PTREE, LONG

META = dict(
    bounds="every flow-direction forest on 4-cell grids, restricted forests (2-3 receivers per "
           "cell) on 6 to 9 cells; every accumulation in [0.01, 1e6] (distinct among the inflows "
           "of a cell); every control point or pair of control points (in cell centres); integer "
           "or real background threshold; all grid classes",
    outside="larger grids, cyclic flow directions, equal largest accumulations, NaN accumulations, "
            "control points on cell edges, floating-point rounding (reals)",
    assumptions=["accumulations are real numbers (no rounding)"])


def body(api, spec, options=None, cls="Sfr2005", npts=1, thr="int", where=None, unresolved=False,
         form="list", wrap="list"):
    info = api.info(spec)
    n = info.n
    d = forest(api, info, options=options, unresolved=unresolved)
    acc = [api.real(f"a{i}", 0.01, 1e6) for i in range(n)]
    fd, g = flowdir(api, spec, fdir=d, facc=acc)
    o = api.call(getattr(api.dany, cls), g, fd)
    pts = [api.pick(f"p{k}", where or list(range(n))) for k in range(npts)]
    if thr == "default":
        t, kw = 0, {}
    elif thr == "int":
        t = 2000
        kw = dict(threshold=t)
    else:
        t = api.real("t", 0, 1e6)
        kw = dict(threshold=t)
    xy = [point_of(api, info, p, form) for p in pts]
    if wrap == "array":
        xy = api.np.array([list(q) for q in xy])
    elif wrap == "collection":
        from flopy.utils.geometry import Collection, Point
        xy = Collection([Point(*q) for q in xy])
    r = api.call(o.threshold_from_control_points, xy, **kw)
    api.check("shape", tuple(r.shape) == tuple(info.shape))
    r = api.flat(r)
    c = [api.conc(x) for x in d]
    stem = set()
    for p in pts:
        k = p
        while True:
            stem.add(k)
            ins = [j for j in info.queen[k] if c[j] == k]
            if not ins:
                break
            for a in ins:
                for b in ins:
                    if a < b:
                        api.assume(api.Not(api.eq(acc[a], acc[b])))
            best = ins[0]
            for j in ins[1:]:
                if api.decide(api.lt(acc[best], acc[j])):
                    best = j
            k = best
    for i in range(n):
        if i in stem:
            api.check("below the cell's accumulation", api.lt(r[i], acc[i]), detail=i)
        else:
            api.check("background elsewhere", api.eq(r[i], t), detail=i)
    s = api.flat(api.call(o.delineate_streams, api.array(r, "f", info.shape)))
    for i in range(n):
        if i in stem:
            api.check("delineated", api.eq(s[i], 1), detail=i)
        else:
            api.check("background delineation", api.Iff(api.eq(s[i], 1),
                                                        api.Not(api.lt(acc[i], t))), detail=i)
    a2 = api.flat(api.call(lambda: fd.flow_accumulation_array))
    for i in range(n):
        api.check("accumulation unaltered", api.eq(a2[i], acc[i]), detail=i)
    api.observe("threshold", r)
    api.reach()


def configs(tier):
    out = []

    def add(name, **p):
        out.append(dict(name=name, body=body, params=p))
    Y = {**Y33, 0: [4], 2: [4], 4: [7], 3: [4], 5: [4, 8], 6: [7]}
    add("s2x2", spec="s:2x2", thr="default")
    add("s2x2-pair", spec="s:2x2", npts=2, thr="real", cls="PrmsStreams", form="offlist",
        options={0: [0, 1, 3], 1: [3, 2], 2: [0, 3], 3: [3, 0]})
    add("strip4", spec="u:strip4", npts=2, cls="Sfr6", unresolved=True, wrap="array")
    add("s2x3", spec="s:2x3", options=R23, where=[0, 4, 5], form="geom")
    add("hex", spec="v:hex2x3", options=HEX, thr="real", cls="PrmsStreams")
    add("tree-pair", spec="u:tree", options=TREE, npts=2, where=[3, 5, 7], form="tuple", wrap="collection")
    add("s3x3", spec="s:3x3", options=Y, where=[4, 7, 8], thr="real")
    add("tree-pl", spec="v:tree@pctl", options=PTREE, where=[2, 0, 4], thr="real")
    add("s2x3-l", spec="s:2x3@lmof", options=R23, where=[4, 5], form="geom")
    add("s2x3-r", spec="s:2x3@lrf", options=R23, where=[1, 5], form="list")
    from .c12 import CHAIN
    out.append(dict(name="strip1200", body=body, ticks=10 ** 6, params=dict(
        spec="u:strip1200", options=CHAIN, where=[1199])))
    add("strip30", spec="u:strip30@p", options=LONG, where=[29, 14, 2], npts=2)
    from .c12 import FAN, COMB
    add("fan", spec="v:fan12", options=FAN, where=[0, 4], thr="real")
    add("comb", spec="u:2x70", options={**COMB, 5: [75]}, where=[91])
    if tier == "thorough":
        add("s2x3-pair", spec="s:2x3", npts=2, options=R23, thr="real")
        add("s2x3-all", spec="s:2x3", where=[1, 4])
        add("tree", spec="v:tree", options=TREE, npts=2, thr="real", unresolved=True)
        add("s3x3-pair", spec="s:3x3", options=Y33, npts=2, where=[4, 7, 8, 0])
    return out
