"""C11: stream delineation is the accumulation threshold within the basin."""
from .common import flowdir, forest

META = dict(
    bounds="grids of 4 to 9 cells (every grid class): every accumulation in [0, 1e6], every scalar "
           "or per-cell threshold in [0, 1e6] (up to two cells NaN), every integer, boolean or float basin mask, on each "
           "of the three stream classes; downstream closure for every flow-direction forest of "
           "the 4-cell grids (restricted forests on 6 to 8 cells) with symbolic cell areas",
    outside="larger grids, NaN in a basin mask, floating-point rounding (reals)",
    assumptions=["accumulations and thresholds are real numbers (no rounding)"])
M = 1e6


def down(info):
    """a fixed concrete flow map: every cell to its lowest queen neighbour"""
    return [min(info.queen[i] + [i]) for i in range(info.n)]


def obj(api, cls, spec, **kw):
    fd, g = flowdir(api, spec, **kw)
    return api.call(getattr(api.dany, cls), g, fd), g, fd


def nv_any(*xs):
    return any(type(x) is float and x != x for x in xs)


def body_threshold(api, spec, cls, thr, mask, nan=()):
    info = api.info(spec)
    n = info.n
    nv = float("nan")
    acc = [nv if ("a", i) in nan and api.flag(f"no a{i}") else api.real(f"a{i}", 0, M)
           for i in range(n)]
    o, g, fd = obj(api, cls, spec, fdir=down(info), facc=acc)
    if thr == "scalar":
        t = [api.real("t", 0, M)] * n
        targ = t[0]
    elif thr == "int":
        v = api.pick("t", [0, 1, 5000])
        t, targ = [v] * n, v
    else:
        t = [nv if ("t", i) in nan and api.flag(f"no t{i}") else api.real(f"t{i}", 0, M)
             for i in range(n)]
        targ = api.array(t, "f", info.shape if thr == "array" else (n,))
    if mask is None:
        ins = [True] * n
        marg = None
    else:
        if mask == "i":
            mv = [api.choice(f"m{i}", [0, 1, 3]) for i in range(n)]
            ins = [api.Not(api.eq(v, 0)) for v in mv]
        elif mask == "b":
            mv = [api.bool(f"m{i}") for i in range(n)]
            ins = mv
        else:
            mv = [api.real(f"m{i}", 0, 5) for i in range(n)]
            ins = [api.Not(api.eq(v, 0)) for v in mv]
        marg = api.array(mv, mask, info.shape)
    kw = {} if marg is None else dict(basin_boundary=marg)
    r = api.call(o.delineate_streams, targ, **kw)
    api.check("shape", tuple(r.shape) == tuple(info.shape))
    rv = api.flat(r)
    for i in range(n):
        e = 0 if nv_any(acc[i], t[i]) else api.num(
            api.And(ins[i], api.Not(api.lt(acc[i], t[i]))))
        api.check("threshold within the basin", api.eq(rv[i], e), detail=i)
    s = api.flat(api.call(lambda: o.stream_array))
    for i in range(n):
        api.check("stored array", api.eq(s[i], rv[i]), detail=i)
    # inputs unmodified
    a2 = api.flat(api.call(lambda: fd.flow_accumulation_array))
    for i in range(n):
        api.check("accumulation unaltered", api.same(a2[i], acc[i]), detail=i)
        if thr in ("array", "flat"):
            api.check("threshold unaltered", api.same(api.flat(targ)[i], t[i]), detail=i)
        if marg is not None:
            api.check("mask unaltered", api.eq(api.flat(marg)[i], mv[i]), detail=i)
    # the caller holds a copy
    first = list(rv)
    r[tuple([0] * len(info.shape))] = 9
    s = api.flat(api.call(lambda: o.stream_array))
    for i in range(n):
        api.check("returned array is a copy", api.eq(s[i], first[i]), detail=i)
    api.observe("streams", s)
    api.reach()


def body_closed(api, spec, cls, options=None, cells=False):
    info = api.info(spec)
    n = info.n
    d = forest(api, info, options=options)
    area = [api.real(f"w{i}", 0, 1000) for i in range(n)]
    o0, g = flowdir(api, spec, fdir=d, area=area)
    api.call(o0.flow_accumulation, cells)
    o = api.call(getattr(api.dany, cls), g, o0)
    t = api.real("t", 0, M)
    r = api.flat(api.call(o.delineate_streams, t))
    c = [api.conc(x) for x in d]
    for i in range(n):
        api.check("closed downstream", api.Implies(api.eq(r[i], 1), api.eq(r[c[i]], 1)),
                  detail=i)
    api.observe("streams", r)
    api.reach()


def body_custom(api, spec, cls, kind):
    """set a custom array, read it back, change both copies"""
    info = api.info(spec)
    n = info.n
    o, g, fd = obj(api, cls, spec, fdir=down(info), facc=[1.0] * n)
    if kind == "b":
        v = [api.bool(f"s{i}") for i in range(n)]
    elif kind == "i":
        v = [api.choice(f"s{i}", [0, 1, 2, 7]) for i in range(n)]
    else:
        v = [api.real(f"s{i}", 0, 9) for i in range(n)]
    shape = api.pick("shape", [info.shape, (n,)])
    a = api.array(v, kind, shape)
    if api.flag("delineated before"):
        api.call(o.delineate_streams, 0.5)
    api.call(o.set_stream_array, a)
    r = api.call(lambda: o.stream_array)
    api.check("shape", tuple(r.shape) == tuple(info.shape))
    rv = list(api.flat(r))
    for i in range(n):
        api.check("preserved", api.eq(rv[i], v[i]), detail=i)
        api.check("input unaltered", api.eq(api.flat(a)[i], v[i]), detail=i)
    k = api.pick("k", list(range(n)))
    a[k if len(shape) == 1 else info.lrc(k)] = 5 if kind != "b" else False
    s = api.flat(api.call(lambda: o.stream_array))
    for i in range(n):
        api.check("independent of the caller's array", api.eq(s[i], v[i]), detail=i)
    r[tuple(info.lrc(k)) if len(info.shape) == 2 else k] = 6 if kind != "b" else True
    s = api.flat(api.call(lambda: o.stream_array))
    for i in range(n):
        api.check("read-back is a copy", api.eq(s[i], v[i]), detail=i)
    api.observe("streams", s)
    api.reach()


def configs(tier):
    out = []

    def add(name, b, **p):
        out.append(dict(name=name, body=b, params=p))
    grids = ["s:3x3", "v:tree", "u:hex2x3"]
    for cls, spec in zip(("Sfr6", "Sfr2005", "PrmsStreams"), grids):
        sp = spec[0]
        add(f"scalar-{cls}-{sp}", body_threshold, spec=spec, cls=cls, thr="scalar", mask=None)
        add(f"array-i-{cls}-{sp}", body_threshold, spec=spec, cls=cls, thr="array", mask="i")
        add(f"flat-b-{cls}-{sp}", body_threshold, spec=spec, cls=cls, thr="flat", mask="b")
        add(f"custom-i-{cls}-{sp}", body_custom, spec=spec, cls=cls, kind="i")
        add(f"custom-b-{cls}-{sp}", body_custom, spec=spec, cls=cls, kind="b")
    add("scalar-f-mask", body_threshold, spec="s:2x3", cls="PrmsStreams", thr="scalar", mask="f")
    add("int-i-mask", body_threshold, spec="s:2x3", cls="Sfr6", thr="int", mask="i")
    add("custom-f", body_custom, spec="s:2x3", cls="Sfr6", kind="f")
    add("nan-flat", body_threshold, spec="s:2x3", cls="Sfr6", thr="flat", mask="b",
        nan=[("t", 1), ("t", 4), ("a", 2), ("a", 4)])
    add("nan-array", body_threshold, spec="u:hex2x3", cls="PrmsStreams", thr="array", mask=None,
        nan=[("t", 0), ("t", 3), ("a", 5)])
    add("nan-scalar", body_threshold, spec="v:tree", cls="Sfr2005", thr="scalar", mask="i",
        nan=[("a", 0), ("a", 7)])
    add("closed-s2x2", body_closed, spec="s:2x2", cls="Sfr6")
    add("closed-strip4-cells", body_closed, spec="u:strip4", cls="PrmsStreams", cells=True)
    add("closed-s2x3", body_closed, spec="s:2x3", cls="Sfr2005", options={
        0: [1, 3, 4], 1: [2, 4], 2: [5], 3: [4, 0], 4: [5, 1], 5: [5, 4]})
    add("scalar-ml", body_threshold, spec="s:2x3@mlf", cls="Sfr2005", thr="array", mask="b")
    add("flat-l", body_threshold, spec="v:strip4@lp", cls="Sfr6", thr="flat", mask="i")
    add("custom-l", body_custom, spec="v:2x3@lct", cls="Sfr6", kind="i")
    add("custom-ls", body_custom, spec="s:2x2@lf", cls="PrmsStreams", kind="b")
    add("closed-tree-ctp", body_closed, spec="v:tree@ctpl", cls="Sfr2005", options={
        0: [1, 4], 1: [3], 2: [2], 3: [1, 5], 4: [6, 2], 5: [5, 7], 6: [4, 7], 7: [6]})
    from .c12 import FAN, COMB, COMBM
    add("closed-fan", body_closed, spec="u:fan12", cls="Sfr6", options={**FAN, 7: [0, 7, 8]})
    if tier == "thorough":
        for cls in ("Sfr6", "Sfr2005", "PrmsStreams"):
            for spec in ("s:3x4", "v:hex3x3", "u:refined"):
                for thr, mask in (("scalar", "i"), ("array", "f"), ("flat", None), ("int", "b")):
                    add(f"{thr}-{mask}-{cls}-{spec[0]}", body_threshold, spec=spec, cls=cls,
                        thr=thr, mask=mask)
        add("closed-s2x3-all", body_closed, spec="s:2x3", cls="Sfr2005")
        add("closed-tree", body_closed, spec="v:tree", cls="Sfr6", options={
            0: [1, 3], 1: [2, 4], 2: [5], 3: [4, 6], 4: [5, 3], 5: [5, 7], 6: [7], 7: [4, 5]})
    return out
