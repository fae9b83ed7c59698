"""C05: NaN filling terminates, fills every NaN and touches nothing else."""
from .common import rough, HUB

META = dict(
    bounds="grids of 4 to 9 cells; up to 5 cells that may be NaN (all subsets that keep a known "
           "elevation in the grid), up to 6 symbolic known elevations in [-1e4, 1e4]; methods "
           "mean, median, min, max; loop bound 20000 iterations",
    outside="larger grids, floating-point rounding of the mean (reals), infinite elevations",
    assumptions=["elevations are real numbers (no rounding)"])
NAN = float("nan")


def body(api, spec, method, sym, base, maybe):
    info = api.info(spec)
    g = api.grid(spec)
    n = info.n
    isn = [api.flag(f"nan{i}") if i in maybe else False for i in range(n)]
    z = []
    for i in range(n):
        if isn[i]:
            z.append(NAN)
        elif i in sym:
            z.append(api.real(f"z{i}", -1e4, 1e4))
        else:
            z.append(float(base[i]))
    known = [z[i] for i in range(n) if not isn[i]]
    api.assume(len(known) > 0)
    dem = api.array(z, "f", info.shape)
    kw = {} if method == "default" else dict(method=method)
    out = api.call(api.dany.fill_nan_values, g, dem, **kw)
    api.check("shape", tuple(out.shape) == tuple(info.shape))
    o = api.flat(out)
    d2 = api.flat(dem)
    for i in range(n):
        api.check("input unmodified", api.same(d2[i], z[i]), detail=i)
        if api.isnan(o[i]):
            api.check("filled", False, detail=i)
            continue
        if not isn[i]:
            api.check("known elevation unchanged", api.eq(o[i], z[i]), detail=i)
            continue
        api.check("within the known range", api.And(
            api.Or(*[api.le(k, o[i]) for k in known]),
            api.Or(*[api.le(o[i], k) for k in known])), detail=i)
        if not any(isn[j] for j in info.queen[i]):
            v = [z[j] for j in info.queen[i]]
            if method.lower() in ("mean", "default"):
                api.check("mean of the neighbours", api.eq(o[i] * len(v), api.sum(v)), detail=i)
            elif method.lower() == "min":
                api.check("minimum of the neighbours", api.And(
                    *[api.le(o[i], x) for x in v],
                    api.Or(*[api.eq(o[i], x) for x in v])), detail=i)
            elif method.lower() == "max":
                api.check("maximum of the neighbours", api.And(
                    *[api.le(x, o[i]) for x in v],
                    api.Or(*[api.eq(o[i], x) for x in v])), detail=i)
            else:
                # median: between the two middle order statistics, at their mean
                lo, hi = order(api, v, (len(v) - 1) // 2), order(api, v, len(v) // 2)
                api.check("median of the neighbours", api.eq(o[i] * 2, lo + hi), detail=i)
    api.observe("filled", out)
    api.reach()


def order(api, v, k):
    """k-th smallest: min over subsets of size k+1 of their max"""
    from itertools import combinations
    return api.min(*[api.max(*c) if len(c) > 1 else c[0] for c in combinations(v, k + 1)])


def configs(tier):
    out = []

    def add(name, **p):
        out.append(dict(name=name, body=body, params=p))
    B6 = [5, 1, 4, 2, 6, 3]
    for m in ("mean", "min", "max"):
        add(f"s2x3-{m}", spec="s:2x3", method=m, sym=list(range(6)), base=B6,
            maybe=[0, 1, 2, 4, 5])
    add("s2x3-all-nan-but", spec="s:2x3", method="default", sym=[0, 3], base=B6,
        maybe=list(range(6)))
    add("s2x3-median", spec="s:2x3", method="median", sym=[0, 1, 2, 4], base=B6, maybe=[0, 1, 4])
    add("s2x2-median", spec="s:2x2", method="median", sym=[0, 1, 2, 3], base=[0] * 4,
        maybe=[0, 1, 2, 3])
    add("strip5-median", spec="v:strip5", method="median", sym=[0, 2, 4], base=[1, 2, 3, 4, 5],
        maybe=[0, 1, 2, 3])
    add("u-nested-mean", spec="u:nested", method="mean", sym=[0, 3, 6], base=[0, 4, 2, 1, 3, 2, 0],
        maybe=[3, 4, 5, 6])
    add("s3x3-mean", spec="s:3x3", method="mean", sym=[0, 8],
        base=[1, 2, 3, 4, 5, 6, 7, 8, 9], maybe=[0, 1, 3, 4, 5])
    for m in ("mean", "min", "max", "median"):
        add(f"s3x3-{m}-all", spec="s:3x3", method=m, sym=[0, 2, 4, 8],
            base=[1, 2, 3, 4, 5, 6, 7, 8, 9], maybe=[0, 1, 2, 3, 4, 5, 6, 7])
        add(f"tree-{m}", spec="v:tree", method=m, sym=[0, 2, 4, 6],
            base=[1, 2, 3, 4, 5, 6, 7, 8], maybe=[1, 2, 3, 4, 5, 6, 7])
    add("strip8-mean", spec="v:strip8", method="mean", sym=[0, 7],
        base=[1, 2, 3, 4, 5, 6, 7, 8], maybe=[0, 1, 2, 3, 4, 5, 6, 7])
    add("tree-mean-ctpl", spec="v:tree@ctpl", method="Mean", sym=[0, 4],
        base=[1, 2, 3, 4, 5, 6, 7, 8], maybe=[1, 2, 3, 4, 5])
    add("s3x3-min-ml", spec="s:3x3@mlrf", method="Min", sym=[0, 4],
        base=[1, 2, 3, 4, 5, 6, 7, 8, 9], maybe=[1, 2, 3, 4, 5])
    add("nested-median-p", spec="u:nested@pco", method="MEDIAN", sym=[0, 3],
        base=[0, 4, 2, 1, 3, 2, 0], maybe=[3, 4, 5, 6])
    for m in ("mean", "median", "min", "max"):
        add(f"fan-{m}", spec="v:fan12", method=m, sym=[1, 5] if m == "median" else [1, 5, 9],
            base=HUB, maybe=[0, 2, 9])
    add("s1x140", spec="s:1x140", method="mean", sym=[0, 139], base=rough(140), maybe=[1, 2, 138])
    add("strip300-max", spec="u:strip300@p", method="Max", sym=[7], base=rough(300), maybe=[6, 8, 299])
    if tier == "thorough":
        add("s2x3-median-6", spec="s:2x3", method="median", sym=list(range(6)), base=B6,
            maybe=[0, 1, 2, 4, 5])
        for m in ("mean", "min", "max", "median"):
            add(f"s3x4-{m}", spec="s:3x4", method=m, sym=[0, 2, 5, 11],
                base=list(range(12)), maybe=[1, 2, 3, 4, 5, 6, 7, 8, 10, 0])
            add(f"nested2-{m}", spec="u:nested2", method=m, sym=[0, 3, 6, 9],
                base=list(range(10)), maybe=[1, 2, 3, 4, 5, 6, 7, 8, 9])
    return out
