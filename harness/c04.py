"""C04: stream-mask conditioning drains all land to the masked streams."""
from .common import elevations, rough, HUB
from .c01 import R33, NEST

META = dict(
    bounds="grids of 7 to 10 cells; up to 5 symbolic elevations in [-1e4, 1e4], up to 7 symbolic "
           "mask flags (at least one stream cell); eps symbolic in [2^-20, 1000] or the default; "
           "boolean and 0/1 integer masks, methods 'priority' and 'drain' (falls back to priority)",
    outside="larger grids, NaN elevations, floating-point absorption of eps (reals), |z| > 1e4",
    assumptions=["elevations are real numbers (no rounding)"])


def body(api, spec, sym, base, mask, method="priority", eps="sym", mkind="b", sbase=()):
    """mask: cells with a symbolic flag; sbase: cells that are always streams"""
    info = api.info(spec)
    g = api.grid(spec)
    n = info.n
    z = elevations(api, info, sym, base)
    s = [api.flag(f"s{i}") if i in mask else (i in sbase) for i in range(n)]
    api.assume(any(s))
    kw = dict(method=method)
    e = 2e-06
    if eps == "sym":
        e = kw["eps"] = api.real("eps", 2.0 ** -20, 1000)
    elif eps != "default":
        e = kw["eps"] = eps
    # a concrete sum is rounded by the code, the oracle's is exact
    slack = e * 1.001 if eps != "sym" else e
    dem = api.array(z, "f", info.shape)
    m = api.array([x if mkind == "b" else int(x) for x in s], mkind, info.shape)
    out = api.call(api.dany.fill_sinks, g, dem, stream_mask=m, **kw)
    api.check("shape", tuple(out.shape) == tuple(info.shape))
    o = api.flat(out)
    d2 = api.flat(dem)
    # land connected to a stream
    conn = set(i for i in range(n) if s[i])
    todo = list(conn)
    while todo:
        for j in info.queen[todo.pop()]:
            if j not in conn:
                conn.add(j)
                todo.append(j)
    for i in range(n):
        api.check("not lowered", api.le(z[i], o[i]), detail=i)
        api.check("input unmodified", api.eq(d2[i], z[i]), detail=i)
        if s[i]:
            sn = [j for j in info.queen[i] if s[j]]
            if len(sn) < 2:
                api.check("stream cell kept", api.eq(o[i], z[i]), detail=i)
            else:
                up = api.Not(api.eq(o[i], z[i]))
                api.check("raised only in a stream pit", api.Implies(
                    up, api.And(*[api.lt(z[i], o[j]) for j in sn])), detail=i)
                api.check("raised to the lowest stream neighbour", api.Implies(
                    up, api.And(*[api.le(o[i], o[j] + slack) for j in sn])), detail=i)
        elif i in conn:
            api.check("has a lower neighbour",
                      api.Or(*[api.lt(o[j], o[i]) for j in info.queen[i]]), detail=i)
    api.observe("filled", out)
    api.reach()


def configs(tier):
    out = []

    def add(name, **p):
        out.append(dict(name=name, body=body, params=p))
    add("nested-land", spec="v:nested", sym=[2, 3, 4, 6], base=NEST, mask=[1, 3, 5], sbase=[])
    add("nested-streams", spec="v:nested", sym=[0, 3, 4, 5], base=NEST, mask=[0, 3, 5, 6])
    add("s3x3", spec="s:3x3", sym=[1, 4, 5], base=R33, mask=[0, 1, 4, 7])
    add("s3x3-line", spec="s:3x3", sym=[0, 1, 2, 4], base=R33, mask=[4], sbase=[0, 1, 2])
    add("s3x3-int-default", spec="s:3x3", sym=[3, 4], base=R33, mask=[1, 3, 4], eps="default",
        mkind="i")
    add("u-nested-drain", spec="u:nested", sym=[3, 4, 6], base=NEST, mask=[3, 5], sbase=[0],
        method="drain")
    add("nested-pcl", spec="v:nested@pcl", sym=[0, 2, 3], base=NEST[::-1], mask=[1, 3, 5],
        sbase=[])
    add("s3x3-ml", spec="s:3x3@mlf", sym=[1, 4], base=R33, mask=[1, 4, 7])
    add("fan", spec="v:fan12", sym=[0, 3, 9], base=HUB, mask=[0, 3, 9], sbase=[6])
    add("s8x18", spec="s:8x18", sym=[50], base=rough(144), mask=[50, 70], sbase=list(range(18, 30)),
        eps=0.5)
    if tier == "thorough":
        add("nested-land-5", spec="v:nested", sym=[0, 2, 3, 4, 6], base=NEST, mask=[1, 3, 5, 0])
        add("nested-masks", spec="v:nested", sym=[0, 3, 4, 6], base=NEST, mask=list(range(7)))
        add("s3x3-5", spec="s:3x3", sym=[1, 3, 4, 5, 7], base=R33, mask=[0, 1, 4, 7])
        add("s3x4", spec="s:3x4", sym=[1, 5, 6, 10],
            base=[5, 4, 6, 7, 3, 1, 0, 4, 6, 2, 5, 8], mask=[1, 5, 9, 6], sbase=[2])
    return out
