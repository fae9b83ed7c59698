"""C03: the filled elevation is the spill elevation (within n*eps)."""
from .common import elevations, path_below, rough, HUB
from .c01 import R33, R34, NEST

META = dict(
    bounds="grids of 7 to 12 cells; up to 7 symbolic elevations in [-1e4, 1e4] (quick), 8 "
           "(thorough); eps symbolic in [0, 10] or fixed. 'drain' minimality is decided over every "
           "competing surface (one more symbolic elevation per cell)",
    outside="larger grids, NaN elevations, floating-point rounding, |z| > 1e4",
    assumptions=["elevations are real numbers (no rounding)"])


def body(api, spec, method, sym, base=None, eps="sym"):
    info = api.info(spec)
    g = api.grid(spec)
    z = elevations(api, info, sym, base)
    dem = api.array(z, "f", info.shape)
    kw = dict(method=method)
    e = 0
    if method.lower() != "complete":
        e = api.real("eps", 0 if method.lower() == "priority" else 2.0 ** -20, 10) if eps == "sym" else eps
        kw["eps"] = e
    out = api.call(api.dany.fill_sinks, g, dem, **kw)
    o = api.flat(out)
    n = info.n
    for i in range(n):
        api.check("not above the spill elevation",
                  api.Not(path_below(api, info, z, i, o[i] - e * n, True)), detail=i)
        api.check("not below the spill elevation",
                  path_below(api, info, z, i, o[i], False), detail=i)
    if method.lower() == "drain":
        w = [api.real(f"w{i}", -1e4, 1e9) for i in range(n)]
        for i in range(n):
            if info.edge[i]:
                api.assume(api.eq(w[i], z[i]))
            else:
                api.assume(api.And(api.le(z[i], w[i]),
                                   api.Or(*[api.le(w[j] + e, w[i]) for j in info.queen[i]])))
        for i in range(n):
            api.check("lowest draining surface", api.le(o[i], w[i]), detail=i)
    api.observe("filled", out)
    api.reach()


def configs(tier):
    out = []

    def add(name, **p):
        out.append(dict(name=name, body=body, params=p))
    add("nested-complete", spec="v:nested", method="complete", sym="all")
    add("s3x3-complete", spec="s:3x3", method="complete", sym=[0, 1, 4, 7], base=R33)
    add("s3x4-complete", spec="s:3x4", method="complete", sym=[1, 5, 6, 10], base=R34)
    add("nested2-complete", spec="v:nested2", method="complete", sym=[3, 6, 7, 9],
        base=[0, 4, 2, 0, 3, 1, 0, 0, 1, 0])
    add("nested-priority", spec="v:nested", method="priority", sym=[0, 3, 4, 5, 6], base=NEST)
    add("s3x4-priority", spec="s:3x4", method="priority", sym=[1, 5, 6], base=R34)
    add("nested-drain", spec="v:nested", method="drain", sym=[3, 4, 6], base=NEST, eps=0.5)
    add("nested-drain-eps", spec="v:nested", method="drain", sym=[0, 3], base=NEST)
    add("s3x4-drain", spec="s:3x4", method="drain", sym=[1, 5, 6], base=R34, eps=2.0 ** -19)
    add("tree-complete-ct", spec="v:tree@ctl", method="complete", sym=[3, 4, 5],
        base=[3, 1, 4, 0, 0, 0, 2, 5])
    add("nested-complete-p", spec="u:nested@pmo", method="COMPLETE", sym=[0, 2, 3, 5],
        base=NEST[::-1])
    add("nested-drain-p", spec="v:nested@p", method="Drain", sym=[0, 2, 3], base=NEST[::-1],
        eps=0.5)
    add("nested-drain-eps-p", spec="v:nested@pc", method="drain", sym=[0, 3], base=NEST[::-1])
    add("s3x3-complete-ml", spec="s:3x3@mlrf", method="Complete", sym=[1, 4, 7], base=R33)
    add("fan-complete", spec="v:fan12", method="complete", sym=[0, 3, 9], base=HUB)
    add("fan-drain", spec="u:fan12", method="drain", sym=[0, 9], base=HUB[:12] + [-9000.], eps=0.5)
    add("s5x9-complete", spec="s:5x9", method="complete", sym=[20], base=rough(45))
    if tier == "thorough":
        add("nested-priority-7", spec="v:nested", method="priority", sym="all")
        add("nested2-complete-8", spec="v:nested2", method="complete", sym=[0, 3, 4, 5, 6, 7, 8, 9],
            base=[0, 4, 2, 0, 0, 0, 0, 0, 0, 0])
        add("nested-drain-5", spec="v:nested", method="drain", sym=[0, 3, 4, 5, 6], base=NEST, eps=0.5)
        add("nested-drain-eps-4", spec="v:nested", method="drain", sym=[0, 3, 4, 6], base=NEST)
    return out
