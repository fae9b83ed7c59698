"""C02: the epsilon fill leaves no sink and no flat in the interior."""
from .common import elevations, has_lower, rough, HUB
from .c01 import R33, R34, NEST

META = dict(
    bounds="grids of 7 to 16 cells; up to 7 symbolic elevations in [-1e4, 1e4] (quick), 8 "
           "(thorough); eps symbolic in [2^-20, 1000] or fixed; integer DEMs in [-3, 3]",
    outside="larger grids, NaN elevations, floating-point absorption of eps (reals), |z| > 1e4",
    assumptions=["elevations are real numbers (no rounding)"])


def body(api, spec, method, sym, base=None, eps="sym", kind="f"):
    info = api.info(spec)
    g = api.grid(spec)
    if kind == "i":
        z = [api.int(f"z{i}", -3, 3) if i in sym else int(base[i]) for i in range(info.n)]
    else:
        z = elevations(api, info, sym, base)
    dem = api.array(z, kind, info.shape)
    kw = {}
    e = 2e-06
    if eps == "sym":
        e = kw["eps"] = api.real("eps", 2.0 ** -20, 1000)
    elif eps != "default":
        e = kw["eps"] = eps
    if method != "default":
        kw["method"] = method
    out = api.call(api.dany.fill_sinks, g, dem, **kw)
    o = api.flat(out)
    for i in range(info.n):
        if not info.edge[i]:
            if method.lower() == "drain":
                api.check("drains by eps", has_lower(api, info, o, i, e) if eps != "default" else
                          has_lower(api, info, o, i), detail=i)
            else:
                api.check("has a lower neighbour", has_lower(api, info, o, i), detail=i)
    api.observe("filled", out)
    api.reach()


def configs(tier):
    out = []

    def add(name, **p):
        out.append(dict(name=name, body=body, params=p))
    add("nested-priority", spec="v:nested", method="priority", sym="all")
    add("u-nested-default", spec="u:nested", method="default", sym=[0, 3, 4, 5, 6], base=NEST,
        eps="default")
    add("s3x3-priority", spec="s:3x3", method="priority", sym=[0, 1, 4, 7], base=R33)
    add("s3x4-priority", spec="s:3x4", method="priority", sym=[1, 5, 6, 10], base=R34)
    add("v-tree-priority", spec="v:tree", method="priority", sym=[3, 4, 5, 0],
        base=[3, 1, 4, 0, 0, 0, 2, 5])
    add("nested2-priority", spec="v:nested2", method="priority", sym=[3, 4, 6, 7, 9],
        base=[0, 4, 2, 0, 0, 1, 0, 0, 1, 0])
    add("nested-drain", spec="v:nested", method="drain", sym=[3, 4, 5, 6], base=NEST, eps=0.5)
    add("nested-drain-eps", spec="v:nested", method="drain", sym=[0, 3, 6], base=NEST)
    add("s3x4-drain", spec="s:3x4", method="drain", sym=[1, 5, 6], base=R34, eps=2.0 ** -19)
    add("s3x3-int", spec="s:3x3", method="priority", sym=[1, 4, 7], base=R33, kind="i",
        eps="default")
    add("nested-int", spec="v:nested", method="priority", sym=[2, 3, 6], base=NEST, kind="i")
    add("tree-priority-ct", spec="v:tree@ctl", method="Priority", sym=[3, 4, 5],
        base=[3, 1, 4, 0, 0, 0, 2, 5])
    add("nested-priority-c", spec="u:nested@c", method="priority", sym=[0, 3, 4, 6], base=NEST)
    add("nested-priority-pm", spec="v:nested@pmo", method="PRIORITY", sym=[0, 2, 3, 5],
        base=NEST[::-1])
    add("nested-drain-pc", spec="v:nested@pc", method="drain", sym=[1, 2, 3], base=NEST[::-1],
        eps=0.5)
    add("s3x4-drain-ml", spec="s:3x4@mlrf", method="Drain", sym=[5, 6], base=R34,
        eps=2.0 ** -19)
    add("fan-priority", spec="v:fan12", method="priority", sym=[0, 3, 9], base=HUB)
    add("s8x20-priority", spec="s:8x20", method="priority", sym=[50, 51], base=rough(160), eps=0.5)
    add("fan-drain", spec="u:fan12", method="drain", sym=[0, 9], base=HUB, eps=0.5)
    add("s6x22-drain", spec="s:6x22", method="drain", sym=[50], base=rough(132), eps=0.5)
    if tier == "thorough":
        add("nested2-priority-8", spec="v:nested2", method="priority", sym=[0, 3, 4, 5, 6, 7, 8, 9],
            base=[0, 4, 2, 0, 0, 0, 0, 0, 0, 0])
        add("s3x3-priority-6", spec="s:3x3", method="priority", sym=[0, 1, 4, 5, 7, 3], base=R33)
        add("s4x4-priority", spec="s:4x4", method="priority", sym=[1, 5, 6, 9, 10],
            base=[5, 4, 6, 7, 3, 0, 0, 4, 6, 0, 0, 8, 9, 2, 4, 6])
        add("nested-drain-all", spec="v:nested", method="drain", sym="all")
    return out
