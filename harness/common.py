"""helpers shared by the harnesses (oracles only use grid geometry computed by
symx.grids from the cell polygons, never dany's own results)"""
Z = 1e4          # elevations are bounded by +-Z


def elevations(api, info, sym, base=None, lo=-Z, hi=Z):
    """per-cell elevations: symbolic where requested, the given base elsewhere"""
    s = set(range(info.n) if sym == "all" else sym)
    return [api.real(f"z{i}", lo, hi) if i in s else float(base[i]) for i in range(info.n)]


def has_lower(api, info, o, i, by=None):
    """some queen neighbour of i is lower (by at least `by`)"""
    if by is None:
        return api.Or(*[api.lt(o[j], o[i]) for j in info.queen[i]])
    return api.Or(*[api.le(o[j] + by, o[i]) for j in info.queen[i]])


def path_below(api, info, z, j, t, strict):
    """a queen path from j to a grid-edge cell exists on which every elevation
    is < t (strict) or <= t: says that the spill elevation of j is < t / <= t"""
    ok = [(api.lt(z[k], t) if strict else api.le(z[k], t)) for k in range(info.n)]
    # k reaches the edge through ok cells
    r = [ok[k] if info.edge[k] else False for k in range(info.n)]
    inner = [k for k in range(info.n) if not info.edge[k]]
    for _ in range(len(inner)):
        nr = list(r)
        for k in inner:
            nr[k] = api.And(ok[k], api.Or(*[r[m] for m in info.queen[k]]))
        r = nr
    return r[j]


def unique_dem(info):
    """some concrete DEM with a unique minimum (internals are overwritten)"""
    return [100.0 + 3 * i for i in range(info.n)]


def flowdir(api, spec, dem=None, fdir=None, facc=None, area=None, grid=None):
    """a real FlowDirections object whose computed state is set to the given
    (symbolic) values"""
    info = api.info(spec)
    g = grid if grid is not None else api.grid(spec)
    fd = api.call(api.dany.FlowDirections, g, api.array(unique_dem(info), "f", info.shape))
    kw = {}
    if dem is not None:
        kw["_dem"] = api.array(list(dem) + [1e10], "f")
    if fdir is not None:
        kw["_fdir"] = api.array(fdir, "i")
    if facc is not None:
        kw["_facc"] = api.array(facc, "f")
    if area is not None:
        kw["_area"] = api.array(area, "f")
    api.set_internal(fd, **kw)
    return fd, g


def forest(api, info, name="d", options=None, roots=None, unresolved=False):
    """symbolic flow-direction forest: every cell flows to a queen neighbour or
    to itself (or is unresolved, -2); the rank variables make the map acyclic"""
    d, free = [], []
    for i in range(info.n):
        if options is not None and i in options:
            opts = sorted(options[i])
        else:
            opts = sorted(info.queen[i] + [i])
            if unresolved:
                opts = [-2] + opts
        if roots is not None and i not in roots and len(opts) > 1:
            opts = [o for o in opts if o != i]
        d.append(api.choice(f"{name}{i}", opts) if len(opts) > 1 else opts[0])
        free.append(len(opts) > 1)
    # a cell whose fixed path ends lies on no cycle
    ends = [None] * info.n
    for i in range(info.n):
        p = []
        while not free[i] and ends[i] is None and i not in p:
            p.append(i)
            if d[i] < 0 or d[i] == i:
                ends[i] = True
            else:
                i = d[i]
        for k in p:
            ends[k] = bool(ends[i])
    r = {i: api.int(f"{name}rank{i}", 0, info.n - 1) for i in range(info.n) if not ends[i]}
    api.assume(api.And(*[api.Implies(api.eq(d[i], j), api.lt(r[j], r[i]))
                         for i in r for j in info.queen[i] if j in r]))
    return d


def fixed_map(nr, nc, choices=()):
    """rows drain to the right, the last column downwards; a few cells have a choice"""
    o = {i: [i + 1 if i % nc < nc - 1 else i + nc] for i in range(nr * nc)}
    o[nr * nc - 1] = [nr * nc - 1]
    o.update(choices)
    return o


def conc_all(api, d):
    return [api.conc(x) for x in d]


def path(d, i):
    """cells on the flow path of i (concrete forest), i included"""
    out = [i]
    while d[out[-1]] >= 0 and d[out[-1]] != out[-1] and len(out) <= len(d):
        out.append(d[out[-1]])
    return out


def upstream(d):
    """cell -> set of cells whose path passes through it"""
    up = [set() for _ in d]
    for i in range(len(d)):
        for c in path(d, i):
            up[c].add(i)
    return up


def rough(n, step=1.0):
    """concrete terrain with many pits (all different, none on a regular pattern)"""
    return [step * ((i * i * 37 + 11 * i) % 10007 % 499 ) + step * i / 1024 for i in range(n)]


def sloping(nr, nc, outlet):
    """concrete terrain on which every cell but the outlet has a lower neighbour; multiples of 120"""
    r0, c0 = divmod(outlet, nc)
    z = [1200.0 * max(abs(i // nc - r0), abs(i % nc - c0)) + 120 * ((i * 7) % 5)
         for i in range(nr * nc)]
    z[outlet] = -24000.0
    return z


# elevations of the 13 cells of fan12: the hub and its neighbours
HUB = [600.0, 720, 360, 960, 480, 840, 240, 1080, 1200, 120, 1320, 1440, -2e4]
