"""C21: slope, aspect, vectors and HRU length follow the flow direction."""
import math
from .common import flowdir, Z
from .c12 import PTREE

META = dict(
    bounds="every flow-direction map (each cell to any queen neighbour, itself, or unresolved) on "
           "grids of 4 to 9 cells with every elevation symbolic in [-1e4, 1e4] for slope, aspect "
           "and vectors; HRU length: every map on 4-cell grids, restricted maps on 6 to 8 cells",
    outside="larger grids, NaN elevations, floating-point rounding (reals); trigonometric functions "
            "are evaluated by numpy on concrete offsets",
    assumptions=["elevations are real numbers (no rounding)"])


def maps(api, info, options=None, unresolved=False):
    d = []
    for i in range(info.n):
        o = sorted(options[i]) if options and i in options else sorted(info.queen[i] + [i])
        if unresolved:
            o = [-2] + o
        d.append(api.choice(f"d{i}", o) if len(o) > 1 else o[0])
    return d


def opts(info, options, unresolved, i):
    o = sorted(options[i]) if options and i in options else sorted(info.queen[i] + [i])
    return ([-2] if unresolved else []) + o


def near(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(b))


def body_slope(api, spec, options=None, unresolved=False):
    info = api.info(spec)
    n = info.n
    z = [api.real(f"z{i}", -Z, Z) for i in range(n)]
    d = maps(api, info, options, unresolved)
    fd, g = flowdir(api, spec, fdir=d, dem=z)
    s = api.call(lambda: fd.slope)
    api.check("shape", tuple(s.shape) == tuple(info.shape))
    s = api.flat(s)
    for i in range(n):
        for j in opts(info, options, unresolved, i):
            c = api.eq(d[i], j)
            if j < 0 or j == i:
                api.check("0 at outlets", api.Implies(c, api.eq(s[i], 0)), detail=i)
            else:
                drop = z[i] - z[j]
                small = api.And(api.lt(0, drop), api.lt(drop, 1e-6))
                api.check("drop over distance", api.Implies(
                    api.And(c, api.Not(small)), api.And(
                        api.le(s[i] - drop / info.dist(i, j), 1e-7),
                        api.le(drop / info.dist(i, j) - s[i], 1e-7))),
                    detail=(i, j))
                api.check("negligible drop", api.Implies(
                    api.And(c, small), api.And(api.le(0, s[i]), api.le(
                        s[i] - drop / info.dist(i, j), 1e-7))), detail=(i, j))
    dem = api.flat(api.call(lambda: fd.dem))
    f2 = api.flat(api.call(lambda: fd.flow_direction_array))
    for i in range(n):
        api.check("dem unaltered", api.eq(dem[i], z[i]), detail=i)
        api.check("flow directions unaltered", api.eq(f2[i], d[i]), detail=i)
    api.observe("slope", s)
    api.reach()


def body_aspect(api, spec, options=None, unresolved=False):
    info = api.info(spec)
    n = info.n
    d = maps(api, info, options, unresolved)
    fd, g = flowdir(api, spec, fdir=d)
    a = api.call(lambda: fd.aspect)
    api.check("shape", tuple(a.shape) == tuple(info.shape))
    a = api.flat(a)
    u, v = api.call(lambda: fd.vectors)
    u, v = api.flat(u), api.flat(v)
    tol = 1e-9
    for i in range(n):
        for j in opts(info, options, unresolved, i):
            c = api.eq(d[i], j)
            if j < 0 or j == i:
                ang, cu, cv = 0.0, 1.0, 0.0
            else:
                dx, dy = info.xc[j] - info.xc[i], info.yc[j] - info.yc[i]
                r = math.hypot(dx, dy)
                cu, cv = dx / r, dy / r
                # angle from the cosine, half plane from the sine (not atan2)
                ang = math.degrees(math.acos(max(-1.0, min(1.0, cu))))
                if dy < 0:
                    ang = 360 - ang
            close = [api.And(api.le(ang - 1e-6, a[i]), api.le(a[i], ang + 1e-6))]
            api.check("aspect", api.Implies(c, close[0]), detail=(i, j))
            api.check("in [0, 360)", api.Implies(c, api.And(
                api.le(0, a[i]), api.lt(a[i], 360))), detail=(i, j))
            api.check("cosine", api.Implies(c, api.And(
                api.le(cu - tol, u[i]), api.le(u[i], cu + tol))), detail=(i, j))
            api.check("sine", api.Implies(c, api.And(
                api.le(cv - tol, v[i]), api.le(v[i], cv + tol))), detail=(i, j))
    api.observe("aspect", a)
    api.observe("u", u)
    api.reach()


def shared_point(info, i, j):
    """midpoint of the shared vertices (mean of all vertices when i == j)"""
    sh = [info.verts[k] for k in info.iverts[i] if k in info.iverts[j]]
    return (sum(p[0] for p in sh) / len(sh), sum(p[1] for p in sh) / len(sh))


def body_hru(api, spec, options=None, unresolved=False):
    info = api.info(spec)
    n = info.n
    d = maps(api, info, options, unresolved)
    fd, g = flowdir(api, spec, fdir=d)
    h = api.flat(api.call(lambda: fd.hru_len))
    api.check("one value per cell", len(h) == n)
    c = [api.conc(x) for x in d]
    c = [i if x < 0 else x for i, x in enumerate(c)]
    for i in range(n):
        con = [c[i]] + [j for j in range(n) if c[j] == i]
        ds = []
        for j in con:
            x, y = shared_point(info, i, j)
            ds.append(math.hypot(x - info.xc[i], y - info.yc[i]))
        e = 2 * sum(ds) / len(ds)
        api.check("twice the mean distance", api.And(
            api.le(e - 1e-9 * max(1, e), h[i]), api.le(h[i], e + 1e-9 * max(1, e))), detail=i)
    api.observe("hru_len", h)
    api.reach()


def configs(tier):
    out = []

    def add(name, b, **p):
        out.append(dict(name=name, body=b, params=p))
    for s in ("s:2x3", "v:tree", "u:hex2x3", "s:rect(3x3;8,5,20;6,7,9)"):
        t = s.replace(":", "-").split("(")[0]
        add(f"slope-{t}", body_slope, spec=s, unresolved=s[0] == "u")
        add(f"aspect-{t}", body_aspect, spec=s, unresolved=s[0] == "u")
    add("hru-s2x2", body_hru, spec="s:rect(2x2;8,5;6,7)", unresolved=True)
    add("hru-strip4", body_hru, spec="u:strip4")
    add("hru-tree", body_hru, spec="v:tree", options={
        0: [1, 3], 1: [2, 4], 2: [5], 3: [4, 6], 4: [5, 3], 5: [5, 7], 6: [7], 7: [4, 5]})
    for s in ("s:2x3@mf", "u:2x3@mp", "v:tree@ctpl", "s:2x3@ml"):
        t = s.replace(":", "-")
        add(f"slope-{t}", body_slope, spec=s)
        add(f"aspect-{t}", body_aspect, spec=s)
    add("hru-s2x2-m", body_hru, spec="s:rect(2x2;8,5;6,7)@mlof")
    add("hru-tree-p", body_hru, spec="v:tree@ctpl", options=PTREE)
    from .c12 import FAN, COMB
    add("slope-fan", body_slope, spec="v:fan12", options=FAN)
    add("aspect-fan", body_aspect, spec="u:fan12")
    add("hru-fan", body_hru, spec="v:fan12", options=FAN)
    add("hru-comb", body_hru, spec="s:2x70", options=COMB)
    add("slope-comb", body_slope, spec="s:2x70", options=COMB)
    add("aspect-comb", body_aspect, spec="s:2x70", options=COMB)
    if tier == "thorough":
        add("hru-s2x3", body_hru, spec="s:rect(2x3;8,5,20;6,7)")
        add("hru-hex", body_hru, spec="v:hex2x3", unresolved=True)
        inner = {i: [i + 1] if i % 4 < 3 else [i - 1] for i in range(16) if i not in (5, 6, 9, 10)}
        add("slope-s4x4", body_slope, spec="s:4x4", options={**inner, 9: [10, 13]})
        add("aspect-s4x4", body_aspect, spec="s:4x4", unresolved=True, options=inner)
        add("slope-u-refined", body_slope, spec="u:refined")
        add("aspect-u-refined", body_aspect, spec="u:refined")
    return out
