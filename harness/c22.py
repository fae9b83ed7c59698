"""C22: cell areas equal the areas of the cell polygons."""
from .common import unique_dem

META = dict(
    bounds="grids of 1 to 6 cells; every polygon of 3 to 24 vertices with the vertex coordinates "
           "named in the configuration symbolic in [-2e4, 2e4]: all coordinates of L-shaped, "
           "rectangular and triangular cells and of structured grids (cell sizes, offsets, "
           "rotation 0 or atan(3/4)), all x coordinates (y concrete) and all y coordinates "
           "(x concrete) of convex quadrilaterals, pentagons and hexagons, in either orientation, "
           "12- and 24-sided polygons (the latter and a quadrilateral away from the origin, two "
           "coordinates symbolic)",
    outside="polygons with more vertices, general convex polygons with both coordinates of every "
            "vertex symbolic at the same time, floating-point rounding (reals)",
    assumptions=["coordinates are real numbers (no rounding)",
                 "the cell polygons are the ones flopy reports for the grid"])
S = 1e4


def dem_of(api, n, shape):
    return api.array([100.0 + 3 * i for i in range(n)], "f", shape)


def areas(api, g, n, shape):
    fd = api.call(api.dany.FlowDirections, g, dem_of(api, n, shape))
    a = api.flat(api.call(lambda: fd.area))
    api.check("one area per cell", len(a) == n)
    api.observe("area", a)
    return a


def equal(api, a, b, i):
    # in the reals; a relative margin far below any real change of the area
    t = 1e-6
    api.check("polygon area", api.And(api.le(a - b, t), api.le(b - a, t)), detail=i)


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def fan(api, p):
    """area of a convex polygon: the triangles of a fan from its first vertex"""
    s = sum(cross(p[0], p[k], p[k + 1]) for k in range(1, len(p) - 1))
    return api.abs(s) / 2


def convex(api, p, sign):
    """assume strict convexity with the given orientation"""
    n = len(p)
    for k in range(n):
        for m in range(k + 2, n + k - 0):
            if m % n == k or m % n == (k + 1) % n:
                continue
            api.assume(api.lt(0, sign * cross(p[k], p[(k + 1) % n], p[m % n])))


def body_convex(api, kind, ring, sym, extra=None, starts=None):
    """one convex cell `ring` (all coordinates `sym`, or those listed, symbolic) given clockwise or
    counter-clockwise from any starting vertex, next to concrete cells"""
    n = len(ring)
    p = []
    sym = [(a, k) for a in sym for k in range(n)] if isinstance(sym, str) else sym
    for k, (x, y) in enumerate(ring):
        p.append((api.real(f"x{k}", -2 * S, 2 * S) if ("x", k) in sym else x,
                  api.real(f"y{k}", -2 * S, 2 * S) if ("y", k) in sym else y))
    convex(api, p, 1)
    start = api.pick("start", starts or list(range(n)))
    flip = api.flag("flip")
    order = list(range(n))[start:] + list(range(n))[:start]
    if flip:
        order.reverse()
    verts, nominal, cells = list(p), list(ring), [order]
    exp = [fan(api, p)]
    for poly, area in (extra or []):
        b = len(verts)
        verts += poly
        nominal += poly
        cells.append(list(range(b, b + len(poly))))
        exp.append(area)
    if api.flag("last"):
        cells.reverse()
        exp.reverse()
    g = api.grid_poly(kind, verts, cells, nominal)
    a = areas(api, g, len(cells), (len(cells),))
    for i in range(len(cells)):
        equal(api, a[i], exp[i], i)
    api.reach()


def body_L(api, kind):
    """L-shaped (non-convex) cell, the rectangle filling the notch and a
    triangle, all dimensions and the position symbolic"""
    a, b = api.real("a", 0.001, S), api.real("b", 0.001, S)
    c, d = api.real("c", 0.001, S), api.real("d", 0.001, S)
    tx, ty = api.real("tx", -S, S), api.real("ty", -S, S)
    X, Y = a + c, b + d

    def T(x, y):
        return x + tx, y + ty
    # 0..5 the L counter-clockwise, 6 the notch corner, 7 apex of a triangle on top
    verts = [T(0, 0), T(X, 0), T(X, b), T(a, b), T(a, Y), T(0, Y), T(X, Y), T(0, Y + d)]
    nominal = [(0, 0), (3, 0), (3, 1), (1, 1), (1, 3), (0, 3), (3, 3), (0, 5)]
    L, N, R = [0, 1, 2, 3, 4, 5], [3, 2, 6, 4], [5, 4, 7]
    k = api.pick("start", list(range(6)))
    L = L[k:] + L[:k]
    if api.flag("flip L"):
        L.reverse()
    if api.flag("flip N"):
        N.reverse()
    if api.flag("flip R"):
        R.reverse()
    g = api.grid_poly(kind, verts, [L, N, R], nominal)
    r = areas(api, g, 3, (3,))
    equal(api, r[0], X * b + a * d, 0)
    equal(api, r[1], c * d, 1)
    equal(api, r[2], a * d / 2, 2)
    api.reach()


def body_rect(api, nr, nc, rot, concrete_off=None):
    delr = [api.real(f"delr{j}", 0.001, S) for j in range(nc)]
    delc = [api.real(f"delc{i}", 0.001, S) for i in range(nr)]
    xo, yo = concrete_off or (api.real("xoff", -S, S), api.real("yoff", -S, S))
    g = api.grid_rect(delr, delc, xo, yo, rot)
    a = areas(api, g, nr * nc, (nr, nc))
    for i in range(nr):
        for j in range(nc):
            equal(api, a[i * nc + j], delr[j] * delc[i], (i, j))
    api.reach()


QUAD = [(0.0, 0.0), (9.0, 1.0), (10.0, 8.0), (2.0, 7.0)]
PENTA = [(0.0, 0.0), (6.0, -2.0), (10.0, 3.0), (7.0, 9.0), (1.0, 7.0)]
HEXA = [(0.0, 0.0), (6.0, -2.0), (10.0, 3.0), (9.0, 8.0), (5.0, 10.0), (1.0, 7.0)]
TRI = [(0.0, 0.0), (8.0, 1.0), (3.0, 7.0)]
DODECA = [(40.0, 0.0), (35.0, 20.0), (20.0, 35.0), (0.0, 40.0), (-20.0, 35.0), (-35.0, 20.0),
          (-40.0, 0.0), (-35.0, -20.0), (-20.0, -35.0), (0.0, -40.0), (20.0, -35.0), (35.0, -20.0)]
# a 24-gon on a parabola and its mirror image, away from the origin
LENS = [(float(8 * k) + 8192.375, float(k * k) + 4096.625) for k in range(-6, 7)] + [
    (float(8 * k) + 8192.375, 72.0 - k * k + 4096.625) for k in range(5, -6, -1)]
QUADF = [(x + 8192.375, y + 4096.625) for x, y in QUAD]
FAR = [(([(40.0, 0.0), (46.0, 0.0), (40.0, 4.0)]), 12.0),
       (([(50.0, 0.0), (50.0, 3.0), (52.0, 5.0), (54.0, 3.0), (54.0, 0.0), (52.0, -2.0)]), 20.0)]


def configs(tier):
    out = []

    def add(name, b, **p):
        out.append(dict(name=name, body=b, params=p))
    add("tri-xy", body_convex, kind="v", ring=TRI, sym="xy", extra=FAR)
    add("quad-x", body_convex, kind="v", ring=QUAD, sym="x", extra=FAR)
    add("quad-y", body_convex, kind="u", ring=QUAD, sym="y", extra=FAR)
    add("penta-y", body_convex, kind="v", ring=PENTA, sym="y", extra=FAR[:1])
    add("hexa-x", body_convex, kind="u", ring=HEXA, sym="x", extra=FAR[:1])
    add("dodeca-y", body_convex, kind="v", ring=DODECA, sym="y", extra=FAR[:1], starts=[0, 7])
    add("lens-y", body_convex, kind="u", ring=LENS, sym=[("y", 3), ("y", 16)], extra=FAR[1:],
        starts=[0, 11, 23])
    add("quad-far", body_convex, kind="v", ring=QUADF, sym=[("x", 0), ("x", 1)])
    add("L-v", body_L, kind="v")
    add("L-u", body_L, kind="u")
    add("rect-2x3", body_rect, nr=2, nc=3, rot=(1.0, 0.0))
    add("rect-2x2-rot", body_rect, nr=2, nc=2, rot=(0.8, 0.6))
    if tier == "thorough":
        add("tri-xy-u", body_convex, kind="u", ring=TRI, sym="xy", extra=FAR)
        add("penta-x", body_convex, kind="u", ring=PENTA, sym="x", extra=FAR)
        add("hexa-y", body_convex, kind="v", ring=HEXA, sym="y", extra=FAR)
        add("quad-xy", body_convex, kind="v", ring=QUAD, sym="xy")
        add("rect-3x3-rot", body_rect, nr=3, nc=3, rot=(-0.6, 0.8))
    return out
