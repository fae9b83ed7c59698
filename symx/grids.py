"""small flopy grids used by the harnesses (native objects)"""
import numpy as np
import warnings
warnings.filterwarnings("ignore")
from flopy.discretization import StructuredGrid, VertexGrid, UnstructuredGrid  # noqa


def structured(nr, nc, delr=None, delc=None, xoff=0.0, yoff=0.0, nlay=1, angrot=0.0, scale=1.0):
    delr = np.array(delr if delr is not None else [10.0] * nc, float) * scale
    delc = np.array(delc if delc is not None else [10.0] * nr, float) * scale
    return StructuredGrid(delc=delc, delr=delr, top=np.ones((nr, nc)),
                          botm=np.array([np.full((nr, nc), -float(k)) for k in range(nlay)]),
                          nlay=nlay, xoff=xoff, yoff=yoff, angrot=angrot,
                          idomain=np.ones((nlay, nr, nc), int))


def _poly(verts, cells, kind, centers=None, nlay=1):
    n = len(cells)
    verts = [[i, float(x), float(y)] for i, (x, y) in enumerate(verts)]
    if centers is None:
        centers = []
        for c in cells:
            pts = np.array([[verts[i][1], verts[i][2]] for i in c])
            centers.append(tuple(pts.mean(axis=0)))
    xc = [float(c[0]) for c in centers]
    yc = [float(c[1]) for c in centers]
    if kind == "v":
        cell2d = [[i, xc[i], yc[i], len(c)] + list(c) for i, c in enumerate(cells)]
        return VertexGrid(vertices=verts, cell2d=cell2d, top=np.ones(n),
                          botm=np.array([np.full(n, -float(k)) for k in range(nlay)]),
                          nlay=nlay, ncpl=n, idomain=np.ones((nlay, n), int))
    return UnstructuredGrid(vertices=verts, iverts=[list(c) for c in cells],
                            xcenters=np.array(xc), ycenters=np.array(yc),
                            top=np.ones(n), botm=np.zeros(n),
                            idomain=np.ones(n, int), ncpl=np.array([n]))


def from_structured(nr, nc, kind, delr=None, delc=None):
    g = structured(nr, nc, delr, delc)
    verts = [(float(x), float(y)) for x, y in g.verts]
    xc = g.xcellcenters.ravel()
    yc = g.ycellcenters.ravel()
    return _poly(verts, [list(c) for c in g.iverts], kind,
                 list(zip(xc, yc)))


def nested(kind="v"):
    """3 outer cells around 3 inner cells around one centre triangle:
    7 cells, only the 3 outer ones touch the rim"""
    def ring(r, a0=90.0):
        return [(r * np.cos(np.radians(a0 + 120 * k)), r * np.sin(np.radians(a0 + 120 * k)))
                for k in range(3)]
    v = [tuple(np.round(p, 2)) for r in (12.0, 7.0, 3.0) for p in ring(r)]
    cells = []
    for ring0 in (0, 3):
        for k in range(3):
            a, b = ring0 + k, ring0 + (k + 1) % 3
            cells.append([b, a, a + 3, b + 3])
    cells.append([8, 7, 6])
    return _poly(v, cells, kind)


def nested2(kind="v"):
    """one more ring: 10 cells, 3 on the rim"""
    def ring(r, a0=90.0):
        return [(r * np.cos(np.radians(a0 + 120 * k)), r * np.sin(np.radians(a0 + 120 * k)))
                for k in range(3)]
    v = [tuple(np.round(p, 2)) for r in (16.0, 11.0, 7.0, 3.0) for p in ring(r)]
    cells = []
    for ring0 in (0, 3, 6):
        for k in range(3):
            a, b = ring0 + k, ring0 + (k + 1) % 3
            cells.append([b, a, a + 3, b + 3])
    cells.append([11, 10, 9])
    return _poly(v, cells, kind)


def tree_grid(kind="v"):
    """irregular mesh: quadrilaterals, triangles and a pentagon (8 cells)"""
    v = [(0, 0), (4, 0), (8, 0), (12, 0),
         (0, 4), (4, 4), (8, 5), (12, 4),
         (0, 9), (5, 8), (9, 9), (12, 8),
         (0, 12), (6, 12), (12, 12)]
    cells = [[0, 4, 5, 1], [1, 5, 6, 2], [2, 6, 7, 3],
             [4, 8, 9, 5], [5, 9, 6], [6, 9, 10, 11, 7],
             [8, 12, 13, 9], [9, 13, 14, 11, 10]]
    return _poly(v, cells, kind)


def strip(n, kind="v", widths=None):
    """n cells in a row (corridor): every cell touches the rim"""
    w = widths or [10.0] * n
    x = np.concatenate([[0.0], np.cumsum(w)])
    v = [(xx, 0.0) for xx in x] + [(xx, 10.0) for xx in x]
    m = n + 1
    cells = [[m + i, m + i + 1, i + 1, i] for i in range(n)]
    return _poly(v, cells, kind)


def fan(n, kind="v"):
    """a hub polygon (cell 0) with n neighbours around it"""
    def ring(r):
        return [(round(r * np.cos(2 * np.pi * k / n), 2), round(r * np.sin(2 * np.pi * k / n), 2))
                for k in range(n)]
    v = ring(6.0) + ring(14.0)
    cells = [list(range(n))[::-1]]
    for k in range(n):
        j = (k + 1) % n
        cells.append([k, j, n + j, n + k])
    return _poly(v, cells, kind)


def holed(kind="v"):
    """3x3 block of cells with the centre cell missing (ring of 8 cells)"""
    g = structured(3, 3)
    verts = [(float(x), float(y)) for x, y in g.verts]
    cells = [list(c) for i, c in enumerate(g.iverts) if i != 4]
    return _poly(verts, cells, kind)


def hexes(kind="v", rows=2, cols=3):
    """hexagonal mesh"""
    vid, verts, cells = {}, [], []

    def vert(x, y):
        k = (round(x, 3), round(y, 3))
        if k not in vid:
            vid[k] = len(verts)
            verts.append(k)
        return vid[k]
    s = 10.0
    h = 8.66
    for r in range(rows):
        for c in range(cols):
            cx = c * 2 * h + (h if r % 2 else 0.0)
            cy = -r * 1.5 * s
            cells.append([vert(cx + dx, cy + dy) for dx, dy in
                          ((0, s), (h, s / 2), (h, -s / 2), (0, -s), (-h, -s / 2), (-h, s / 2))])
    return _poly(verts, cells, kind)


def refined(kind="v"):
    """quadtree-like mesh with hanging nodes: one coarse cell, 4 fine ones, 2 coarse"""
    v = [(0, 0), (10, 0), (20, 0), (0, 10), (10, 10), (20, 10), (0, 20), (10, 20), (20, 20),
         (15, 10), (10, 15), (15, 15), (20, 15), (15, 20)]
    cells = [[6, 7, 10, 4, 3],               # upper left coarse (hanging node 10)
             [7, 13, 11, 10], [13, 8, 12, 11],
             [10, 11, 9, 4], [11, 12, 5, 9],
             [3, 4, 1, 0],                   # lower left
             [4, 9, 5, 2, 1]]                # lower right (hanging node 9)
    return _poly(v, cells, kind)


def numbering(n, mod):
    """old cell number of every cell of a renumbered grid"""
    if "p" in mod:
        return list(range(n))[::-1]
    if "q" in mod:
        return list(range(1, n, 2)) + list(range(0, n, 2))[::-1]
    return list(range(n))


def make(spec):
    """spec string -> native grid, e.g. 's:2x3', 'v:2x3', 'u:2x3', 'v:nested'; modifiers after @:
    c cells repeat their first vertex, t vertices in the opposite sense, p cells numbered in
    reverse, q in another order, m cell sizes divided by 64, l three layers, o shifted far from the origin,
    r structured grid rotated by 30 degrees, f structured: the arrays given to dany are laid
    out column by column (Fortran order)"""
    spec, _, mod = spec.partition("@")
    if not mod:
        return _make(spec)
    nlay = 3 if "l" in mod else 1
    scale = 1 / 64 if "m" in mod else 1.0
    off = (500000.0, 4000000.0) if "o" in mod else (0.0, 0.0)
    g = _make(spec)
    if spec[0] == "s":
        return structured(g.nrow, g.ncol, g.delr, g.delc, off[0], off[1], nlay,
                          30.0 if "r" in mod else 0.0, scale)
    cells = [list(dict.fromkeys(c)) for c in g.iverts]
    cen = list(zip(np.array(g.xcellcenters).ravel(), np.array(g.ycellcenters).ravel()))
    verts = [(float(a) * scale + off[0], float(b) * scale + off[1])
             for a, b in np.array(g.verts)[:, -2:]]
    cen = [(float(a) * scale + off[0], float(b) * scale + off[1]) for a, b in cen]
    if "t" in mod:
        cells = [c[::-1] for c in cells]
    if "p" in mod or "q" in mod:
        order = numbering(len(cells), mod)
        cells, cen = [cells[k] for k in order], [cen[k] for k in order]
    if "c" in mod:
        cells = [c + [c[0]] for c in cells]
    return _poly(verts, cells, spec[0], cen, nlay)


def _make(spec):
    kind, _, body = spec.partition(":")
    if body.startswith("rect("):               # s:rect(2x3;10,5,20;7,9)
        dims, dr, dc = body[5:-1].split(";")
        nr, nc = (int(t) for t in dims.split("x"))
        dr = [float(t) for t in dr.split(",")]
        dc = [float(t) for t in dc.split(",")]
        if kind == "s":
            return structured(nr, nc, dr, dc)
        return from_structured(nr, nc, kind, dr, dc)
    if "x" in body and body.replace("x", "").isdigit():
        nr, nc = (int(t) for t in body.split("x"))
        if kind == "s":
            return structured(nr, nc)
        return from_structured(nr, nc, kind)
    if body.startswith("strip"):
        return strip(int(body[5:]), kind)
    if body.startswith("fan"):
        return fan(int(body[3:]), kind)
    if body.startswith("hex"):
        r, c = (int(t) for t in body[3:].split("x"))
        return hexes(kind, r, c)
    return {"nested": nested, "nested2": nested2, "tree": tree_grid,
            "holed": holed, "refined": refined}[body](kind)


_CACHE = {}


def fresh(spec):
    """fresh copy (own neighbour caches)"""
    import copy
    if spec not in _CACHE:
        _CACHE[spec] = make(spec)
    return copy.deepcopy(_CACHE[spec])


_INFO = {}


class FShape(tuple):
    """shape of an array kept in Fortran order"""
    order = "F"


class Info:
    """independent geometry facts used by the oracles (not taken from dany;
    computed from the cell polygons alone)"""

    def __init__(self, spec):
        g = make(spec)
        self.spec = spec
        self.iverts = [list(dict.fromkeys(c)) for c in g.iverts]
        self.n = len(self.iverts)
        if spec[0] != "u":
            self.n = g.ncpl
            self.iverts = self.iverts[:self.n]
        self.verts = [tuple(map(float, v)) for v in np.array(g.verts)[:, -2:]]

        def edges(c):
            return {tuple(sorted((c[k - 1], c[k]))) for k in range(len(c))}
        at, by = {}, {}                        # cells around a vertex, cells along an edge
        for i, c in enumerate(self.iverts):
            for v in c:
                at.setdefault(v, []).append(i)
            for e in edges(c):
                by.setdefault(e, []).append(i)
        self.queen = [sorted({j for v in c for j in at[v]} - {i})
                      for i, c in enumerate(self.iverts)]
        self.rook = [sorted({j for e in edges(c) for j in by[e]} - {i})
                     for i, c in enumerate(self.iverts)]
        self.edge = [any(len(by[e]) == 1 for e in edges(c)) for c in self.iverts]
        self.xc = [float(x) for x in np.array(g.xcellcenters).ravel()[:self.n]]
        self.yc = [float(y) for y in np.array(g.ycellcenters).ravel()[:self.n]]
        self.area = []
        for c in self.iverts:
            p = [self.verts[k] for k in c]
            self.area.append(abs(sum(p[k - 1][0] * p[k][1] - p[k][0] * p[k - 1][1]
                                     for k in range(len(p)))) / 2)
        if spec[0] == "s":
            self.shape = (g.nrow, g.ncol)
            if "f" in spec.partition("@")[2]:
                self.shape = FShape(self.shape)
        else:
            self.shape = (self.n,)
        self.inside = [(x, y) for x, y in zip(self.xc, self.yc)]
        self.delr = [float(v) for v in g.delr] if spec[0] == "s" else None
        self.delc = [float(v) for v in g.delc] if spec[0] == "s" else None

    def dist(self, i, j):
        return float(np.sqrt((self.xc[i] - self.xc[j]) ** 2 + (self.yc[i] - self.yc[j]) ** 2))

    def lrc(self, n):
        return divmod(n, self.shape[1])


def info(spec):
    if spec not in _INFO:
        _INFO[spec] = Info(spec)
    return _INFO[spec]
