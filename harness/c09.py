"""C09: a watershed is exactly the set of cells draining through its outlet."""
from .common import flowdir, forest, fixed_map, conc_all, upstream

META = dict(
    bounds="every acyclic flow-direction map on grids of 4 to 6 cells (each cell may drain to any "
           "queen neighbour, to itself, or be unresolved) and every cell as the pour point, given "
           "as the cell centre or another interior location, as tuple, list, array or geometry "
           "object; 9-cell grids with restricted directions; "
           "one 182x182 grid (33124 cells, fixed but for one symbolic flow direction)",
    outside="larger grids, pour points on cell edges or outside the grid, shapefile inputs, cyclic "
            "maps",
    assumptions=["flopy's grid.intersect and get_node run natively (concrete geometry)"])


def point_of(api, info, i, form):
    # off-centre but inside: halfway between the centre and the first vertex
    x, y = info.xc[i], info.yc[i]
    if form.startswith("off"):
        vx, vy = info.verts[info.iverts[i][0]]
        x, y = (3 * x + vx) / 4, (3 * y + vy) / 4
        form = form[3:]
    if form == "list":
        return [x, y]
    if form == "array":
        return api.np.array([x, y])
    if form == "geom":
        from flopy.utils.geometry import Point
        return Point(x, y)
    if form == "geojson":
        return dict(type="Point", coordinates=(x, y))
    return (x, y)


def body(api, spec, form="tuple", options=None, unresolved=False, pts=None):
    info = api.info(spec)
    n = info.n
    d = forest(api, info, options=options, unresolved=unresolved)
    p = api.pick("pour", pts if pts is not None else list(range(n)))
    fd, g = flowdir(api, spec, fdir=d)
    ws = api.call(fd.get_watershed_boundary, point_of(api, info, p, form))
    api.check("shape", tuple(ws.shape) == tuple(info.shape))
    w = api.flat(ws)
    up = upstream(conc_all(api, d))[p]
    for i in range(n):
        api.check("drains through the pour point", api.lt(0, w[i]) if i in up
                  else api.eq(w[i], 0), detail=i)
    f2 = api.flat(api.call(lambda: fd.flow_direction_array))
    for i in range(n):
        api.check("flow directions unaltered", api.eq(f2[i], d[i]), detail=i)
    api.observe("watershed", ws)
    api.reach()


def configs(tier):
    from .c08 import DR
    out = []

    def add(name, **p):
        out.append(dict(name=name, body=body, params=p))
    add("s2x2", spec="s:2x2", unresolved=True)
    add("s2x2-off", spec="s:2x2", form="offlist")
    add("v2x2-geom", spec="v:2x2", form="geom")
    add("u2x2-array", spec="u:2x2", form="offarray")
    add("s2x3", spec="s:2x3", pts=[1, 4])
    add("strip5", spec="v:strip5", unresolved=True)
    add("s3x3-star", spec="s:3x3", options={
        0: [0, 4], 1: [0, 4, 1], 2: [4, 1], 3: [4], 4: [4, 8, 7], 5: [4, 8], 6: [4, 7], 7: [7, 8],
        8: [8]}, pts=[4, 8, 7])
    add("s2x2-ml", spec="s:2x2@mlof", form="geom")
    add("s2x3-r", spec="s:2x3@lrf", pts=[0, 5], options={
        0: [1, 3], 1: [4, 1], 2: [5], 3: [4, 3], 4: [5, 1], 5: [5, 4]})
    add("tree-ctp", spec="v:tree@ctpl", pts=[5, 1, 4], form="offlist", options={
        0: [1, 4], 1: [0, 1, 3], 2: [2, 0, 5], 3: [1, 5, 6], 4: [6, 2], 5: [5], 6: [4, 7],
        7: [6, 4]})
    add("strip30", spec="u:strip30@p", pts=[29, 14, 1],
        options={**{i: [i + 1] for i in range(29)}, 29: [29], 7: [8, 6, 7], 15: [16, 15]})
    from .c12 import FAN, COMB
    add("fan", spec="v:fan12", options={**FAN, 7: [0, 7, 8]}, pts=[0, 4, 9])
    add("comb", spec="u:2x70", options=COMB, pts=[139, 91, 74, 20])
    # more cells than a 16-bit index can number
    out.append(dict(name="s182x182", body=body, ticks=10 ** 7, params=dict(
        spec="s:182x182", options=fixed_map(182, 182, {32900: [32901, 33083]}),
        pts=[33123])))
    # a long flow path
    from .c12 import CHAIN
    out.append(dict(name="strip1200", body=body, ticks=10 ** 6, params=dict(
        spec="u:strip1200", options=CHAIN, pts=[1199])))
    if tier == "thorough":
        add("s2x3-all", spec="s:2x3")
        add("u2x3-unres", spec="u:2x3", unresolved=True, pts=[0, 1, 5])
        add("s3x3-down", spec="s:3x3", options=DR, pts=[0, 4, 5, 8])
    return out
