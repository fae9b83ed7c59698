"""C10: subbasins partition cells by the first pour point downstream."""
from itertools import permutations
from .common import flowdir, forest, fixed_map, conc_all, path
from .c09 import point_of

META = dict(
    bounds="every acyclic flow-direction map on grids of 4 to 6 cells (each cell may drain to any "
           "queen neighbour, to itself, or be unresolved) with every set and order of up to three "
           "distinct pour points of the listed cells; 9-cell grids with restricted directions; "
           "one 182x182 grid (33124 cells, fixed but for one symbolic flow direction)",
    outside="larger grids, other sets of more than four pour points, shapefile inputs, cyclic maps",
    assumptions=["flopy's grid.intersect and get_node run natively (concrete geometry)"])


def body(api, spec, sets, form="tuple", options=None, unresolved=False, wrap="list"):
    info = api.info(spec)
    n = info.n
    d = forest(api, info, options=options, unresolved=unresolved)
    p = list(api.pick("points", sets))
    fd, g = flowdir(api, spec, fdir=d)
    pts = [point_of(api, info, i, form) for i in p]
    if wrap == "array":
        pts = api.np.array([list(q) for q in pts])
    elif wrap == "collection":
        from flopy.utils.geometry import Collection, Point
        pts = Collection([Point(*q) for q in pts])
    out = api.call(fd.get_subbasins, pts)
    api.check("shape", tuple(out.shape) == tuple(info.shape))
    s = [api.conc(x) for x in api.flat(out)]
    c = conc_all(api, d)
    first = [next((k for k in path(c, i) if k in p), None) for i in range(n)]
    for i in range(n):
        api.check("0 exactly where no pour point is met", (s[i] == 0) == (first[i] is None),
                  detail=i)
        for j in p:
            if first[i] is not None:
                api.check("same id for the same first pour point",
                          (s[i] == s[j]) == (first[i] == j), detail=(j, i))
    api.check("ids are 1..number of points", sorted(set(s[i] for i in p)) ==
              list(range(1, len(p) + 1)))
    f2 = api.flat(api.call(lambda: fd.flow_direction_array))
    for i in range(n):
        api.check("flow directions unaltered", api.eq(f2[i], d[i]), detail=i)
    api.observe("subbasins", s)
    api.reach()


def orders(cells, k):
    return [list(q) for q in permutations(cells, k)]


def configs(tier):
    from .c08 import DR
    out = []

    def add(name, **p):
        out.append(dict(name=name, body=body, params=p))
    STAR = {0: [0, 4], 1: [0, 4, 1], 2: [4, 1], 3: [4], 4: [4, 8, 7], 5: [4, 8], 6: [4, 7],
            7: [7, 8], 8: [8, 5]}
    add("s2x2", spec="s:2x2", sets=orders(range(4), 1) + orders(range(4), 2))
    add("s2x2-3", spec="s:2x2", sets=orders(range(4), 3))
    add("u2x2-unres", spec="u:2x2", sets=orders([0, 1, 3], 2), unresolved=True)
    add("strip5", spec="v:strip5", sets=orders([0, 1, 3, 4], 2) + [[4, 0, 2], [1, 4, 3]],
        form="offlist")
    add("s2x3", spec="s:2x3", sets=[[0, 4], [5, 1, 0]])
    add("s3x3-star", spec="s:3x3", options=STAR, sets=[[4, 8, 0], [0, 7, 4], [8, 1, 4]])
    add("v-nested-col", spec="v:nested", options={0: [0], 1: [0, 1], 2: [2, 1, 0], 3: [0, 6, 4],
                                                 4: [1, 6], 5: [2, 6, 4], 6: [0, 1, 5]},
        sets=[[6, 0], [4, 1, 6]], wrap="collection")
    add("s2x2-array", spec="s:2x2", sets=[[0, 3], [3, 1, 0]], wrap="array")
    add("s2x2-ml", spec="s:2x2@mlof", sets=orders([0, 3], 2) + [[1, 0, 2]])
    add("tree-ctp", spec="v:tree@ctpl", sets=[[5, 1], [1, 3, 5]], options={
        0: [1, 4], 1: [0, 1, 3], 2: [2, 0, 5], 3: [1, 5, 6], 4: [6, 2], 5: [5], 6: [4, 7],
        7: [6, 4]})
    add("strip30", spec="u:strip30@p", sets=[[29, 3, 14], [20, 10, 0]],
        options={**{i: [i + 1] for i in range(29)}, 29: [29], 7: [8, 6, 7], 15: [16, 15]})
    from .c12 import FAN, COMB
    add("fan", spec="v:fan12", options={**FAN, 7: [0, 7, 8]}, sets=[[0, 4, 9], list(range(12, 0, -1))])
    add("comb", spec="u:2x70", options=COMB, sets=[[139, 91, 74], [20, 110], list(range(139, 110, -1))])
    add("strip140", spec="u:strip140", sets=[list(range(138, -1, -1))],
        options={**{i: [i + 1] for i in range(139)}, 139: [139], 70: [70, 71], 100: [99, 101]})
    # more basins than a byte can number
    add("strip260", spec="u:strip260", sets=[list(range(258))],
        options={**{i: [i + 1] for i in range(259)}, 259: [259], 100: [100, 101]})
    # more cells than a 16-bit index can number
    out.append(dict(name="s182x182", body=body, ticks=10 ** 7, params=dict(
        spec="s:182x182", options=fixed_map(182, 182, {32900: [32901, 33083]}),
        sets=[[33090, 32895, 33123, 400]])))
    # points far apart on a long flow path
    from .c12 import CHAIN
    out.append(dict(name="strip1200", body=body, ticks=10 ** 6, params=dict(
        spec="u:strip1200", options=CHAIN, sets=[[1199, 3], [650, 2, 1100]])))
    out.append(dict(name="strip1200-p", body=body, ticks=10 ** 6, params=dict(
        spec="u:strip1200", options={1199 - i: [1199 - j for j in o] for i, o in CHAIN.items()},
        sets=[[0, 1100], [800, 2, 100]])))
    if tier == "thorough":
        add("s2x2-4", spec="s:2x2", sets=orders(range(4), 4))
        add("s2x3-more", spec="s:2x3", sets=[[1, 4], [0, 5], [3, 0, 4], [5, 2, 1, 0]])
        add("s3x3-down", spec="s:3x3", options=DR, sets=[[4, 0], [8, 4, 7], [5, 3, 4, 8]])
        add("u2x3-unres", spec="u:2x3", sets=[[0, 4]], unresolved=True)
    return out
