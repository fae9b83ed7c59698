"""C08: flow accumulation equals own plus all upstream area (or cells)."""
from .common import flowdir, forest, fixed_map, conc_all, upstream

META = dict(
    bounds="every acyclic flow-direction map on grids of 4 to 7 cells (each cell may drain to any "
           "queen neighbour, to itself, or be unresolved), with every cell area symbolic in "
           "[0, 1e6]; 9-cell grids with restricted directions; loop bound 20000 iterations; "
           "one 182x182 grid (33124 cells, fixed but for one symbolic flow direction)",
    outside="larger grids, floating-point rounding of the sums (reals), cyclic maps",
    assumptions=["areas are real numbers (no rounding)"])


def near(api, a, b):
    return api.And(api.le(a - b, 1e-6), api.le(b - a, 1e-6))


def body(api, spec, as_cells=False, options=None, unresolved=False, twice=False,
         own=False):
    info = api.info(spec)
    n = info.n
    # own: the areas of the grid itself
    area = None if as_cells or own else [api.real(f"a{i}", 0, 1e6) for i in range(n)]
    d = forest(api, info, options=options, unresolved=unresolved)
    fd, g = flowdir(api, spec, fdir=d, area=area)
    if own:
        area = api.flat(api.call(lambda: fd.area))
    if twice:
        api.call(fd.flow_accumulation, as_cells=not as_cells)
    acc = api.call(fd.flow_accumulation, as_cells=True) if as_cells \
        else api.call(fd.flow_accumulation)
    api.check("shape", tuple(acc.shape) == tuple(info.shape))
    a = api.flat(acc)
    c = conc_all(api, d)
    up = upstream(c)
    tot = []
    for i in range(n):
        s = len(up[i]) if as_cells else api.sum([area[j] for j in up[i]])
        api.check("own plus upstream", near(api, a[i], s) if own else api.eq(a[i], s), detail=i)
        if 0 <= c[i] != i:
            api.check("never decreases downstream", api.le(a[i], a[c[i]]), detail=i)
        else:
            tot.append(a[i])
    total = n if as_cells else api.sum(area)
    api.check("outlets add up to the total", near(api, api.sum(tot), total) if own
              else api.eq(api.sum(tot), total))
    acc2 = api.flat(api.call(lambda: fd.flow_accumulation_array))
    for i in range(n):
        api.check("stored result", api.eq(a[i], acc2[i]), detail=i)
    f2 = api.flat(api.call(lambda: fd.flow_direction_array))
    for i in range(n):
        api.check("flow directions unaltered", api.eq(f2[i], d[i]), detail=i)
    if not as_cells:
        ar2 = api.flat(api.call(lambda: fd.area))
        for i in range(n):
            api.check("areas unaltered", api.eq(ar2[i], area[i]), detail=i)
    api.observe("acc", acc)
    api.reach()


# 3x3: cells drain roughly towards the lower right corner
DR = {0: [1, 3, 4], 1: [2, 4, 5, 3], 2: [5, 4, 2], 3: [4, 6, 7], 4: [5, 7, 8, 4], 5: [8, 7, 5],
      6: [7, 6], 7: [8, 7, 4], 8: [8]}


def configs(tier):
    out = []

    def add(name, **p):
        out.append(dict(name=name, body=body, params=p))
    add("s2x2", spec="s:2x2", unresolved=True)
    add("s2x3", spec="s:2x3")
    add("u2x2-cells", spec="u:2x2", as_cells=True, unresolved=True)
    add("v2x3-cells", spec="v:2x3", as_cells=True)
    add("s2x2-twice", spec="s:2x2", twice=True)
    add("strip5", spec="u:strip5", unresolved=True)
    add("strip6-cells", spec="v:strip6", as_cells=True)
    add("s2x2-ml", spec="s:rect(2x2;8,5;6,7)@mlrf", unresolved=True)
    add("tree-ctp", spec="v:tree@ctpl", options={
        0: [1, 4], 1: [0, 1, 3], 2: [2, 0, 5], 3: [1, 5, 6], 4: [6, 2], 5: [5], 6: [4, 7],
        7: [6, 4]})
    add("nested-mo", spec="u:nested@mpo", as_cells=True, options={
        0: [1, 3], 1: [1, 2], 2: [5, 1], 3: [6, 3], 4: [4, 1], 5: [2, 4], 6: [6, 5]})
    from .c12 import FAN, COMB
    add("fan", spec="v:fan12", options={**FAN, 7: [0, 7, 8]})
    add("comb", spec="s:2x70", options={**COMB, 100: [100, 101]})
    add("comb-cells", spec="u:2x70", options={**COMB, 100: [100, 101]}, as_cells=True)
    add("strip300-cells", spec="u:strip300@p", as_cells=True,
        options={**{i: [i + 1] for i in range(299)}, 299: [299], 150: [151, 150]})
    add("s2x3-own", spec="s:rect(2x3;1234.57,987.31,1111.7;1499.93,2071.19)", own=True,
        options={0: [1, 3, 4], 1: [1, 4, 5], 2: [1, 5], 3: [4, 3], 4: [5, 1], 5: [5]})
    # more cells than a 16-bit index can number
    out.append(dict(name="s182x182", body=body, ticks=10 ** 7, params=dict(
        spec="s:182x182", options=fixed_map(182, 182, {32900: [32901, 33083]}),
        as_cells=True)))
    if tier == "thorough":
        add("nested", spec="v:nested")
        add("s3x3-down", spec="s:3x3", options=DR)
        add("s2x3-unres", spec="s:2x3", unresolved=True)
        add("s3x3-down-cells", spec="s:3x3", options=DR, as_cells=True)
    return out
