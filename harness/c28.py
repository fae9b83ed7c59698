"""C28: filling leaves drained surfaces alone and is idempotent."""
from .common import elevations, has_lower

META = dict(
    bounds="grids of 7 to 12 cells (structured, vertex, unstructured; reversed numbering, closed "
           "polygons, three layers): the elevations named in the configuration symbolic in "
           "[-1e4, 1e4], the others fixed; positive epsilons fixed per configuration or symbolic",
    outside="larger grids, NaN or infinite elevations, filling towards a stream mask, "
            "floating-point rounding (reals)",
    assumptions=["elevations are real numbers (no rounding)"])


def fill(api, spec, dem, method, eps):
    kw = dict(method=method)
    if method != "complete" and eps is not None:
        kw["eps"] = eps
    return api.call(api.dany.fill_sinks, api.grid(spec), dem, **kw)


def epsilon(api, eps):
    return api.real("eps", 1e-9, 10) if eps == "sym" else eps


def body_drained(api, spec, sym, method, base=None, eps=None):
    """every interior cell has a lower neighbour: the surface comes back"""
    info = api.info(spec)
    z = elevations(api, info, sym, base)
    eps = epsilon(api, eps)
    for i in range(info.n):
        if not info.edge[i]:
            by = (2e-6 if eps is None else eps) if method == "drain" else None
            api.assume(has_lower(api, info, z, i, by))
    o = api.flat(fill(api, spec, api.array(z, "f", info.shape), method, eps))
    for i in range(info.n):
        api.check("drained surface unchanged", api.eq(o[i], z[i]), detail=i)
    api.observe("filled", o)
    api.reach()


def body_twice(api, spec, sym, method, base=None, eps=None):
    info = api.info(spec)
    z = elevations(api, info, sym, base)
    eps = epsilon(api, eps)
    a = fill(api, spec, api.array(z, "f", info.shape), method, eps)
    b = api.flat(fill(api, spec, a, method, eps))
    a = api.flat(a)
    for i in range(info.n):
        api.check("filling a filled surface changes nothing", api.eq(b[i], a[i]), detail=i)
    api.observe("filled", b)
    api.reach()


R33 = [4, 2, 6, 3, 0, 5, 7, 1, 8]
R34 = [5, 4, 6, 7, 3, 1, 0, 4, 6, 2, 5, 8]
NEST = [0, 4, 2, 1, 3, 2, 0]


def configs(tier):
    out = []

    def add(name, b, **p):
        out.append(dict(name=name, body=b, params=p))
    # drained surfaces
    for m in ("priority", "complete"):
        add(f"drained-nested-{m}", body_drained, spec="v:nested", method=m, sym="all", eps=0.5)
        add(f"drained-s3x4-{m}", body_drained, spec="s:3x4@lf", method=m, sym=[1, 5, 6, 10],
            base=R34)
        add(f"drained-nested2-{m}", body_drained, spec="u:nested2@p", method=m, sym=[0, 2, 3, 6],
            base=[0, 4, 2, 5, 6, 7, 8, 9, 10, 12][::-1], eps=0.5)
    add("drained-nested-symeps", body_drained, spec="u:nested", method="priority",
        sym=[0, 3, 4, 5, 6], base=NEST, eps="sym")
    add("drained-s3x3-drain", body_drained, spec="s:3x3@rf", method="drain", sym=[1, 4, 7, 3],
        base=R33)
    add("drained-nested-drain", body_drained, spec="v:nested@c", method="drain",
        sym=[0, 3, 4, 5, 6], base=NEST, eps=0.5)
    add("drained-s3x4-drain", body_drained, spec="s:3x4", method="drain", sym=[1, 5, 6],
        base=R34, eps="sym")
    # idempotence
    for m in ("priority", "complete"):
        add(f"twice-nested-{m}", body_twice, spec="v:nested@c", method=m, sym=[0, 3, 4, 5, 6],
            base=NEST, eps=0.5)
        add(f"twice-s3x4-{m}", body_twice, spec="s:3x4", method=m, sym=[1, 5, 6], base=R34)
    add("twice-s3x3-eps0", body_twice, spec="s:3x3@mlf", method="priority", sym=[1, 4, 7], base=R33,
        eps=0.0)
    add("twice-nested-p", body_twice, spec="u:nested@p", method="priority", sym=[0, 2, 3, 5],
        base=NEST[::-1], eps="sym")
    add("twice-nested-drain", body_twice, spec="v:nested", method="drain", sym=[3, 4, 6],
        base=NEST, eps=0.5)
    add("twice-s3x4-drain", body_twice, spec="s:3x4", method="drain", sym=[5, 6], base=R34,
        eps=2.0 ** -19)
    if tier == "thorough":
        for m in ("priority", "complete"):
            add(f"drained-nested2-{m}-8", body_drained, spec="v:nested2", method=m, eps=0.5,
                sym=[0, 3, 4, 5, 6, 7, 8, 9], base=[0, 4, 2, 0, 0, 0, 0, 0, 0, 0])
            add(f"drained-s4x4-{m}", body_drained, spec="s:4x4", method=m, sym=[1, 5, 6, 9, 10],
                base=[5, 4, 6, 7, 3, 0, 0, 4, 6, 0, 0, 8, 9, 2, 4, 6], eps=0.5)
            add(f"twice-nested-{m}-7", body_twice, spec="v:nested", method=m, sym="all", eps=0.5)
            add(f"twice-nested2-{m}", body_twice, spec="v:nested2", method=m,
                sym=[3, 4, 6, 7, 9], base=[0, 4, 2, 0, 0, 1, 0, 0, 1, 0], eps=0.5)
        add("drained-nested-drain-7", body_drained, spec="v:nested", method="drain", sym="all",
            eps="sym")
        add("twice-nested-drain-5", body_twice, spec="v:nested", method="drain",
            sym=[0, 3, 4, 5, 6], base=NEST, eps=0.5)
    return out
