"""C26: builder objects survive a write/read round trip."""
import os
from pathlib import Path
from .common import Z, flowdir
from .c24 import norm, same

META = dict(
    bounds="cascade and stream builder objects of networks on grids of 4 and 6 cells with symbolic "
           "stream mask, every elevation symbolic in [-1e4, 1e4], and cascade objects with every "
           "attribute symbolic; whole numbers up to 2**32; every history of up to 3 writes and reads of two objects to two "
           "paths (string or Path), reading through the class or an object",
    outside="larger objects, failing file systems; file contents are modelled (pickling by the "
            "object protocol pickle uses, files as record lists), real files and pickle are used "
            "when paths are validated and counterexamples replayed",
    assumptions=["pickle restores arrays and numbers unchanged"])


def attrs(api, o):
    return [[k, norm(api, v)] for k, v in sorted(vars(o).items())]


def network(api, spec, cls, tag, smask, z):
    info = api.info(spec)
    n = info.n
    fdir = [max(info.queen[i]) if max(info.queen[i]) > i else i for i in range(n)]
    m = [api.flag(f"s{tag}{i}") if c == "?" else c == "1" for i, c in enumerate(smask)]
    fd, g = flowdir(api, spec, fdir=fdir, facc=[1.0] * n, dem=z)
    o = api.call(getattr(api.dany, cls), g, fd)
    api.call(o.set_stream_array, api.array([int(x) for x in m], "i", info.shape))
    return o


def make(api, spec, what, tag, smask, z):
    # numbers from 0 to beyond 32 bits
    big = lambda nm: api.int(nm, 0, 9) * (2 ** 29 + 1)
    if what == "raw":
        cls = api.mod("stream_util").PygsflowCascades
        k = 3
        r = {nm: api.array([api.real(f"{nm}{tag}{i}", -Z, Z) for i in range(k)])
             for nm in ("hru_pct_up", "hru_slope", "hru_aspect", "hru_area")}
        r.update({nm: api.array([big(f"{nm}{tag}{i}") for i in range(k)], "i")
                  for nm in ("hru_up_id", "hru_down_id", "hru_strmseg_down_id")})
        return api.call(cls, cascade_flag=api.int(f"flag{tag}", 0, 1),
                        nsegments=big(f"ns{tag}"), nreaches=big(f"nr{tag}"), **r)
    if what == "raw streams":
        num = lambda nm, k: api.array([big(f"{nm}{tag}{i}") for i in range(k)], "i")
        return api.call(api.mod("stream_util").PygsflowStreams, num("reach_data", 2),
                        num("segment_data", 2),
                        None if api.flag(f"no irunbnd{tag}") else num("irunbnd", 4))
    o = network(api, spec, "PrmsStreams" if what == "cascades" else "Sfr2005", tag, smask, z)
    return api.call(o.get_pygsflow_builder_object)


def body(api, spec, what, smask, steps):
    info = api.info(spec)
    d = api.scratch()
    z = [api.real(f"z{i}", -Z, Z) for i in range(info.n)]
    objs = [make(api, spec, what, "a", smask, z),
            make(api, spec, what if what != "streams" else "raw", "b", smask, list(reversed(z)))]
    ref = [attrs(api, o) for o in objs]
    base = type(objs[0]).__mro__[-2]
    names = [os.path.join(d, "builder.obj"), Path(d) / "second.bin"]
    if api.flag("as path"):
        names = [Path(names[0]), str(names[1])]
    latest = {}
    for k in range(steps):
        i = api.pick(f"object{k}", [0, 1])
        p = api.pick(f"file{k}", [0, 1])
        api.call(objs[i].write, names[p])
        latest[p] = i
    for p, i in sorted(latest.items()):
        for by in ("class", "base", "object"):
            r = api.call({"class": type(objs[i]), "base": base, "object": objs[1 - i]}[by].read,
                         names[p])
            api.check("same type", type(r) is type(objs[i]))
            same(api, "same attributes", attrs(api, r), ref[i])
            api.check("a new object", r is not objs[i])
    for o, a in zip(objs, ref):
        same(api, "written object unaltered", attrs(api, o), a)
    api.observe("objects", [[v for k, v in a if k in ("hru_slope", "irunbnd", "nreaches")]
                            for a in ref])
    api.reach()


def configs(tier):
    out = []

    def add(name, **p):
        out.append(dict(name=name, body=body, params=p))
    L = 2 if tier == "quick" else 3
    add("raw", spec="s:2x2", what="raw", smask="0000", steps=3)
    add("raw-streams", spec="s:2x2", what="raw streams", smask="0000", steps=2)
    add("cascades-s", spec="s:2x2", what="cascades", smask="??1?", steps=L)
    add("cascades-u", spec="u:hex2x3", what="cascades", smask="?0?1?1", steps=L)
    add("streams-s", spec="s:rect(2x3;8,5,20;6,7)", what="streams", smask="?01?11", steps=L)
    return out
