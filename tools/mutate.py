#!/opt/venv/bin/python
"""mutation study: mutate.py OUT.jsonl SCRATCHDIR [seed/limit]
Makes one-place mutants of the package in a scratch copy, keeps those that pass the repository's
tests and runs the checks of the properties that concern the mutated function (DANY_REPO points
the checks at the copy).  Not part of any registered check."""
import ast, copy, json, os, random, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
REL = {
    "fill_sinks": "C01 C02 C04 C27", "_flood_and_drain_fill": "C01 C02 C03",
    "_inner_flood_and_drain_fill": "C01 C02 C03", "_priority_flood": "C01 C02 C03 C04 C23",
    "_identify_edge_nodes": "C01 C02 C03 C27", "fill_nan_values": "C05 C27",
    "FlowDirections.__init__": "C06 C07 C08 C09 C10 C21 C24 C27",
    "_shoelace_area": "C22 C08", "area": "C22 C08", "flow_direction_array": "C06 C27",
    "flow_accumulation_array": "C08 C20", "dem": "C27 C15 C13",
    "_fill_irregular_neighbor_array": "C06 C07 C24 C18", "_calculate_slopes": "C06 C18 C07",
    "_calculate_flowcell": "C06 C07 C23 C27", "_resolve_flats": "C06 C07 C23",
    "_reverse_flow_directions": "C09 C10 C24", "get_nidp": "C08 C09 C10",
    "flow_directions": "C06 C07 C24 C27", "flow_accumulation": "C08 C23 C27",
    "get_watershed_boundary": "C09 C10 C24 C27", "get_subbasins": "C10 C24 C27",
    "_get_shared_vertex": "C21", "_get_receivers": "C21 C17 C18 C25",
    "_calculate_hru_len": "C21", "hru_len": "C21", "slope": "C21 C13 C25", "aspect": "C21 C25",
    "vectors": "C21",
    "StreamBase.__init__": "C12 C14 C24 C27", "_reset_connectivity": "C24", "stream_array": "C11 C12",
    "_is_current": "C24 C15 C16", "set_stream_array": "C11 C24",
    "delineate_streams": "C11 C24", "_mf6_stream_connectivity": "C12 C13 C24 C17",
    "_mf2005_stream_connectivity": "C14 C15 C16 C19 C24", "create_stream_vectors": "C19 C24",
    "threshold_from_control_points": "C20 C27", "connectiondata": "C13 C24", "packagedata": "C13 C24 C27",
    "_detuple": "C13", "reach_data": "C15 C25 C24", "segment_data": "C15 C25 C24", "irunbnd": "C16 C24",
    "Sfr2005.get_pygsflow_builder_object": "C25", "get_cascades": "C17 C18 C24 C25",
    "_build_many_to_one_cascades": "C17 C25", "_build_many_to_many_cascades": "C18 C25",
    "PrmsStreams.get_pygsflow_builder_object": "C25 C24", "Topology": "C12 C14 C10",
    "write": "C26", "read": "C26", "PygsflowCascades": "C26 C25", "PygsflowStreams": "C26 C25",
    "PrmsStreams.get_stream_connectivity": "C12 C14", "Sfr2005.get_stream_connectivity": "C14",
    "Sfr6.get_stream_connectivity": "C12", "Sfr6.__init__": "C13 C27", "Sfr2005.__init__": "C15 C25",
    "PrmsStreams.__init__": "C17 C25",
}
SWAP = {"min": "max", "max": "min", "nanmin": "nanmax", "nanmax": "nanmin", "argmax": "argmin",
        "mean": "max", "nanmean": "nanmax", "heappop": "heappop", "cos": "sin", "sin": "cos"}
CMP = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult,
       ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}


def mutants(tree):
    """(description, mutate(tree_copy_node_by_index))"""
    nodes = list(ast.walk(tree))
    out = []
    for ix, nd in enumerate(nodes):
        if isinstance(nd, ast.Compare):
            for k, op in enumerate(nd.ops):
                for new in CMP.get(type(op), []):
                    out.append((ix, f"cmp{k}->{new.__name__}", lambda n, k=k, new=new: n.ops.__setitem__(k, new())))
        elif isinstance(nd, (ast.BinOp, ast.AugAssign)) and type(nd.op) in BIN:
            out.append((ix, "op->" + BIN[type(nd.op)].__name__,
                        lambda n: setattr(n, "op", BIN[type(n.op)]())))
        elif isinstance(nd, ast.BoolOp):
            out.append((ix, "and/or", lambda n: setattr(n, "op", ast.And() if isinstance(n.op, ast.Or) else ast.Or())))
        elif isinstance(nd, ast.Constant):
            v = nd.value
            if isinstance(v, bool):
                out.append((ix, "bool", lambda n: setattr(n, "value", not n.value)))
            elif isinstance(v, int):
                out.append((ix, "int+1", lambda n: setattr(n, "value", n.value + 1)))
                if v > 0:
                    out.append((ix, "int-1", lambda n: setattr(n, "value", n.value - 1)))
            elif isinstance(v, float):
                out.append((ix, "float*3", lambda n: setattr(n, "value", n.value * 3 + 0.5)))
        elif isinstance(nd, ast.If):
            out.append((ix, "if True", lambda n: setattr(n, "test", ast.Constant(True))))
            out.append((ix, "if False", lambda n: setattr(n, "test", ast.Constant(False))))
        elif isinstance(nd, ast.Attribute) and nd.attr in SWAP and SWAP[nd.attr] != nd.attr:
            out.append((ix, "attr->" + SWAP[nd.attr], lambda n: setattr(n, "attr", SWAP[n.attr])))
        elif isinstance(nd, ast.Call) and isinstance(nd.func, ast.Attribute) and nd.func.attr in ("copy", "astype", "append"):
            if nd.func.attr == "append":
                def f(n):
                    n.func.attr = "insert"
                    n.args.insert(0, ast.Constant(0))
                out.append((ix, "append->insert0", f))
            elif nd.func.attr == "copy" and not nd.args:
                def f(n):
                    n.func = ast.Name("__ident__", ast.Load())
                    n.args = [nd_value(n)]
                out.append((ix, "drop copy", None))
        elif isinstance(nd, ast.UnaryOp) and isinstance(nd.op, (ast.Not, ast.USub)):
            out.append((ix, "drop unary", lambda n: setattr(n, "op", ast.UAdd() if isinstance(n.op, ast.USub) else n.op) or (isinstance(n.op, ast.Not) and setattr(n, "operand", ast.UnaryOp(ast.Not(), n.operand)))))
        if isinstance(nd, (ast.FunctionDef, ast.For, ast.While, ast.If, ast.With)):
            for fld in ("body", "orelse"):
                for k, st in enumerate(getattr(nd, fld, []) or []):
                    if isinstance(st, (ast.Continue, ast.Break, ast.AugAssign)) or (
                        isinstance(st, ast.Expr) and isinstance(st.value, ast.Call)) or (
                        isinstance(st, ast.Assign) and not isinstance(st.targets[0], ast.Name)):
                        out.append((ix, f"del {fld}[{k}] line {st.lineno}",
                                    lambda n, k=k, fld=fld: getattr(n, fld).__setitem__(k, ast.Pass())))
    return out


def func_of(tree):
    """node id -> qualified function name, line"""
    res = {}

    def rec(n, cls, fn):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.ClassDef):
                rec(c, c.name, None)
            elif isinstance(c, ast.FunctionDef):
                for s in ast.walk(c):
                    res[id(s)] = (cls, c.name)
            else:
                rec(c, cls, fn)
    rec(tree, None, None)
    return res


def rel(cls, fn):
    for k in (f"{cls}.{fn}", fn, cls):
        if k in REL:
            return list(dict.fromkeys(REL[k].split() + ["C30", "C29", "C32"]))
    return ["C30", "C29"]


class DropCopy(ast.NodeTransformer):
    def __init__(self, target):
        self.t = target

    def visit_Call(self, n):
        self.generic_visit(n)
        return n.func.value if n is self.t else n


def main(out, scratch, seed=0, limit=10**9, only=None):
    rng = random.Random(int(seed))
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)["key"] for l in open(out)}
    if not os.path.exists(scratch):
        shutil.copytree(REPO, scratch, symlinks=True, ignore=shutil.ignore_patterns(".git", "figures", "etc"))
    todo = []
    for mod in ("dem_conditioning", "flow_directions", "stream_util"):
        src = open(f"{REPO}/dany/{mod}.py").read()
        base = ast.unparse(ast.parse(src))
        tree = ast.parse(src)
        fo = func_of(tree)
        nodes = list(ast.walk(tree))
        # docstrings are not mutated
        for ix, what, fnc in mutants(tree):
            nd = nodes[ix]
            if id(nd) not in fo:
                continue
            cls, fn = fo[id(nd)]
            if what.startswith("del") and isinstance(nd, ast.FunctionDef) and fn != nd.name:
                continue
            todo.append((mod, ix, what, cls, fn, getattr(nd, "lineno", 0)))
    rng.shuffle(todo)
    todo = todo[:int(limit)]
    t0 = time.time()
    for mod, ix, what, cls, fn, line in todo:
        key = f"{mod}:{line}:{ix}:{what}"
        if key in done or (only and only not in f"{cls}.{fn}"):
            continue
        src = open(f"{REPO}/dany/{mod}.py").read()
        tree = ast.parse(src)
        nodes = list(ast.walk(tree))
        m = [x for x in mutants(tree) if x[0] == ix and x[1] == what]
        if not m:
            continue
        before = ast.unparse(tree)
        if what == "drop copy":
            tree = DropCopy(nodes[ix]).visit(tree)
        else:
            m[0][2](nodes[ix])
        ast.fix_missing_locations(tree)
        try:
            new = ast.unparse(tree)
            compile(new, mod, "exec")
        except Exception as e:
            continue
        if new == before:
            continue
        import difflib
        d = [l for l in difflib.unified_diff(before.split("\n"), new.split("\n"), lineterm="", n=0)
             if l[:1] in "+-" and l[:3] not in ("+++", "---")]
        if not d or any('"""' in l for l in d):
            continue
        rec = dict(key=key, mod=mod, fn=f"{cls}.{fn}", what=what, diff=d[:6])
        open(f"{scratch}/dany/{mod}.py", "w").write(new)
        env = dict(os.environ, PYTHONPATH=scratch, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
                   MPLBACKEND="Agg", DANY_REPO=scratch, SYMX_EVIDENCE=scratch + "-ev")
        try:
            p = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p",
                                "no:cacheprovider", "--timeout=60", "autotest"], cwd=scratch, env=env,
                               capture_output=True, text=True, timeout=300)
            ok = p.returncode == 0
        except subprocess.TimeoutExpired:
            ok = False
        rec["tests"] = "pass" if ok else "fail"
        if ok:
            rec["checks"] = {}
            for pid in rel(cls, fn):
                try:
                    p = subprocess.run([os.path.join(HERE, "check.py"), pid, "quick"], env=env,
                                       capture_output=True, text=True, timeout=400)
                    rec["checks"][pid] = p.returncode
                    if "VIOLATION" in p.stdout:
                        rec["caught"] = pid
                        break
                    if p.returncode != 0:
                        rec.setdefault("errors", []).append(p.stdout[-300:] + p.stderr[-300:])
                    if "INCOMPLETE" in p.stdout:
                        rec.setdefault("incomplete", []).append(pid)
                except subprocess.TimeoutExpired:
                    rec["checks"][pid] = "timeout"
        rec["t"] = round(time.time() - t0)
        with open(out, "a") as f:
            f.write(json.dumps(rec) + "\n")
        shutil.copy(f"{REPO}/dany/{mod}.py", f"{scratch}/dany/{mod}.py")


if __name__ == "__main__":
    main(*sys.argv[1:])
