"""Development aid: which small changes of the code go unnoticed by the monitors?

  mutate.py cover OUT.json [C01,C02,..]     per-case line coverage and wall time of the quick tier
  mutate.py run COVER.json FILE[,FILE] N SEED   apply up to N mutants to the files in scratch copies, run the cases that execute the
                                            mutated lines until one reports, print the survivors
Never run by a check.
"""
import ast
import importlib
import json
import multiprocessing as mp
import os
import random
import shutil
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
PROPS = ["C%02d" % i for i in range(1, 33)]


def one_case(a):
    prop, case = a
    from vf import core
    core.watch_lines()
    t = time.time()
    r = core.run_case("vf.checks." + prop.lower(), case)
    return prop, case, sorted(r.lines), time.time() - t, len(r.violations)


def cover(out, props):
    from vf import core
    os.environ["VERIF_TIER"] = "quick"
    todo = []
    for p in props:
        m = importlib.import_module("vf.checks." + p.lower())
        if hasattr(m, "prepare"):
            with core.quiet():
                m.prepare("quick")
        todo += [(p, c) for c in m.cases("quick", 1)]
    res = []
    # one fresh process per case: the line events are reported once per process
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as P:
        for i, (p, c, l, w, v) in enumerate(P.imap_unordered(one_case, todo)):
            d = {}
            for f, n in l:
                d.setdefault(f, []).append(n)
            res.append(dict(prop=p, case=c, lines=d, wall=w, viol=v))
            if i % 200 == 0:
                print(i, len(todo), flush=True)
    json.dump(res, open(out, "w"))


# ------------------------------------------------------------------------------------------------ mutants
OPS = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "/"), ast.Div: ("/", "*")}
CMP = {ast.Lt: ("<", ">="), ast.Gt: (">", "<="), ast.LtE: ("<=", ">"), ast.GtE: (">=", "<"), ast.Eq: ("==", "!="), ast.NotEq: ("!=", "==")}


def mutants(path):
    src = open(path).read()
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    tree = ast.parse(src)
    parents = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            parents[c] = n

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def up(n):
        while n in parents:
            n = parents[n]
            yield n
    out = []

    def add(n, a, z, new, kind):
        st = next(x for x in [n] + list(up(n)) if isinstance(x, ast.stmt))
        end = n.end_lineno if isinstance(st, (ast.If, ast.For, ast.While, ast.FunctionDef, ast.With)) else st.end_lineno
        out.append(dict(file=path, line=n.lineno, lines=list(range(st.lineno, end + 1)), a=a, z=z, new=new, old=b[a:z].decode(), kind=kind))
    for n in ast.walk(tree):
        chain = list(up(n))
        if not any(isinstance(x, ast.FunctionDef) for x in chain):
            continue
        if any(isinstance(x, (ast.Raise, ast.JoinedStr)) for x in chain):
            continue
        skip = False
        x0 = n
        for x in chain:
            if isinstance(x, ast.keyword) and x.arg in ("desc", "val", "lower", "upper", "method", "types", "iprint", "tags", "comments"):
                skip = True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("add_input", "warn") and isinstance(n, ast.Constant):
                skip = True
            if isinstance(x, ast.Call) and getattr(x.func, "id", "") in ("print",):
                skip = True
        if skip:
            continue
        if isinstance(n, ast.keyword) and isinstance(parents[n], ast.Call):
            f = parents[n].func
            name = f.id if isinstance(f, ast.Name) else getattr(f, "attr", "")
            if (name[:1].isupper() or name == "add_integrand") and n.arg not in ("num_nodes", "desc", "val", "lower", "upper", "iprint", "aircraft_model"):
                a, z = pos(n)
                # together with the comma that follows or precedes it
                z2 = z
                while b[z2:z2 + 1].isspace():
                    z2 += 1
                if b[z2:z2 + 1] == b",":
                    z = z2 + 1
                else:
                    a2 = a - 1
                    while b[a2:a2 + 1].isspace():
                        a2 -= 1
                    if b[a2:a2 + 1] == b",":
                        a = a2
                add(n, a, z, "", "drop-keyword")
        if isinstance(n, (ast.Constant, ast.Tuple)) and isinstance(parents.get(n), ast.List) and isinstance(parents.get(parents[n]), ast.keyword) \
                and parents[parents[n]].arg in ("promotes", "promotes_inputs", "promotes_outputs", "inputs", "outputs") and len(parents[n].elts) > 1:
            a, z = pos(n)
            z2 = z
            while b[z2:z2 + 1].isspace():
                z2 += 1
            if b[z2:z2 + 1] == b",":
                z = z2 + 1
            add(n, a, z, "", "unpromote")
        if isinstance(n, ast.Attribute) and n.attr in ("any", "all", "max", "min", "maximum", "minimum", "amax", "amin", "sin", "cos", "sqrt", "abs", "flip"):
            a, z = pos(n)
            w = dict(any="all", all="any", max="min", min="max", maximum="minimum", minimum="maximum", amax="amin", amin="amax", sin="cos", cos="sin", sqrt="cbrt", abs="real", flip="array")[n.attr]
            add(n, a, z, b[a:z].decode()[:-len(n.attr)] + w, "function")
        if isinstance(n, ast.BinOp) and type(n.op) in OPS:
            a, z = pos(n.left)[1], pos(n.right)[0]
            t = b[a:z].decode()
            o, w = OPS[type(n.op)]
            if t.count(o) == 1 and "#" not in t:
                add(n, a, z, t.replace(o, w), "binop")
        elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Pow):
            a, z = pos(n.right)
            add(n, a, z, "(%s + 0.5)" % b[a:z].decode(), "power")
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            a, z = pos(n.left)[1], pos(n.comparators[0])[0]
            t = b[a:z].decode()
            o, w = CMP[type(n.ops[0])]
            if t.count(o) == 1:
                add(n, a, z, t.replace(o, w), "compare")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            a, z = pos(n)
            a2, z2 = pos(n.operand)
            add(n, a, z, "(" + b[a2:z2].decode() + ")", "sign")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            a, z = pos(n)
            a2, z2 = pos(n.operand)
            add(n, a, z, "(" + b[a2:z2].decode() + ")", "not")
        elif isinstance(n, ast.BoolOp):
            a, z = pos(n.values[0])[1], pos(n.values[1])[0]
            t = b[a:z].decode()
            o, w = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            if t.count(o) == 1:
                add(n, a, z, t.replace(o, w), "bool")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            a, z = pos(n)
            add(n, a, z, str(not n.value), "boolean")
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            a, z = pos(n)
            v = n.value
            add(n, a, z, repr(v + 1) if isinstance(v, int) else repr(v * 1.05 if v else 0.05), "constant")
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and isinstance(parents.get(n), ast.Subscript):
            p = parents[n]
            base = ast.unparse(p.value)
            if base in ("inputs",):
                # another input read in the same function
                fn = next(x for x in chain if isinstance(x, ast.FunctionDef))
                names = sorted({y.slice.value for y in ast.walk(fn) if isinstance(y, ast.Subscript) and isinstance(y.slice, ast.Constant)
                                and isinstance(y.slice.value, str) and ast.unparse(y.value) == base} - {n.value})
                if names:
                    a, z = pos(n)
                    add(n, a, z, repr(names[(n.lineno * 7) % len(names)]), "other-input")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and \
                n.value.func.attr in ("connect", "set_input_defaults", "declare_partials"):
            a, z = pos(n)
            add(n, a, z, "pass", "drop:" + n.value.func.attr)
        elif isinstance(n, ast.AugAssign):
            a, z = pos(n)
            add(n, a, z, "pass", "drop-augmented")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript) and ast.unparse(n.targets[0].value) in ("J", "partials"):
            a, z = pos(n)
            add(n, a, z, "pass", "drop-partial")
    return out, b


def _child(conn, copy, m, rel, sel, limit):
    try:
        os.environ["VF_REPO"] = copy
        sys.path.insert(0, copy)
        os.chdir(copy)
        from vf import core
        core.REPO = copy
        t0 = time.time()
        err = None
        n = 0
        for prop, case in sel:
            if time.time() - t0 > limit:
                break
            r = core.run_case("vf.checks." + prop.lower(), case)
            n += 1
            known = [k for k in core.load_known() if k["prop"] == prop]
            v = [k for k, _ in r.violations if not any(q["key"] == k or (q["key"].endswith("*") and k.startswith(q["key"][:-1])) for q in known)]
            if v:
                conn.send(("killed", prop, v[0], n, time.time() - t0))
                os._exit(0)
            if r.errors and err is None:
                err = (prop, r.errors[0][-300:])
        conn.send(("error",) + err + (n, time.time() - t0) if err else ("survived", "", "", n, time.time() - t0))
    except BaseException as ex:  # noqa: BLE001
        conn.send(("crash", "", repr(ex)[:200], 0, 0))
    os._exit(0)


def worker(i, jobs, results, cov, limit):
    # preload what does not depend on the copy
    import numpy  # noqa: F401
    import openmdao.api  # noqa: F401
    import scipy.interpolate  # noqa: F401
    import scipy.sparse  # noqa: F401
    try:
        import openaerostruct.geometry.utils  # noqa: F401
    except ImportError:
        pass
    copy = "/tmp/mu/%d" % i
    shutil.rmtree(copy, ignore_errors=True)
    shutil.copytree("/repo", copy, ignore=shutil.ignore_patterns(".git", "__pycache__", "docs"), symlinks=True)
    while True:
        m = jobs.get()
        if m is None:
            return
        rel = os.path.relpath(m["file"], "/repo/openconcept")
        sel = sorted([(c["wall"], c["prop"], c["case"]) for c in cov if set(m["lines"]) & set(c["lines"].get(rel, ())) and c["wall"] < 60], key=lambda x: x[0])
        # cheap cases first, but every property gets its turn early
        seen, head, tail = {}, [], []
        for w, p, c in sel:
            seen[p] = seen.get(p, 0) + 1
            (head if seen[p] <= 2 else tail).append((p, c))
        sel = head + tail
        if not sel:
            results.put((m, ("uncovered", "", "", 0, 0)))
            continue
        f = os.path.join(copy, "openconcept", rel)
        orig = open(m["file"], "rb").read()
        open(f, "wb").write(orig[:m["a"]] + m["new"].encode() + orig[m["z"]:])
        try:
            compile(open(f).read(), f, "exec")
        except SyntaxError:
            open(f, "wb").write(orig)
            results.put((m, ("syntax", "", "", 0, 0)))
            continue
        a, b = mp.Pipe(False)
        p = mp.get_context("fork").Process(target=_child, args=(b, copy, m, rel, sel, limit))
        p.start()
        b.close()
        if a.poll(limit + 150):
            try:
                r = a.recv()
            except EOFError:
                r = ("died", "", "", 0, 0)
        else:
            r = ("timeout", "", "", 0, 0)
        p.kill()
        p.join()
        open(f, "wb").write(orig)
        results.put((m, r))


def run(covf, files, n, seed, limit=60):
    cov = json.load(open(covf))
    rnd = random.Random(seed)
    todo = []
    for f in files:
        ms, _ = mutants(f)
        if os.environ.get("MU_KINDS"):
            ms = [m for m in ms if m["kind"] in os.environ["MU_KINDS"].split(",")]
        rnd.shuffle(ms)
        todo += ms[:n]
    print(len(todo), "mutants", flush=True)
    rnd.shuffle(todo)
    jobs, results = mp.Queue(), mp.Queue()
    for m in todo:
        jobs.put(m)
    N = int(os.environ.get("MU_WORKERS", "8"))
    ps = [mp.Process(target=worker, args=(i, jobs, results, cov, limit)) for i in range(N)]
    for _ in ps:
        jobs.put(None)
    for p in ps:
        p.start()
    cnt = {}
    for _ in todo:
        m, r = results.get()
        cnt[r[0]] = cnt.get(r[0], 0) + 1
        if r[0] != "killed":
            print(json.dumps([r[0], os.path.relpath(m["file"], "/repo/openconcept"), m["line"], m["kind"], m["old"][:60], m["new"][:60], list(r[1:])]), flush=True)
    print(cnt)
    for p in ps:
        p.join()


if __name__ == "__main__":
    if sys.argv[1] == "cover":
        cover(sys.argv[2], sys.argv[3].split(",") if len(sys.argv) > 3 else PROPS)
    else:
        fs = []
        for f in sys.argv[3].split(","):
            fs.append("/repo/openconcept/" + f)
        run(sys.argv[2], fs, int(sys.argv[4]), int(sys.argv[5]), *(int(x) for x in sys.argv[6:7]))
