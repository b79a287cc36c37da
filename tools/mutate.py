"""
tools/mutate.py OUT.jsonl [FILE.py ...]: small syntactic changes of the package, against its tests and against the checks

Every change is made in a scratch copy of /repo; those the tests do not notice are run against the checks of the
module (at VERIF_FACTOR, default 0.25, one worker each). OUT.jsonl gets one line per change: killed (tests), caught (by
which check) or alive. Lines already in OUT.jsonl are not repeated. Development aid: no check depends on it.
"""
import ast, concurrent.futures, json, os, pathlib, queue, random, re, shutil, subprocess, sys

V = pathlib.Path(__file__).resolve().parent.parent
SRC = "src/mpllayout"
CHECKS = {
    "solver.py": "C03 C02 C05 C01 C04 C25", "primitives.py": "C19 C20 C15 C02 C18", "containers.py": "C17 C18 C21 C20",
    "constructions.py": "C06 C07 C12 C13 C14 C15 C16 C08", "constraints.py": "C08 C09 C10 C11 C23 C15 C22 C25",
    "layout.py": "C21 C22 C15 C02", "matplotlibutils.py": "C24 C25", "ui.py": "C26",
}
JOBS = int(os.environ.get("JOBS", "8"))
FACTOR = os.environ.get("VERIF_FACTOR", "0.25")


def changes(text):
    """(line, text of the change, new source) for every change"""
    tree = ast.parse(text)
    lines = text.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    data = text.encode()
    out = []

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def src(n):
        a, b = span(n)
        return data[a:b].decode()

    def edit(n, new, at=None):
        a, b = at or span(n)
        old = data[a:b].decode()
        if old != new:
            out.append((n.lineno, f"{old!r} -> {new!r}"[:300], (data[:a] + new.encode() + data[b:]).decode()))

    docs = set()
    notes = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0].value)
            docs.add(n.body[0])
        if isinstance(n, ast.FunctionDef):
            for a in [*n.args.args, *n.args.kwonlyargs, n.args.vararg, n.args.kwarg]:
                if a is not None and a.annotation is not None:
                    notes.update(ast.walk(a.annotation))
            if n.returns is not None:
                notes.update(ast.walk(n.returns))
        if isinstance(n, ast.AnnAssign):
            notes.update(ast.walk(n.annotation))
        if isinstance(n, (ast.JoinedStr,)):
            # (formatted texts: only outside of messages)
            pass
        if isinstance(n, ast.Raise):
            notes.update(ast.walk(n))
            notes.discard(n)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            notes.update(ast.walk(n))
    inside = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.JoinedStr):
            inside.update(x for v in n.values for x in ast.walk(v) if isinstance(v, ast.Constant))
    CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.In: ["not in"],
           ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
    BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.FloorDiv: "*"}
    for n in ast.walk(tree):
        if n in docs or n in notes or n in inside:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for op in CMP.get(type(n.ops[0]), []):
                edit(n, f"{src(n.left)} {op} {src(n.comparators[0])}")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            edit(n, f"{src(n.left)} {BIN[type(n.op)]} {src(n.right)}")
            if isinstance(n.op, (ast.Add, ast.Sub)):
                edit(n, f"{src(n.right)} {'+' if isinstance(n.op, ast.Add) else '-'} {src(n.left)}")
        elif isinstance(n, ast.BoolOp):
            edit(n, (" or " if isinstance(n.op, ast.And) else " and ").join(f"({src(v)})" for v in n.values))
            for v in n.values:
                edit(n, f"({src(v)})")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            edit(n, src(n.operand))
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                edit(n, str(not v))
            elif isinstance(v, int):
                edit(n, str(v + 1))
                if v:
                    edit(n, str(v - 1))
            elif isinstance(v, float):
                edit(n, repr(v * 1.5))
            elif isinstance(v, str) and src(n)[:1] in "'\"":
                q = src(n)[0]
                new = set()
                for m in re.finditer(r"(Line|Point|arg)(\d)", v):
                    k = int(m.group(2))
                    for j in {(k + 1) % (4 if m.group(1) == "Line" else 2), (k + 2) % (4 if m.group(1) == "Line" else 2)} - {k}:
                        new.add(v[:m.start(2)] + str(j) + v[m.end(2):])
                swap = dict(bottom="top", top="bottom", left="right", right="left", x="y", y="x", width="height", height="width", XAxis="YAxis",
                            YAxis="XAxis", Frame="XAxis", center="left", data="axes fraction", baseline="top")
                if v in swap:
                    new.add(swap[v])
                for s in sorted(new):
                    edit(n, q + s + q)
                if not new and len(v) > 0 and v.isidentifier():
                    edit(n, q + v + "_" + q)
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            edit(n, f"{src(n.value)}[:]")
        elif isinstance(n, (ast.If, ast.IfExp)) :
            edit(n.test, f"(not ({src(n.test)}))")
            if isinstance(n, ast.If) and not n.orelse:
                edit(n.test, "False")
        elif isinstance(n, ast.While):
            pass
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            edit(n, "pass")
        elif isinstance(n, ast.AugAssign):
            edit(n, "pass")
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            edit(n, "pass")
        elif isinstance(n, ast.Raise):
            edit(n, "pass")
        elif isinstance(n, ast.Return) and n.value is not None:
            if isinstance(n.value, ast.Tuple) and len(n.value.elts) == 2 and False:
                pass
        if isinstance(n, ast.Call):
            args = n.args
            if len(args) >= 2 and not any(isinstance(a, ast.Starred) for a in args):
                a, b = span(args[0])[0], span(args[-1])[1]
                order = [args[1], args[0], *args[2:]]
                edit(n, ", ".join(src(x) for x in order), (a, b))
            for k in n.keywords:
                if k.arg is not None:
                    # left to its default
                    a, b = span(k)
                    rest = data[b:]
                    m = re.match(rb"\s*,", rest)
                    edit(n, "", (a, b + (m.end() if m else 0)))
        if isinstance(n, (ast.Tuple, ast.List)) and isinstance(n.ctx, ast.Load) and 2 <= len(n.elts) <= 8:
            el = n.elts
            a, b = span(el[0])[0], span(el[-1])[1]
            edit(n, ", ".join(src(x) for x in [el[1], el[0], *el[2:]]), (a, b))
    good = []
    for line, what, new in out:
        try:
            compile(new, "x", "exec")
        except SyntaxError:
            continue
        good.append((line, what, new))
    return good


def run(cmd, cwd, env, timeout):
    try:
        r = subprocess.run(cmd, cwd=cwd, env={**os.environ, **env}, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return "timeout", ""


def main():
    out = pathlib.Path(sys.argv[1])
    files = sys.argv[2:] or list(CHECKS)
    seen = {tuple(json.loads(l)["id"]) for l in out.read_text().splitlines()} if out.exists() else set()
    todo = []
    for f in files:
        for line, what, new in changes((pathlib.Path("/repo") / SRC / f).read_text()):
            if (f, line, what) not in seen:
                seen.add((f, line, what))
                todo.append((f, line, what, new))
    random.Random(1).shuffle(todo)
    print(len(todo), "changes", flush=True)
    dirs = queue.Queue()
    for k in range(JOBS):
        d = pathlib.Path(f"/tmp/mut/{k}")
        shutil.rmtree(d, ignore_errors=True)
        d.parent.mkdir(exist_ok=True)
        subprocess.run(["git", "clone", "-q", "/repo", str(d)], check=True)
        dirs.put(d)

    def job(c):
        f, line, what, new = c
        d = dirs.get()
        try:
            p = d / SRC / f
            old = p.read_text()
            p.write_text(new)
            res = dict(id=[f, line, what], state="alive")
            try:
                env = dict(PYTHONPATH=str(d / "src"), JAX_ENABLE_X64="1", JAX_PLATFORMS="cpu", MPLBACKEND="Agg", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
                rc, text = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], d, env, 300)
                if rc != 0:
                    res["state"] = "killed"
                else:
                    for prop in CHECKS[f].split():
                        rc, text = run([str(V / "check"), prop], V, dict(VERIF_REPO=str(d), VERIF_OUT=f"/tmp/mut/{d.name}.out", VERIF_FACTOR=FACTOR,
                                                                        VERIF_WORKERS="1"), 1500)
                        if rc != 0:
                            res.update(state="caught" if rc == 1 else f"rc {rc}", by=prop, subs=[l.split("/")[-1] for l in text.splitlines() if l.startswith("VIOLATION")])
                            if rc == 1:
                                break
            finally:
                p.write_text(old)
            with out.open("a") as o:
                o.write(json.dumps(res) + "\n")
            return res["state"]
        finally:
            dirs.put(d)

    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        states = list(ex.map(job, todo))
    print({s: states.count(s) for s in set(states)})
    shutil.rmtree("/tmp/mut", ignore_errors=True)


if __name__ == "__main__":
    main()
