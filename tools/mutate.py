"""Sensitivity sweep: small mutations of docria, each run against the repository's own tests and then
against the checks (at reduced case counts).  Not a check; used to find weak spots.

  /opt/venv/bin/python tools/mutate.py OUT.jsonl [--files model.py,codec.py] [--sample 0.5] [--seed 1]
                       [--scale 0.15] [--jobs 8] [--only LINE_FROM-LINE_TO]

Writes one JSON line per mutant: file, line, kind, before/after, tests (pass/fail), killed_by.
"""
import argparse
import ast
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("VERIF_REPO", "/repo")

# which checks look at a function first: learned during the sweep, seeded by file
FIRST = {
    "codec.py": "C01 C05 C04 C06 C07 C02 C25 C03 C27",
    "collection.py": "C08 C11 C09 C10 C12 C13",
    "algorithm.py": "C20 C21 C22 C23 C24",
    "printout.py": "C26",
    "query.py": "C17 C26 C27",
    "model.py": "C28 C14 C15 C16 C17 C18 C19 C06 C27 C26 C29 C01",
    "__init__.py": "C01",
    "storage.py": "C01",
}
ALL = ["C%02d" % i for i in range(1, 40)]


def offsets(src):
    out, n = [0], 0
    for l in src.split("\n"):
        n += len(l.encode()) + 1
        out.append(n)
    return out


CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==",
       ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
CMP2 = {ast.Lt: ">", ast.LtE: ">=", ast.Gt: "<", ast.GtE: "<="}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "//", ast.FloorDiv: "*", ast.Mod: "//", ast.BitAnd: "|",
       ast.BitOr: "&", ast.LShift: ">>", ast.RShift: "<<"}


def mutants(path):
    with open(path, "rb") as f:
        raw = f.read()
    tree = ast.parse(raw)
    offs = offsets(raw.decode())
    muts = []

    def pos(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = pos(n)
        return raw[a:b].decode()

    def add(n, new, kind):
        a, b = pos(n)
        if raw[a:b] != new.encode():
            muts.append({"a": a, "b": b, "new": new, "line": n.lineno, "kind": kind,
                         "old": raw[a:b].decode(), "fn": ".".join(stack), "names": fns[-1] if fns else []})

    stack = []
    fns = []

    def seen(fn):
        """Names a rare condition may look at: arguments, locals and attributes of self used in a function."""
        out = [a.arg for a in fn.args.args if a.arg != "self"]
        for x in ast.walk(fn):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.append(x.id)
            elif isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self":
                out.append("self." + x.attr)
        return sorted(set(out))

    def visit(n, parent=None):
        isfn = isinstance(n, (ast.FunctionDef, ast.ClassDef))
        if isfn:
            stack.append(n.name)
        if isinstance(n, ast.FunctionDef):
            fns.append(seen(n))
        if isinstance(n, ast.FunctionDef) and n.name in ("_repr_html_x",):
            pass
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = text(n.left), text(n.comparators[0])
            for table in (CMP, CMP2):
                if type(n.ops[0]) in table:
                    add(n, "(%s) %s (%s)" % (l, table[type(n.ops[0])], r) if parent is None else
                        "((%s) %s (%s))" % (l, table[type(n.ops[0])], r), "cmp")
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + op.join("(%s)" % text(v) for v in n.values) + ")", "bool")
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                o = " and " if isinstance(n.op, ast.And) else " or "
                add(n, "(" + o.join("(%s)" % text(v) for v in rest) + ")", "dropterm")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant)) and \
                    not (isinstance(n.op, ast.Add) and any(
                        isinstance(x, (ast.JoinedStr, ast.List)) or isinstance(x, ast.Constant) and isinstance(x.value, str)
                        for x in (n.left, n.right))):
                add(n, "((%s) %s (%s))" % (text(n.left), BIN[type(n.op)], text(n.right)), "bin")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, "(%s)" % text(n.operand), "not")
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                add(n, repr(not n.value), "const")
            elif isinstance(n.value, int):
                add(n, "%d" % (n.value + 1) if not isinstance(parent, ast.UnaryOp) else "%d" % (n.value + 1), "const")
                if n.value > 0:
                    add(n, "%d" % (n.value - 1), "const")
            elif isinstance(n.value, str) and not isinstance(parent, (ast.Expr, ast.JoinedStr)) and n.value != "":
                add(n, repr(n.value[:-1] + "~"), "str")
        elif isinstance(n, ast.Slice):
            if n.lower is not None:
                add(n.lower, "(%s) + 1" % text(n.lower), "slice")
            if n.upper is not None:
                add(n.upper, "(%s) - 1" % text(n.upper), "slice")
        elif isinstance(n, ast.IfExp):
            add(n, "(%s)" % text(n.body), "ifexp")
            add(n, "(%s)" % text(n.orelse), "ifexp")
        if isinstance(n, (ast.If, ast.While)):
            if isinstance(n, ast.If):
                add(n.test, "True", "iftrue")
            add(n.test, "False", "iffalse")
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete, ast.Raise, ast.Assert)) or (
                isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant)):
            add(n, "pass", "del")
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Yield):
            pass
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            add(n, "return None", "ret")
        if isinstance(n, ast.Break):
            add(n, "continue", "brk")
        if isinstance(n, ast.Continue):
            add(n, "break", "brk")
            add(n, "pass", "brk")
        if isinstance(n, ast.Call):
            f = text(n.func)
            if f in ("min", "max"):
                add(n.func, "max" if f == "min" else "min", "minmax")
            if f in ("list", "sorted", "set", "reversed", "dict", "tuple", "copy", "iter", "str", "int") and len(n.args) == 1 and not n.keywords:
                add(n, "(%s)" % text(n.args[0]), "unwrap")
            for i, k in enumerate(n.keywords):
                pass
        for fld, val in ast.iter_fields(n):
            if fld in ("annotation", "returns", "decorator_list", "type_comment"):
                continue
            if isinstance(val, list):
                for x in val:
                    if isinstance(x, ast.AST):
                        if isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant):
                            continue
                        visit(x, n)
            elif isinstance(val, ast.AST):
                visit(val, n)
        if isfn:
            stack.pop()
        if isinstance(n, ast.FunctionDef):
            fns.pop()

    visit(tree)
    good = []
    for m in muts:
        new = raw[:m["a"]] + m["new"].encode() + raw[m["b"]:]
        try:
            if ast.dump(ast.parse(new)) == ast.dump(tree):
                continue
        except SyntaxError:
            continue
        m["file"] = os.path.basename(path)
        good.append(m)
    return good


RARE = """

def _rare_(f):
    try:
        r = bool(f())
    except Exception:
        return False
    if r:
        _rare_.fired += 1
    return r


_rare_.fired = 0
"""
CONDS = ("V == 0", "V == 1", "V == 2", "V == 5", "V > 2", "V > 10", "V > 100", "V % 7 == 3", "V < 0", "len(V) == 0", "len(V) == 1",
         "len(V) == 2", "len(V) == 4", "len(V) > 3", "len(V) > 9", "len(V) > 40", "len(V) > 300", "V is None", "not V", "V == W", "len(V) == len(W)",
         "len(V) > len(W)", "V > W", "isinstance(V, bool)", "isinstance(V, float)", "V in W", "V is W")


def rare(muts, rnd):
    """The same mutations, which take effect only under some condition on what the function can see."""
    out = []
    for m in muts:
        if m["kind"] in ("del", "ret", "brk", "str") or not m["names"] or m["old"] in ("min", "max"):
            continue
        v, w = rnd.choice(m["names"]), rnd.choice(m["names"])
        import re as _re
        cond = _re.sub(r"\b[VW]\b", lambda x: v if x.group() == "V" else w, rnd.choice(CONDS))
        out.append(dict(m, new="((%s) if _rare_(lambda: %s) else (%s))" % (m["new"], cond, m["old"]), kind="rare " + m["kind"]))
    return out


def child(copy, order, scale, outpath, seed, copy_file):
    """In a forked process: import the checks against `copy`, run facets until one fails."""
    import pickle
    import resource
    os.environ["VERIF_REPO"] = copy
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    sys.setrecursionlimit(3000)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)

    def say(x):
        with open(outpath, "a") as f:
            f.write(json.dumps(x) + "\n")
    try:
        from vp import main
    except BaseException as e:
        say({"killed_by": "import", "msg": repr(e)})
        return
    main.SHRINK_SECONDS = 0
    for pid in order:
        try:
            mod = main.load(pid)
        except main.HarnessError:
            continue
        except BaseException as e:
            say({"killed_by": pid, "msg": "load " + repr(e)})
            return
        for fi, facet in enumerate(mod.FACETS):
            class Out:
                def put(self, r):
                    self.r = r
            say({"at": "%s/%s" % (pid, facet.name)})
            jobs = [(-1, 0)] if facet.examples else []
            jobs.append((0, max(5, int(facet.quick * scale))))
            for idx, n in jobs:
                o = Out()
                main.shard(mod, facet, idx, n, seed * 1009 + fi, o)
                if o.r["failure"]:
                    say({"killed_by": pid, "facet": facet.name, "msg": o.r["failure"][1][:300],
                         "evals": o.r["evals"]})
                    return
                if o.r["error"]:
                    say({"err": pid, "facet": facet.name, "msg": o.r["error"][-600:]})
    mod = sys.modules.get("docria." + copy_file[:-3])
    say({"killed_by": None, "fired": getattr(getattr(mod, "_rare_", None), "fired", None)})


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--files", default="model.py,codec.py,collection.py,algorithm.py,printout.py,query.py")
    ap.add_argument("--sample", type=float, default=1)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--scale", type=float, default=0.15)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--limit", type=float, default=400)
    ap.add_argument("--retry", help="only the survivors of this earlier OUT.jsonl")
    ap.add_argument("--rare", type=int, default=0, help="this many variants of each mutation under a random condition instead")
    ap.add_argument("--fn", default="")
    ap.add_argument("--all", action="store_true", help="run every check on a mutant, not those listed for its file")
    ap.add_argument("--skip", default="str", help="kinds left out")
    a = ap.parse_args()
    sys.path.insert(0, HERE)
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import hypothesis  # noqa  (before forking)
    import hypothesis.strategies  # noqa
    import pandas, lz4.frame, msgpack  # noqa
    work = []
    for f in a.files.split(","):
        work += mutants(os.path.join(SRC, "py", "docria", f))
    rnd = random.Random(a.seed)
    if a.rare:
        work = [m for m in rare([m for m in work for _ in range(a.rare)], rnd)]
    if a.retry:
        keep = set()
        for l in open(a.retry):
            d = json.loads(l)
            if d.get("tests") == "pass" and not d.get("killed_by"):
                keep.add((d["file"], d["old"], d["new"], d["fn"], d["kind"]))
        work = [m for m in work if (m["file"], m["old"], m["new"], m["fn"], m["kind"]) in keep]
    if a.fn:
        work = [m for m in work if a.fn in m["fn"]]
    work = [m for m in work if m["kind"] not in a.skip.split(",")]
    work = [m for m in work if rnd.random() < a.sample]
    rnd.shuffle(work)
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            d = json.loads(l)
            done.add((d["file"], d["a"], d["b"], d["new"]))
    work = [m for m in work if (m["file"], m["a"], m["b"], m["new"]) not in done]
    sys.stderr.write("%d mutants\n" % len(work))
    learned = {}
    slots = {}
    out = open(a.out, "a")
    base = tempfile.mkdtemp(prefix="vpmut-")
    idle = list(range(a.jobs))

    def start(m, slot):
        d = os.path.join(base, "s%d" % slot)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shutil.copytree(os.path.join(SRC, "py"), os.path.join(d, "py"),
                        ignore=shutil.ignore_patterns("__pycache__", "*.pyc", "*.egg-info"))
        p = os.path.join(d, "py", "docria", m["file"])
        raw = open(p, "rb").read()
        open(p, "wb").write(raw[:m["a"]] + m["new"].encode() + raw[m["b"]:] + (RARE.encode() if a.rare else b""))
        res = os.path.join(base, "r%d" % slot)
        if os.path.exists(res):
            os.unlink(res)
        known = learned.get((m["file"], m["fn"]), [])
        order = list(dict.fromkeys(known + FIRST.get(m["file"], "").split() + (ALL if a.all else [])))
        pid = os.fork()
        if pid == 0:
            os.setpgid(0, 0)
            try:
                env = dict(os.environ, PYTHONPATH=os.path.join(d, "py"), PYTHONDONTWRITEBYTECODE="1")
                try:
                    rc = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"],
                                        cwd=os.path.join(d, "py"), env=env, stdout=subprocess.DEVNULL,
                                        stderr=subprocess.DEVNULL, timeout=60).returncode
                except subprocess.TimeoutExpired:
                    rc = 99
                with open(res, "a") as f:
                    f.write(json.dumps({"tests": "pass" if rc == 0 else "fail"}) + "\n")
                if rc == 0:
                    child(d, order, a.scale, res, a.seed, m["file"])
            except BaseException as e:
                with open(res, "a") as f:
                    f.write(json.dumps({"err": "child", "msg": repr(e)}) + "\n")
            finally:
                os._exit(0)
        slots[pid] = (m, slot, time.time(), res)

    def finish(pid, why=None):
        m, slot, t0, res = slots.pop(pid)
        rec = dict(m, secs=round(time.time() - t0, 1), tests=None, killed_by=None)
        at = None
        if os.path.exists(res):
            for l in open(res):
                try:
                    x = json.loads(l)
                except ValueError:
                    continue
                if "at" in x:
                    at = x["at"]
                elif "err" in x:
                    rec.setdefault("errs", []).append(x)
                else:
                    rec.update(x)
                    if "killed_by" in x:
                        at = None
        if at:
            rec["died_at"] = at
            if why:
                rec["killed_by"] = "timeout:" + at
        if rec["killed_by"] and rec["killed_by"][0] == "C":
            k = learned.setdefault((m["file"], m["fn"]), [])
            if rec["killed_by"] in k:
                k.remove(rec["killed_by"])
            k.insert(0, rec["killed_by"])
        out.write(json.dumps(rec) + "\n")
        out.flush()
        idle.append(slot)

    try:
        work.reverse()
        while work or slots:
            while work and idle:
                start(work.pop(), idle.pop())
            pid, st = os.waitpid(-1, os.WNOHANG)
            if pid and pid in slots:
                finish(pid)
                continue
            now = time.time()
            for p in list(slots):
                if now - slots[p][2] > a.limit:
                    try:
                        os.killpg(p, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    os.waitpid(p, 0)
                    finish(p, "timeout")
            time.sleep(0.02)
    finally:
        for p in slots:
            try:
                os.killpg(p, signal.SIGKILL)
            except ProcessLookupError:
                pass
        shutil.rmtree(base, ignore_errors=True)


if __name__ == "__main__":
    main()
