"""C17: a query returns exactly the nodes satisfying its predicate, in order."""
import operator

from .. import gen
from ..core import Facet, Violation, need, same
from ..model import POOL, SCALARS, apply, build, canon, dtype
from hypothesis import strategies as st
from docria.model import DataTypes as T, Document, NodeList, NodeSpan, TextSpan

ASSUMPTIONS = ["cases in which the expression itself cannot be evaluated (comparing an absent value by order, for instance) are not judged",
               "whether an empty span strictly inside a range intersects it is left open"]
OPS = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}


class Undefined(Exception):
    pass


FNS = (lambda v: isinstance(v, int) and v % 2 == 0, lambda v: v is not None and str(v) > "b", lambda v: v, lambda v: [v] if v is not None else [],
       lambda v: type(v).__name__ in ("int", "TextSpan"))
MFNS = (lambda *vs: sum(v is None for v in vs) == 1, lambda *vs: any(isinstance(v, str) and v for v in vs), lambda *vs: vs[0] == vs[-1])


class Expr:
    """Builds the real predicate and the naive evaluation of one expression tree."""

    def __init__(self, layer, ml, w, source):
        self.layer, self.ml, self.w, self.source = layer, ml, w, source
        self.fields = list(ml.fields)
        self.columns = {}

    def typ(self, f):
        return self.ml.fields[f][0]

    def value(self, f, k):
        """A value to compare the field with: one of the nodes' own, one of the type, or none."""
        nodes = [n for n in self.ml.nodes if n.fields.get(f) is not None]
        if k % 3 and nodes:
            v = self.w.node[nodes[k // 3 % len(nodes)]].get(f)
            if self.typ(f) == "span" and k % 2:
                return str(v)
            return v
        t = self.typ(f)
        if t in SCALARS:
            return POOL[t][k % len(POOL[t])]
        return None if k % 2 else "a"

    def column(self, f):
        if f not in self.columns:       # one column object serves all conditions of the expression
            self.columns[f] = (self.source if k_source(self.source) else self.layer)[f]
        return self.columns[f]

    def make(self, e):
        """-> (predicate, evaluator over a real node)"""
        kind = e[0]
        if kind in ("and", "or"):
            p, ev = self.make(e[1])
            q, ew = self.make(e[2])
            if kind == "and":
                return p & q, lambda n: ev(n) and ew(n)
            return p | q, lambda n: ev(n) or ew(n)
        if kind == "not":
            p, ev = self.make(e[1])
            return ~p, lambda n: not ev(n)
        if kind == "andlam":
            p, ev = self.make(e[1])
            fn = self.lam(e[2])
            return p & fn, lambda n: ev(n) and fn(n)
        if not self.fields:
            return self.layer.filter(fn=lambda: True), lambda n: True
        f = self.fields[e[1] % len(self.fields)]
        col = self.column(f)
        if kind == "cmp":
            op, v = e[2], self.value(f, e[3])
            if op in ("<", "<=", ">", ">="):
                if e[4]:   # guarded, as a user would write it
                    return col.has_value() & OPS[op](col, v), lambda n: n.get(f) is not None and OPS[op](n[f], v)
            return OPS[op](col, v), lambda n: OPS[op](n.get(f), v)
        if kind == "none":
            return col.is_none(), lambda n: n.get(f) is None
        if kind == "has":
            return col.has_value(), lambda n: n.get(f) is not None
        if kind == "any":
            vs = [self.value(f, k) for k in e[2]]
            try:
                hash(tuple(vs))
            except TypeError:
                raise Undefined
            if self.typ(f) == "refs":
                raise Undefined     # lists cannot be looked up
            return col.is_any(*vs), lambda n: any(x is v or x == v for x in [n.get(f)] for v in vs)
        if kind in ("cover", "inter"):
            spans = [g for g in self.fields if self.typ(g) == "span"]
            if not spans:
                raise Undefined
            f = spans[e[1] % len(spans)]
            col = self.column(f)
            a, b = e[2], e[2] + e[3]
            if kind == "cover":
                return col.has_value() & col.covered_by(a, b), lambda n: n.get(f) is not None and a <= n[f].start and n[f].stop <= b

            def inter(n):
                s = n.get(f)
                if s is None:
                    return False
                if (s.start == s.stop and a < s.start < b) or (a == b and s.start < a < s.stop):
                    raise Undefined
                return max(s.start, a) < min(s.stop, b)
            return col.has_value() & col.intersected_by(a, b), inter
        if kind == "fn":
            fn = FNS[e[2] % len(FNS)]
            return col.filter(fn), lambda n: fn(n.get(f))
        if kind == "mfn":
            fn = MFNS[e[3] % len(MFNS)]
            fs = [f] + [self.fields[k % len(self.fields)] for k in e[2]]
            return self.layer.filter(*fs, fn=fn), lambda n: fn(*[n.get(g) for g in fs])
        raise ValueError(kind)

    def lam(self, k):
        pos = {id(self.w.node[n]): i for i, n in enumerate(self.ml.nodes)}
        return lambda n: pos.get(id(n), 0) % (2 + k % 3) == 0


def k_source(source):
    return source is not None


def ids(nodes):
    return [id(n) for n in nodes]


def naive(nodes, ev):
    """Nodes for which the expression is true, or None when it cannot be evaluated."""
    try:
        return [n for n in nodes if ev(n)]
    except Exception:
        return None


def source_of(model, w, ml, spec, queries):
    """A node collection to query, and its nodes."""
    kind, k, j = spec
    layer = w.doc.layers[ml.name]
    nodes = [w.node[n] for n in ml.nodes]
    n = len(nodes)
    if kind == "layer" or not n:
        return layer, None
    if kind == "slice":
        lst = layer[:][k % n:k % n + j]
        return lst, nodes[k % n:k % n + j]
    if kind == "list":
        return layer.to_list(), nodes
    if kind == "picked":
        idx = [(k * 7 + i * (j + 1)) % n for i in range(j)]
        return layer.to_list()[idx], [nodes[i] for i in idx]
    if kind == "span":
        a, b = k % n, min(n - 1, k % n + j)
        return NodeSpan(nodes[a], nodes[b]), (nodes[a], nodes[b])
    if kind == "built":
        return NodeList(nodes[::-1]), nodes[::-1]
    if kind == "loose":
        return NodeList(nodes[k % n:], fieldtypes=layer.schema.fields), nodes[k % n:]
    mine = [q for q in queries if q["ml"] is ml]
    if mine:
        q = mine[k % len(mine)]
        return q["query"], q
    return layer, None


def source_nodes(q, model, w):
    """Nodes of the collection behind a query, now."""
    src = q["source"]
    if src is None:
        return [w.node[n] for n in q["ml"].nodes]
    if isinstance(src, list):
        return src
    if isinstance(src, dict):
        return src["nodes"]
    nodes = [w.node[n] for n in q["ml"].nodes]
    a, b = src
    pa = next((i for i, n in enumerate(nodes) if n is a), None)
    pb = next((i for i, n in enumerate(nodes) if n is b), None)
    if pa is None or pb is None or pa > pb:
        return None      # the span is stale
    return nodes[pa:pb + 1]


def check_query(q, w, model, what):
    query, want = q["query"], q["nodes"]
    same(ids(query), ids(want), what + ": nodes")
    same(len(query), len(want), what + ": len")
    need(query.first() is (want[0] if want else None) and query.last() is (want[-1] if want else None), "%s: ends", what)
    lst = query.to_list()
    need(isinstance(lst, NodeList), "%s: to_list gives %r", what, type(lst))
    same(ids(lst), ids(want), what + ": to_list")
    for f in q["ml"].fields:
        if f in query.fieldtypes:
            col = query[f]
            same(len(col), len(want), "%s: length of column %r" % (what, f))
            need(all(a is b.get(f) for a, b in zip(col, want)), "%s: column %r", what, f)
            same([id(v) for v in col.to_list()], [id(n.get(f)) for n in want], "%s: column %r as a list" % (what, f))


def check(plan, rec):
    model, (w,) = build(plan, apply_ops=False)
    queries = []
    proper = 0
    for op in plan["qops"]:
        if op[0] == "query":
            mls = [ml for ml in model.layers.values()]
            ml = mls[op[1] % len(mls)]
            layer = w.doc.layers[ml.name]
            coll, src = source_of(model, w, ml, op[2], queries)
            ex = Expr(layer, ml, w, coll if op[4] else None)
            rec.label("over:" + op[2][0])
            q = {"ml": ml, "source": src}
            try:
                if op[3][0] == "lam":
                    pred = ev = ex.lam(op[3][1])
                else:
                    pred, ev = ex.make(op[3])
            except Undefined:
                continue
            q["eval"] = ev
            before = source_nodes(q, model, w)
            want = naive(before, ev)
            if want is None:
                rec.label("not evaluable")
                continue
            content = canon(w.doc)
            q["query"] = coll[pred]
            q["pred"] = pred
            q["nodes"] = want
            check_query(q, w, model, "query %r over %s" % (op[3], op[2][0]))
            same(ids(coll), ids(before), "the queried collection after the query")
            same(canon(w.doc), content, "the document after a query")
            if isinstance(op[3], list):
                rec.label("root:" + op[3][0])
            proper += 0 < len(want) < len(before)
            q["coll"] = coll
            queries.append(q)
        elif op[0] == "grow":
            # the queried list changes as a list
            mine = [x for x in queries if isinstance(x["source"], list)]
            if not mine:
                continue
            q = mine[op[1] % len(mine)]
            coll, src = q["coll"], q["source"]
            pool = [w.node[n] for n in q["ml"].nodes]
            if op[2] % 2 and src:
                del coll[op[3] % len(src)], src[op[3] % len(src)]
            elif pool:
                x = pool[op[3] % len(pool)]
                for lst in (coll, src):
                    lst.insert(op[2] % (len(lst) + 1), x) if op[2] % 4 else lst.append(x)
            same(ids(coll), ids(src), "a changed list")
            rec.label("list changed")
        elif op[0] == "update":
            if not queries:
                continue
            q = queries[op[1] % len(queries)]
            nodes = source_nodes(q, model, w)
            want = None if nodes is None else naive(nodes, q["eval"])
            if want is None:
                queries = [x for x in queries if x is not q]
                continue
            fresh = {"ml": q["ml"], "nodes": want, "query": q["coll"][q["pred"]], "coll": q["coll"]}
            check_query(fresh, w, model, "a query by a predicate used before")
            q["query"].update()
            q["nodes"] = want
            check_query(q, w, model, "an updated query")
            rec.label("updated")
        elif op[0] == "consume":
            # removing what a query found, while iterating over it
            if not queries:
                continue
            q = queries[op[1] % len(queries)]
            if any(n.is_dangling() for n in q["nodes"]) or len(set(ids(q["nodes"]))) != len(q["nodes"]):
                continue
            for n in q["query"]:
                q["ml"] and w.doc.layers[q["ml"].name].remove(n)
            gone = set(ids(q["nodes"]))
            for mn in [m for m in q["ml"].nodes if id(w.node[m]) in gone]:
                q["ml"].nodes.remove(mn)
                mn.layer = None
            rec.label("consumed")
        else:
            apply(model, [w], op)
        for q in queries:
            check_query(q, w, model, "a query after %r" % (op[0],))
    for q in queries:
        content = canon(w.doc)
        text = str(q["query"])
        html = q["query"]._repr_html_()
        repr(q["query"])
        same(canon(w.doc), content, "the document after printing a query")
        fields = q["query"].fieldtypes
        ref = NodeList(q["nodes"], fieldtypes=fields)
        if 0 < len(q["nodes"]):
            same(text.splitlines()[2:], str(ref).splitlines()[2:], "printed rows of a query")
        need(html.count("<tr") == ref._repr_html_().count("<tr"), "HTML rows of a query")
    rec.hit(proper > 0)


def exprs():
    f = gen.small
    k = st.integers(0, 60)
    leaf = gen.weighted(
        (6, st.tuples(st.just("cmp"), f, st.sampled_from(("==", "!=", "<", "<=", ">", ">=")), k, st.sampled_from((True, True, True, False)))),
        (1, st.tuples(st.just("none"), f)), (2, st.tuples(st.just("has"), f)),
        (3, st.tuples(st.just("any"), f, st.lists(k, max_size=4))),
        (2, st.tuples(st.sampled_from(("cover", "inter")), f, st.integers(-1, 12), st.integers(0, 9))),
        (2, st.tuples(st.just("fn"), f, f)), (1, st.tuples(st.just("mfn"), f, st.lists(f, max_size=2), f))).map(list)
    return st.recursive(leaf, lambda c: st.one_of(
        st.tuples(st.sampled_from(("and", "or")), c, c), st.tuples(st.just("not"), c), st.tuples(st.just("andlam"), c, f)).map(list), max_leaves=5)


SOURCES = ("layer", "layer", "slice", "list", "picked", "span", "built", "loose", "query", "query")


@st.composite
def plans(draw):
    plan = draw(gen.document(need_layer=True, maxlayers=2, need_text=True, big=False,
                             types=("i32", "str", "f64", "span", "span", "ref", "i1", "i64", "bin", "refs", "nspan")))
    plan["props"] = {}
    lam = st.tuples(st.just("lam"), gen.small).map(list)
    q = st.tuples(st.just("query"), gen.small, st.tuples(st.sampled_from(SOURCES), st.integers(0, 30), st.integers(0, 5)),
                  gen.weighted((9, exprs()), (1, lam)), st.booleans()).map(list)
    steps = gen.weighted((5, q), (3, gen.edit_ops()), (2, st.tuples(st.just("update"), gen.small).map(list)),
                         (1, st.tuples(st.just("consume"), gen.small).map(list)),
                         (1, st.tuples(st.just("grow"), gen.small, gen.small, st.integers(0, 60)).map(list)))
    plan["qops"] = [draw(q)] + draw(st.lists(steps, min_size=2, max_size=10))
    if draw(st.integers(0, 2)) == 2:
        plan["layers"][0]["n"] = draw(st.sampled_from((8, 12, 20)))
    return plan


@st.composite
def tall_plans(draw):
    plan = draw(gen.tall(maxlayers=2, types=("i32", "str", "f64", "span", "span", "ref", "i1", "i64", "refs"), sizes=(64, 100, 130, 257, 300, 700)))
    plan["props"] = {}
    lam = st.tuples(st.just("lam"), gen.small).map(list)
    q = st.tuples(st.just("query"), gen.small, st.tuples(st.sampled_from(SOURCES), st.integers(0, 600), st.sampled_from((0, 3, 40, 500))),
                  gen.weighted((9, exprs()), (1, lam)), st.booleans()).map(list)
    steps = gen.weighted((4, q), (3, gen.edit_ops()), (2, st.tuples(st.just("update"), gen.small).map(list)),
                         (1, st.tuples(st.just("consume"), gen.small).map(list)),
                         (1, st.tuples(st.just("grow"), gen.small, gen.small, st.integers(0, 60)).map(list)))
    plan["qops"] = [draw(q)] + draw(st.lists(steps, min_size=2, max_size=5))
    return plan


# ---------------------------------------------------------------- every comparison of one column

NEAR = {"i32": (0, 1, -1, 2, 2 ** 31 - 1, -2 ** 31), "i64": (0, 1, 2 ** 53, 2 ** 53 + 1, -2 ** 63, 2 ** 63 - 1),
        "f64": (0.0, -0.0, 1.0, float("nan"), float("inf"), float("-inf"), 2.0 ** 53, 0.1), "str": ("", "a", "A", "b", "ab", "\u00e5", "a\u030a", "10", "9"),
        "bin": (b"", b"a", b"b", b"ab", b"\x00", b"\xff"), "i1": (False, True)}
OTHERS = (None, 0, 1.0, True, "", "a", b"a", float("nan"), 2 ** 53 + 1, (), 10 ** 30)


def check_column(plan, rec):
    """All comparisons of one column with many operands, alone, negated and in pairs."""
    t = plan["type"]
    doc = Document()
    text = doc.add_text("main", "abcabc\u00e5 b")
    layer = doc.add_layer("a", **{"v": T.span() if t == "span" else dtype(t, None, ["none"]), "id": T.int32(None)})

    def value(k):
        if t == "span":
            return text[k % 7:k % 7 + k // 7 % 3]
        return NEAR[t][k % len(NEAR[t])]
    nodes = [layer.add(id=i) if k is None else layer.add(id=i, v=value(k)) for i, k in enumerate(plan["values"])]
    for i in plan["gone"]:
        if nodes:
            layer.remove(nodes.pop(i % len(nodes)))
    coll = layer if plan["over"] % 3 == 0 else layer.to_list() if plan["over"] % 3 == 1 else layer[lambda n: True]
    col = coll["v"] if plan["over"] % 2 else layer["v"]
    operands = [value(k) for k in plan["operands"]] + [OTHERS[k % len(OTHERS)] for k in plan["others"]]
    if t == "span":
        operands += [str(o) for o in operands if isinstance(o, TextSpan)]
    preds = []
    for name, op in OPS.items():
        for o in operands:
            preds.append(("v %s %r" % (name, o), op(col, o), lambda n, op=op, o=o: op(n.get("v"), o)))
            if name in ("<", "<=", ">", ">="):
                preds.append(("v given and v %s %r" % (name, o), col.has_value() & op(col, o), lambda n, op=op, o=o: n.get("v") is not None and op(n["v"], o)))
                preds.append(("v absent or v %s %r" % (name, o), col.is_none() | op(col, o), lambda n, op=op, o=o: n.get("v") is None or op(n["v"], o)))
    for i in range(len(operands)):
        vs = operands[i:] + operands[:i // 2]
        preds.append(("v any of %r" % (vs,), col.is_any(*vs), lambda n, vs=vs: any(n.get("v") is v or n.get("v") == v for v in vs)))
    if t == "span":
        for a in range(0, 9, 1 + plan["over"] % 2):
            for b in range(a, 11, 2):
                preds.append(("covered by %d, %d" % (a, b), col.has_value() & col.covered_by(a, b),
                              lambda n, a=a, b=b: n.get("v") is not None and a <= n["v"].start and n["v"].stop <= b))
    judged = proper = 0
    done = []

    def judge(what, pred, ev):
        want = naive(nodes, ev)
        if want is None:
            return False
        got = list(coll[pred])
        same(["%d: %r" % (n["id"], n.get("v")) for n in got], ["%d: %r" % (n["id"], n.get("v")) for n in want],
             "nodes where %s, among %r" % (what, [n.get("v") for n in nodes]))
        return True
    if plan["over"] % 3 == 2:
        preds.reverse()
    for what, pred, ev in preds:
        if judge(what, pred, ev):
            judged += 1
            proper += 0 < sum(map(bool, map(ev, nodes))) < len(nodes)
            judge("not (%s)" % what, ~pred, lambda n: not ev(n))
        done.append((what, pred, ev))
    for i in plan["pairs"]:
        a, b = done[i % len(done)], done[(i // 7 * 5 + 3) % len(done)]
        judge("(%s) and (%s)" % (a[0], b[0]), a[1] & b[1], lambda n: a[2](n) and b[2](n))
        judge("(%s) or (%s)" % (a[0], b[0]), a[1] | b[1], lambda n: a[2](n) or b[2](n))
        judge("not ((%s) or (%s))" % (a[0], b[0]), ~(a[1] | b[1]), lambda n: not (a[2](n) or b[2](n)))
        judge("not ((%s) and not (%s))" % (a[0], b[0]), ~(a[1] & ~b[1]), lambda n: not (a[2](n) and not b[2](n)))
    rec.label("type:" + t)
    rec.hit(proper > 2)


@st.composite
def column_plans(draw):
    k = st.integers(0, 62)
    return {"type": draw(st.sampled_from(("i32", "i64", "f64", "f64", "str", "bin", "i1", "span", "span"))),
            "values": draw(st.lists(gen.weighted((5, k), (1, st.none())), min_size=2, max_size=9)),
            "gone": draw(st.lists(st.integers(0, 8), max_size=2)), "over": draw(st.integers(0, 5)),
            "operands": draw(st.lists(k, min_size=1, max_size=4)), "others": draw(st.lists(k, max_size=2)),
            "pairs": draw(st.lists(st.integers(0, 400), max_size=6))}


FACETS = [
    Facet("comparisons", column_plans, check_column, "every comparison of one column of 2-9 values with 1-6 operands, alone, negated and in pairs; "
          "non-trivial: three or more select some nodes and leave some", 600, 15000),
    Facet("large queries", tall_plans, check, "the same over layers of 64-700 nodes, 3-6 steps; non-trivial as below", 200, 5000),
    Facet("queries", plans, check,
          "3-11 queries over layers, lists, spans and queries, edits, updates and removals of results; non-trivial: at least one query selects "
          "some but not all nodes of its collection", 2200, 50000),
]
