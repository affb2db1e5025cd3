"""C19: derived views of nodes agree with the nodes themselves."""
import math

from .. import gen
from ..core import Facet, Violation, need, same
from ..model import ENUM, apply, build, canon
from hypothesis import strategies as st
from docria.algorithm import chain, get_prop
from docria.model import DataTypes as T, Document, Node, NodeList, NodeSpan, TextSpan

ASSUMPTIONS = ["data frames may hold numbers in a wider numeric type and absent values as None or NaN",
               "slices of a layer with gaps address node indices; negative and stepped slices are judged on compact layers",
               "reading one cell of a column at an absent field is not judged"]


def ids(nodes):
    return [id(n) for n in nodes]


def refused(fn, what):
    try:
        r = fn()
    except Exception:
        return
    raise Violation("%s: accepted (%r)" % (what, r))


def check_list(lst, want, what, layerfields=None):
    need(isinstance(lst, NodeList), "%s is %r", what, type(lst))
    same(ids(lst), ids(want), what + ": nodes")
    same(len(lst), len(want), what + ": len")
    need(lst.first() is (want[0] if want else None), "%s: first", what)
    need(lst.last() is (want[-1] if want else None), "%s: last", what)
    same(ids(reversed(lst)), ids(want[::-1]), what + ": reversed")
    if layerfields is not None:
        same({f: dt.typename.name for f, dt in lst.fieldtypes.items()}, {f: ENUM[t] for f, (t, _, _) in layerfields.items()}, what + ": field types")


def check_column(coll, f, want, what):
    col = coll[f]
    vals = [n.get(f) for n in want]
    same(len(col), len(vals), "%s: length of column %r" % (what, f))
    need(all(a is b for a, b in zip(col, vals)) and sum(1 for _ in col) == len(vals), "%s: column %r: got %r, want %r", what, f, list(col), vals)
    lst = col.to_list()
    need(type(lst) is list and [id(v) for v in lst] == [id(v) for v in vals], "%s: column %r as a list", what, f)


class Marker:
    pass


def check_getters(f, want, what):
    """get_prop gives the value of a field, or the default of nodes without it; chain applies functions one after the other."""
    default = Marker()
    get, plain = get_prop(f, default), get_prop(f)
    both = chain(get_prop(f, default), lambda v: [v], lambda v: v + [f])
    for n in want:
        v = n[f] if f in n else default
        need(get(n) is v, "%s: get_prop(%r) of a node gives %r, want %r", what, f, get(n), v)
        need(plain(n) is n.get(f), "%s: get_prop(%r) without a default gives %r, want %r", what, f, plain(n), n.get(f))
        got = both(n)
        need(type(got) is list and len(got) == 2 and got[0] is v and got[1] == f, "%s: functions chained after get_prop(%r): %r", what, f, got)


def cell_ok(cell, v):
    if v is None:
        return cell is None or (isinstance(cell, float) and math.isnan(cell))
    if cell is v:
        return True
    if isinstance(v, (list, Node, NodeSpan, TextSpan)):
        return False
    if isinstance(v, float) and math.isnan(v):
        return cell != cell
    return bool(cell == v) or (isinstance(v, (int, float)) and not isinstance(cell, (str, bytes)) and bool(cell == float(v)))


def check_frame(layer, ml, want, plan, rec):
    spec = plan["frame"]
    fields = list(ml.fields)
    kw = {}
    chosen = fields
    if spec["fields"] is not None and (fields or not spec["fields"]):
        chosen = list(dict.fromkeys(fields[k % len(fields)] for k in spec["fields"]))
        kw["fields"] = chosen
    if spec["materialize"] is not None:
        kw["materialize_spans"] = spec["materialize"]
    if spec["ref"] is not None:
        kw["include_ref_field"] = spec["ref"]
    if "__ref" in fields:
        return
    df = layer.to_pandas(**kw)
    cols = chosen + (["__ref"] if spec["ref"] is not False else [])
    same(list(df.columns), cols, "columns of the data frame")
    if cols:
        same(len(df), len(want), "rows of the data frame")
    for f in chosen:
        for cell, n in zip(df[f].tolist(), want):
            v = n.get(f)
            if spec["materialize"] and ml.fields[f][0] == "span" and v is not None:
                v = str(v)
                need(type(cell) is str and cell == v, "data frame cell %r of %r, want the string %r", cell, f, v)
            else:
                need(cell_ok(cell, v), "data frame cell %r of %r, want %r", cell, f, v)
    if spec["ref"] is not False:
        same(ids(df["__ref"].tolist()), ids(want), "__ref column")
    rec.label("data frame" + (" of spans" if spec["materialize"] and any(t == "span" for t, _, _ in ml.fields.values()) else ""))


def check(plan, rec):
    model, (w,) = build(plan)
    before = canon(w.doc)
    for ln, ml in model.layers.items():
        layer = w.doc.layers[ln]
        nodes = [w.node[n] for n in ml.nodes]
        n = len(nodes)
        gaps = n and nodes[-1].i != n - 1
        rec.label("gaps" if gaps else "no gaps")
        for a, b, s in plan["slices"]:
            if a is not None and a >= 0 and b is not None and b >= 0 and (s is None or s > 0):
                want = [x for x in nodes if x.i in range(a, b, s or 1)]
                check_list(layer[a:b:s] if s else layer[a:b], want, "layer[%r:%r:%r]" % (a, b, s), ml.fields)
        check_list(layer[:], nodes, "layer[:]", ml.fields)
        for f in ml.fields:
            check_column(layer, f, nodes, "layer %r" % ln)
            check_getters(f, nodes, "layer %r" % ln)
        check_frame(layer, ml, nodes, plan, rec)
        layer.compact()
        same(canon(w.doc), before, "document after reading views")
        lists = [(layer.to_list(), nodes, "layer.to_list()"), (NodeList(nodes), nodes, "NodeList(nodes)"),
                 (NodeList(iter(nodes[::-1]), fieldtypes=layer.schema.fields), nodes[::-1], "NodeList(iterator)")]
        if nodes:
            i, j = plan["pick"][0] % n, min(n - 1, plan["pick"][0] % n + 3)
            lists.append((NodeSpan(nodes[i], nodes[j]).to_list(), nodes[i:j + 1], "span.to_list()"))
        lists.append((layer[lambda x: x.i % 2 == 0].to_list(), nodes[::2], "query.to_list()"))
        for lst, want, what in lists:
            check_list(lst, want, what, ml.fields if want else None)
            m = len(want)
            for a, b, s in plan["slices"]:
                if s == 0:
                    continue
                sub = lst[a:b:s]
                check_list(sub, want[a:b:s], "%s[%r:%r:%r]" % (what, a, b, s), ml.fields if want else None)
                if what == "layer.to_list()":
                    check_list(layer[a:b:s], nodes[a:b:s], "layer[%r:%r:%r]" % (a, b, s), ml.fields)
                    sc = [(f, layer[f][a:b:s]) for f in ml.fields]
                    for f, c in sc:
                        need([id(v) for v in c] == [id(x.get(f)) for x in nodes[a:b:s]], "column %r[%r:%r:%r]", f, a, b, s)
            if m:
                idx = [k % m if k % 3 else -(k % m) - 1 for k in plan["pick"]]
                check_list(lst[idx], [want[k] for k in idx], "%s[%r]" % (what, idx), ml.fields)
                for k in idx:
                    need(lst[k] is want[k], "%s[%d]", what, k)
                    need(want[k] in lst, "%s: node not in the list", what)
                    same(lst.index(want[k]), [x is want[k] for x in want].index(True), "%s: index of a node" % what)
            for bad in (m, m + 3, -m - 1):
                try:
                    r = lst[bad]
                except IndexError:
                    pass
                else:
                    raise Violation("%s[%d] of %d nodes gave %r" % (what, bad, m, r))
            for f in ml.fields:
                if f in lst.fieldtypes:
                    check_column(lst, f, want, what)
                    same(lst[f].dtype.typename.name, ENUM[ml.fields[f][0]], "%s: type of column %r" % (what, f))
                    if want and f in want[0]:
                        need(lst[f][0] is want[0][f], "%s: first cell of column %r", what, f)
        if n and any(isinstance(lst, NodeList) for lst, _, _ in lists):
            other = Node(zzz=1)
            need(other not in lists[0][0], "a foreign node is in the list")
        rec.hit(n > 1 and len(ml.fields) > 0)
    refused(lambda: NodeList([Node(), 5]), "a node list of something else")
    refused(lambda: NodeList(["x"]), "a node list of something else")
    same(canon(w.doc), before, "document after reading views")


@st.composite
def plans(draw):
    plan = draw(gen.document(need_layer=True, maxlayers=2, ops=gen.edit_ops()))
    plan["props"] = {}
    end = st.one_of(st.integers(-9, 9), st.none())
    plan["slices"] = [list(x) for x in draw(st.lists(st.tuples(end, end, st.sampled_from((None, 1, None, 2, -1, 3, -2))), min_size=1, max_size=4))]
    plan["pick"] = draw(st.lists(gen.idx, min_size=1, max_size=5))
    plan["frame"] = {"fields": draw(st.one_of(st.none(), st.lists(gen.small, max_size=3))),
                     "materialize": draw(st.sampled_from((None, True, False))), "ref": draw(st.sampled_from((None, True, False)))}
    return plan


@st.composite
def tall_plans(draw):
    plan = draw(gen.tall(maxlayers=2, ops=gen.edit_ops()))
    plan["props"] = {}
    end = st.one_of(st.integers(-2100, 2100), st.none(), st.integers(-20, 300))
    plan["slices"] = [list(x) for x in draw(st.lists(st.tuples(end, end, st.sampled_from((None, 1, None, 2, -1, 3, -2, 17))), min_size=1, max_size=3))]
    plan["pick"] = draw(st.lists(st.integers(0, 3000), min_size=1, max_size=30))
    plan["frame"] = {"fields": draw(st.one_of(st.none(), st.lists(gen.small, max_size=3))),
                     "materialize": draw(st.sampled_from((None, True, False))), "ref": draw(st.sampled_from((None, True, False)))}
    return plan


# ---------------------------------------------------------------- views kept over edits

def check_live(plan, rec):
    """Columns show what their nodes hold now; those of a layer also follow its nodes. Lists keep the nodes they were made with."""
    model, (w,) = build(plan)
    kept = []
    for ln, ml in model.layers.items():
        layer = w.doc.layers[ln]
        nodes = [w.node[n] for n in ml.nodes]
        for f in ml.fields:
            kept.append((layer[f], None, ml, f, "column %r of layer %r" % (f, ln)))
            for lst, sub, what in ((layer.to_list(), nodes, "a list"), (layer[:][1:], nodes[1:], "a slice"), (layer[lambda x: x.i % 2 == 0], [x for x in nodes if x.i % 2 == 0], "a query")):
                kept.append((lst[f], list(sub), ml, f, "column %r of %s of layer %r" % (f, what, ln)))
    changed = 0
    for step, op in enumerate([None] + plan["later"]):
        if op is not None:
            apply(model, [w], op)
        for col, nodes, ml, f, what in kept:
            if nodes is None and (model.layers.get(ml.name) is not ml or f not in ml.fields):
                continue
            now = [w.node[n] for n in ml.nodes] if nodes is None else nodes
            want = [n.get(f) for n in now]
            what = "after %d edits: %s" % (step, what)
            got = list(col)
            need(len(got) == len(want) and all(a is b for a, b in zip(got, want)), "%s: %r, want %r", what, got, want)
            same(len(col), len(want), what + ": length")
            need([id(v) for v in col.to_list()] == [id(v) for v in want], "%s as a list", what)
        changed += op is not None and op[0] == "set"
    rec.hit(changed > 0 and bool(kept))


@st.composite
def live_plans(draw):
    plan = draw(gen.document(need_layer=True, maxlayers=2, big=False, ops=gen.edit_ops()))
    sets = st.tuples(st.just("set"), gen.small, gen.idx, gen.small, st.integers(1, 40)).map(list)
    plan["later"] = draw(st.lists(gen.weighted((2, sets), (1, gen.edit_ops())), min_size=1, max_size=6))
    return plan


# ---------------------------------------------------------------- lists over several layers

PRIORITY = ["BOOL", "I32", "I64", "F64"]
VALUES = {"i32": 5, "i64": 2 ** 40, "f64": 0.5, "i1": True, "str": "s", "bin": b"b"}


def merged(kinds):
    """Merged type name of a set of type names, or None when they cannot be merged."""
    if len(kinds) == 1:
        return next(iter(kinds))
    if all(k in PRIORITY for k in kinds):
        return max(kinds, key=PRIORITY.index)
    return None


def check_merge(plan, rec):
    doc = Document()
    t = doc.add_text("main", "some text here")
    doc.add_text("title", "title")
    factory = {"i32": T.int32, "i64": T.int64, "f64": T.float64, "i1": T.bool, "str": T.string, "bin": T.binary,
               "span": T.span("main"), "span2": T.span("title"), "ref": T.noderef("L0"), "refs": T.noderef_many("L0"), "ref2": T.noderef("L1")}
    layers, declared = [], []
    for i, fields in enumerate(plan["layers"]):
        layers.append(doc.add_layer("L%d" % i, **{f: (factory[k](None) if d and callable(factory[k]) else factory[k]) for f, (k, d) in fields.items()}))
        declared.append({f: k for f, (k, _) in fields.items()})

    def value(k):
        if k in VALUES:
            return VALUES[k]
        if k == "span":
            return t[0:4]
        if k == "span2":
            return doc.texts["title"][0:2]
        return None
    nodes, kinds = [], {}
    name = lambda k: {"span2": "SPAN", "ref2": "NODEREF"}.get(k) or ENUM[k]
    present = set()
    for kind, i, which in plan["nodes"]:
        if kind == "attached":
            i %= len(layers)
            n = Node()
            layers[i].add(n)
            present.add(i)
        else:
            n = Node()
            for f, k in which.items():
                if value(k) is not None:
                    n[f] = value(k)
            if kind == "removed":
                layers[0].add(n)
                layers[0].remove(n)
        nodes.append(n)
        if kind != "attached":
            for f, k in which.items():
                if f in n:
                    # an integer of a loose node counts as 64 bits
                    kinds.setdefault(f, set()).add("I64" if k in ("i32", "i64") else name(k))
    for i in present:
        for f, k in declared[i].items():
            kinds.setdefault(f, set()).add(name(k))
    want = {f: merged(ks) for f, ks in kinds.items()}
    rec.label("mergeable" if None not in want.values() else "incompatible")
    if any(len(ks) > 1 for ks in kinds.values()):
        rec.hit()
        rec.label("kinds merged")
    for order in (nodes, nodes[::-1]):
        if None in want.values():
            refused(lambda: NodeList(order), "a node list merging %r" % kinds)
        else:
            lst = NodeList(order)
            same({f: dt.typename.name for f, dt in lst.fieldtypes.items()}, want, "merged field types of %r" % kinds)
            check_list(lst, order, "a list over several layers")
            for f in want:
                check_column(lst, f, order, "a list over several layers")
                same(lst[f].dtype.typename.name, want[f], "type of a merged column")
            check_list(lst[1:], order[1:], "a slice of it")
            same({f: dt.typename.name for f, dt in lst[1:].fieldtypes.items()}, want, "field types of a slice")
            str(lst)


@st.composite
def merge_plans(draw):
    kinds = draw(st.sampled_from((("i32", "i64", "f64", "i1"), ("i32", "i64", "f64", "i1"), ("i32", "i1"), ("i32", "str", "f64"), ("str", "bin", "str"),
                                  ("span", "span2", "span"), ("ref", "ref2", "refs"), ("i32", "i64", "f64", "i1", "str", "span", "ref"))))
    f = st.sampled_from(("a", "a", "b"))
    layers = draw(st.lists(st.dictionaries(f, st.tuples(st.sampled_from(kinds), st.booleans()), max_size=2), min_size=1, max_size=4))
    node = st.tuples(st.sampled_from(("attached", "attached", "attached", "loose", "removed")), st.integers(0, 3),
                     st.dictionaries(f, st.sampled_from(kinds), max_size=2)).map(list)
    return {"layers": layers, "nodes": draw(st.lists(node, min_size=1, max_size=6))}


FACETS = [
    Facet("large views", tall_plans, check, "the same over layers of 64-2000 nodes; non-trivial: a layer with nodes and fields", 200, 5000),
    Facet("views", plans, check,
          "lists, slices, index lists, columns and data frames of up to two edited layers; non-trivial: a layer with nodes and fields", 1200, 30000),
    Facet("kept columns", live_plans, check_live,
          "columns of layers, lists, slices and queries kept over 1-6 edits; non-trivial: a value was set", 800, 15000),
    Facet("merged lists", merge_plans, check_merge,
          "lists of nodes from up to 4 layers, never added and removed nodes; non-trivial: a field with several types", 2000, 30000),
]
