"""C27: a decoded document behaves exactly like the original under further use."""
import copy
import io
import pickle

from .. import gen
from ..core import Facet, need, same
from ..model import (LINKS, SCALARS, World, apply, build, canon, check_layers, dtype, encode, expected, refused, repair, tag, _unset)
from hypothesis import strategies as st
from docria.algorithm import dominant_right_span, group_by_span
from docria.codec import JsonCodec, MsgpackCodec, MsgpackDocument, XmlCodec
from docria.model import DataTypes as T, Document, Node, NodeCollection, NodeList, NodeSpan, TextSpan

ASSUMPTIONS = ["empty reference arrays may come back absent, so they are removed before the copy is made",
               "nodes removed before the copy is made are not used afterwards", "JSON routes for documents without binary values"]

ROUTES = {
    "binary": lambda d: MsgpackCodec.decode(MsgpackCodec.encode(d)),
    "stream": lambda d: MsgpackCodec.decode(io.BytesIO(MsgpackCodec.encode(d))),
    "MsgpackDocument": lambda d: MsgpackDocument(MsgpackCodec.encode(d)).document(),
    "pickle": lambda d: pickle.loads(pickle.dumps(d)),
    "deepcopy": lambda d: copy.deepcopy(d),
    "copy": lambda d: copy.copy(d),
    "JSON": lambda d: JsonCodec.decode(JsonCodec.encode(d)),
    "JSON object": lambda d: JsonCodec.decode_object(JsonCodec.encode_object(d)),
    "JSON object again": lambda d: object_again(d),
    "twice": lambda d: MsgpackCodec.decode(MsgpackCodec.encode(MsgpackCodec.decode(MsgpackCodec.encode(d)))),
    "both": lambda d: JsonCodec.decode(JsonCodec.encode(MsgpackCodec.decode(MsgpackCodec.encode(d)))),
}


def second_use(d):
    """A view decoded twice, the first copy edited in between."""
    view = MsgpackDocument(MsgpackCodec.encode(d))
    disturb(view.document())
    return view.document()


def from_held(d):
    """A view over a document, decoded after being encoded once."""
    view = MsgpackDocument(d)
    view.binary()
    return MsgpackDocument(view.binary()).document()


def object_again(d):
    """A JSON object decoded twice, the first copy edited in between."""
    obj = JsonCodec.encode_object(d)
    disturb(JsonCodec.decode_object(obj))
    return JsonCodec.decode_object(obj)


ROUTES.update({"view again": second_use, "view of document": from_held})
JSON_ROUTES = ("JSON", "both", "JSON object", "JSON object again")
BINARY = [r for r in ROUTES if r not in JSON_ROUTES]


def one_nan(v):
    """JSON has one NaN only."""
    if isinstance(v, float):
        return v if v == v else float("nan")
    if isinstance(v, dict):
        return {k: one_nan(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [one_nan(x) for x in v]
    return v


def check(plan, rec):
    if plan["route"] in JSON_ROUTES:
        plan = one_nan(plan)
    model, (w,) = build(plan)
    repair(model, [w])
    for ml in model.layers.values():
        for n in ml.nodes:
            for f in [f for f, v in n.fields.items() if v == []]:
                _unset([w], n, f)
    route = plan["route"]
    twin = World()
    twin.doc = ROUTES[route](w.doc)
    need(twin.doc is not w.doc, "%s gives the document itself", route)
    for ml in model.layers.values():
        got = list(twin.doc.layers[ml.name]) if ml.name in twin.doc.layers else []
        same(len(got), len(ml.nodes), "%s: nodes in %r" % (route, ml.name))
        for n, x in zip(ml.nodes, got):
            twin.node[n] = x
    model.graveyard = []
    ws = [w, twin]
    ids = {id(n) for layer in w.doc.layers.values() for n in layer}
    need(not any(id(n) in ids for layer in twin.doc.layers.values() for n in layer), "%s shares nodes with the original", route)
    compare(model, ws, "%s copy" % route)
    separate(ROUTES[route](w.doc), route)
    for op in plan["later"]:
        apply(model, ws, op)
        check_layers(model, ws, "%s copy after %r: " % (route, op))
        same(canon(twin.doc), canon(w.doc), "%s copy after %r" % (route, op))
        rec.label("op " + op[0])
    same(canon(w.doc), expected(model), "original after the edits")
    repair(model, ws)
    compare(model, ws, "%s copy after edits" % route)
    for p in plan["probes"]:
        a, b = [outcome(x.doc, p) for x in ws]
        rec.label("probe " + p[0], "probe refused" if a[0] != "ok" else "probe accepted")
        same(b, a, "%s copy: outcome of %r" % (route, p))
        same(canon(twin.doc), canon(w.doc), "%s copy after %r" % (route, p))
    a, b = [outcome(x.doc, ("encode", 0, 0, 0)) for x in ws]
    same(b, a, "%s copy: encoding at the end" % route)
    rec.label(route)
    rec.hit(len(plan["later"]) >= 2 and sum(len(ml.nodes) for ml in model.layers.values()) >= 2)
    # nothing is shared
    first, second = ws if plan["first"] else ws[::-1]
    before = canon(second.doc)
    obj = JsonCodec.encode_object(first.doc) if route in JSON_ROUTES and a[0] == "ok" else None
    kept = copy.deepcopy(obj)
    if obj is not None:
        separate_object(obj, ws, route)
    disturb(first.doc)
    same(canon(second.doc), before, "%s copy and original: one after changing the other" % route)
    if obj is not None:
        same(tag(obj), tag(kept), "JSON object of a document changed afterwards")


def separate_object(obj, ws, route):
    """Changing the JSON object of a document changes no document, nor what is made of an object like it."""
    parts = []

    def walk(v):
        if isinstance(v, (dict, list)):
            parts.append((v, copy.copy(v)))
            for x in list(v.values() if isinstance(v, dict) else v):
                walk(x)
    before = [canon(x.doc) for x in ws]
    walk(obj)
    try:
        for v, _ in parts:
            if isinstance(v, dict):
                for k in v:
                    v[k] = "disturbed"
            else:
                v.append("disturbed")
        same([canon(x.doc) for x in ws], before, "%s: documents after changing the JSON object of one" % route)
        fresh = Document()
        same({f: t.default() for f, t in fresh.add_layer("fresh", a=T.int32, b=T.string, c=T.float64, d=T.bool, e=T.int64).schema.fields.items()},
             {"a": 0, "b": "", "c": 0.0, "d": False, "e": 0}, "default values of a new layer after changing the JSON object of another document")
    finally:
        for v, was in parts:
            v.clear()
            (v.update if isinstance(v, dict) else v.extend)(was)


def separate(doc, route):
    """Changing one value of a decoded document in place changes no other value."""
    spans, lists, parts = [], [], []
    for layer in doc.layers.values():
        for n in layer:
            for f, v in n.items():
                if isinstance(v, TextSpan):
                    spans.append((v, v.start, v.stop, layer.name, n.i, f))
                elif isinstance(v, list):
                    lists.append((v, len(v), layer.name, n.i, f))

    def walk(v):
        if isinstance(v, (dict, list)):
            parts.append((v, len(v)))
            for x in v.values() if isinstance(v, dict) else v:
                walk(x)
    walk(doc.props)
    for k in (0, 1):
        for v, a, b, *where in spans[k::2]:
            v.trim_()
        for v, a, b, *where in spans[1::2] if k == 0 else ():
            same((v.start, v.stop), (a, b), "%s: span of %r after spans of other nodes were trimmed in place" % (route, where))
    for v, size, *where in lists:
        need(len(v) == size, "%s: reference list of %r changed with another one", route, where)
        v.append(v[0] if v else None)
    for v, size in parts:
        need(len(v) == size, "%s: a list or map among the properties changed with another one", route)
        if isinstance(v, dict):
            v["changed"] = 1
        else:
            v.append(1)


def compare(model, ws, what):
    a, b = [x.doc for x in ws]
    same(canon(b), canon(a), what)
    same(encode(b), encode(a), what + ": encoded")
    pairs = 0
    for la, lb in zip(*[[x.layers[name] for name in sorted(x.layers)] for x in (a, b)]):
        for m, n in zip(la, lb):
            for f, v in m.items():
                if isinstance(v, TextSpan):
                    w = n[f]
                    need(v == w and w == v and not v != w, "%s: span %d-%d in %r of a node of %r is unequal to its counterpart", what, v.start, v.stop, f, la.name)
                    pairs += 1
                    if pairs > 200:
                        break
    if not any(t == "bin" for ml in model.layers.values() for t, _, _ in ml.fields.values()) and not binary(model.props):
        same(JsonCodec.encode(b), JsonCodec.encode(a), what + ": as JSON")


def binary(v):
    if isinstance(v, dict):
        return any(binary(x) for x in v.values())
    if isinstance(v, (list, tuple)):
        return any(binary(x) for x in v)
    return isinstance(v, (bytes, bytearray))


def disturb(doc):
    """Change everything that can be changed in place."""
    def scramble(v):
        if isinstance(v, dict):
            for x in v.values():
                scramble(x)
            v["disturbed"] = 1
        elif isinstance(v, list):
            for x in v:
                scramble(x)
            v.append("disturbed")
    scramble(doc.props)
    layers = list(doc.layers.values())
    for layer in layers:
        nodes = list(layer)
        for n in nodes:
            for f, v in list(n.items()):
                if isinstance(v, list) and len(v):
                    v.append(v[0])
                    del v[0]
                elif isinstance(v, TextSpan):
                    v.trim_()
                    n[f] = v.text[0:0]
                elif isinstance(v, int):
                    n[f] = v + 1
                else:
                    n.pop(f)
        layer.sort(lambda n: -n.i)
        layer.remove(nodes[::2])
    for layer in layers:
        for f in list(layer.schema.fields)[::2]:
            layer.remove_field(f)
        layer.add_field("disturbed", T.int32(7))
        layer.add()
    doc.add_text("disturbed", "text")
    doc.add_layer("disturbed", x=T.string)
    for name in list(doc.layers)[::2]:
        doc.remove_layer(name, fieldcascade=True)


# ---------------------------------------------------------------- probes: acts that may be refused

def outcome(doc, p):
    """What the act gives: ("ok", plain result) or ("refused", exception type)."""
    try:
        return ("ok", act(doc, *p))
    except Exception as e:
        return ("refused", type(e).__name__)


def place(doc, v):
    if isinstance(v, Node):
        return ("node", v.collection.name, [id(x) for x in v.collection].index(id(v))) if v.collection is not None else ("node", None, sorted(v.keys()))
    if isinstance(v, TextSpan):
        return ("span", v.text.name, v.start, v.stop)
    if isinstance(v, NodeSpan):
        return ("nspan", place(doc, v.left), place(doc, v.right))
    if isinstance(v, (list, tuple, NodeCollection)):
        return [place(doc, x) for x in v]
    if isinstance(v, dict):
        return [(k, place(doc, x)) for k, x in sorted(v.items())]
    return (type(v).__name__, repr(v) if not hasattr(v, "tolist") else repr(v.tolist()))


VALUES = (lambda doc, layer: 5, lambda doc, layer: "x", lambda doc, layer: 2.5, lambda doc, layer: b"y", lambda doc, layer: True, lambda doc, layer: None,
          lambda doc, layer: 2 ** 40, lambda doc, layer: 2 ** 70, lambda doc, layer: [], lambda doc, layer: layer.first(),
          lambda doc, layer: list(layer), lambda doc, layer: NodeSpan(layer.first(), layer.last()) if layer.first() is not None else 3,
          lambda doc, layer: Node(), lambda doc, layer: [Node()], lambda doc, layer: next(iter(doc.texts.values()))[0:1] if doc.texts else "t",
          lambda doc, layer: next(iter(next(iter(doc.layers.values()))), "none"), lambda doc, layer: {"a": 1}, lambda doc, layer: [3])


def act(doc, kind, i, j, k):
    layers = list(doc.layers.values())
    if kind == "encode":
        return MsgpackCodec.encode(doc)
    if kind == "doc":
        what = k % 8
        if what == 0:
            return doc.add_layer(layers[i % len(layers)].name if layers else "x", a=T.int32).name
        if what == 1:
            return str(doc.add_text(list(doc.texts)[0] if doc.texts else "t", "other"))
        if what == 2:
            return doc.remove_layer("no such layer")
        if what == 3:
            return doc.layers["no such layer"]
        if what == 4:
            doc.maintext = "main text"
            return str(doc.maintext)
        if what == 5:
            return repr(doc)
        if what == 6:
            return XmlCodec.encode_utf8string(doc)
        return JsonCodec.encode(doc)
    if not layers:
        return None
    layer = layers[i % len(layers)]
    fields = sorted(layer.schema.fields)
    f = fields[j % len(fields)] if fields and j % 7 else "undeclared"
    nodes = list(layer)
    node = nodes[j % len(nodes)] if nodes else None
    if kind == "add":
        return place(doc, layer.add(**{f: VALUES[k % len(VALUES)](doc, layer)}))
    if kind == "many":
        return place(doc, layer.add_many([Node(), Node({f: VALUES[k % len(VALUES)](doc, layer)})], full_validation=bool(k % 3)))
    if kind == "set":
        node[f] = VALUES[k % len(VALUES)](doc, layer)
        return (node.is_valid(), place(doc, outcome(doc, ("encode", 0, 0, 0))))
    if kind == "valid":
        return [n.is_valid() for n in nodes]
    if kind == "why":
        return [n.is_valid(noexcept=False) for n in nodes]
    if kind == "unset":
        return place(doc, node.pop(f))
    if kind == "remove":
        other = layers[j % len(layers)]
        return layer.remove([None, node, other.first(), Node()][k % 4])
    if kind == "retain":
        return layer.retain([nodes[::2], [None], layers[j % len(layers)].first(), []][k % 4])
    if kind == "sort":
        return layer.sort([lambda n: n[f], lambda n: (str(n.get(f)), n.i), lambda n: n.get(f), lambda n: -n.i][k % 4])
    if kind == "compact":
        layer.compact()
        return [n.i for n in layer]
    if kind == "index":
        return place(doc, layer[[k, -k, slice(k % 3, None), slice(None, -1), [0, k % 5], f, 10 ** 6][j % 7]]) if j % 7 != 5 else place(doc, layer[f].to_list())
    if kind == "query":
        col = layer[f]
        v = VALUES[k % len(VALUES)](doc, layer) if k % 2 else (node.get(f) if node is not None else 0)
        p = [lambda: col == v, lambda: col != v, lambda: col < v, lambda: col >= v, lambda: col.is_any(v), lambda: col.is_none(), lambda: col.has_value(),
             lambda: ~(col == v) | col.has_value(), lambda: col.covered_by(0, k % 9), lambda: col.intersected_by(k % 5, k), lambda: col > v][(i + k) % 11]()
        return place(doc, list(layer[p]))
    if kind == "walk":
        return place(doc, [(n.left, n.right, n.i, n.is_dangling(), n.collection.name) for n in nodes])
    if kind == "field":
        what = k % 5
        if what == 0:
            return layer.add_field(f, T.int32)
        if what == 1:
            return layer.remove_field(f, leave_data=bool(k % 2))
        if what == 2:
            return layer.add_field("new%d" % k, T.string("d" * (k % 3)), init_with_default=bool(k % 2))
        if what == 3:
            return layer.add_field("new%d" % k, T.noderef_many(layers[j % len(layers)].name))
        return place(doc, [(g, repr(t)) for g, t in layer.schema.fields.items()])
    if kind == "nspan":
        s = NodeSpan(nodes[j % len(nodes)], nodes[k % len(nodes)])
        return [place(doc, list(s)), len(s), repr(s), outcome(doc, ("spantext", i, j, k))]
    if kind == "spantext":
        return NodeSpan(nodes[0], nodes[-1]).text(f)
    if kind == "text":
        out = []
        for n in nodes:
            for v in n.values():
                if isinstance(v, TextSpan):
                    out.append([str(v), len(v), place(doc, v.trim()), v == str(v), str(v.text) == str(doc.texts[v.text.name]), place(doc, v[0:1])])
        return out
    if kind == "group":
        spans = [g for g, t in layer.schema.fields.items() if t.typename.name == "SPAN"]
        g = spans[j % len(spans)]
        name = layer.schema.fields[g].options["context"]
        mine = [n for n in nodes if g not in n or n[g].text.name == name]
        return [[place(doc, x), sorted(place(doc, y) for y in b["l"])] for x, b in group_by_span(mine, {"l": mine}, group_span_field=g, layer_span_field={"l": g})] + \
            place(doc, dominant_right_span(mine, g))
    if kind == "frame":
        df = layer.to_pandas(materialize_spans=bool(k % 2))
        return [list(df.columns), len(df)]
    if kind == "print":
        return [str(layer), repr(layer), layer._repr_html_()]
    if kind == "list":
        # fields of the same name in several layers are merged in no particular order
        one = NodeList(nodes)
        try:
            many = NodeList([n for x in layers for n in x])
        except Exception:
            many = None
        return [sorted((g, repr(t)) for g, t in one.fieldtypes.items()),
                sorted((g, t.typename.name) for g, t in many.fieldtypes.items()) if many is not None else "refused"]
    raise ValueError(kind)


PROBES = ("add", "add", "many", "set", "set", "valid", "why", "unset", "remove", "retain", "sort", "compact", "index", "query", "query", "query", "walk",
          "field", "field", "nspan", "text", "group", "frame", "print", "list", "doc", "doc", "encode")


@st.composite
def plans(draw):
    binary_ok = draw(st.booleans())
    plan = draw(gen.document(binary=binary_ok, ops=gen.edit_ops(), maxlayers=3, big=draw(st.integers(0, 9)) == 9, need_layer=draw(st.integers(0, 19)) != 0))
    plan["route"] = draw(st.sampled_from(BINARY if binary_ok else BINARY + list(JSON_ROUTES) * 3))
    plan["later"] = draw(st.lists(gen.weighted((3, gen.edit_ops()), (1, gen.schema_ops())), min_size=draw(st.sampled_from((0, 2, 4))), max_size=9)) if plan["layers"] else []
    plan["probes"] = [list(p) for p in draw(st.lists(st.tuples(st.sampled_from(PROBES), gen.small, gen.idx, st.integers(0, 60)), max_size=8))]
    plan["first"] = draw(st.booleans())
    return plan


@st.composite
def tall_plans(draw):
    binary_ok = draw(st.booleans())
    plan = draw(gen.tall(binary=binary_ok, ops=gen.edit_ops(), maxlayers=2, sizes=(64, 130, 257, 600)))
    plan["route"] = draw(st.sampled_from(BINARY if binary_ok else BINARY + list(JSON_ROUTES) * 3))
    plan["later"] = draw(st.lists(gen.weighted((3, gen.edit_ops()), (1, gen.schema_ops())), min_size=1, max_size=4))
    plan["probes"] = [list(p) for p in draw(st.lists(st.tuples(st.sampled_from(PROBES), gen.small, st.integers(0, 2000), st.integers(0, 60)), max_size=3))]
    plan["first"] = draw(st.booleans())
    return plan


def check_apart(plan, rec):
    """Many nodes with equal values; those of a decoded document are changed in place one by one."""
    doc = Document()
    text = doc.add_text("main", plan["text"])
    size = len(plan["text"])
    layer = doc.add_layer("token", text=T.span("main"), deps=T.noderef_many("token"), s=T.nodespan("token"), id=T.int32)
    for i, (a, b, _) in enumerate(plan["rows"]):
        a = a % (size + 1)
        layer.add(id=i, text=text[a:min(size, a + b)])
    nodes = list(layer)
    for n, (_, _, ks) in zip(nodes, plan["rows"]):
        n["deps"] = [nodes[k % len(nodes)] for k in ks] or nodes[:1]
        n["s"] = NodeSpan(*sorted((nodes[ks[0] % len(nodes)], nodes[ks[-1] % len(nodes)]), key=lambda m: m.i)) if ks else NodeSpan(nodes[0], nodes[-1])
    doc.props["a"] = [[list(v) for v in plan["lists"]], {"x": list(plan["lists"][0]), "y": list(plan["lists"][0])}]
    route = plan["route"]
    separate(ROUTES[route](doc), route)
    made = ROUTES[route](doc)
    got = list(made.layers["token"])
    for k in plan["touch"]:
        n = got[k % len(got)]
        before = canon(made)
        n["text"].trim_()
        n["deps"].append(got[0])
        del n["deps"][0]
        n["s"] = NodeSpan(n, n)
        after = canon(made)
        same([x for i, x in enumerate(after["layers"][0][2]) if i != k % len(got)], [x for i, x in enumerate(before["layers"][0][2]) if i != k % len(got)],
             "%s: the other nodes after a value of node %d was changed in place" % (route, k % len(got)))
    rec.label(route)
    seen = [(a, b) for a, b, _ in plan["rows"]]
    rec.hit(len(set(seen)) < len(seen) and len(nodes) > 2)


def apart_plans():
    row = st.tuples(st.sampled_from((0, 0, 1, 3)), st.sampled_from((1, 2, 5, 5)), st.sampled_from(((), (1,), (0, 2), (1, 2, 3)))).map(list)
    return st.fixed_dictionaries({
        "text": st.lists(st.sampled_from((" ", "a", "\n", "\u00e5 ", "\U0001f600", " x ")), min_size=1, max_size=9).map("".join),
        "rows": st.one_of(st.lists(row, min_size=1, max_size=12), st.tuples(row, st.sampled_from((3, 17, 130, 300))).map(lambda t: [t[0]] * t[1])),
        "lists": st.lists(st.sampled_from(((), (1,), ("a", 2))), min_size=1, max_size=4), "route": st.sampled_from(sorted(ROUTES)),
        "touch": st.lists(st.integers(0, 400), min_size=1, max_size=3)})


FACETS = [
    Facet("values apart", apart_plans, check_apart, "up to 300 nodes with few distinct spans and lists, changed in place after decoding; non-trivial: three nodes, two with equal spans",
          500, 12000),
    Facet("large twins", tall_plans, check, "layers of 64-600 nodes: as below", 120, 3000, case_seconds=120),
    Facet("parallel lives", plans, check, "at least two edits after decoding, at least two nodes left", 1500, 40000, case_seconds=60),
]
