"""C28: every way of reaching a layer, text, field or type leads to the same thing."""
import copy
import io
import pickle

from .. import gen
from ..core import Facet, Violation, need, same
from ..model import POOL
from hypothesis import strategies as st
from docria.codec import JsonCodec, MsgpackCodec, MsgpackDocument
from docria.model import DataTypes as T, Document, Node, NodeLayerSchema, NodeList, NodeSpan, Text, TextSpan

ASSUMPTIONS = ["subscript deletion of a layer that does not exist may raise or do nothing", "a schema object is given to one layer only",
               "what add_layer and add_text do to the layer or text they replace is not judged"]
NAMES = ("a", "b", "main", "token", "x.y", "self", "name", "", "\u00e5", "A", "props", "layers")
FIELDS = ("id", "text", "head", "pos", "x", "keys", "get", "items", "main", "a b", "\u00e5", "i", "left", "collection")


def missing(fn, what, kinds=(KeyError,)):
    try:
        r = fn()
    except kinds:
        return
    except Exception as e:
        raise Violation("%s: %s instead of a KeyError" % (what, type(e).__name__))
    raise Violation("%s: gave %r" % (what, r))


class Twin:
    """Document and what it must contain: names in order -> [object, fields], names -> Text."""

    def __init__(self):
        self.doc = Document()
        self.layers, self.texts = {}, {}
        self.held = {}          # id of a node -> (node, attribute-style view of it taken at first sight)

    def fld(self, node):
        return self.held.setdefault(id(node), (node, node.fld))[1]

    def typ(self, spec, how):
        kind, arg = spec
        if kind == "span":
            return T.span(self.texts[arg]) if how and arg in self.texts else T.textspan(arg) if how else T.span(arg)
        if kind in ("ref", "refs", "nspan"):
            fn = {"ref": T.noderef, "refs": T.noderef_many, "nspan": T.nodespan}[kind]
            if kind == "ref" and how and arg in self.layers and len(self.layers) % 2:
                return self.layers[arg][0].nodetype
            return fn(self.layers[arg][0]) if how and arg in self.layers else fn(arg)
        fn = {"i32": T.int32, "i64": T.int64, "f64": T.float64, "i1": T.boolean if how else T.bool, "str": T.string}[kind]
        return fn if arg is None and how else fn() if arg is None else fn(arg if arg != "none" else None)


def plain(t):
    return (t.typename.name, sorted(t.options.items()))


def want_type(spec):
    kind, arg = spec
    name = {"span": "SPAN", "ref": "NODEREF", "refs": "NODEREF_MANY", "nspan": "NODEREF_SPAN", "i32": "I32", "i64": "I64", "f64": "F64", "i1": "BOOL",
            "str": "STRING"}[kind]
    if kind == "span":
        return (name, [("context", arg)])
    if kind in ("ref", "refs", "nspan"):
        return (name, [("layer", arg)])
    std = {"i32": 0, "i64": 0, "f64": 0, "i1": False, "str": ""}[kind]
    return (name, [] if arg == "none" else [("default", std if arg is None else arg)])


def check_all(t, what):
    doc = t.doc
    for d in (doc.layers, doc.layer):
        same(list(d), list(t.layers), what + ": layers")
    for d in (doc.texts, doc.text):
        same(list(d), list(t.texts), what + ": texts")
    same(list(doc._ipython_key_completions_()), list(t.layers), what + ": completions of the document")
    for n in NAMES:
        here = n in t.layers
        need((n in doc) is here and (n in doc.layers) is here and (n in doc.layer) is here, "%s: is %r a layer", what, n)
        need((n in doc.texts) is (n in t.texts) and (n in doc.text) is (n in t.texts), "%s: is %r a text", what, n)
        if not here:
            missing(lambda: doc[n], "%s: doc[%r]" % (what, n))
            missing(lambda: doc.layers[n], "%s: doc.layers[%r]" % (what, n))
        if n not in t.texts:
            missing(lambda: doc.texts[n], "%s: doc.texts[%r]" % (what, n))
    if "main" in t.texts:
        need(doc.maintext is t.texts["main"], "%s: maintext", what)
    else:
        missing(lambda: doc.maintext, what + ": maintext")
    for n, text in t.texts.items():
        need(doc.texts[n] is text and doc.text[n] is text, "%s: text %r", what, n)
        same(text.name, n, what + ": name of a text")
        need(isinstance(text, Text), "%s: text is %r", what, text)
        same(plain(text.spantype), want_type(("span", n)), what + ": spantype")
        need(text.spantype == T.span(n) and T.span(text) == T.span(n) and hash(text.spantype) == hash(T.span(n)), "%s: spantype of %r", what, n)
    for n, (layer, fields, nodes) in t.layers.items():
        need(doc[n] is layer and doc.layers[n] is layer and doc.layer[n] is layer, "%s: layer %r", what, n)
        same((layer.name, layer.schema.name), (n, n), what + ": name of a layer")
        need(layer.nodetype == T.noderef(n) == T.noderef(layer) and T.noderef_many(n) == T.noderef_many(layer) and T.nodespan(n) == T.nodespan(layer)
             and hash(layer.nodetype) == hash(T.noderef(n)), "%s: types made of layer %r", what, n)
        need(not layer.nodetype == T.noderef_many(n) and layer.nodetype != T.noderef(n + "x"), "%s: nodetype of %r equals others", what, n)
        same(list(layer.schema.fields), list(fields), what + ": fields of %r" % n)
        same(list(layer.fieldtypes), list(fields), what + ": fieldtypes of %r" % n)
        same(list(layer._ipython_key_completions_()), list(fields), what + ": completions of %r" % n)
        for f, spec in fields.items():
            dt = layer.schema.fields[f]
            same(plain(dt), want_type(spec), "%s: type of %r of %r" % (what, f, n))
            need(layer.fieldtypes[f] is dt and layer[f].dtype is dt, "%s: type of %r of %r differs by route", what, f, n)
            again = t.typ(spec, False)
            need(dt == again and again == dt and hash(dt) == hash(again), "%s: %r is not equal to %r", what, dt, again)
        same(len(layer), len(nodes), "%s: nodes of %r" % (what, n))
        views = [("a query", layer[lambda x: True]), ("a list", layer.to_list())]
        if nodes:
            views.append(("a node span", NodeSpan(layer.first(), layer.last())))
        for kind, view in [("the layer", layer)] + views:
            for f in FIELDS:
                if f not in fields:
                    missing(lambda: view[f], "%s: field %r of %s of %r" % (what, f, kind, n), Exception)
                else:
                    col = view[f]
                    need(col.dtype is layer.schema.fields[f], "%s: type of the column %r of %s of %r", what, f, kind, n)
                    same(len(col), len(nodes), "%s: column %r of %s of %r" % (what, f, kind, n))
        for node, values in zip(nodes, layer):
            need(node[0] is values, "%s: node of %r", what, n)
            check_node(*node, "%s: node of %r" % (what, n))
            check_node(*node, "%s: node of %r, through a view of it made before" % (what, n), t.fld(node[0]))


def check_node(node, values, what, fld=None):
    same(sorted(node.keys()), sorted(values), what + ": fields")
    same(sorted(node._ipython_key_completions_()), sorted(values), what + ": completions")
    for f in FIELDS:
        v = getattr(node.fld if fld is None else fld, f)
        if f in values:
            need(node[f] is v and node.get(f) is v and same_value(v, values[f]), "%s: field %r is %r by attribute, %r by key, want %r", what, f, v, node[f], values[f])
        else:
            need(v is None and f not in node and node.get(f, 7) == 7, "%s: absent field %r gives %r", what, f, v)
            missing(lambda: node[f], "%s: node[%r]" % (what, f))


def same_value(v, w):
    return v is w or type(v) is type(w) and v == w


ROUTES = {"binary": lambda d: MsgpackCodec.decode(MsgpackCodec.encode(d)), "JSON": lambda d: JsonCodec.decode(JsonCodec.encode(d)),
          "pickle": lambda d: pickle.loads(pickle.dumps(d)), "deepcopy": copy.deepcopy, "view": lambda d: MsgpackDocument(MsgpackCodec.encode(d)).document(),
          "stream": lambda d: MsgpackCodec.decode(io.BytesIO(MsgpackCodec.encode(d)))}


def referrers(t, name):
    return [(n, f) for n, (_, fields, _) in t.layers.items() if n != name for f, (k, a) in fields.items() if k in ("ref", "refs", "nspan") and a == name]


def encodable(t):
    return all(a in (t.texts if k == "span" else t.layers) for _, fields, _ in t.layers.values() for k, a in fields.values()
               if k in ("span", "ref", "refs", "nspan"))


def check(plan, rec):
    t = Twin()
    doc = t.doc
    check_all(t, "empty document")
    done = set()
    for step, op in enumerate(plan["ops"]):
        kind = op[0]
        what = "step %d, %r" % (step, op)
        if kind == "layer":
            _, name, fields, how = op
            if name in t.layers and not plan["replace"]:
                continue
            fields = {f: tuple(s) for f, s in fields.items()}
            if name in t.layers and list(t.layers)[-1] != name:
                continue
            if how == 0:
                layer = t.doc.add_layer(name, **{f: t.typ(s, step % 2) for f, s in fields.items()})
            else:
                schema = NodeLayerSchema(name)
                if how == 1:
                    for f, s in fields.items():
                        need(schema.add(f, t.typ(s, step % 2)) is schema, "NodeLayerSchema.add gives another schema")
                else:
                    need(schema.set(**{f: t.typ(s, step % 2) for f, s in fields.items()}) is schema, "NodeLayerSchema.set gives another schema")
                for f in fields:
                    for again in (lambda: schema.add(f, T.int32), lambda: schema.set(**{f: T.int32})):
                        try:
                            again()
                        except Exception:
                            pass
                        else:
                            raise Violation("%s: field %r declared twice" % (what, f))
                layer = t.doc.add_layer(schema)
                need(layer.schema is schema, "%s: another schema", what)
            t.layers[name] = [layer, fields, []]
        elif kind == "text":
            _, name, content, main = op
            if name in t.texts:
                if main and name == "main":
                    try:
                        t.doc.maintext = content
                    except Exception:
                        pass
                    else:
                        raise Violation("%s: maintext replaced" % what)
                continue
            if name == "main" and main:
                t.doc.maintext = content if main == 1 else Text("main", content)
                t.texts[name] = t.doc.texts["main"]
            else:
                t.texts[name] = t.doc.add_text(name, content)
            same((str(t.texts[name]), t.texts[name].text, len(t.texts[name])), (content, content, len(content)), what + ": content")
        elif kind in ("remove", "del"):
            name = op[1]
            refs = referrers(t, name)
            before = list(t.layers)
            if kind == "remove":
                fn = (lambda: t.doc.remove_layer(name, fieldcascade=True)) if op[2] else (lambda: t.doc.remove_layer(name))
            else:
                def fn():
                    del t.doc[name]
            cascade = kind == "remove" and op[2]
            try:
                r = fn()
            except Exception:
                need(name not in t.layers and kind == "del" or name in t.layers and refs and not cascade, "%s: refused", what)
                rec.label("refused")
            else:
                need(not (name in t.layers and refs and not cascade), "%s: accepted though %r refer to it", what, refs)
                if kind == "remove":
                    same(r, name in before, what + ": result")
                if name in t.layers:
                    rec.label("removed by " + kind)
                    del t.layers[name]
                    for n, f in refs:
                        del t.layers[n][1][f]
                        for _, values in t.layers[n][2]:
                            values.pop(f, None)
        elif kind in ("node", "fld"):
            if not t.layers:
                continue
            layer, fields, nodes = list(t.layers.values())[op[1] % len(t.layers)]
            if kind == "node":
                values = {}
                for f, (k, a) in fields.items():
                    if k in POOL:
                        values[f] = POOL[k][(op[2] + len(f)) % len(POOL[k])]
                        if values[f] != values[f]:
                            values[f] = 1.5
                if op[2] % 2:
                    node = layer.add(**values)
                else:
                    node = Node(values) if op[2] % 4 else Node(**values)
                    layer.add(node)
                nodes.append([node, values])
            elif nodes:
                node, values = nodes[op[2] % len(nodes)]
                f = list(fields)[op[3] % len(fields)] if fields else None
                if f is None or f not in FIELDS or fields[f][0] not in POOL:
                    continue
                pool = POOL[fields[f][0]]
                v = pool[op[2] % len(pool)]
                v = 1.5 if v != v else v
                way = op[4]
                fld = t.fld(node) if op[3] % 2 else node.fld
                if way == 0:
                    setattr(fld, f, v)
                    values[f] = v
                elif way == 1:
                    node[f] = v
                    values[f] = v
                elif f in values:
                    if way == 2:
                        delattr(fld, f)
                    else:
                        del node[f]
                    del values[f]
                else:
                    missing(lambda: delattr(fld, f), "%s: deleting an absent field" % what, (KeyError, AttributeError))
                same_now = getattr(fld, f)
                need(same_now is node.get(f), "%s: a wrapper made before", what)
                rec.label("field by attribute")
        elif kind == "copy":
            if plan["replace"] or not encodable(t):
                continue
            new = Twin()
            new.doc = ROUTES[op[1]](t.doc)
            same(list(new.doc.layers), list(t.layers), what + ": layers")
            for n, (layer, fields, nodes) in t.layers.items():
                got = new.doc.layers[n]
                for f in fields:
                    a, b = layer.schema.fields[f], got.schema.fields[f]
                    need(a == b and b == a and not a != b and hash(a) == hash(b), "%s: type %r of %r is not equal to %r", what, b, f, a)
                same(len(got), len(nodes), what + ": nodes")
                new.layers[n] = [got, dict(fields), [[x, dict(v)] for x, (_, v) in zip(got, nodes)]]
            for n in t.texts:
                new.texts[n] = new.doc.texts[n]
            t = new
            rec.label("copied")
        done.add(kind)
        check_all(t, "after " + what)
    rec.label(*done)
    rec.hit(len(done) >= 3 and len(t.layers) >= 1)


def fields():
    name = st.sampled_from(NAMES)
    spec = st.one_of(st.tuples(st.sampled_from(("span", "ref", "refs", "nspan")), name),
                     st.tuples(st.sampled_from(("i32", "i64", "f64", "i1", "str")), st.sampled_from((None, None, "none"))),
                     st.sampled_from((("i32", 5), ("i64", 2 ** 40), ("f64", 2.5), ("i1", True), ("str", "x"), ("i32", -1), ("str", "none?")))).map(list)
    return st.dictionaries(st.sampled_from([f for f in FIELDS if f != "self"]), spec, max_size=4)


@st.composite
def plans(draw):
    name = st.sampled_from(NAMES[:draw(st.sampled_from((3, 5, 12)))])
    op = gen.weighted(
        (4, st.tuples(st.just("layer"), name.filter(lambda s: s != ""), fields(), st.integers(0, 2))),
        (2, st.tuples(st.just("text"), name, gen.short_text, st.integers(0, 2))),
        (1, st.tuples(st.just("remove"), name, st.booleans())), (1, st.tuples(st.just("del"), name)),
        (2, st.tuples(st.just("node"), gen.small, st.integers(0, 40))),
        (3, st.tuples(st.just("fld"), gen.small, st.integers(0, 40), gen.small, st.integers(0, 3))),
        (1, st.tuples(st.just("copy"), st.sampled_from(sorted(ROUTES))))).map(list)
    return {"ops": draw(st.lists(op, min_size=4, max_size=16)), "replace": draw(st.integers(0, 3)) == 3}


# ---------------------------------------------------------------- type objects

def check_types(plan, rec):
    """Types are equal, and hash alike, exactly when they declare the same."""
    t = Twin()
    types = [(want_type(s), t.typ(tuple(s), how)) for s, how in plan]
    types = [(w, x() if callable(x) else x) for w, x in types]
    for (w, x), (s, how) in zip(list(types), plan):      # the same made from the name of the type; half of them without options
        options = {} if how else dict(x.options)
        types.append(((w[0], sorted(options.items())), T.of(x.typename, **options)))
    equal = 0
    for i, (w1, a) in enumerate(types):
        same(plain(a), w1, "type made of %r" % (plan[i % len(plan)],))
        name, opts = w1
        for w2, b in types:
            eq = w1 == w2
            need((a == b) is eq and (a != b) is (not eq), "%r and %r compare %s", a, b, "unequal" if eq else "equal")
            if eq:
                same(hash(a), hash(b), "hashes of equal types")
                equal += a is not b
        same(a.default(), dict(opts).get("default"), "default of %r" % a)
        same(type(a.default()), type(float(0) if name == "F64" and opts else dict(opts).get("default")), "type of the default of %r" % a)
        enc = a.encode()
        if opts:
            same(enc["args"], dict(opts), "encoded arguments of %r" % a)
            need(isinstance(enc["type"], str) and set(enc) == {"type", "args"}, "encoded %r: %r", a, enc)
        else:
            need(isinstance(enc, str), "encoded %r: %r", a, enc)
        need(enc["type"] in repr(a) if opts else enc in repr(a), "repr of %r", a)
        again = copy.deepcopy(a), pickle.loads(pickle.dumps(a))
        for x in again:
            need(x == a and hash(x) == hash(a), "copy of %r is %r", a, x)
    rec.hit(equal > 0 and len({repr(w) for w, _ in types}) > 1)


def type_plans():
    spec = fields().filter(lambda d: len(d) > 0).map(lambda d: list(d.values())[0])
    return st.lists(st.tuples(spec, st.booleans()).map(list), min_size=2, max_size=8)


# ---------------------------------------------------------------- types of values

def check_typeof(plan, rec):
    """The type told of a value accepts it, and is the one declared for it."""
    doc = Document()
    for name, n in plan["texts"]:
        doc.add_text(name, "x" * n)
    layers = [doc.add_layer(name, id=T.int32) for name in plan["layers"]]
    nodes = [[la.add(id=i) for i in range(3)] for la in layers]
    loose = Node(id=1)
    kinds = set()
    for kind, x, y, how in plan["values"]:
        if kind in POOL:
            v = POOL[kind][x % len(POOL[kind])]
            want = {"i32": "I64", "i64": "I64", "f64": "F64", "i1": "BOOL", "str": "STRING", "bin": "BINARY"}[kind]
            compare = None
            if kind in ("i32", "i64") and how:
                compare = (T.int32(), T.int32(None), T.int32(5), T.int64(), T.string(), T.float64())[how % 6]
                if how % 6 < 3 and -2 ** 31 <= v < 2 ** 31:
                    want = "I32"
            opts = None
        elif kind == "span":
            name, n = plan["texts"][x % len(plan["texts"])]
            v, want, opts, compare = doc.texts[name][y % (n + 1):n], "SPAN", {"context": name}, None
        else:
            k = x % len(layers)
            compare, opts = None, {"layer": plan["layers"][k]}
            if kind == "ref":
                v, want = nodes[k][y % 3], "NODEREF"
            elif kind == "nspan":
                v, want = NodeSpan(nodes[k][y % 2], nodes[k][2]), "NODEREF_SPAN"
            elif kind == "refs":
                v, want = (NodeList if how % 2 else list)([nodes[k][i % 3] for i in range(y % 5)]), "NODEREF_MANY"
                if not v:
                    compare = T.noderef_many(layers[k]) if how % 3 else None
                    opts = opts if compare is not None else None
            else:
                v = ([nodes[k][0], loose], [nodes[k][0], 5], [5], [None], ["x", nodes[k][0]], None, {}, (), object(), {1}, 1j, [nodes[k][0], nodes[k - 1][0]])[y % 12]
                if y % 12 == 11 and len(layers) < 2:
                    continue
                try:
                    got = T.typeof(v)
                except ValueError:
                    rec.label("refused")
                    continue
                raise Violation("typeof(%r) gave %r" % (v, got))
        got = T.typeof(v) if compare is None and how % 2 else T.typeof(v, compare)
        same(got.typename.name, want, "type of %r compared with %r" % (v, compare))
        if opts is not None:
            same(got.options, opts, "options of the type of %r" % (v,))
        if want not in ("NODEREF_MANY",) or opts is not None:
            need(got.is_valid(v), "typeof(%r) is %r, which does not accept it", v, got)
        kinds.add(kind)
    rec.hit(len(kinds) >= 2)


def typeof_plans():
    return st.fixed_dictionaries({
        "texts": st.lists(st.tuples(st.sampled_from(NAMES[:6]), st.integers(0, 4)), min_size=1, max_size=3, unique_by=lambda t: t[0]).map(lambda v: [list(x) for x in v]),
        "layers": st.lists(st.sampled_from([n for n in NAMES if n]), min_size=1, max_size=3, unique=True),
        "values": st.lists(st.tuples(st.sampled_from(("i32", "i64", "f64", "i1", "str", "bin", "span", "ref", "refs", "nspan", "other")), st.integers(0, 40),
                                     st.integers(0, 40), st.integers(0, 11)).map(list), min_size=2, max_size=10)})


FACETS = [
    Facet("histories", plans, check,
          "4-16 additions, removals, deletions, field accesses and copies, all names looked up by every route after each; "
          "non-trivial: three kinds of steps and a layer left", 2500, 60000),
    Facet("types", type_plans, check_types, "2-8 field types compared pairwise; non-trivial: two equal ones made separately and two different ones", 1500, 20000),
    Facet("types of values", typeof_plans, check_typeof, "2-10 values of all kinds and the type told of each; non-trivial: two kinds", 1000, 15000),
]
