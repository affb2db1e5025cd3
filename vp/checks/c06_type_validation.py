"""C06: field types are enforced; a value is accepted exactly when it is valid."""
from .. import gen
from ..core import Facet, Violation, need, same
from ..model import canon, dtype, ENUM
from hypothesis import strategies as st
from docria.codec import JsonCodec, MsgpackCodec, XmlCodec
from docria.model import (DataTypes as T, Document, Node, NodeList, NodeSpan, SchemaError, SchemaValidationError, TextSpan)

QUICK = 1     # factor on the quick numbers of cases
ASSUMPTIONS = [
    "not judged: bool values in integer fields, nodes and texts of another document, tuples as reference lists, extension fields",
    "add(*nodes) and add_many(full_validation=False) are documented not to validate; encoding then decides",
    "add_many adds first and validates afterwards, as documented; only the error is judged there",
]
# field -> (type, argument)
FIELDS = {"i32": ("i32", None), "i64": ("i64", None), "f64": ("f64", None), "i1": ("i1", None), "str": ("str", None),
          "bin": ("bin", None), "span": ("span", "main"), "span2": ("span", "alt"), "ref": ("ref", "a"), "ref2": ("ref", "b"),
          "refs": ("refs", "a"), "refs2": ("refs", "b"), "nspan": ("nspan", "a"), "nspan2": ("nspan", "b")}
INTS = gen.I64 + (2 ** 31, -2 ** 31 - 1, 2 ** 63, -2 ** 63 - 1, 2 ** 64, -2 ** 70)


def scalar_values():
    return st.one_of(
        st.tuples(st.just("int"), st.one_of(st.sampled_from(INTS), st.integers(-2 ** 66, 2 ** 66))),
        st.tuples(st.just("float"), gen.scalar("f64")),
        st.tuples(st.just("bool"), st.booleans()),
        st.tuples(st.just("str"), gen.short_text),
        st.tuples(st.just("bytes"), st.sampled_from(gen.BIN)),
        st.tuples(st.sampled_from(("none", "bytearray", "dict", "object", "list of int", "list of none", "complex")), st.none()))


def link_values():
    """Values made of nodes: layer, node numbers (out of range means removed nodes)."""
    ly = st.sampled_from("aabb")
    i = st.integers(0, 5)
    return st.one_of(
        st.tuples(st.just("node"), ly, i), st.tuples(st.just("removed"), ly, i), st.tuples(st.just("new"), ly, i),
        st.tuples(st.sampled_from(("nodes", "nodelist", "query", "layer")), ly, st.lists(i, max_size=4)),
        st.tuples(st.just("removed in list"), ly, st.lists(i, max_size=3)),
        st.tuples(st.just("junk in list"), ly, st.lists(i, max_size=3)),
        st.tuples(st.just("mixed list"), ly, st.lists(i, min_size=1, max_size=3)),
        st.tuples(st.just("nodespan"), ly, i, i), st.tuples(st.just("reordered nodespan"), ly, i, i),
        st.tuples(st.just("broken nodespan"), ly, i, st.booleans()),
        st.tuples(st.sampled_from(("span", "text")), st.sampled_from(("main", "alt")), i))


class Ctx:
    """A document with two layers of nodes, some removed, two texts and a typed layer."""

    def __init__(self, plan):
        d = Document()
        self.texts = {"main": d.add_text("main", "Lund ligger"), "alt": d.add_text("alt", "Lund ligger")}
        self.doc = d
        fields = {f: dtype(t, a, ["none"]) for f, (t, a) in FIELDS.items() if f in plan["fields"]}
        if plan["first"]:
            d.add_layer("t", **fields)
        for ln in "ab":
            layer = d.add_layer(ln, id=dtype("i32", None, ["none"]))
            layer.add_many([Node(id=i) for i in range(9)])
        if not plan["first"]:
            d.add_layer("t", **fields)
        if plan["decoded"]:
            rt = {1: lambda x: MsgpackCodec.decode(MsgpackCodec.encode(x)), 2: lambda x: JsonCodec.decode(JsonCodec.encode(x))}
            d = self.doc = rt[plan["decoded"]](d)
            self.texts = d.texts
        self.layer = d.layers["t"]
        self.nodes = {ln: list(d.layers[ln]) for ln in "ab"}
        self.removed = {}
        self.after = []  # edits to perform after the value was made
        for ln in "ab":
            self.removed[ln] = self.nodes[ln][6:]

    def kill(self):
        """Remove the last three nodes of each layer (called after values referring to them were made)."""
        for ln in "ab":
            self.doc.layers[ln].remove([n for n in self.removed[ln] if not n.is_dangling()])


def make(ctx, v):
    """Spec -> value.  Removed nodes are still attached when the value is made."""
    k = v[0]
    if k in ("int", "float", "bool", "str", "bytes"):
        return v[1]
    if k == "none":
        return None
    if k in ("bytearray", "dict", "object", "list of int", "list of none", "complex"):
        return {"bytearray": bytearray(b"x"), "dict": {"a": 1}, "object": object(), "list of int": [1, 2], "list of none": [None],
                "complex": 1j}[k]
    if k in ("span", "text"):
        t = ctx.texts[v[1]]
        return t if k == "text" else t[v[2]:v[2] + 3]
    nodes = ctx.nodes[v[1]]
    layer = ctx.doc.layers[v[1]]
    if k == "node":
        return nodes[v[2]]
    if k == "removed":
        return ctx.removed[v[1]][v[2] % 3]
    if k == "new":
        return Node(id=1)
    if k == "nodes":
        return [nodes[i] for i in v[2]]
    if k == "nodelist":
        return NodeList([nodes[i] for i in v[2]], fieldtypes=layer.schema.fields)
    if k == "query":
        want = {nodes[i] for i in v[2]}
        return layer[lambda n: n in want]
    if k == "layer":
        return layer
    if k == "removed in list":
        return [nodes[i] for i in v[2]] + [ctx.removed[v[1]][0]]
    if k == "junk in list":
        return [nodes[i] for i in v[2]] + ["node"]
    if k == "mixed list":
        return [nodes[i] for i in v[2]] + [ctx.nodes["b" if v[1] == "a" else "a"][0]]
    if k == "nodespan":
        return NodeSpan(nodes[min(v[2:])], nodes[max(v[2:])])
    if k == "broken nodespan":
        return NodeSpan(nodes[v[2]], ctx.removed[v[1]][1]) if v[3] else NodeSpan(ctx.removed[v[1]][0], ctx.removed[v[1]][1])
    if k == "reordered nodespan":
        a, b = sorted(v[2:])
        ctx.after.append(v[1])
        return NodeSpan(nodes[a], nodes[b])
    raise ValueError(k)


def valid(f, v):
    """Independent statement of which values are valid for the field; None: not judged."""
    typ, arg = FIELDS[f]
    k = v[0]
    if typ in ("i32", "i64"):
        if k == "bool":
            return None
        bits = 31 if typ == "i32" else 63
        return k == "int" and -2 ** bits <= v[1] < 2 ** bits
    if typ in ("f64", "i1", "str", "bin"):
        return k == {"f64": "float", "i1": "bool", "str": "str", "bin": "bytes"}[typ]
    if typ == "span":
        return k == "span" and v[1] == arg
    if typ == "ref":
        return k == "node" and v[1] == arg
    if typ == "refs":
        if k in ("nodes", "nodelist", "query"):
            return v[1] == arg or len(v[2]) == 0
        if k == "layer":
            return v[1] == arg
        if k == "reordered nodespan" and v[2] != v[3]:
            return None         # the span has no well-defined nodes
        return k in ("nodespan", "reordered nodespan") and v[1] == arg
    if k == "reordered nodespan":
        return v[1] == arg and v[2] == v[3]
    return k == "nodespan" and v[1] == arg


def outcome(fn):
    try:
        return True, fn()
    except Exception as e:
        return False, e


def judge(ok, want, what, e):
    if ok and not want:
        raise Violation("%s was accepted" % what)
    if want and not ok:
        raise Violation("%s was refused: %s: %s" % (what, type(e).__name__, e))


def check(plan, rec):
    values = {f: v for f, v in plan["values"].items() if f in plan["fields"] and valid(f, v) is not None}
    bad = {f for f, v in values.items() if not valid(f, v)}
    ok_all = not bad
    ctx = Ctx(plan)
    layer = ctx.layer
    fill = [layer.add() for _ in range(plan["fill"])]
    good0 = layer.add()
    for _ in range(plan["fill"] % 4):
        layer.add()
    layer.remove(fill[::3])
    rec.label("decoded %d" % plan["decoded"], "way:" + plan["way"], "valid" if ok_all else "invalid")
    for f, v in values.items():
        rec.label("%s<-%s:%s" % (FIELDS[f][0], v[0], "ok" if valid(f, v) else "bad"))
    rec.hit(len(values) > 0)
    made = {f: make(ctx, v) for f, v in values.items()}
    extra = {"undeclared": 1} if plan["extra"] else {}
    kw = dict(made, **extra)
    what = "node with %s" % {f: values[f] for f in values}
    way = plan["way"]
    early = way in ("set then encode", "add nodes then encode", "unvalidated then encode")
    if early:   # the values are put in place while still good, then go stale
        node = good0 if way.startswith("set") else Node(kw)
        if way.startswith("set"):
            for f, v in kw.items():
                node[f] = v
        elif way.startswith("add"):
            layer.add(node)
        else:
            layer.add_many([node], full_validation=False)
    ctx.kill()
    for ln in ctx.after:
        # reverse the order of the layer, then of the reference
        pos = {n: i for i, n in enumerate(ctx.nodes[ln])}
        ctx.doc.layers[ln].sort(lambda n: -pos[n])
    if any(values[f][0] in ("nodespan",) and values[f][1] in ctx.after and values[f][2] != values[f][3] for f in values):
        return   # a plain node span caught in the reordering: not the case meant here
    before = list(layer)
    if not early:
        if way == "add":
            ok, e = outcome(lambda: layer.add(**kw))
            judge(ok, ok_all, "add: " + what, e)
            if ok:
                need(layer.last() is e and e.collection is layer and list(layer) == before + [e], "added node is not the last one")
                node = e
            else:
                need(list(layer) == before and len(layer) == len(before) and layer.last() is before[-1],
                     "a failed add changed the layer")
                node = layer.add()
                need(list(layer) == before + [node] and node.is_valid(), "adding after a failed add")
                return
        else:
            node = Node(kw)
            nodes = [node] if way == "many" else iter([Node(), node]) if way == "iter" else [node, Node()]
            ok, e = outcome(lambda: layer.add_many(nodes, default_fill=(way == "many")))
            judge(ok, ok_all, "add_many: " + what, e)
            if not ok:
                return
            need(node.collection is layer and node in list(layer), "node added by add_many is not in the layer")
    # now the node is in the layer
    ok, e = outcome(node.is_valid)
    if not ok and not any(v[0] == "broken nodespan" for v in values.values()):
        raise e
    same(bool(ok and e), ok_all, "is_valid() of " + what)
    ok, e = outcome(lambda: node.is_valid(noexcept=False))
    judge(ok and e, ok_all, "is_valid(noexcept=False) of " + what, e)
    ok, e = outcome(lambda: NodeList([node], fieldtypes=layer.schema.fields).validate())
    judge(ok, ok_all, "NodeList.validate() of " + what, e)
    content = {f: id(v) for f, v in node.items()}
    want = ok_all and not extra
    for enc, route in ((MsgpackCodec.encode, "binary"), (JsonCodec.encode, "JSON")):
        if route == "JSON" and "bin" in values:
            continue
        ok, e = outcome(lambda: enc(ctx.doc))
        judge(ok, want, "%s encoding of %s%s" % (route, what, " and an undeclared field" if extra else ""), e)
        if not ok and ok_all and not isinstance(e, SchemaValidationError):
            raise Violation("undeclared field refused with %s" % type(e).__name__)
    ok, e = outcome(lambda: MsgpackCodec.encode(ctx.doc, extra_fields_ok=True))
    judge(ok, ok_all, "encoding (extra_fields_ok) of " + what, e)
    same({f: id(v) for f, v in node.items()}, content, "fields of the node after encoding")
    if ok:
        again = MsgpackCodec.decode(e)
        n = list(again.layers["t"])[list(layer).index(node)]
        need(set(n) <= set(FIELDS), "undeclared field was written")
        for f, v in values.items():
            if v[0] in ("int", "float", "bool", "str", "bytes"):
                need(repr(n.get(f)) == repr(v[1]), "field %r came back as %r, was %r", f, n.get(f), v[1])


@st.composite
def plans(draw):
    fields = list(FIELDS)
    names = draw(st.lists(st.sampled_from(fields), min_size=1, max_size=3, unique=True))
    values = {}
    for f in names:
        typ, arg = FIELDS[f]
        if typ in gen.SCALARS:
            values[f] = draw(st.one_of(scalar_values(), scalar_values(), good_scalar(typ), good_scalar(typ), link_values(),
                                       edge_scalar(typ)))
        else:
            values[f] = draw(st.one_of(link_values(), good_link(typ, arg), good_link(typ, arg), link_values(), scalar_values()))
    return {"fields": names + draw(st.lists(st.sampled_from(fields), max_size=2)), "values": {k: list(v) for k, v in values.items()},
            "decoded": draw(st.integers(0, 2)), "first": draw(st.booleans()), "fill": draw(st.sampled_from((0, 1, 3, 6, 20))), "extra": draw(st.integers(0, 4)) == 4,
            "way": draw(st.sampled_from(("add", "add", "many", "iter", "list", "set then encode", "set then encode",
                                         "add nodes then encode", "unvalidated then encode")))}


def good_scalar(typ):
    k = {"i32": "int", "i64": "int", "f64": "float", "i1": "bool", "str": "str", "bin": "bytes"}[typ]
    return st.tuples(st.just(k), gen.scalar(typ))


def edge_scalar(typ):
    """Values next to the limits of the type, on either side, and equal values of neighbouring types."""
    if typ in ("i32", "i64"):
        b = 2 ** (31 if typ == "i32" else 63)
        return st.one_of(st.tuples(st.just("int"), st.sampled_from((b, b - 1, b + 1, -b, -b - 1, -b + 1, 2 * b - 1, 2 * b, -2 * b))),
                         st.tuples(st.just("float"), st.sampled_from((0.0, 1.0, 3.0, float(b)))))
    if typ in ("f64", "i1"):
        return st.one_of(st.tuples(st.just("int"), st.sampled_from((0, 1, -1, 2, 2 ** 53))), st.tuples(st.just("bool"), st.booleans()),
                         st.tuples(st.just("float"), st.sampled_from((0.0, 1.0))))
    return st.one_of(st.tuples(st.just("str"), st.sampled_from(("", "a", "1"))), st.tuples(st.just("bytes"), st.sampled_from((b"", b"a"))),
                     st.tuples(st.just("none"), st.none()))


def good_link(typ, arg):
    i = st.integers(0, 5)
    if typ == "span":
        return st.tuples(st.just("span"), st.just(arg), i)
    if typ == "ref":
        return st.tuples(st.just("node"), st.just(arg), i)
    if typ == "refs":
        return st.tuples(st.sampled_from(("nodes", "nodelist")), st.just(arg), st.lists(i, max_size=4))
    return st.tuples(st.just("nodespan"), st.just(arg), i, i)


def check_schema(plan, rec):
    """A schema referring to a missing layer or text cannot be encoded, whatever the nodes."""
    d = Document()
    for t in plan["texts"]:
        d.add_text(t, "abc")
    present = [ln for ln, _ in plan["layers"]]
    missing = False
    for ln, fields in plan["layers"]:
        d.add_layer(ln, **{f: dtype(t, a, ["std"]) for f, t, a in fields})
        for f, t, a in fields:
            missing |= t != "i32" and a not in (plan["texts"] if t == "span" else present)
    for ln, fields in plan["layers"]:
        for i in range(plan["n"]):
            d.layers[ln].add()
    rec.hit(missing)
    rec.label("missing" if missing else "complete")
    for enc in (MsgpackCodec.encode, JsonCodec.encode):
        try:
            enc(d)
        except SchemaError:
            need(missing, "a complete schema was refused")
        else:
            need(not missing, "a schema referring to something missing was encoded")


def schemas():
    lname = st.sampled_from(("a", "b", "main"))
    field = st.one_of(st.tuples(st.just("span"), st.sampled_from(("main", "alt", "a"))),
                      st.tuples(st.sampled_from(("ref", "refs", "nspan")), lname), st.tuples(st.just("i32"), st.none()))
    fields = st.lists(st.tuples(st.sampled_from(("x", "y", "z")), field), max_size=3, unique_by=lambda t: t[0]).map(
        lambda fs: [[f, t, a] for f, (t, a) in fs])
    return st.fixed_dictionaries({
        "texts": st.lists(st.sampled_from(("main", "alt")), max_size=2, unique=True),
        "layers": st.lists(st.tuples(lname, fields), min_size=1, max_size=3, unique_by=lambda t: t[0]).map(lambda x: [list(e) for e in x]),
        "n": st.integers(0, 2)})


# ---------------------------------------------------------------- batches whose nodes refer to each other

def check_batch(plan, rec):
    """add_many takes references between the nodes being added, in any direction."""
    d = Document()
    layer = d.add_layer("t", id=dtype("i32", None, ["val", 7]), head=dtype("ref", "t", ["std"]), deps=dtype("refs", "t", ["std"]),
                        arc=dtype("nspan", "t", ["std"]), other=dtype("ref", "o", ["std"]))
    others = d.add_layer("o", id=dtype("i32", None, ["std"]))
    others.add_many([Node() for _ in range(3)])
    old = [layer.add(id=i) for i in range(plan["old"])]
    gone = layer.add(id=99)
    layer.remove(old[1:plan["gap"]] + [gone])
    old = [n for n in old if not n.is_dangling()]
    size = plan["size"]
    batch = [Node() for _ in range(size)]
    pool = old + batch
    good, forward = True, 0
    for i, (f, ks, stray) in enumerate(plan["fields"]):
        node = batch[(i if plan["spread"] else ks[0]) % size]
        if f in node:
            continue
        if f == "id":
            node[f] = ks[0] if stray is None else "a string"
        elif f == "other":
            node[f] = others.first() if stray is None else node
        elif f == "arc":      # only nodes of a layer make a span
            if not old:
                continue
            a, b = sorted((ks[0] % len(old), ks[-1] % len(old)))
            node[f] = NodeSpan(old[a], old[b]) if stray is None else NodeSpan(others.first(), others.last())
        else:
            targets = [pool[k % len(pool)] for k in ks]
            forward += any(t in batch[batch.index(node):] for t in targets)
            if stray is not None:
                targets[-1 if f == "deps" else 0] = {"gone": gone, "new": Node(), "other": others.last()}[stray]
            if f == "head":
                node[f] = targets[0]
            else:
                node[f] = NodeList(targets, fieldtypes=layer.schema.fields) if plan["nodelist"] and stray is None else targets
        good &= stray is None
    given = [dict(n) for n in batch]
    arg = iter(batch) if plan["iter"] else tuple(batch) if size % 2 else batch
    what = "add_many of %d nodes after %d with %r" % (size, len(old), plan["fields"])
    ok, e = outcome(lambda: layer.add_many(arg, default_fill=plan["fill"]))
    judge(ok, good, what, e)
    rec.label("valid" if good else "invalid", *["link:" + f[0] for f in plan["fields"]])
    rec.hit(forward > 0)
    if not ok:
        return
    need(list(layer) == pool and len(layer) == len(pool), "%s: nodes of the layer", what)
    for n, before in zip(batch, given):
        if plan["fill"] and "id" not in before:
            before["id"] = 7
        same({f: id(v) for f, v in n.items() if f != "id"}, {f: id(v) for f, v in before.items() if f != "id"}, what + ": fields")
        same(n.get("id"), before.get("id"), what + ": id")
        need(n.is_valid(), "%s: node not valid afterwards", what)
    again = MsgpackCodec.decode(MsgpackCodec.encode(d))
    same(canon(again, drop_empty=True), canon(d, drop_empty=True), what + ": decoded")


@st.composite
def batches(draw):
    size = draw(st.sampled_from((1, 2, 3, 4, 5, 9)))
    field = st.tuples(st.sampled_from(("head", "head", "deps", "deps", "arc", "id", "other")), st.lists(st.integers(0, 20), min_size=1, max_size=4),
                      gen.weighted((12, st.none()), (1, st.sampled_from(("gone", "new", "other")))))
    return {"size": size, "old": draw(st.sampled_from((0, 1, 2, 5))), "gap": draw(st.integers(0, 4)),
            "fields": [list(f) for f in draw(st.lists(field, min_size=1, max_size=8))], "spread": draw(st.booleans()),
            "iter": draw(st.booleans()), "fill": draw(st.booleans()), "nodelist": draw(st.booleans())}


# ---------------------------------------------------------------- long lists and values

def check_long(plan, rec):
    """A long list of references is valid exactly when every entry is, wherever the odd one stands."""
    d = Document()
    main, alt = d.add_text("main", "Lund " * 8), d.add_text("alt", "Lund " * 8)
    a = d.add_layer("a", id=dtype("i32", None, ["none"]))
    b = d.add_layer("b", id=dtype("i32", None, ["none"]))
    t = d.add_layer("t", refs=dtype("refs", "a", ["std"]), span=dtype("span", "main", ["std"]), name=dtype("str", None, ["std"]))
    nodes = [a.add(id=i) for i in range(plan["nodes"])]
    gone = a.add(id=-1)
    foreign = b.add(id=1)
    a.remove(gone)
    size = plan["size"]
    values = [nodes[(i * plan["step"]) % len(nodes)] for i in range(size)]
    odd = {"gone": gone, "foreign": foreign, "new": Node(id=1), "none": None, "text": "a", "number": 0, "span": main[0:4], "list": nodes[:1]}
    for where, what in plan["odd"]:
        values[where % size] = odd[what]
    good = not plan["odd"]
    refs = values
    if plan["nodelist"] and all(isinstance(v, Node) for v in values):
        refs = NodeList(values, fieldtypes=a.schema.fields)
    extra = [Node(refs=list(nodes[:3])) for _ in range(plan["before"])]
    late = [Node() for _ in range(plan["after"])]
    what = "a list of %d references with %r" % (size, plan["odd"])
    way = plan["way"]
    rec.label("valid" if good else "invalid", "way:" + way)
    rec.hit(size > 16 and any(w % size > 8 for w, _ in plan["odd"]))
    node = Node(refs=refs, span=main[0:4], name="x" * size)
    if way == "add":
        t.add_many(extra)
        ok, e = outcome(lambda: t.add(refs=refs))
        judge(ok, good, "add: " + what, e)
        need(len(t) == len(extra) + ok, "%s: the layer has %d nodes afterwards", what, len(t))
        if not ok:
            return
        node = e
        t.add_many(late)
    elif way == "many":
        ok, e = outcome(lambda: t.add_many(extra + [node] + late))
        judge(ok, good, "add_many: " + what, e)
        if not ok:
            return
    else:
        t.add_many(extra + [node] + late, full_validation=False)
        if way == "stale":   # one of the nodes goes away later
            k = plan["kill"] % len(nodes)
            a.remove(nodes[k])
            good = good and all(v is not nodes[k] for v in values) and all(v not in nodes[k:k + 1] for n in extra for v in n["refs"])
    good_node = good if way != "stale" else not plan["odd"] and not any(v.is_dangling() for v in values)
    same(bool(node.is_valid()), good_node, "is_valid() with " + what)
    ok, e = outcome(lambda: NodeList(extra + [node] + late, fieldtypes=t.schema.fields).validate())
    judge(ok, good, "validate() with " + what, e)
    for name, enc in (("binary", MsgpackCodec.encode), ("JSON", JsonCodec.encode)):
        ok, e = outcome(lambda: enc(d))
        judge(ok, good, "%s encoding of a node with %s" % (name, what), e)
    if not good:
        return
    again = MsgpackCodec.decode(MsgpackCodec.encode(d))
    got = list(list(again.layers["t"])[len(extra)].get("refs"))
    order = {n: i for i, n in enumerate(a)}
    have = {n: i for i, n in enumerate(again.layers["a"])}
    same([have[n] for n in got], [order[n] for n in values], "%s: decoded" % what)


def longs():
    kinds = ("gone", "gone", "foreign", "foreign", "new", "none", "text", "number", "span", "list")
    where = st.one_of(st.integers(0, 400), st.sampled_from((-1, -2, 15, 16, 17, 31, 32, 63, 64, 127, 128, 255, 256)))
    return st.fixed_dictionaries({
        "size": st.sampled_from((9, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 300)),
        "nodes": st.sampled_from((1, 3, 20, 70, 300)), "step": st.sampled_from((1, 1, 3, 7)),
        "odd": st.one_of(st.just([]), st.lists(st.tuples(where, st.sampled_from(kinds)).map(list), min_size=1, max_size=1),
                         st.lists(st.tuples(where, st.sampled_from(kinds)).map(list), min_size=1, max_size=3)),
        "nodelist": st.booleans(), "before": st.sampled_from((0, 1, 2, 20)), "after": st.sampled_from((0, 1, 20, 70)),
        "way": st.sampled_from(("add", "many", "unvalidated", "stale")), "kill": st.integers(0, 300)})

# ---------------------------------------------------------------- values that come and go between encodings

def check_lives(plan, rec):
    """Whatever was accepted before, what is in place now decides."""
    ctx = Ctx({"fields": list(FIELDS), "first": plan["first"], "decoded": plan["decoded"]})
    doc, layer = ctx.doc, ctx.layer
    order = {ln: [(ln, i) for i in range(9)] for ln in "ab"}        # what is attached where, in order
    rows = [layer.add() for _ in range(3)]
    held = [{} for _ in rows]                          # field -> spec
    undeclared = [False] * len(rows)

    def home(x):
        """The layer a node is in now."""
        return next((ln for ln, at in order.items() if x in at), None)

    def holds(f, v):
        typ, arg = FIELDS[f]
        if v[0] in ("node", "nodes", "nodespan"):
            want = {"node": "ref", "nodes": "refs", "nodespan": "nspan"}[v[0]]
            if typ == "refs" and v[0] == "nodespan":
                return None
            if typ == "refs" and v[0] == "nodes" and not v[2]:
                return True
            if typ != want:
                return False
            at = order[arg]
            if v[0] == "node":
                return (v[1], v[2]) in at
            if v[0] == "nodes":
                return all((v[1], i) in at for i in v[2])
            lft, rgt = (v[1], v[2]), (v[1], v[3])
            return lft in at and rgt in at and at.index(lft) <= at.index(rgt)
        return valid(f, v)
    turned = 0
    last = True
    for step in plan["steps"]:
        k = step[0]
        if k == "set":
            _, r, f, v = step
            if v[0] == "nodespan":
                here = home((v[1], v[2]))
                if here is None or here != home((v[1], v[3])):
                    continue                           # such a span cannot be made
                v = v[:2] + sorted(v[2:], key=lambda i: order[here].index((v[1], i)))
            if holds(f, v) is None:
                continue
            value = {"nodes": lambda: [ctx.nodes[v[1]][i] for i in v[2]], "node": lambda: ctx.nodes[v[1]][v[2]],
                     "nodespan": lambda: NodeSpan(ctx.nodes[v[1]][v[2]], ctx.nodes[v[1]][v[3]])}.get(v[0], lambda: make(ctx, v))()
            rows[r][f] = value
            held[r][f] = list(v)
        elif k == "list":                              # a list changed in place
            _, r, f, i, ly, n = step
            if held[r].get(f, [""])[0] != "nodes" or held[r][f][1] != ly and held[r][f][2]:
                continue
            rows[r][f].insert(i, ctx.nodes[ly][n])
            at = held[r][f][2][:]
            at.insert(i, n)
            held[r][f] = ["nodes", ly, at]
        elif k == "del":
            _, r, f = step
            rows[r].pop(f, None)
            held[r].pop(f, None)
        elif k == "extra":
            _, r, on = step
            if on:
                rows[r]["undeclared"] = 1
            else:
                rows[r].pop("undeclared", None)
            undeclared[r] = on
        elif k == "rm":
            _, ly, i = step
            here = home((ly, i))
            if here:
                doc.layers[here].remove(ctx.nodes[ly][i])
                order[here].remove((ly, i))
        elif k in ("back", "move"):                    # back into a layer, or from one into another
            _, ly, i, to = step
            here = home((ly, i))
            if here and k == "move":
                doc.layers[here].remove(ctx.nodes[ly][i])
                order[here].remove((ly, i))
                here = None
            if here is None:
                doc.layers[to].add(ctx.nodes[ly][i])
                order[to].append((ly, i))
        elif k == "turn":
            _, ly = step
            order[ly].reverse()
            pos = {ctx.nodes[h][i]: p for p, (h, i) in enumerate(order[ly])}
            doc.layers[ly].sort(pos.get)
        wrong = [[f for f, v in h.items() if not holds(f, v)] for h in held]
        for r, n in enumerate(rows):
            if plan["ask"]:
                same(bool(n.is_valid()), not wrong[r], "after %r: is_valid() of node %d holding %r" % (step, r, held[r]))
        fine = not any(wrong)
        turned += fine != last
        last = fine
        state = "encoding after %r with %r" % (step, held)
        ok, e = outcome(lambda: MsgpackCodec.encode(doc, extra_fields_ok=True))
        judge(ok, fine, "extra fields allowed: " + state, e)
        ok, e = outcome(lambda: MsgpackCodec.encode(doc))
        judge(ok, fine and not any(undeclared), state, e)
        if not any(v[0] == "bytes" for h in held for v in h.values()):
            ok, e = outcome(lambda: JsonCodec.encode(doc))
            judge(ok, fine and not any(undeclared), "JSON " + state, e)
    rec.label("turned %d times" % min(turned, 5))
    rec.hit(turned >= 2)


@st.composite
def lives(draw):
    i = st.integers(0, 5)
    row = st.sampled_from((0, 0, 0, 1, 2))
    field = st.sampled_from(draw(st.lists(st.sampled_from(list(FIELDS)), min_size=1, max_size=2, unique=True)))
    ly = st.sampled_from("ab")
    steps = []
    for _ in range(draw(st.integers(3, 14))):
        k = draw(st.sampled_from(("set", "set", "set", "set", "del", "list", "rm", "back", "move", "turn", "extra")))
        if k == "set":
            f = draw(field)
            typ, arg = FIELDS[f]
            good = good_scalar(typ) if typ in gen.SCALARS else good_link(typ, arg)
            v = draw(gen.weighted((3, good), (1, scalar_values() if typ not in gen.SCALARS else st.one_of(scalar_values(), edge_scalar(typ))), (1, link_values())).filter(
                lambda v: v[0] in ("int", "float", "bool", "str", "bytes", "none", "dict", "span", "node", "nodes", "nodespan")))
            steps.append(["set", draw(row), f, [list(x) if isinstance(x, tuple) else x for x in v]])
        elif k == "list":
            steps.append(["list", draw(row), draw(st.sampled_from(("refs", "refs2"))), draw(i), draw(ly), draw(i)])
        elif k == "del":
            steps.append(["del", draw(row), draw(field)])
        elif k == "extra":
            steps.append(["extra", draw(row), draw(st.booleans())])
        elif k == "turn":
            steps.append(["turn", draw(ly)])
        elif k in ("back", "move"):
            home = draw(ly)
            steps.append([k, home, draw(i), draw(gen.weighted((2, st.just(home)), (1, ly))) if k == "back" else draw(ly)])
        else:
            steps.append([k, draw(ly), draw(i)])
    return {"first": draw(st.booleans()), "decoded": draw(st.integers(0, 2)), "ask": draw(st.booleans()), "steps": steps}


# ---------------------------------------------------------------- undeclared fields, in whichever layer and however they got there

def check_undeclared(plan, rec):
    doc = Document()
    layers, held = [], []                              # held: per layer [(node, names of its undeclared fields)]
    for k, (n, nodes) in enumerate(plan["layers"]):
        layer = doc.add_layer("l%d" % k, **{"f%d" % i: (T.int32(), T.string())[i % 2] for i in range(n)})
        rows = []
        for j in range(nodes):
            rows.append((layer.add(**{"f%d" % i: (j, str(j))[i % 2] for i in range(n) if (i + j) % 3}), set()))
        layers.append(layer)
        held.append(rows)
    if plan["decoded"]:
        doc = (MsgpackCodec.decode(MsgpackCodec.encode(doc)), JsonCodec.decode(JsonCodec.encode(doc)))[plan["decoded"] - 1]
        layers = [doc.layers["l%d" % k] for k in range(len(layers))]
        held = [[(x, set()) for x in layer] for layer in layers]
    verdicts = set()
    for step in plan["steps"]:
        k = step[1] % len(layers)
        layer, rows = layers[k], held[k]
        name = ("undeclared", "f%d" % plan["layers"][k][0], "", "f", "l0", "\u00e5", "i")[step[2] % 7]
        value = (1, "x", 2.5, True, [1], None)[step[3] % 6]
        if step[0] == "set" and rows:
            x, own = rows[step[4] % len(rows)]
            x[name] = value
            own.add(name)
        elif step[0] == "drop" and rows:
            x, own = rows[step[4] % len(rows)]
            for f in list(own)[step[3] % 2:]:
                x.pop(f)
                own.discard(f)
        elif step[0] == "add":
            if step[3] % 2:
                x = Node({name: value})
                layer.add(x)
            else:
                x = layer.add(**{name: value})
            rows.append((x, {name}))
        elif step[0] == "many":
            new = [Node({name: value} if j == step[4] % 3 else {}) for j in range(3)]
            layer.add_many(new, full_validation=bool(step[3] % 2))
            rows += [(x, {name} if j == step[4] % 3 else set()) for j, x in enumerate(new)]
        elif step[0] == "rm" and rows:
            x, own = rows.pop(step[4] % len(rows))
            layer.remove(x)
        fine = not any(own for rows in held for _, own in rows)
        verdicts.add(fine)
        where = "after %r: %%s with undeclared fields %r" % (step, [[sorted(own) for _, own in rows] for rows in held])
        for route, fn in UNDECLARED.items():
            ok, e = outcome(lambda: fn(doc))
            judge(ok, fine, where % route, e)
            if not ok and not isinstance(e, SchemaValidationError):
                raise Violation(where % route + " refused with %s" % type(e).__name__)
        if not fine:
            rec.label("in a layer of %s fields" % min(n for (n, _), rows in zip(plan["layers"], held) if any(own for _, own in rows)))
            XmlCodec.encode_utf8string(doc, extra_fields_ok=True)
            for route, fn in UNDECLARED_OK.items():
                again = fn(doc)
                got = [[sorted(x.keys()) for x in again.layers["l%d" % j]] for j in range(len(layers))]
                same(got, [[sorted(set(x.keys()) - own) for x, own in rows] for rows in held], where % route + ": fields after decoding")
    rec.hit(len(verdicts) == 2)


UNDECLARED = {"encode": lambda d: MsgpackCodec.encode(d), "JSON": lambda d: JsonCodec.encode(d), "JSON object": lambda d: JsonCodec.encode_object(d),
              "compile": lambda d: d.compile(), "explicit refusal": lambda d: MsgpackCodec.encode(d, extra_fields_ok=False), "XML": lambda d: XmlCodec.encode_utf8string(d)}
UNDECLARED_OK = {"allowed": lambda d: MsgpackCodec.decode(MsgpackCodec.encode(d, extra_fields_ok=True))}


def undeclared_plans():
    return st.fixed_dictionaries({
        "layers": st.lists(st.tuples(st.integers(0, 3), st.integers(0, 5)), min_size=1, max_size=4).map(lambda v: [list(x) for x in v]),
        "decoded": st.integers(0, 2),
        "steps": st.lists(st.tuples(st.sampled_from(("set", "set", "drop", "drop", "add", "many", "rm")), st.integers(0, 3), st.integers(0, 6),
                                    st.integers(0, 5), st.integers(0, 20)).map(list), min_size=1, max_size=8)})


# ---------------------------------------------------------------- many values, one after the other

def check_barrage(plan, rec):
    """Every value offered to a field of one long-lived layer is judged on its own."""
    ctx = Ctx({"fields": list(FIELDS), "first": plan["first"], "decoded": plan["decoded"]})
    ctx.kill()
    layer = ctx.layer
    kept = []
    judged = 0
    for f, v, way in plan["shots"]:
        want = valid(f, v)
        if want is None:
            continue
        judged += 1
        what = "%s of %r in %s" % (way, v, f)
        value = make(ctx, v)
        if way == "add":
            ok, e = outcome(lambda: layer.add(**{f: value}))
            judge(ok, want, what, e)
            if ok:
                kept.append(e)
        else:
            node = Node({f: value})
            if way == "list":
                ok, e = outcome(lambda: NodeList([node], fieldtypes=layer.schema.fields).validate())
                judge(ok, want, what, e)
            if way == "many" and want:
                layer.add_many([node])
                kept.append(node)
            else:
                layer.add_many([node], full_validation=False)
                same(bool(node.is_valid()), want, "is_valid() with " + what)
                if way == "encode":
                    ok, e = outcome(lambda: MsgpackCodec.encode(ctx.doc))
                    judge(ok, want, what, e)
                layer.remove(node)
        need(list(layer) == kept, "%s: nodes of the layer afterwards", what)
    rec.hit(judged >= 5)


def barrages():
    def shot(f):
        typ, arg = FIELDS[f]
        if typ in gen.SCALARS:
            v = gen.weighted((3, edge_scalar(typ)), (2, scalar_values()), (1, good_scalar(typ)), (1, link_values()))
        else:
            v = gen.weighted((3, link_values()), (2, good_link(typ, arg)), (1, scalar_values()))
        return st.tuples(st.just(f), v.map(list), st.sampled_from(("add", "add", "add", "many", "list", "unvalidated", "encode")))
    spans = ("broken nodespan", "reordered nodespan")
    return st.fixed_dictionaries({
        "shots": st.lists(st.sampled_from(list(FIELDS)).flatmap(shot).filter(lambda s: s[1][0] not in spans), min_size=1, max_size=30).map(
            lambda ss: [list(s) for s in ss]),
        "first": st.booleans(), "decoded": st.integers(0, 2)})


FACETS = [
    Facet("barrage", barrages, check_barrage,
          "up to 30 values, many at the very limits of their type, offered one after the other to the fields of one layer; "
          "non-trivial: at least five judged", 1500, 40000),
    Facet("long lists", longs, check_long,
          "lists of 9-300 references with no or 1-3 invalid entries anywhere, added, added in bulk, added unvalidated or gone stale; "
          "non-trivial: more than 16 entries and an invalid one past the first nine", 1200, 20000),
    Facet("values", plans, check,
          "one node with 1-3 fields given values of any class, through every way of adding or setting, in fresh and decoded documents; "
          "non-trivial: at least one judged value", 4500, 120000),
    Facet("lives", lives, check_lives,
          "up to 14 assignments, list edits, removals, returns and reorderings of referents, each followed by encodings; "
          "non-trivial: the document went from acceptable to not acceptable or back at least twice", 1200, 30000),
    Facet("undeclared", undeclared_plans, check_undeclared,
          "up to 4 layers of 0-3 fields, up to 8 steps that bring in and take out undeclared fields, each followed by encodings; "
          "non-trivial: the document was both acceptable and not", 800, 20000),
    Facet("schemas", schemas, check_schema, "schemas with references to present and missing layers and texts; non-trivial: something is missing",
          600, 10000),
    Facet("batches", batches, check_batch, "add_many of nodes referring to each other; non-trivial: some reference to the node itself or a later one",
          1500, 30000),
]
