"""C18: schema changes keep data and declarations consistent."""
from .. import gen
from ..core import Facet, need, same
from ..model import (MNode, POOL, apply, build, canon, check_layers, default_value, dtype, encode, expected, fits, refused, repair, World, _attach)
from hypothesis import strategies as st
from docria.codec import JsonCodec, MsgpackCodec
from docria.model import DataTypes as T, Document, Node, SchemaValidationError

ASSUMPTIONS = ["add() of finished nodes leaves them as they are (defaults are filled in by add(field=...) and add_many)",
               "before encoding, values left behind on request and references into removed layers are cleared, as they are no valid values"]


def check(plan, rec):
    model, (w,) = build(plan, apply_ops=False)
    schema_changes = 0
    for op in plan["ops"]:
        before = {ln: dict(ml.fields) for ln, ml in model.layers.items()}
        apply(model, [w], op)
        after = {ln: dict(ml.fields) for ln, ml in model.layers.items()}
        rec.label(op[0])
        if before != after:
            schema_changes += 1
            rec.label("changed by " + op[0])
            for ln, ml in model.layers.items():
                layer = w.doc.layers[ln]
                same(list(layer.schema.fields), list(ml.fields), "fields of %r" % ln)
                for f in ml.fields:
                    if before.get(ln) != after[ln]:
                        same(len(layer[f]), len(ml.nodes), "column %r" % f)
        check_layers(model, [w], "after %r: " % (op,))
        same(canon(w.doc), expected(model), "document after %r" % (op,))
        if plan["every"] and before != after:
            encoded(model, w, "after %r" % (op,))
    encoded(model, w, "at the end")
    rec.hit(schema_changes >= 2 and any(ml.nodes for ml in model.layers.values()))


def encoded(model, w, when):
    repair(model, [w])
    want = expected(model, drop_empty=True)
    data = encode(w.doc)
    same(canon(MsgpackCodec.decode(data), drop_empty=True), want, "decoded document " + when)
    if not any(t == "bin" for ml in model.layers.values() for t, _, _ in ml.fields.values()):
        same(canon(JsonCodec.decode(JsonCodec.encode(w.doc)), drop_empty=True), want, "document decoded from JSON " + when)


@st.composite
def plans(draw):
    plan = draw(gen.document(need_layer=True, maxlayers=3, big=False))
    plan["props"] = {}
    plan["every"] = draw(st.booleans())
    plan["ops"] = draw(st.lists(gen.weighted((3, gen.schema_ops()), (2, gen.edit_ops())), min_size=3, max_size=14))
    return plan


# ---------------------------------------------------------------- defaults

def check_defaults(plan, rec):
    """Every default value, every way of adding a node, given values kept."""
    doc = Document()
    layer = doc.add_layer("t", **{f: dtype(t, None, d) for f, (t, d) in plan["fields"].items()})
    spec = dict(plan["fields"])
    nodes = []
    want = []

    def defaults():
        out = {}
        for f, (t, d) in spec.items():
            v = default_value(t, d)
            if v is not None:
                out[f] = v
        return out
    for step in plan["steps"]:
        kind = step[0]
        if kind == "field":
            _, f, (t, d), init = step
            if f in spec:
                refused(SchemaValidationError, lambda: layer.add_field(f, dtype(t, None, d), init_with_default=init), "add_field(%r) again" % f)
                continue
            layer.add_field(f, dtype(t, None, d), init_with_default=init)
            spec[f] = (t, d)
            if init and default_value(t, d) is not None:
                for x in want:
                    x[f] = default_value(t, d)
        elif kind == "unfield":
            f = sorted(spec)[step[1] % len(spec)] if spec else "none"
            leave = step[2]
            same(layer.remove_field(f, leave_data=True) if leave else layer.remove_field(f), f in spec, "remove_field(%r)" % f)
            spec.pop(f, None)
            for x in want if not leave else ():
                x.pop(f, None)
        else:
            given = [{f: POOL[spec[f][0]][k % len(POOL[spec[f][0]])] for f, k in zip(sorted(spec), ks) if k >= 0} for ks in step[1]]
            if kind == "add":
                for g in given:
                    nodes.append(layer.add(**g))
                    want.append(dict(defaults(), **g))
            else:
                new = [Node(g) for g in given]
                fill = kind != "unfilled"
                if kind == "iterator":
                    layer.add_many(x for x in new)
                elif kind == "unchecked":
                    layer.add_many(new, full_validation=False)
                elif fill:
                    layer.add_many(new)
                else:
                    layer.add_many(new, default_fill=False)
                nodes += new
                want += [dict(defaults(), **g) if fill else g for g in given]
        check_nodes(layer, nodes, want, "after %r" % (step,))
    for n, x in zip(nodes, want):      # what was left behind is no longer declared
        for f in set(x) - set(spec):
            del n[f], x[f]
        for f in list(x):              # ... or declared with another type
            if not fits(spec[f][0], None, x[f]):
                del n[f], x[f]
    back = MsgpackCodec.decode(encode(doc))
    check_nodes(back.layers["t"], list(back.layers["t"]), want, "decoded")
    # the decoded document declares the same defaults
    back.layers["t"].add()
    check_nodes(back.layers["t"], list(back.layers["t"])[-1:], [defaults()], "a node added to the decoded document")
    rec.hit(any(default_value(t, d) is not None for t, d in spec.values()) and len(nodes) > 1)


def tagged(v):
    return (type(v).__name__, repr(v))


def check_nodes(layer, nodes, want, what):
    same([{f: tagged(v) for f, v in n.items()} for n in nodes], [{f: tagged(v) for f, v in x.items()} for x in want], "field values " + what)


@st.composite
def default_plans(draw):
    def spec():
        t = draw(st.sampled_from(("i32", "i64", "f64", "i1", "str", "i32", "str", "bin")))
        d = ["std"] if t == "bin" else draw(st.sampled_from((["std"], ["none"], ["val"], ["val"])))
        if d == ["val"]:
            v = draw(st.sampled_from(POOL[t]))
            d = ["val", v if v == v else 2.5]
        return (t, d)
    fields = {f: spec() for f in draw(st.lists(st.sampled_from("abcd"), unique=True, max_size=4))}
    steps = []
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.sampled_from(("add", "add", "many", "iterator", "unchecked", "unfilled", "field", "field", "unfield")))
        if k == "field":
            steps.append([k, draw(st.sampled_from("abcdefg")), spec(), draw(st.booleans())])
        elif k == "unfield":
            steps.append([k, draw(gen.small), draw(st.booleans())])
        else:
            steps.append([k, draw(st.lists(st.lists(st.integers(-3, 20), min_size=7, max_size=7), min_size=1, max_size=3))])
    return {"fields": fields, "steps": steps}


@st.composite
def tall_plans(draw):
    plan = draw(gen.tall(maxlayers=3))
    plan["props"] = {}
    plan["every"] = draw(st.booleans())
    plan["ops"] = draw(st.lists(gen.weighted((3, gen.schema_ops()), (1, gen.edit_ops())), min_size=2, max_size=5))
    return plan


FACETS = [
    Facet("large documents", tall_plans, check, "2-5 schema changes and edits of layers of 64-2000 nodes; non-trivial: two schema changes or more",
          150, 4000),
    Facet("schema histories", plans, check,
          "3-14 schema changes and edits over up to 3 layers, encoded and decoded at the end or after every change; "
          "non-trivial: two schema changes or more with nodes present", 1300, 40000),
    Facet("defaults", default_plans, check_defaults,
          "all scalar types and default values, five ways of adding nodes, fields added and removed in between; "
          "non-trivial: a field with a default and more than one node", 2000, 40000),
]
