"""C03: encoding is deterministic and leaves the content alone."""
from .. import gen
from ..core import Facet, Violation, need, same
from ..model import (apply, build, canon, expected, repair, Model, World, MNode, dtype, real_fields, _copy)
from .c01_binary_roundtrip import classify, large
from hypothesis import strategies as st
from docria.model import Document, Node
from docria.codec import JsonCodec, MsgpackCodec, MsgpackDocument, XmlCodec

ASSUMPTIONS = ["properties and layers keep their insertion order, which is part of the content",
               "an empty reference list and an absent one encode alike"]


def identities(doc):
    """Which node objects the document holds and refers to."""
    out = []
    for ln, layer in doc.layers.items():
        for n in layer:
            row = [id(n)]
            for f, v in n.items():
                if isinstance(v, Node):
                    row.append((f, id(v)))
                elif isinstance(v, list):
                    row.append((f, id(v), [id(x) for x in v]))
                elif hasattr(v, "left") and hasattr(v, "right"):
                    row.append((f, id(v), id(v.left), id(v.right)))
            out.append(row)
    return out


def rebuild(model, way):
    """The same content from scratch, by another history."""
    doc = Document()
    doc.props = _copy(model.props)
    for n, t in model.texts.items():
        doc.add_text(n, t)
    w = World()
    w.doc = doc
    for ln, ml in model.layers.items():
        layer = doc.add_layer(ln, **{f: dtype(*s) for f, s in ml.fields.items()})
        junk = []
        for i, n in enumerate(ml.nodes):
            if way % 3 == 1 and i % (2 + way % 2) == 0:
                junk.append(layer.add(*[Node()]) or layer.last())
            w.node[n] = Node()
            layer.add(w.node[n])
        if way % 3 == 2:
            junk = [Node() for _ in range(1 + way % 7)]
            layer.add_many(junk, default_fill=False)
        layer.remove(junk)
        if way % 4 == 3:
            layer.compact()
    for ml in model.layers.values():
        for n in ml.nodes:
            items = list(real_fields(w, n.fields).items())
            if way % 2:
                items.reverse()
            for f, v in items:
                w.node[n][f] = v
    return doc


OPTIONS = ({}, {"type_validation": False}, {"extra_fields_ok": True}, {"type_validation": False, "extra_fields_ok": True})


def encoders(xml, k):
    opts = OPTIONS[k // 3 % 4]
    e = [("binary", lambda d: MsgpackCodec.encode(d, **opts)), ("lazy binary", lambda d: MsgpackDocument(d).binary())]
    if xml:
        e.append(("JSON", JsonCodec.encode))
        e.append(("XML", lambda d: XmlCodec.encode_utf8string(d, **opts)))
        e.append(("verbose XML", lambda d: XmlCodec.encode_utf8string(d, verbose=True, verbose_node_spans=True, document_id="d")))
    return e


def check(plan, rec):
    xml = plan["xml"]
    model, (w,) = build(plan)
    repair(model, [w])
    classify(model, rec)
    gaps = any(len(l) and l.last().i != len(l) - 1 for l in w.doc.layers.values())
    if gaps:
        rec.label("gaps when encoded")
    rec.hit(gaps or len(model.graveyard) > 0)
    before, ident = canon(w.doc), identities(w.doc)
    encs = encoders(xml, plan["way"])
    k = plan["order"] % len(encs)
    encs = encs[k:] + encs[:k]
    first = {}
    for name, enc in encs:
        first[name] = enc(w.doc)
        same(canon(w.doc), before, "content after %s encoding" % name)
        same(identities(w.doc), ident, "nodes and references after %s encoding" % name)
    for name, enc in encs:
        same(enc(w.doc), first[name], "second %s encoding" % name)
    same(first["binary"], first["lazy binary"], "binary encodings")
    other = rebuild(model, plan["way"])
    same(canon(other), expected(model), "rebuilt document")
    for name, enc in encs:
        same(enc(other), first[name], "%s encoding of an equal document" % name)
    data = first["binary"]
    same(MsgpackCodec.encode(MsgpackCodec.decode(data)), data, "re-encoded decoded document")
    same(MsgpackCodec.encode(MsgpackDocument(data).document()), data, "re-encoded lazily decoded document")
    if xml:
        same(JsonCodec.encode(JsonCodec.decode(first["JSON"])), first["JSON"], "re-encoded JSON document")
        if expected(model) == expected(model, drop_empty=True):
            same(XmlCodec.encode_utf8string(MsgpackCodec.decode(data)), first["XML"], "XML of the decoded document")
    # editing goes on as if nothing had been encoded: with one encoder, with any options, between the edits
    name, enc = encs[plan["way"] % len(encs)]
    for op in plan["more"]:
        apply(model, [w], op)
        same(canon(w.doc), expected(model), "content after an edit after %s encoding with %r" % (name, OPTIONS[plan["way"] // 3 % 4]))
        if plan["order"] % 2:
            repair(model, [w])
            enc(w.doc)
            same(canon(w.doc), expected(model), "content after encoding again")


EXTRAS = ("note", "_tmp", "", "é", "x1", "text2")


def check_extra(plan, rec):
    """Fields that are not declared: tolerated when asked for, refused otherwise, never encoded and never touched."""
    model, (w,) = build(plan)
    repair(model, [w])
    opts = OPTIONS[1 + plan["way"] % 3]
    encs = [("binary", lambda d: MsgpackCodec.encode(d, **opts)), ("XML", lambda d: XmlCodec.encode_utf8string(d, **opts)),
            ("verbose XML", lambda d: XmlCodec.encode_utf8string(d, verbose=True, verbose_node_spans=True, **opts))]
    plain = {name: enc(w.doc) for name, enc in encs}
    nodes = [(layer, n) for layer in w.doc.layers.values() for n in layer]
    added = 0
    for i, (layer, n) in enumerate(nodes):
        f = EXTRAS[(plan["order"] + i) % len(EXTRAS)]
        if (plan["which"] >> (i % 7)) & 1 and f not in layer.schema.fields and f not in n:
            n[f] = ("kept", [i, {}], n, None, object())[(i + plan["order"]) % 5]
            added += 1
    rec.hit(added > 0)
    rec.label("extra fields" if added else "none")
    state = lambda: [[(f, id(v), repr(v)) for f, v in n.items()] for _, n in nodes]
    before, ident = state(), identities(w.doc)
    k = plan["order"] % 3
    for name, enc in encs[k:] + encs[:k]:
        same(enc(w.doc), plain[name], "%s encoding with extra fields, options %r" % (name, opts))
        same(state(), before, "fields of the nodes after %s encoding with %r" % (name, opts))
        same(identities(w.doc), ident, "nodes after %s encoding" % name)
    if added:
        for name, enc in (("binary", MsgpackCodec.encode), ("JSON", JsonCodec.encode), ("XML", XmlCodec.encode_utf8string)):
            try:
                enc(w.doc)
            except Exception:
                pass
            else:
                raise Violation("%s encoding accepted undeclared fields" % name)
            same(state(), before, "fields of the nodes after a refused %s encoding" % name)
    for layer, n in nodes:
        for f in [f for f in n if f not in layer.schema.fields]:
            del n[f]
    same(canon(w.doc), expected(model), "content without the extra fields")
    same(MsgpackCodec.encode(w.doc), plain["binary"], "binary encoding without the extra fields")


@st.composite
def extra_plans(draw):
    p = draw(gen.document(binary=False, xmlnames=True, ops=gen.edit_ops()))
    p.update(order=draw(st.integers(0, 29)), way=draw(st.integers(0, 2)), which=draw(st.integers(1, 127)))
    return p


def plans(xml, big=False):
    @st.composite
    def f(draw):
        if big:
            p = draw(gen.large(ops=gen.edit_ops()))
        else:
            p = draw(gen.document(binary=not xml, xmlnames=xml, ops=gen.edit_ops(), big=not xml))
        p["xml"] = xml
        p["order"] = draw(st.integers(0, 4))
        p["way"] = draw(st.integers(0, 47))
        p["more"] = draw(st.lists(gen.edit_ops(), max_size=4)) if not big else []
        return p
    return f


RULE = "non-trivial: nodes were removed before encoding, so the layer has or had gaps"
FACETS = [
    Facet("binary", plans(False), check, "documents with edit histories, binary encoder; " + RULE, 700, 20000),
    Facet("all encoders", plans(True), check, "documents without binary values, with XML names: binary, JSON and XML encoders; " + RULE,
          700, 20000),
    Facet("extra fields", extra_plans, check_extra, "documents with fields that are not declared, encoded with and without permission; "
          "non-trivial: a node has such a field", 500, 10000),
    Facet("large documents", plans(False, True), large(check),
          "documents large in one or two of text, nodes, reference lists, strings, properties, layers, fields, name lengths, node spans, gaps; every case counts", 40, 1200, case_seconds=120),
]
