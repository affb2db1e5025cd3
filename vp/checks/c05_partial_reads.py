"""C05: partial decoding agrees with full decoding."""
import copy
import inspect
import io
import os
import pickle
import tempfile

import msgpack

from .. import gen
from ..core import Facet, need, same
from ..model import build, canon, canon_options, encode, expected, expected_options, repair, tag, ENUM
from .c01_binary_roundtrip import classify, large
from hypothesis import strategies as st
from docria.codec import Codec, MsgpackCodec, MsgpackDocument
from docria.model import Document
from docria.collection import MsgpackDocumentReader, MsgpackDocumentWriter

ASSUMPTIONS = ["layers asked for exist; the order of layers in a partly decoded document is not judged",
               "references to layers that were not asked for are absent"]


class Keep(io.BytesIO):
    def close(self):
        pass


def part(model, names):
    """Expected content when only some layers are decoded, layers in any order."""
    want = expected(model, drop_empty=True)
    out = {}
    for ln, schema, nodes in want["layers"]:
        if ln in names:
            out[ln] = (schema, [{f: v for f, v in n.items() if not lost(v, names)} for n in nodes])
    return dict(want, layers=out)


def lost(v, names):
    if type(v) is not tuple:
        return False
    if v[0] == "ref":
        return v[1][0] not in names
    if v[0] == "refs":
        return v[1][0][0] not in names
    if v[0] == "nspan":
        return v[1][0] not in names
    return False


def loose(c):
    return dict(c, layers={ln: (s, n) for ln, s, n in c["layers"]})


def subset(items, ks):
    items = list(items)
    out = []
    for k in ks:
        if items and items[k % len(items)] not in out:
            out.append(items[k % len(items)])
    return out


def ruin(doc, k):
    """Change a decoded document in place: later reads of the view must not see it."""
    if k % 3 == 0:
        doc.props.clear()
        doc.texts.clear()
        doc.layers.clear()
    elif k % 3 == 1:
        from .c27_twins import disturb
        disturb(doc)


def step(view, model, data, op, rec):
    kind, ks = op
    rec.label("step:" + kind)
    if kind == "props":
        got = view.properties()
        same(tag(got), tag(model.props), "properties()")
        got.clear()
    elif kind == "some props":
        names = subset(list(model.props) + ["no such property"], ks)
        if names:
            same(tag(view.properties(*names)), tag({k: model.props[k] for k in names if k in model.props}),
                 "properties%r" % (tuple(names),))
    elif kind == "schema":
        types, schema = view.schema()
        same(list(types), list(model.layers), "layer names of schema()")
        same({t: [(f, dt.typename.name, canon_options(dt)) for f, dt in fs] for t, fs in schema.items()},
             {t: [(f, ENUM[s[0]], expected_options(*s)) for f, s in ml.fields.items()] for t, ml in model.layers.items()}, "schema()")
        for fs in schema.values():      # what a read returned is the caller's
            fs.clear()
        types.clear()
        schema.clear()
    elif kind == "texts":
        same({k: "".join(v) for k, v in view.texts().items()}, model.texts, "texts()")
        view.texts().clear()
    elif kind == "some texts":
        names = subset(list(model.texts) + ["no such text"], ks)
        if names:
            same({k: "".join(v) for k, v in view.texts(*names).items()},
                 {k: model.texts[k] for k in names if k in model.texts}, "texts%r" % (tuple(names),))
    elif kind == "document":
        got = view.document()
        same(canon(got, drop_empty=True), expected(model, drop_empty=True), "document()")
        ruin(got, ks[0])
    elif kind == "some layers":
        names = subset(model.layers, ks)
        if names:
            got = view.document(*names)
            same(loose(canon(got, drop_empty=True)), part(model, names), "document%r" % (tuple(names),))
            ruin(got, ks[-1])
    elif kind == "some fields" and selective():
        picked = {ln: subset(ml.fields, ks[i % len(ks):] + ks) for i, (ln, ml) in enumerate(model.layers.items())}
        want = expected(model, drop_empty=True)
        want["layers"] = [(ln, schema, [{f: v for f, v in n.items() if f in picked[ln] or not picked[ln]} for n in nodes])
                          for ln, schema, nodes in want["layers"]]
        same(canon(by_fields(data, picked), drop_empty=True), want, "document of the fields %r" % (picked,))
    elif kind == "binary":
        same(view.binary(), data, "binary()")
    elif kind == "rewrap":
        same(MsgpackDocument(view.binary()).binary(), data, "bytes of a copy")
    elif kind == "pickle":
        other = copy.deepcopy(view) if ks and ks[0] % 2 else pickle.loads(pickle.dumps(view))
        same(other.ref, view.ref, "reference of the pickled view")
        same(other.binary(), data, "bytes of the pickled view")
        return other
    elif kind == "collection":
        out = Keep()
        w = MsgpackDocumentWriter(out, num_docs_per_block=2)
        w.write(view)
        w.close()
        (other,) = list(MsgpackDocumentReader(io.BytesIO(out.getvalue())))
        same(other.binary(), data, "bytes of the view copied through a collection")
    return view


def selective():
    """Are the codec's selective readers the ones by_fields knows how to call?"""
    known = {"decode_property": "unpacker *props **kwargs", "decode_schema": "unpacker", "decode_texts": "unpacker *texts",
             "compute_text_offsets": "doc texts", "decode_layer": "unpacker doc typename text2offsets layerschema *fields **kwargs"}
    try:
        return all([str(p).split(":")[0] for p in inspect.signature(getattr(MsgpackCodec, f)).parameters.values()] == ps.split()
                   for f, ps in known.items()) and list(inspect.signature(Codec.commit_layers).parameters) == ["doc", "types", "schema", "all_nodes"]
    except AttributeError:
        return False


def by_fields(data, picked):
    """The document with only some fields of each layer, read with the codec's selective readers (all fields when none is picked)."""
    unpacker = msgpack.Unpacker(io.BytesIO(data), raw=False)
    same(unpacker.read_bytes(4), b"DM_1", "magic bytes")
    doc = Document()
    unpacker.skip()
    doc.props = MsgpackCodec.decode_property(unpacker)
    types, schema = MsgpackCodec.decode_schema(unpacker)
    unpacker.skip()
    offsets = MsgpackCodec.compute_text_offsets(doc, MsgpackCodec.decode_texts(unpacker))
    nodes = {}
    for typename in types:
        unpacker.skip()
        nodes[typename] = MsgpackCodec.decode_layer(unpacker, doc, typename, offsets, schema[typename], *picked[typename])
    Codec.commit_layers(doc, types, schema, nodes)
    return doc


KINDS = ("props", "some props", "schema", "texts", "some texts", "document", "some layers", "some layers", "some fields", "binary", "rewrap", "pickle",
         "collection")


def check(plan, rec):
    model, (w,) = build(plan)
    repair(model, [w])
    classify(model, rec)
    data = encode(w.doc)
    fd = path = None
    ref = plan["ref"]
    try:
        how = plan["source"]
        if how == "file":
            fd, path = tempfile.mkstemp(prefix="vp-c05-")
            os.write(fd, data)
            os.close(fd)
            src = open(path, "rb")
        else:
            src = {"bytes": data, "stream": io.BytesIO(data), "document": w.doc}[how]
        view = MsgpackDocument(src, ref=ref)
        rec.label("source:" + how)
        for op in plan["steps"]:
            view = step(view, model, data, op, rec)
            same(view.ref, ref, "reference of the view")
        rec.hit(len(plan["steps"]) >= 2 and len(model.layers) >= 1)
        if how == "file":
            src.close()
    finally:
        if path:
            os.unlink(path)


@st.composite
def plans(draw, big=False):
    p = draw((gen.large if big else gen.document)(ops=gen.edit_ops()))
    p["ref"] = draw(st.sampled_from((None, (17, 0), (123456, 42))))
    if draw(st.integers(0, 3)) == 3:       # several properties, some of them nothing
        p["props"] = dict(list(p["props"].items())[:2])
        for k in draw(st.lists(st.sampled_from("abcde"), min_size=2, max_size=4, unique=True)):
            p["props"][k] = draw(st.sampled_from((None, None, 0, "", [], {}, False, b"", 1, "x")))
    p["source"] = draw(st.sampled_from(("bytes", "bytes", "stream", "document", "file")))
    p["steps"] = [list(s) for s in draw(st.lists(st.tuples(st.sampled_from(KINDS), st.lists(st.integers(0, 7), min_size=1, max_size=4)),
                                                 min_size=1, max_size=8))]
    return p


FACETS = [
    Facet("partial reads", plans, check,
          "an encoded document and a sequence of 1-8 partial reads on one view of it; non-trivial: two or more reads, at least one layer",
          1500, 40000),
    Facet("large documents", lambda: plans(big=True), large(check),
          "documents large in one or two of text, nodes, reference lists, strings, properties, layers, fields, name lengths, node spans, gaps; every case counts", 50, 1500, case_seconds=120),
]
