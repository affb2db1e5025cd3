"""C01: binary encoding round-trips every document."""
import copy
import io
import os
import pickle
import tempfile

from .. import gen
from ..core import Facet, need, same
from ..model import as_collections, build, canon, expected, repair
from hypothesis import strategies as st
from docria.codec import MsgpackCodec, MsgpackDocument

ASSUMPTIONS = [
    "names of layers, fields and properties are not 'self' (they are keyword arguments), strings hold no lone surrogates",
    "fields are never set to None explicitly and references stay within the document",
    "extension (EXT) fields are excluded: the encoder marks them unimplemented and refuses them",
]


def from_file(data, how):
    fd, path = tempfile.mkstemp(prefix="vp-c01-")
    try:
        with os.fdopen(fd, "wb") as f:
            f.write(data)
        with open(path, "rb") as f:
            return MsgpackCodec.decode(f) if how else MsgpackDocument(f).document()
    finally:
        os.unlink(path)


ROUTES = [
    lambda doc, data: MsgpackCodec.decode(data),
    lambda doc, data: MsgpackCodec.decode(io.BytesIO(data)),
    lambda doc, data: MsgpackDocument(data).document(),
    lambda doc, data: MsgpackDocument(doc).document(),
    lambda doc, data: MsgpackDocument(io.BytesIO(data)).document(),
    lambda doc, data: pickle.loads(pickle.dumps(doc)),
    lambda doc, data: copy.deepcopy(doc),
    lambda doc, data: copy.copy(doc),
    lambda doc, data: from_file(data, 0),
    lambda doc, data: from_file(data, 1),
    lambda doc, data: MsgpackDocument(MsgpackDocument(doc).binary()).document(),
    lambda doc, data: pickle.loads(pickle.dumps(MsgpackDocument(data))).document(),
]


def interesting(model):
    return sum(len(ml.nodes) for ml in model.layers.values()) >= 2 and any(
        typ in ("ref", "refs", "nspan", "span") and any(f in n.fields for n in ml.nodes)
        for ml in model.layers.values() for f, (typ, _, _) in ml.fields.items())


def classify(model, rec):
    n = sum(len(ml.nodes) for ml in model.layers.values())
    rec.label("nodes:%s" % ("0" if n == 0 else "1-9" if n < 10 else "10-99" if n < 100 else "100+"))
    for ml in model.layers.values():
        for f, (typ, _, _) in ml.fields.items():
            vals = [m.fields[f] for m in ml.nodes if f in m.fields]
            if vals:
                rec.label("field:" + typ)
            if vals and len(vals) < len(ml.nodes):
                rec.label("partly absent field")
    if model.graveyard:
        rec.label("after removals")
    if len(model.props):
        rec.label("properties")


def check(plan, rec):
    model, (w,) = build(plan)
    repair(model, [w])
    classify(model, rec)
    rec.hit(interesting(model))
    same(canon(w.doc), expected(model), "document as built")
    data = MsgpackCodec.encode(w.doc)
    need(type(data) is bytes, "encode returned %s", type(data))
    want = expected(model, drop_empty=True)
    for r in sorted({0, 2, plan["route"] % len(ROUTES)} if len(data) < 200000 else {plan["route"]}):
        got = ROUTES[r](w.doc, data)
        need(got is not w.doc, "decoding returned the original object")
        same(canon(got, drop_empty=True), want, "decoded document (route %d)" % r)
        rec.label("route %d" % r)
    same(canon(w.doc), expected(model), "original document after encoding")
    if as_collections(w, plan["route"]):
        rec.label("lists given as collections")
        same(MsgpackCodec.encode(w.doc), data, "encoding with reference lists given as equal collections")


@st.composite
def plans(draw):
    p = draw(gen.document(ops=gen.edit_ops()))
    p["route"] = draw(st.integers(0, len(ROUTES) - 1))
    return p


def large(check):
    """The check of a facet of large documents: every case counts."""
    def check_large(plan, rec):
        check(plan, rec)
        rec.label(*["large " + k for k in plan["large"]])
        rec.hit()
    return check_large


@st.composite
def largeplans(draw):
    p = draw(gen.large(ops=gen.edit_ops()))
    p["route"] = draw(st.integers(0, len(ROUTES) - 1))
    return p


check_large = large(check)


def bulk(n, text):
    return {
        "props": {"k": "v" * 70000, "b": b"\x00" * 70000, "l": list(range(20)), "n": None},
        "texts": [["main", [[text, n]]], ["alt", [["\U0001f600 ", 300]]]],
        "layers": [
            {"name": "token", "n": n, "how": "many",
             "fields": [["text", "span", 0, ["std"]], ["id", "i32", None, ["std"]], ["head", "ref", 0, ["std"]],
                        ["s", "nspan", 1, ["std"]], ["w", "str", None, ["none"]], ["f", "f64", None, ["val", 2.5]]],
             "cols": {"text": {"vals": [[0, 2, 1]], "mask": [True]}, "id": {"vals": [0, 1, 127, 128, 70000, -5], "mask": [True]},
                      "head": {"vals": [-1, 3, -2], "mask": [True, True, False]}, "s": {"vals": [[1, 2]], "mask": [True, False]},
                      "w": {"vals": ["a", "b" * 300, ""], "mask": [True, True, True, False]},
                      "f": {"vals": [0.25, -1.0], "mask": [True]}}},
            {"name": "sentence", "n": 40, "how": "add",
             "fields": [["toks", "refs", 0, ["std"]], ["b", "bin", None, ["std"]], ["ok", "i1", None, ["val", True]]],
             "cols": {"toks": {"vals": [[0, 1, 2], list(range(20)), []], "mask": [True]},
                      "b": {"vals": [b"\xff" * 70000, b""], "mask": [True, False]}, "ok": {"vals": [False], "mask": [False, True]}}}],
        "ops": [["rmq", 0, 3, 1, 0], ["many", 0, 20, [1, 2, 3], True, True, False]], "route": 8}


def wide(n):
    """Array and text lengths past 65535."""
    return {"props": {}, "texts": [["main", [["ab", n]]]],
            "layers": [{"name": "token", "n": n, "how": "nofill", "fields": [["id", "i32", None, ["none"]]],
                        "cols": {"id": {"vals": [5, -7, 300], "mask": [True, False, True]}}}],
            "ops": [], "route": 0}


FACETS = [
    Facet("roundtrip", plans,
          check,
          "document of 0-5 layers x 0-4 fields (occasionally 16+ layers, fields, texts, hundreds of nodes, long strings), then up to 8 edits; "
          "non-trivial: at least two nodes and one reference, span or node-span value present",
          1600, 40000, case_seconds=60, examples=[bulk(300, "\u00e5b"), bulk(17000, "a"), wide(66000)]),
    Facet("large documents", largeplans, check_large,
          "documents large in one or two of: text (to 300000 characters, also astral), nodes (to 66000), reference lists, strings, properties "
          "(long, wide, deep), layers, fields, name lengths, node spans, gaps; every case counts",
          120, 2500, case_seconds=120),
]
