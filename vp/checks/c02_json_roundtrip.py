"""C02: JSON encoding round-trips every document."""
import copy
import json

from .. import gen
from ..core import Facet, need, same
from ..model import as_collections, build, canon, expected, repair, tag
from .c01_binary_roundtrip import classify, interesting, large
from hypothesis import strategies as st
from docria.codec import JsonCodec, MsgpackCodec

ASSUMPTIONS = [
    "properties hold JSON values with string keys, strings hold no lone surrogates; floats may be NaN or infinite (Python's JSON dialect)",
    "binary and extension fields are outside the domain",
]


def check(plan, rec):
    model, (w,) = build(plan)
    repair(model, [w])
    classify(model, rec)
    rec.hit(interesting(model))
    want = expected(model, drop_empty=True)
    text = JsonCodec.encode(w.doc)
    need(type(text) is str, "encode returned %s", type(text))
    obj = JsonCodec.encode_object(w.doc)
    same(canon(JsonCodec.decode(text), drop_empty=True), want, "decoded JSON text")
    before = copy.deepcopy(obj)
    same(canon(JsonCodec.decode_object(obj), drop_empty=True), want, "decoded JSON object")
    same(tag(obj), tag(before), "JSON object after decoding it")
    same(canon(JsonCodec.decode_object(json.loads(text)), drop_empty=True), want, "decoded object of the JSON text")
    same(tag(json.loads(text)), tag(json.loads(json.dumps(obj))), "JSON text against JSON object")
    other = MsgpackCodec.decode(MsgpackCodec.encode(w.doc))
    same(canon(other, drop_empty=True), want, "document decoded from binary")
    same(JsonCodec.encode(other), text, "JSON of the document decoded from binary")
    third = MsgpackCodec.decode(MsgpackCodec.encode(JsonCodec.decode(text)))
    same(canon(third, drop_empty=True), want, "binary route after the JSON route")
    same(canon(w.doc), expected(model), "original document after encoding")
    if as_collections(w, len(text)):
        rec.label("lists given as collections")
        same(JsonCodec.encode(w.doc), text, "JSON with reference lists given as equal collections")


FACETS = [
    Facet("roundtrip", lambda: gen.document(binary=False, ops=gen.edit_ops()), check,
          "document of 0-4 layers x 0-4 fields (occasionally far larger), then up to 8 edits; "
          "non-trivial: at least two nodes and one reference, span or node-span value present",
          1200, 40000),
    Facet("large documents", lambda: gen.large(binary=False, ops=gen.edit_ops()), large(check),
          "documents large in one or two of text, nodes, reference lists, strings, properties, layers, fields, name lengths, node spans, gaps; every case counts", 60, 1500, case_seconds=120),
]
