"""C04: the encoded form follows the published wire format, in both directions."""
import bz2
import io
import json
import lzma
import zlib

from .. import gen, wire
from ..core import Facet, need, same
from ..model import build, canon, expected, repair, tag, default_value, ENUM
from .c01_binary_roundtrip import classify, interesting, large
from hypothesis import strategies as st
from docria.codec import JsonCodec, MsgpackCodec, MsgpackDocument
from docria.collection import MsgpackDocumentReader, MsgpackDocumentWriter, get_codec, register_codec, unregister_codec

ASSUMPTIONS = [
    "format as implemented by the Java counterpart: str for text, bin for binary, nil for absent, "
    "spans as pairs of segment numbers, references as node positions, node spans as [first, count-1]",
    "integer columns hold integers and float64 columns floats (float32 is accepted when exact)",
]
TYPENAME = {"i32": "i32", "i64": "i64", "f64": "f64", "i1": "i1", "str": "str", "bin": "bin", "span": "span",
            "ref": "noderef", "refs": "noderef_array", "nspan": "nodespan"}


def args_of(typ, arg, default):
    if typ in ("ref", "refs", "nspan"):
        return {"layer": arg}
    if typ == "span":
        return {"context": arg}
    d = default_value(typ, default)
    return {} if d is None else {"default": d}


def cuts_of(model):
    """Offsets that must be segment borders."""
    cuts = {t: {0, len(s)} for t, s in model.texts.items()}
    for ml in model.layers.values():
        for f, (typ, arg, _) in ml.fields.items():
            if typ == "span":
                for n in ml.nodes:
                    if f in n.fields:
                        cuts[arg].update(n.fields[f][2:4])
    return cuts


def abstract(model, cuts):
    """The document as the format's data, with the given segment borders."""
    pos = {n: i for ml in model.layers.values() for i, n in enumerate(ml.nodes)}
    texts, number = {}, {}
    for t, s in model.texts.items():
        c = sorted(cuts[t])
        number[t] = {o: i for i, o in enumerate(c)}
        texts[t] = [s[a:b] for a, b in zip(c, c[1:])]
    layers, schema = {}, {}
    for ln, ml in model.layers.items():
        schema[ln] = [(f, TYPENAME[typ], args_of(typ, arg, d)) for f, (typ, arg, d) in ml.fields.items()]
        cols = {}
        for f, (typ, arg, _) in ml.fields.items():
            col = []
            for n in ml.nodes:
                v = n.fields.get(f)
                if typ == "span":
                    col += [None, None] if v is None else [number[arg][v[2]], number[arg][v[3]]]
                elif v is None or v == [] and typ == "refs":
                    col.append(None)
                elif typ == "ref":
                    col.append(pos[v])
                elif typ == "refs":
                    col.append([pos[x] for x in v])
                elif typ == "nspan":
                    col.append([pos[v[1]], pos[v[2]] - pos[v[1]]])
                else:
                    col.append(v)
            cols[f] = col
        layers[ln] = (len(ml.nodes), cols)
    return {"props": model.props, "types": list(model.layers), "schema": schema, "texts": texts, "layers": layers}


def resolved(d):
    """Comparable form in which span columns hold offsets, whatever the segmentation."""
    texts = {t: "".join(segs) for t, segs in d["texts"].items()}
    offsets = {}
    for t, segs in d["texts"].items():
        o = [0]
        for s in segs:
            o.append(o[-1] + len(s))
        offsets[t] = o
    out = []
    for t in d["types"]:
        count, cols = d["layers"][t]
        row = []
        for name, typ, args in d["schema"][t]:
            col = cols[name]
            same(len(col), count * (2 if typ == "span" else 1), "length of column %r of layer %r" % (name, t))
            if typ == "span":
                o = offsets[args["context"]]
                col = [None if i is None else o[i] for i in col]
            if "default" in args:
                args = dict(args, default=float(args["default"]) if typ == "f64" else args["default"])
            row.append((name, typ, tag(args), tag(col)))
        out.append((t, count, row))
    return {"props": tag(d["props"]), "texts": list(texts.items()), "layers": out}


def check_written(plan, rec):
    model, (w,) = build(plan)
    repair(model, [w])
    classify(model, rec)
    rec.hit(interesting(model))
    want = resolved(abstract(model, cuts_of(model)))
    try:
        got = wire.parse_document(MsgpackCodec.encode(w.doc))
    except wire.Malformed as e:
        need(False, "written bytes are malformed: %s", e)
    same(resolved(got), want, "content of the written bytes")
    for t, segs in got["texts"].items():
        need(all(type(s) is str for s in segs), "segments of text %r", t)
    if plan["json"]:
        obj = JsonCodec.encode_object(w.doc)
        for o in (obj, json.loads(JsonCodec.encode(w.doc))):
            same(list(o), ["DM10"], "JSON keys")
            o = o["DM10"]
            same(sorted(o), ["num_nodes", "props", "schema", "texts", "types"], "JSON document keys")
            d = {"props": o["props"], "texts": o["texts"], "types": list(o["schema"]),
                 "layers": {t: (o["num_nodes"][t], o["types"][t]) for t in o["schema"]},
                 "schema": {t: [(f, v, {}) if isinstance(v, str) else (f, v["type"], v["args"]) for f, v in fs.items()]
                            for t, fs in o["schema"].items()}}
            same(resolved(d), want, "content of the JSON object")


def written(js, big=False):
    @st.composite
    def f(draw):
        p = draw((gen.large if big else gen.document)(binary=not js, ops=gen.edit_ops()))
        p["json"] = js
        return p
    return f


def segmentation(model, extra, empty):
    """Segment borders: the necessary ones, extra ones, and empty segments (the Java writer puts one in an empty text)."""
    cuts = {t: sorted(c) for t, c in cuts_of(model).items()}
    for t, s in model.texts.items():
        cuts[t] = sorted(set(cuts[t]) | {e % (len(s) + 1) for e in extra})
        cuts[t] = sorted(cuts[t] + [cuts[t][e % len(cuts[t])] for e in empty])
    return cuts


def check_foreign(plan, rec):
    model, _ = build(plan, worlds=0)
    repair(model, [])
    classify(model, rec)
    rec.hit(interesting(model))
    d = abstract(model, segmentation(model, plan["cuts"], plan["empty"]))
    # the order of map entries is free for texts
    data = wire.write_document(wire.Writer(plan["widths"]), d)
    want = expected(model, drop_empty=True)
    same(canon(MsgpackCodec.decode(data), drop_empty=True), want, "decoded foreign bytes")
    same(canon(MsgpackCodec.decode(io.BytesIO(data)), drop_empty=True), want, "decoded foreign stream")
    lazy = MsgpackDocument(data)
    same(canon(lazy.document(), drop_empty=True), want, "lazily decoded foreign bytes")
    same(tag(lazy.properties()), tag(model.props), "lazily read properties")
    same(lazy.texts(), d["texts"], "lazily read texts")
    same({t: [(f, dt.typename.name) for f, dt in fs] for t, fs in lazy.schema()[1].items()},
         {t: [(f, ENUM[typ]) for f, (typ, _, _) in ml.fields.items()] for t, ml in model.layers.items()}, "lazily read schema")
    if plan["json"]:
        obj = {"DM10": {"props": d["props"], "texts": d["texts"], "num_nodes": {t: v[0] for t, v in d["layers"].items()},
                        "types": {t: v[1] for t, v in d["layers"].items()},
                        "schema": {t: {f: {"type": typ, "args": args} if args or plan["widths"][0] % 2 else typ for f, typ, args in fs}
                                   for t, fs in d["schema"].items()}}}
        same(canon(JsonCodec.decode(json.dumps(obj)), drop_empty=True), want, "decoded foreign JSON")


def foreign(js, big=False):
    @st.composite
    def f(draw):
        p = draw((gen.large if big else gen.document)(binary=not js))
        p["json"] = js
        p["cuts"] = draw(st.lists(st.integers(0, 40), max_size=6))
        p["empty"] = draw(st.lists(st.integers(0, 40), max_size=2))
        p["widths"] = draw(st.lists(st.integers(0, 9), min_size=1, max_size=9))
        return p
    return f


CODECS = {"none": (lambda b: b, lambda b: b), "zip": (zlib.compress, zlib.decompress), "bzip2": (bz2.compress, bz2.decompress),
          "lzma": (lzma.compress, lzma.decompress),
          "zipsq": (lambda b: zlib.compress(zlib.compress(b)), lambda b: zlib.decompress(zlib.decompress(b)))}
try:
    import lz4.frame
    if get_codec("lz4", no_except=True):
        CODECS["lz4"] = (lz4.frame.compress, lz4.frame.decompress)
except ImportError:
    pass
try:
    import zstd
    CODECS.update((k, (zstd.compress, zstd.decompress)) for k in ("zstd", "zstd:high", "zstd:ultra") if get_codec(k, no_except=True))
except ImportError:
    pass
OWN = {"own " + k: k for k in ("none", "zip", "bzip2", "lzma")}     # registered under a name of their own, file format name k


def mini(i, size):
    return wire.write_document(wire.Writer([0]), {
        "props": {"i": i, "s": "x" * size}, "types": [], "schema": {}, "texts": {"main": ["t%d" % i]}, "layers": {}})


def check_collection(plan, rec):
    per, blocks, widths = plan["per"], plan["blocks"], plan["widths"]
    registered = plan["codec"]
    name = OWN.get(registered, "zstd" if registered.startswith("zstd") else registered)      # the name that belongs in the file
    if name not in CODECS:
        return rec.label("library missing")
    comp, decomp = CODECS[name]
    i = 0
    docs = []
    for b in blocks:
        docs.append([mini(i + k, s) for k, s in enumerate(b)])
        i += len(b)
    flat = [d for b in docs for d in b]
    rec.label("codec:" + name)
    rec.hit(len(flat) > 1)
    data = wire.write_collection(wire.Writer(widths), name, per, docs, comp)
    got = [d.binary() for d in MsgpackDocumentReader(io.BytesIO(data))]
    same(got, flat, "documents read from a foreign file")
    got = [[d.binary() for d in bl] for bl in MsgpackDocumentReader(io.BytesIO(data)).blocks()]
    same(got, docs, "blocks read from a foreign file")

    class Keep(io.BytesIO):
        def close(self):
            pass
    out = Keep()
    if registered in OWN:
        register_codec(registered, comp, decomp, codec_name=name)
    try:
        wr = MsgpackDocumentWriter(out, num_docs_per_block=per, codec=get_codec(registered))
        for d in flat:
            wr.write(MsgpackDocument(d))
        wr.close()
    finally:
        if registered in OWN:
            unregister_codec(registered)
    try:
        codec, n, got = wire.parse_collection(out.getvalue(), decomp)
    except wire.Malformed as e:
        need(False, "written file is malformed: %s", e)
    same((codec, n), (name, per), "file header")
    same([d for _, b in got for _, d in b], flat, "documents in the written file")
    need(all(0 < len(b) <= per for _, b in got), "a block holds more than %d documents (or none)", per)


def collections():
    return st.fixed_dictionaries({
        "codec": st.sampled_from(sorted(OWN) + ["none", "zip", "bzip2", "zipsq", "lzma", "lz4", "zstd", "zstd:high", "zstd:ultra"]), "per": st.sampled_from((1, 2, 3, 5, 127, 128, 300, 70000)),
        "blocks": st.lists(st.lists(st.sampled_from((0, 1, 20, 200, 300, 70000)), max_size=4), max_size=5),
        "widths": st.lists(st.integers(0, 9), min_size=1, max_size=7)})


NT = "; non-trivial: at least two nodes and one reference, span or node span"
FACETS = [
    Facet("written binary", written(False), check_written, "bytes written for generated documents read by an independent parser" + NT, 600, 20000),
    Facet("written JSON", written(True), check_written, "the same, and the JSON object layout" + NT, 400, 12000),
    Facet("foreign binary", foreign(False), check_foreign,
          "documents written by an independent writer with arbitrary legal widths and segmentations" + NT, 600, 20000),
    Facet("foreign JSON", foreign(True), check_foreign, "the same, and JSON written independently" + NT, 300, 10000),
    Facet("large, written", written(False, True), large(check_written), "documents large in one or two of text, nodes, reference lists, strings, properties, layers, fields, name lengths, node spans, gaps; every case counts", 60, 1500, case_seconds=120),
    Facet("large, foreign", foreign(False, True), large(check_foreign), "the same, written independently", 60, 1500, case_seconds=120),
    Facet("collections", collections, check_collection,
          "collection files in both directions; non-trivial: at least two documents", 300, 8000),
]
