"""C25: XML export is well-formed and faithful."""
import base64
import re
import xml.etree.ElementTree as ET
from .. import gen
from ..core import Facet, need, same
from ..model import apply, build, canon, expected, refused, repair
from .c01_binary_roundtrip import large
from hypothesis import strategies as st
from docria.codec import XmlCodec
from docria.model import DataTypes as T, Document

ASSUMPTIONS = ["layer and field names and the document id are XML names", "fields hold the serialisable types except EXT",
               "empty reference arrays may be left out"]
TYPES = {"i32": "I32", "i64": "I64", "f64": "F64", "i1": "BOOL", "str": "STRING", "bin": "BINARY", "span": "SPAN",
         "noderef": "NODEREF", "noderef_array": "NODEREF_MANY", "nodespan": "NODEREF_SPAN"}
XMLID = "{http://www.w3.org/XML/1998/namespace}id"


def allowed(c):
    o = ord(c)
    return o in (9, 10, 13) or 0x20 <= o <= 0xD7FF or 0xE000 <= o <= 0xFFFD or 0x10000 <= o <= 0x10FFFF


def matches(got, want):
    """Equal, except that characters XML cannot represent may be blanks."""
    return len(got) == len(want) and all(g == w if allowed(w) else g == " " for g, w in zip(got, want))


def text_same(got, want, what):
    need(got is not None and matches(got, want), "%s: got %.300r, want %.300r", what, got, want)


def children(e, *tags):
    same([c.tag for c in e], list(tags), "elements of <%s>" % e.tag)
    return list(e)


def check(plan, rec):
    model, (w,) = build(plan)
    repair(model, [w])
    opts = dict(plan["options"])
    for i, ml in enumerate(model.layers.values()):
        if opts.get("extra_fields_ok") and ml.nodes and not i:
            w.node[ml.nodes[0]]["extra field\x00"] = 1
    doc = w.doc
    before = canon(doc)
    xml = XmlCodec.encode_utf8string(doc, **opts)
    same(canon(doc), before, "the document after the export")
    need(isinstance(xml, str), "encode_utf8string returned %r", type(xml))
    for what, root in (("encode_utf8string", ET.fromstring(xml)), ("encode_tree", ET.fromstring(ET.tostring(XmlCodec.encode_tree(doc, **opts).getroot(), "utf-8")))):
        read(model, root, opts, what, rec)
    n = sum(len(ml.nodes) for ml in model.layers.values())
    rec.label("verbose" if opts.get("verbose") else "terse")
    if not all(allowed(c) for t in model.texts.values() for c in t):
        rec.label("text with unrepresentable characters")
    rec.hit(n >= 3 and any(x.fields for ml in model.layers.values() for x in ml.nodes))


def read(model, root, opts, what, rec):
    same(root.tag, "document", what)
    ident = opts.get("document_id", "")
    same(root.get(XMLID), ident or None, what + ": document id")
    prefix = ident + "." if ident else ""
    props, schema, texts, layers = children(root, "props", "schema", "texts", "layers")
    same(len(props), len(model.props), what + ": number of properties")
    for e, (k, v) in zip(props, model.props.items()):
        text_same(e.get("key"), k, what + ": property name")
        text_same(e.get("value"), str(v), what + ": property %r" % k)
    # schema
    types = {}
    same([e.get("layer") for e in schema], list(model.layers), what + ": layers defined")
    for e, ml in zip(schema, model.layers.values()):
        same([f.get("name") for f in e], list(ml.fields), what + ": fields of %r" % ml.name)
        for f, (name, (typ, arg, default)) in zip(e, ml.fields.items()):
            args = {a.get("key"): a.get("value") for a in f}
            from ..model import ENUM, default_value
            need(f.get("type") in TYPES, "%s: type %r", what, f.get("type"))
            same(TYPES[f.get("type")], ENUM[typ], what + ": type of %r" % name)
            types[ml.name, name] = typ
            if typ in gen.LINKS:
                same(args, {"layer": arg}, what + ": arguments of %r" % name)
            elif typ == "span":
                same(list(args), ["context"], what + ": arguments of %r" % name)
                text_same(args["context"], arg, what + ": text of %r" % name)
            else:
                d = default_value(typ, default)
                same(list(args), [] if d is None else ["default"], what + ": arguments of %r" % name)
                if d is not None:
                    scalar(typ, args["default"], d, what + ": default of %r" % name)
    # texts
    cuts = {}
    same(len(texts), len(model.texts), what + ": number of texts")
    for e, (name, text) in zip(texts, model.texts.items()):
        text_same(e.get("name"), name, what + ": name of text %r" % name)
        sep = children(e, "sep", "raw")[0] if opts.get("verbose") else children(e, "sep")[0]
        pieces = [s.get("v") for s in sep]
        text_same("".join(pieces), text, what + ": text %r" % name)
        offs = [0]
        for p in pieces:
            offs.append(offs[-1] + len(p))
        cuts[name] = offs
        if opts.get("verbose"):
            text_same(e[1].get("value"), text, what + ": raw text %r" % name)
            same([(s.get("id"), s.get("start"), s.get("stop")) for s in sep],
                 [(str(i), str(offs[i]), str(offs[i + 1])) for i in range(len(pieces))], what + ": segments of text %r" % name)
    # nodes
    pos = {n: (ml.name, i) for ml in model.layers.values() for i, n in enumerate(ml.nodes)}
    same([e.get("name") for e in layers], list(model.layers), what + ": layers")
    for e, ml in zip(layers, model.layers.values()):
        same([n.tag for n in e], ["n"] * len(ml.nodes), what + ": nodes of %r" % ml.name)
        for i, (x, n) in enumerate(zip(e, ml.nodes)):
            node(model, ml, x, n, i, pos, cuts, prefix, opts, "%s: node %d of %r" % (what, i, ml.name), rec)


def scalar(typ, got, v, what):
    need(got is not None, "%s: missing", what)
    if typ in ("i32", "i64"):
        same(int(got), v, what)
    elif typ == "f64":
        same(repr(float(got)), repr(float(v)), what)
    elif typ == "i1":
        same(got, str(v), what)
    elif typ == "bin":
        same(base64.b64decode(got, validate=True), v, what)
    else:
        text_same(got, v, what)


def node(model, ml, x, n, i, pos, cuts, prefix, opts, what, rec):
    same(x.get(XMLID), "%s%s.%d" % (prefix, ml.name, i), what + ": id")
    attrs = {k: v for k, v in x.attrib.items() if k != XMLID}
    ds, arrays, shown = {}, {}, {}
    for c in x:
        name = c.get("key") if c.tag == "t" else c.get("name")
        box = {"d": ds, "a": arrays, "t": shown}.get(c.tag)
        need(box is not None and name not in box, "%s: unexpected <%s> for %r", what, c.tag, name)
        box[name] = c
    spans = {}
    for f, v in n.fields.items():
        typ, arg, _ = ml.fields[f]
        w = "%s, %s field %r" % (what, typ, f)
        if typ == "span":
            spans[f] = model.texts[v[1]][v[2]:v[3]]
            need(f in ds, "%s: missing", w)
            offs = cuts[arg]
            a, b = int(ds[f].get("from")), int(ds[f].get("until"))
            need(0 <= a <= b < len(offs), "%s: segments %d to %d of %d", w, a, b, len(offs) - 1)
            same((offs[a], offs[b]), (v[2], v[3]), w)
            ds.pop(f)
        elif typ == "nspan":
            need(f in ds, "%s: missing", w)
            same((ds[f].get("from"), ds[f].get("to")), tuple("%s.%d" % pos[t] for t in v[1:]), w)
            ds.pop(f)
        elif typ == "ref":
            same(attrs.pop(f, None), str(pos[v][1]), w)
        elif typ == "refs":
            if v or f in arrays:
                need(f in arrays, "%s: missing", w)
                same([y.get("v") for y in arrays.pop(f)], [str(pos[t][1]) for t in v], w)
        else:
            scalar(typ, attrs.pop(f, None), v, w)
            if typ == "str" and not all(allowed(c) for c in v):
                rec.label("value with unrepresentable characters")
        rec.label(typ)
    same((attrs, list(ds), list(arrays)), ({}, [], []), what + ": fields it does not have")
    if opts.get("verbose_node_spans"):
        same(sorted(shown), sorted(spans), what + ": spans spelled out")
        for f, s in spans.items():
            text_same(shown[f].get("value"), s, what + ", span %r spelled out" % f)
    else:
        same(list(shown), [], what + ": spans spelled out")


WILD = ("\ud800", "a\udfffb", "\ufffe", "\uffff", "\U0001fffe", "\x0b", "\x7f\x85", "]]>", "&amp;", "<!--", "\r\n", "\x08", "\ud83d\ude00", "'\"")


@st.composite
def plans(draw):
    plan = draw(gen.document(ops=gen.edit_ops(), xmlnames=True, big=draw(st.integers(0, 7)) == 7, need_layer=draw(st.integers(0, 9)) != 0,
                             need_text=draw(st.booleans())))
    plan["ops"] = [op for op in plan["ops"] if op[0] != "enc"]        # the texts below are not all valid UTF-8
    for i, t in enumerate(plan["texts"]):
        if draw(st.integers(0, 2)) == 2:
            t[0] = "%s%d" % (draw(st.sampled_from(gen.STR + WILD)), i)
        if draw(st.integers(0, 2)) == 2:
            t[1] = t[1] + [[draw(st.sampled_from(WILD)), 1], ["z", 2]]
    for la in plan["layers"]:
        for f in la["fields"]:
            if f[1] == "str" and draw(st.integers(0, 3)) == 3:
                la["cols"][f[0]]["vals"].append(draw(st.sampled_from(WILD)))
                if draw(st.integers(0, 3)) == 3:
                    f[3] = ["val", draw(st.sampled_from(WILD))]
    if draw(st.integers(0, 4)) == 4:
        plan["props"][draw(st.sampled_from(WILD))] = draw(st.sampled_from(WILD))
    opts = {}
    for k in ("verbose", "verbose_node_spans", "extra_fields_ok"):
        v = draw(st.sampled_from((True, None, True, False)))
        if v is not None:
            opts[k] = v
    if draw(st.booleans()):
        opts["document_id"] = draw(st.sampled_from(("d1", "doc-7", "\u00c5", "_x.y", "")))
    if draw(st.integers(0, 4)) == 4:
        opts["type_validation"] = draw(st.booleans())
    plan["options"] = opts
    return plan


@st.composite
def largeplans(draw):
    plan = draw(gen.large(ops=gen.edit_ops()))
    plan["options"] = {k: True for k in ("verbose", "verbose_node_spans") if draw(st.booleans())}
    return plan


FACETS = [
    Facet("documents", plans, check, "at least three nodes, some of them with field values", 3000, 40000),
    Facet("large documents", largeplans, large(check),
          "documents large in one or two of text, nodes, reference lists, strings, properties, layers, fields, name lengths, node spans, gaps; every case counts",
          30, 800, case_seconds=120),
]
