"""C07: damaged or foreign document data is rejected."""
import io
import json
import os
import pickle
import tarfile
import tempfile

from .. import gen, wire
from ..core import Facet, Reject, Violation, need, same
from ..model import build, canon, encode, expected, repair
from hypothesis import strategies as st
from docria.codec import JsonCodec, MsgpackCodec, MsgpackDocument
from docria.collection import DocumentIO, DocumentReader, MsgpackDocumentIO, MsgpackDocumentReader, TarMsgpackReader

ASSUMPTIONS = ["damage other than truncation and a wrong header is not covered (the format has no checksum)",
               "truncated data may still give correct partial reads of the parts that are there"]


class NotSeekable(io.RawIOBase):
    def __init__(self, data):
        self._b = io.BytesIO(data)

    def readable(self):
        return True

    def readinto(self, b):
        d = self._b.read(min(len(b), 7))
        b[:len(d)] = d
        return len(d)


WAYS = [
    ("decode", lambda d: MsgpackCodec.decode(d)),
    ("decode stream", lambda d: MsgpackCodec.decode(io.BytesIO(d))),
    ("decode raw stream", lambda d: MsgpackCodec.decode(NotSeekable(d))),
    ("lazy", lambda d: MsgpackDocument(d).document()),
    ("lazy stream", lambda d: MsgpackDocument(io.BytesIO(d)).document()),
]


def must_fail(fn, what):
    try:
        r = fn()
    except StopIteration:
        raise Violation("%s: raised StopIteration, which ends an iteration silently" % what)
    except Exception:
        return
    raise Violation("%s: was accepted, giving %r" % (what, r))


def inside(reader):
    out = []
    with reader as r:
        for d in r:
            out.append(d.document() if isinstance(d, MsgpackDocument) else d)
    return out


def inside_tar(data, part):
    with tempfile.TemporaryDirectory() as where:
        path = os.path.join(where, "docs.tar")
        with tarfile.open(path, mode="w") as t:
            for i, d in enumerate((data, part, data)):
                m = tarfile.TarInfo("%d.docria" % i)
                m.size = len(d)
                t.addfile(m, io.BytesIO(d))
        return inside(TarMsgpackReader(path, mode="r"))


def positions(data, picks):
    n = len(data)
    if n <= 160:
        return list(range(n))
    return sorted({p % n for p in picks} | {0, 3, 4, 5, n - 1, n - 2, n // 2})


def check_prefix(plan, rec):
    model, (w,) = build(plan)
    repair(model, [w])
    data = encode(w.doc)
    want = expected(model, drop_empty=True)
    cuts = positions(data, plan["cuts"])
    rec.label("%d layers" % len(model.layers), "every position" if len(cuts) == len(data) else "sampled positions")
    rec.hit(len(model.layers) > 0)
    for k, cut in enumerate(cuts):
        name, fn = WAYS[(k + plan["way"]) % len(WAYS)]
        must_fail(lambda: fn(data[:cut]), "%s of %d of %d bytes" % (name, cut, len(data)))
    part = data[:cuts[plan["cuts"][0] % len(cuts)]]
    # an iteration over documents must not end early because one is damaged
    must_fail(lambda: list(map(MsgpackCodec.decode, [data, part, data])), "iteration over documents, the second cut to %d bytes" % len(part))
    must_fail(lambda: [d for d in (MsgpackDocument(x).document() for x in [data, part, data])],
              "lazy iteration over documents, the second cut to %d bytes" % len(part))
    raw = wire.write_collection(wire.Writer([0]), "none", 2, [[data, part], [data]], lambda b: b)
    must_fail(lambda: list(DocumentReader(MsgpackDocumentReader(io.BytesIO(raw)))),
              "reading a collection holding a document cut to %d bytes" % len(part))
    opens = [lambda f: DocumentReader(MsgpackDocumentReader(f)), MsgpackDocumentReader, DocumentIO.readfile, MsgpackDocumentIO.readfile]
    must_fail(lambda: inside(opens[plan["way"] % 4](io.BytesIO(raw))), "reading it in a with statement")
    if plan["way"] == 0:
        must_fail(lambda: inside_tar(data, part), "reading a tar archive holding it in a with statement")
    same(canon(MsgpackCodec.decode(data), drop_empty=True), want, "intact document decoded afterwards")
    good = MsgpackDocument(data)
    if len(part) >= 4:
        bad = MsgpackDocument(part)
        must_fail(bad.document, "lazy decoding of %d of %d bytes" % (len(part), len(data)))
        must_fail(bad.document, "second lazy decoding of %d of %d bytes" % (len(part), len(data)))
    same(canon(good.document(), drop_empty=True), want, "other view decoded after a failure")


@st.composite
def prefix_plans(draw):
    p = draw(gen.document(maxlayers=3, big=False))
    p["cuts"] = draw(st.lists(st.integers(0, 100000), min_size=12, max_size=40))
    p["way"] = draw(st.integers(0, 4))
    return p


def check_header(plan, rec):
    body = wire.write_document(wire.Writer([0]), {"props": {"a": 1}, "types": [], "schema": {}, "texts": {"main": ["abc"]}, "layers": {}})
    head = plan["head"]
    data = head + (body[4:] if plan["body"] else b"")
    if data[:4] == b"DM_1":
        raise Reject()
    rec.hit(len(head) == 4 and plan["body"])
    for name, fn in WAYS:
        must_fail(lambda: fn(data), "%s of data starting with %r" % (name, data[:8]))
    must_fail(lambda: MsgpackDocument(data), "view of data starting with %r" % data[:8])
    must_fail(lambda: MsgpackDocument(io.BytesIO(data)), "view of a stream starting with %r" % data[:8])
    # pickled views and documents whose bytes were damaged there
    good = pickle.dumps(plan["pickled"] % 2 and MsgpackDocument(body) or MsgpackCodec.decode(body), (plan["pickled"] // 2) % 4 + 2)
    if len(head) == 4 and good.count(b"DM_1") == 1:
        bad = good.replace(b"DM_1", head)
        must_fail(lambda: pickle.loads(bad), "unpickling with the header %r" % head)
    if data[:4] != b"Dmf1":
        must_fail(lambda: MsgpackDocumentReader(io.BytesIO(data)), "collection starting with %r" % data[:8])


def headers():
    near = st.tuples(st.integers(0, 3), st.integers(0, 255)).map(
        lambda t: b"DM_1"[:t[0]] + bytes([t[1]]) + b"DM_1"[t[0] + 1:])
    return st.fixed_dictionaries({
        "head": st.one_of(near, near, st.binary(max_size=6), st.sampled_from((b"DM_2", b"DM10", b"dm_1", b"Dmf1", b"DM_", b"", b"\x00DM_1"))),
        "pickled": st.integers(0, 7), "body": st.sampled_from((True, True, True, False))})


def check_json(plan, rec):
    model, (w,) = build(plan)
    repair(model, [w])
    text = JsonCodec.encode(w.doc)
    rec.hit(len(model.layers) > 0)
    for cut in positions(text, plan["cuts"]):
        must_fail(lambda: JsonCodec.decode(text[:cut]), "JSON decoding of %d of %d characters" % (cut, len(text)))
    obj = json.loads(text)
    for other in ([], "DM10", 1, None, {}, {"DM11": obj["DM10"]}, {"dm10": obj["DM10"]}, [obj], obj["DM10"]):
        must_fail(lambda: JsonCodec.decode(json.dumps(other)), "JSON decoding of another kind of value")
    same(canon(JsonCodec.decode(text), drop_empty=True), expected(model, drop_empty=True), "intact document decoded afterwards")


@st.composite
def json_plans(draw):
    p = draw(gen.document(binary=False, maxlayers=3, big=False))
    p["cuts"] = draw(st.lists(st.integers(0, 100000), min_size=12, max_size=60))
    return p


def check_file_header(plan, rec):
    """A collection file with another magic, an unknown codec or the unknown mode flag set is refused at once."""
    doc = wire.write_document(wire.Writer([0]), {"props": {"a": 1}, "types": [], "schema": {}, "texts": {"main": ["abc"]}, "layers": {}})
    w = wire.Writer(plan["widths"])
    magic, codec = plan["magic"], plan["codec"]
    head = [magic, w.value(codec), w.int(plan["per"]), b"\xc3" if plan["flag"] else b"\xc2"]
    data = b"".join(head)
    cut = plan["cut"] % (len(data) + 1) if plan["cut"] is not None else None
    if cut is not None and cut < len(data):
        data = data[:cut]
        intact = False
    else:
        intact = magic == b"Dmf1" and codec == "none" and not plan["flag"]
        data += w.value(w.value(doc)) if plan["body"] else b""
    rec.label("intact" if intact else "damaged")
    rec.hit(not intact and magic == b"Dmf1")
    opens = [lambda f: MsgpackDocumentReader(f), lambda f: MsgpackDocumentIO.readfile(f), lambda f: DocumentIO.readfile(f)]
    for make in opens:
        if intact:
            r = make(io.BytesIO(data))
            same(len(list(r)), int(plan["body"]), "documents of an intact file")
        else:
            # StopIteration would end a loop over several files silently
            must_fail(lambda: make(io.BytesIO(data)), "file starting with %r" % data[:24])


def file_headers():
    near = st.tuples(st.integers(0, 3), st.integers(0, 255)).map(lambda t: b"Dmf1"[:t[0]] + bytes([t[1]]) + b"Dmf1"[t[0] + 1:])
    return st.fixed_dictionaries({
        "magic": st.one_of(st.just(b"Dmf1"), st.just(b"Dmf1"), near, st.sampled_from((b"DM_1", b"Dmf2", b"dmf1"))),
        "codec": st.sampled_from(("none", "none", "none", "None", "", "gzip", "x", "zip2", "raw", 5, None)), "per": st.sampled_from((1, 128, 70000)),
        "flag": st.sampled_from((False, False, True)), "cut": st.sampled_from((None, None, 0, 1, 3, 4, 5, 7, 9, 10)),
        "body": st.booleans(), "widths": st.lists(st.integers(0, 9), min_size=1, max_size=4)})


FACETS = [
    Facet("truncated", prefix_plans, check_prefix,
          "generated documents cut at every byte (up to 160 bytes) or at sampled bytes; non-trivial: the document has layers", 700, 15000),
    Facet("header", headers, check_header, "wrong headers, mostly one byte off; non-trivial: four header bytes and an intact rest", 1500, 20000),
    Facet("file header", file_headers, check_file_header,
          "collection headers with another magic, codec or flag, or cut short; non-trivial: damaged with the right magic", 800, 10000),
    Facet("JSON", json_plans, check_json, "cut JSON texts and other JSON values; non-trivial: the document has layers", 300, 6000),
]
