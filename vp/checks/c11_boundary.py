"""C11: the boundary-segmented stream is a transparent byte stream."""
import io
import struct

from .. import wire
from ..core import Facet, need, raises, same
from ..coll import CODECS, Docs, Dribble, Keep, available, bigshapes, shape
from ..model import canon
from hypothesis import strategies as st
from docria.collection import DocumentReader, MsgpackDocumentReader, MsgpackDocumentWriter, _BoundaryReader, _BoundaryWriter, get_codec

ASSUMPTIONS = ["segments of 4 KiB to 1 MiB are explored, larger ones only with content that fits one segment; a record further back than 2 GiB is out of reach",
               "write() takes bytes or bytearray; read() takes an int"]
BLOB = bytes((i * 7 + (i >> 8) * 13 + (i >> 12)) % 251 for i in range(1 << 17))


def data(start, n):
    return (BLOB[start % 1000:] + BLOB * (n // len(BLOB) + 1))[:n]


def raw_position(o, e):
    """Storage position of payload byte o, before a marker that precedes it."""
    size = 1 << e
    if o <= size - 1:
        return o + 1
    full, rem = divmod(o - (size - 1), size - 4)
    return (full + 1) * size + (4 + rem if rem else 0)


def desegment(raw, e):
    """Raw storage -> (payload, [(marker position, value)])."""
    same(raw[:1], bytes([e]), "first byte: the segment exponent")
    payload, markers = [], []
    size = 1 << e
    p = 1
    while p < len(raw):
        if p % size == 0:
            need(len(raw) > p + 4, "a segment at %d without content", p)
            markers.append((p, struct.unpack(">i", raw[p:p + 4])[0]))
            p += 4
        end = min(len(raw), (p // size + 1) * size)
        payload.append(raw[p:end])
        p = end
    return b"".join(payload), markers


def size_of(spec, e, done):
    """How many bytes a write or read step means: plain, or relative to the next segment edge."""
    kind, n = spec
    if kind == "n":
        return n
    size = 1 << e
    if kind == "edge":
        at = raw_position(done, e)
        left = size - at % size
        return max(0, left + n)
    return max(0, size * (1 + n % 3) + n // 3)


def check(plan, rec):
    e = plan["exp"]
    rec.label("exponent:%d" % e)
    out = Keep()
    w = _BoundaryWriter(out, boundary=e)
    same((bool(w.writable()), bool(w.readable())), (True, False), "writer writable, readable")
    payload, last, want_markers, starts = b"", 0, {}, [0]
    for op in plan["writes"]:
        if op[0] == "split":
            w.split()
            starts.append(len(payload))
        else:
            n = min(size_of(op[1], e, len(payload)), max(60000, 3 << e))
            chunk = data(op[2], n)
            w.write(bytearray(chunk) if op[2] % 2 else chunk)
            payload += chunk
    w.close()
    need(getattr(out, "was_closed", False), "the underlying file was not closed")
    raw = out.getvalue()
    got, markers = desegment(raw, e)
    same(got, payload, "payload in the storage")
    for p, v in markers:
        # the last record start at or before the marker, in writing order
        before = [o for o in starts if raw_position(o, e) <= p]
        same(v, raw_position(before[-1], e) - p, "marker at %d" % p)
    rec.label("segments:%s" % min(4, len(markers) + 1))

    r = _BoundaryReader(Dribble(raw, plan["dribble"]) if plan.get("dribble") else io.BytesIO(raw))
    rec.label("short reads" if plan.get("dribble") else "full reads")
    same((bool(r.readable()), bool(r.writable()), bool(r.seekable())), (True, False, True), "reader readable, writable, seekable")
    pos, crossed, sought = 0, 0, 0
    for op in plan["reads"]:
        same(r.tell(), pos, "tell()")
        if op[0] == "seek":
            o = op[2] % (len(payload) + 1)
            if op[1][0] == "edge":     # close to the payload position of a segment edge
                k = op[2] % 5
                o = max(0, min(len(payload), ((1 << e) - 1) + k * ((1 << e) - 4) + op[1][1]))
            same(r.seek(o), o, "result of seek")
            pos = o
            sought += 1
        else:
            n = -1 if op[0] == "all" else size_of(op[1], e, pos)
            b = r.read(n)
            want = payload[pos:] if n < 0 else payload[pos:pos + n]
            need(isinstance(b, bytes), "read gave %r", type(b))
            same(b, want, "read(%d) at %d of %d" % (n, pos, len(payload)))
            crossed += raw_position(pos, e) >> e != raw_position(pos + len(b), e) >> e
            pos += len(b)
    same(r.tell(), pos, "tell()")
    rest = []
    while True:
        b = r.read(1000)
        if not b:
            break
        rest.append(b)
    same(b"".join(rest), payload[pos:], "what is left")
    rec.hit(len(markers) > 0 and (crossed > 0 or sought > 0))


def sizespec():
    return st.one_of(st.tuples(st.just("n"), st.sampled_from((0, 1, 2, 3, 4, 5, 7, 100, 1000, 4090, 4092, 4095, 4096, 4097, 5000, 12288))),
                     st.tuples(st.just("edge"), st.sampled_from((0, 0, 0, -1, -2, -3, -4, -5, 1, 2, 3, 4, 5, 6, 4092, 4096))),
                     st.tuples(st.just("seg"), st.integers(0, 12)),
                     st.tuples(st.just("n"), st.integers(0, 3000))).map(list)


@st.composite
def plans(draw):
    wr = st.one_of(st.tuples(st.just("w"), sizespec(), st.integers(0, 999)), st.tuples(st.just("w"), sizespec(), st.integers(0, 999)),
                   st.tuples(st.just("split")))
    rd = st.one_of(st.tuples(st.just("read"), sizespec()), st.tuples(st.just("read"), sizespec()),
                   st.tuples(st.just("seek"), sizespec(), st.integers(0, 60000)), st.tuples(st.just("all"), sizespec()))
    dribble = st.lists(st.sampled_from((1, 1, 2, 3, 4, 5, 100, 4000, 4095, 4096, 5000)), min_size=1, max_size=5)
    return {"exp": draw(st.sampled_from((12, 12, 12, 13, 14))), "dribble": draw(st.one_of(st.just([]), dribble)),
            "writes": [list(x) for x in draw(st.lists(wr, min_size=2, max_size=14))],
            "reads": [list(x) for x in draw(st.lists(rd, max_size=14))]}


def check_collection(plan, rec):
    e = plan["exp"]
    docs = Docs(plan["shapes"])
    codec = plan["codec"] if plan["codec"] in available() else "zip"
    rec.label("codec:" + codec)
    out = Keep()
    w = MsgpackDocumentWriter(_BoundaryWriter(out, boundary=e), num_docs_per_block=plan["per"], codec=get_codec(codec))
    order = []
    for op in plan["ops"]:
        if op[0] == "flush":
            w.flush()
        else:
            order.append(op[1] % len(docs.docs))
            w.write(docs.given(order[-1], op[2]))
    w.close()
    raw = out.getvalue()
    payload, markers = desegment(raw, e)
    name, per, blocks = wire.parse_collection(payload, get_codec(codec).decompress)
    same([d for _, b in blocks for _, d in b], [docs.data[i] for i in order], "documents in the payload")
    starts = [0] + [p for p, _ in blocks] + [len(payload)]
    for p, v in markers:
        before = [o for o in starts if raw_position(o, e) <= p]
        same(v, raw_position(before[-1], e) - p, "marker at %d" % p)
    rec.label("segments:%s" % min(4, len(markers) + 1))
    rec.hit(len(markers) > 0 and len(blocks) > 1)

    r = MsgpackDocumentReader(_BoundaryReader(io.BytesIO(raw)))
    got = list(r)
    same([d.binary() == docs.data[i] for d, i in zip(got, order)], [True] * len(order), "documents read in order")
    same(len(got), len(order), "number of documents")
    same([d.ref for d in got], [(p, q) for p, b in blocks for q, _ in b], "references")
    for k in plan["gets"]:
        if got:
            k %= len(got)
            rd = r if plan["same"] else MsgpackDocumentReader(_BoundaryReader(Dribble(raw, [1, k + 3, 4096])))
            d = rd.get(got[k].ref)
            same((d.ref, d.binary() == docs.data[order[k]]), (got[k].ref, True), "document fetched by reference")
    for k in plan["seeks"]:
        if blocks:
            k %= len(blocks)
            r.seek(blocks[k][0])
            first = sum(len(b) for _, b in blocks[:k])
            same([d.binary() == docs.data[i] for d, i in zip(r, order[first:])], [True] * (len(order) - first), "documents after a seek")
    if plan["same"]:
        with DocumentReader(MsgpackDocumentReader(_BoundaryReader(io.BytesIO(raw)))) as dr:
            same([d.props["i"] for d in dr], order, "decoded documents")


@st.composite
def coll_plans(draw):
    op = st.one_of(*[st.tuples(st.just("w"), st.integers(0, 9), st.integers(0, 3))] * 5, st.tuples(st.just("flush"))).map(list)
    big = st.tuples(st.sampled_from((1, 20, 100)), st.sampled_from((0, 1, 5)), st.sampled_from((3000, 3700, 4000, 4100, 9000, 300)))
    return {"exp": draw(st.sampled_from((12, 12, 12, 13))), "codec": draw(st.sampled_from(("none", "none", "none", "zip", "lz4"))),
            "shapes": draw(st.lists(st.one_of(big.map(list), big.map(list), shape()), min_size=1, max_size=4)),
            "per": draw(st.sampled_from((1, 2, 3, 4))), "same": draw(st.booleans()),
            "ops": [["w", i, 0] for i in range(draw(st.integers(0, 6)))] + draw(st.lists(op, min_size=3, max_size=12)),
            "gets": draw(st.lists(st.integers(0, 30), max_size=5)), "seeks": draw(st.lists(st.integers(0, 30), max_size=3))}


@st.composite
def bigplans(draw):
    """Larger segments."""
    plan = draw(plans())
    plan["exp"] = e = draw(st.sampled_from((15, 16, 16, 17, 18, 20)))
    part = st.tuples(st.just("seg"), st.integers(0, 12)).map(list)
    for k in range(draw(st.integers(1, 3))):
        plan["writes"].insert(0, ["w", draw(part), k])
    size = 1 << e
    plan["reads"] += [list(x) for x in draw(st.lists(st.tuples(
        st.just("seek"), st.just(["n", 0]), st.integers(0, 3 * size)), min_size=1, max_size=3))]
    plan["reads"] += [["read", ["edge", draw(st.integers(-5, 5))]], ["read", ["n", 7]], ["seek", ["edge", draw(st.integers(-5, 5))], 1], ["read", ["n", 9]]]
    return plan


@st.composite
def bigcolls(draw):
    plan = draw(coll_plans())
    plan["exp"] = draw(st.sampled_from((12, 13, 14, 16, 18)))
    plan["shapes"] = draw(bigshapes(300000))
    plan["ops"] = plan["ops"][:7]
    return plan


def check_exponent(plan, rec):
    e = plan["exp"]
    rec.hit()
    if 12 <= e <= 30:
        out = Keep()
        w = _BoundaryWriter(out, boundary=e)
        w.write(data(e, plan["n"]))
        w.close()
        same(out.getvalue()[0], e, "first byte")
        same(_BoundaryReader(io.BytesIO(out.getvalue())).read(), data(e, plan["n"]), "content with exponent %d" % e)
    else:
        raises(ValueError, lambda: _BoundaryWriter(Keep(), boundary=e), "a writer with exponent %d" % e)
        if 0 <= e < 256:
            raises(IOError, lambda: _BoundaryReader(io.BytesIO(bytes([e]) + b"abc")), "a stream with exponent %d" % e)


FACETS = [
    Facet("byte stream", plans, check,
          "up to 14 writes/splits and 14 reads/seeks sized around segment edges; non-trivial: several segments and a read across an edge "
          "or a seek", 2500, 80000,
          examples=[{"exp": 20, "writes": [["w", ["n", 60000], i] for i in range(20)] + [["split"]] + [["w", ["seg", 0], 5]] * 3
                     + [["w", ["edge", -1], 3], ["split"], ["w", ["n", 5], 8]],
                     "reads": [["seek", ["edge", -2], 0], ["read", ["n", 5]], ["seek", ["edge", 0], 0], ["read", ["n", 3]], ["all", ["n", 0]]]}]),
    Facet("collections", coll_plans, check_collection,
          "collection files of up to 14 documents over segments of 4-8 KiB; non-trivial: several segments and blocks", 1000, 20000),
    Facet("large segments", bigplans, check, "segments of 32 KiB to 1 MiB", 120, 3000, case_seconds=90),
    Facet("large collections", bigcolls, check_collection, "collection files with documents of up to 300 kB over segments of 4 to 256 KiB",
          60, 1500, case_seconds=90),
    Facet("segment sizes", lambda: st.fixed_dictionaries({"exp": st.integers(-1, 260), "n": st.integers(0, 9000)}), check_exponent,
          "every exponent; always non-trivial", 300, 1000,
          examples=[{"exp": e, "n": n} for e in range(10, 33) for n in (0, 1, 4094, 4095, 4096, 8190, 8192)]),
]
