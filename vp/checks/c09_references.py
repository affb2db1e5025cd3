"""C09: a document reference always fetches the document it was issued for."""
import io

from ..core import Facet, Violation, need, same
from ..coll import CODECS, Docs, Keep, available, bigshapes, shape
from .c08_collections import op as write_op
from hypothesis import strategies as st
from docria.collection import MsgpackDocumentReader, MsgpackDocumentWriter, get_codec

ASSUMPTIONS = ["files are seekable", "which document iteration gives directly after readblock() (without a seek or a fetch) is not judged, "
               "its reference is",
               "seek() is given block positions only"]


def write(plan):
    """-> (file bytes, Docs, document numbers in order)"""
    docs = Docs(plan["shapes"])
    out = Keep()
    codec = plan["codec"] if plan["codec"] in available() else "zip"
    w = MsgpackDocumentWriter(out, num_docs_per_block=plan["per"], codec=get_codec(codec))
    order = []
    for o in plan["ops"]:
        if o[0] == "flush":
            w.flush()
        elif o[0] == "w":
            i = o[1] % len(docs.docs)
            w.write(docs.given(i, o[2]))
            order.append(i)
    w.close()
    return out.getvalue(), docs, order


def catalogue(data, docs, order):
    """References from one plain iteration: [(ref, bytes)] and the block structure they imply."""
    refs = []
    for d, i in zip(MsgpackDocumentReader(io.BytesIO(data)), order):
        same(d.binary() == docs.data[i], True, "document %d in plain iteration" % i)
        refs.append((d.ref, docs.data[i]))
    same(len(refs), len(order), "number of documents")
    need(len({r for r, _ in refs}) == len(refs), "two documents carry the same reference")
    blocks = []   # [(position, first document number, count)]
    for k, (ref, _) in enumerate(refs):
        if not blocks or blocks[-1][0] != ref[0]:
            blocks.append([ref[0], k, 0])
        blocks[-1][2] += 1
    need(len({b[0] for b in blocks}) == len(blocks), "documents of one block are not consecutive")
    return refs, blocks


def check(plan, rec):
    data, docs, order = write(plan)
    refs, blocks = catalogue(data, docs, order)
    rec.label("blocks:%s" % ("0" if not blocks else "1" if len(blocks) == 1 else "2+"))
    r = MsgpackDocumentReader(io.BytesIO(data))
    pos = 0          # number of the next document; None: not judged until the next seek or fetch
    nb = 0           # number of the next block readblock() gives; None: not judged
    got_one = side = False
    known = dict(refs)
    for kind, k in plan["steps"]:
        rec.label("step:" + kind)
        if kind == "next" and pos is not None:
            d = next(r, None)
            if pos < len(refs):
                need(d is not None, "iteration ended at document %d of %d", pos, len(refs))
                same((d.ref, d.binary() == refs[pos][1]), (refs[pos][0], True), "document %d in iteration" % pos)
                pos += 1
            else:
                need(d is None, "iteration gave document %r after the last one", d and d.ref)
            nb = None
        elif kind == "next":
            nb = None
            d = next(r, None)
            if d is not None:
                need(d.ref in known, "iteration after a block was read gave the reference %r, which no document has", d.ref)
                same(d.binary() == known[d.ref], True, "document given with the reference %r in iteration after a block was read" % (d.ref,))
        elif kind == "get" and refs:
            k %= len(refs)
            d = r.get(refs[k][0])
            same(d.binary() == refs[k][1], True, "document fetched by reference %r" % (refs[k][0],))
            same(d.ref, refs[k][0], "reference of a fetched document")
            got_one = True
            pos = None if side else k + 1
            nb = None
        elif kind == "fresh get" and refs:
            k %= len(refs)
            d = MsgpackDocumentReader(io.BytesIO(data)).get(refs[k][0])
            same(d.binary() == refs[k][1], True, "document fetched by reference %r from a fresh reader" % (refs[k][0],))
        elif kind == "seek" and blocks:
            k %= len(blocks)
            r.seek(blocks[k][0])
            pos, nb, side = blocks[k][1], k, False
        elif kind == "seek start of next" and blocks and pos is not None:
            nxt = [b for b in range(len(blocks)) if blocks[b][1] >= pos]
            if nxt:
                r.seek(blocks[nxt[0]][0])
                pos, nb = blocks[nxt[0]][1], nxt[0]
        elif kind == "block" and (nb is not None):
            b = r.readblock()
            if nb == len(blocks):
                need(b is None, "a block after the last one")
                continue
            need(b is not None, "no block where number %d of %d was expected", nb, len(blocks))
            block_check(b, blocks[nb], refs, k)
            nb += 1
            pos = None
        elif kind == "block":
            b = r.readblock()
            if b is not None:
                at = [x for x in blocks if x[0] == b.position]
                need(at, "a block read after iteration says it is at %r, where there is none", b.position)
                block_check(b, at[0], refs, k)
            pos, side = None, True      # iteration goes on with the block it was in, then after the one read
        elif kind == "mixed block" and blocks and refs:
            # a block read directly, then references of its documents through the same reader
            r.seek(blocks[k % len(blocks)][0])
            b = r.readblock()
            block_check(b, blocks[k % len(blocks)], refs, k)
            pos, nb, side = None, None, False
    rec.hit(len(blocks) > 1 and got_one)


def block_check(b, block, refs, k):
    at, first, count = block
    same(b.position, at, "block position")
    want = refs[first:first + count]
    if k % 3 == 0:
        for j, d in enumerate(b):
            need(j < count, "more documents in the block than expected")
            same((d.ref, d.binary() == want[j][1]), (want[j][0], True), "document %d of block at %d" % (j, at))
        if k % 2:
            return
    elif k % 3 == 1:
        for j in range(1 + k % count):
            d = next(b)
            same((d.ref, d.binary() == want[j][1]), (want[j][0], True), "document %d of block at %d" % (j, at))
    got = b.documents()
    same([p for p, _ in got], [r[1] for r, _ in want], "document positions in the block at %d" % at)
    for (p, d), (ref, data) in zip(got, want):
        same((d.ref, d.binary() == data), (ref, True), "document at %d of block %d" % (p, at))
    need(next(b, None) is None, "a document after the last one of the block at %d", at)
    if k % 5 < 3:
        got.reverse() if k % 5 else got.clear()
        same([(p, d.ref, d.binary() == x) for (p, d), (_, x) in zip(b.documents(), want)], [(r[1], r, True) for r, _ in want],
             "documents of the block at %d, listed again" % at)
    j = k % count
    b.seek(want[j][0][1])
    same(b.tell(), want[j][0][1], "position in the block after seek")
    d = next(b)
    same((d.ref, d.binary() == want[j][1]), (want[j][0], True), "document sought in block %d" % at)
    if j + 1 < count:
        same(b.tell(), want[j + 1][0][1], "position in the block after reading a document")
        d = next(b)
        same(d.binary() == want[j + 1][1], True, "document after the sought one")
    for t in (k // 2, k // 3 + 1, k // 4):
        j = t % count
        if t % 5 == 4:
            same([p for p, _ in b.documents()], [r[1] for r, _ in want], "document positions in the block at %d, listed again" % at)
        else:
            b.seek(want[j][0][1])
        if t % 5 != 4:
            same(b.tell(), want[j][0][1], "position in the block after another seek")
            d = next(b)
            same((d.ref, d.binary() == want[j][1]), (want[j][0], True), "document sought later in block %d" % at)
            if j + 1 < count:
                same(b.tell(), want[j + 1][0][1], "position in the block after reading a document sought later")
            if t % 2:
                same([(d.ref, d.binary() == x) for d, x in ((d, want[j + 1 + i][1]) for i, d in enumerate(b))],
                     [(r, True) for r, _ in want[j + 1:]], "rest of the block after a seek")


STEPS = ("next", "next", "next", "get", "get", "get", "fresh get", "seek", "seek", "seek start of next", "block", "block", "mixed block")


@st.composite
def plans(draw):
    return {"shapes": draw(st.lists(shape(), min_size=1, max_size=5)), "codec": draw(st.sampled_from(CODECS[:6])),
            "per": draw(st.sampled_from((2, 3, 1, 2, 4, 7, 128))),
            "ops": [["w", i, 0] for i in range(draw(st.integers(0, 9)))] + draw(st.lists(write_op(), min_size=1, max_size=20)),
            "steps": [list(s) for s in draw(st.lists(st.tuples(st.sampled_from(STEPS), st.integers(0, 60)), min_size=4, max_size=25))]}


@st.composite
def bigplans(draw):
    """Documents and blocks beyond the buffers of the reader."""
    plan = draw(plans())
    plan["shapes"] = draw(bigshapes(300000))
    plan["ops"] = [["w", i, 1] for i in range(draw(st.integers(2, 7)))]
    if draw(st.integers(0, 2)) == 2:      # many small documents around them
        plan["shapes"].append([1, 0, 1])
        n = len(plan["shapes"]) - 1
        plan["ops"] += [["w", n if k % 40 else 0, 1] for k in range(draw(st.sampled_from((100, 127, 128, 129, 300))))]
    return plan


def check_big(plan, rec):
    check(plan, rec)
    rec.hit()


FACETS = [
    Facet("reader histories", plans, check,
          "a collection of up to 20 documents and up to 25 interleaved iteration, fetch, seek and block steps on one reader; "
          "non-trivial: several blocks and at least one fetch", 2500, 60000),
    Facet("large blocks", bigplans, check_big, "the same with documents of up to 300 kB and up to 300 documents; every case counts",
          100, 2500, case_seconds=90),
]
