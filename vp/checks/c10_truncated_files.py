"""C10: a cut-short collection file yields only an intact prefix."""
import io
import os
import shutil
import tempfile

from ..core import Facet, Violation, need, same
from ..coll import CODECS, Docs, Keep, available, bigshapes, shape
from ..model import canon
from hypothesis import strategies as st
from docria.collection import (_BoundaryReader, _BoundaryWriter, DocumentIO, DocumentReader, MsgpackDocumentIO, MsgpackDocumentReader, MsgpackDocumentWriter, get_codec)

ASSUMPTIONS = ["the storage keeps a prefix of the bytes written (no reordering of writes)", "num_docs_per_block is at least 1"]
READERS = ("encoded", "blocks", "block documents", "decoded", "readblock")


def stream(reader, f):
    """Yields (as comparable data) what the reader gives."""
    if reader == "encoded":
        for d in MsgpackDocumentReader(f):
            yield d.binary()
    elif reader == "blocks":
        for b in MsgpackDocumentReader(f).blocks():
            for d in b:
                yield d.binary()
    elif reader == "block documents":
        for b in MsgpackDocumentReader(f).blocks():
            for _, d in b.documents():
                yield d.binary()
    elif reader == "readblock":
        r = MsgpackDocumentReader(f)
        while True:
            b = r.readblock()
            if b is None:
                return
            for d in b:
                yield d.binary()
    else:
        for d in DocumentReader(MsgpackDocumentReader(f)):
            yield canon(d)


def check_cut(f, reader, docs, order, atleast, what):
    """Read an opened, cut file: an intact prefix of at least `atleast` documents."""
    got = 0
    error = None
    it = stream(reader, f)
    while True:
        try:
            v = next(it)
        except StopIteration:
            break
        except Exception as e:      # a cut file may be reported
            error = e
            break
        need(got < len(order), "%s (%s): more documents than were written", what, reader)
        i = order[got]
        want = docs.data[i] if reader != "decoded" else docs.canon(i)
        same(v == want, True, "%s (%s): document %d intact" % (what, reader, got))
        got += 1
    need(got >= atleast, "%s (%s): %d documents read, but %d were completely on storage (then: %r)",
         what, reader, got, atleast, error)
    return got, error


class CDocs(Docs):
    def canon(self, i):
        if not hasattr(self, "_canon"):
            self._canon = {}
        if i not in self._canon:
            self._canon[i] = canon(self.docs[i])
        return self._canon[i]


def check(plan, rec):
    docs = CDocs(plan["shapes"])
    codec = plan["codec"] if plan["codec"] in available() else "zip"
    rec.label("codec:" + codec)
    out = Keep()
    w = MsgpackDocumentWriter(out, num_docs_per_block=plan["per"], codec=get_codec(codec))
    order, pending, ends = [], 0, [(len(out.getvalue()), 0)]
    for op in plan["ops"]:
        if op[0] == "flush":
            w.flush()
            pending = 0
        else:
            i = op[1] % len(docs.docs)
            w.write(docs.given(i, op[2]))
            order.append(i)
            pending = (pending + 1) % plan["per"]
        if pending == 0:
            ends.append((len(out.getvalue()), len(order)))
    w.close()
    data = out.getvalue()
    ends.append((len(data), len(order)))
    if len(data) <= 400 or plan["cuts"] == "all":
        cuts = range(len(data) + 1) if len(data) <= 1500 else range(0, len(data) + 1, len(data) // 700)
        rec.label("every cut" if len(data) <= 1500 else "evenly spaced cuts")
    else:
        cuts = set()
        for a, b in plan["cuts"]:
            end = ends[a % len(ends)][0]
            cuts.add(max(0, min(len(data), end + b)))
        for a, _ in plan["cuts"]:
            cuts.add(a * len(data) // 1000)
        cuts = sorted(c for c in cuts if c <= len(data))
    partial = 0
    for cut in cuts:
        atleast = max([n for e, n in ends if e <= cut], default=0)
        for reader in plan["readers"]:
            if reader == "decoded" and cut % 3:
                continue
            rec.label("reader:" + reader)
            got, _ = check_cut(io.BytesIO(data[:cut]), reader, docs, order, atleast, "cut at %d of %d" % (cut, len(data)))
            partial += 0 < got < len(order)
    rec.hit(partial > 0)


@st.composite
def op(draw):
    return draw(st.one_of(*[st.tuples(st.just("w"), st.integers(0, 9), st.integers(0, 3))] * 5, st.tuples(st.just("flush"))).map(list))


@st.composite
def plans(draw):
    near = st.tuples(st.integers(0, 1000), st.integers(-12, 12)).map(list)
    return {"shapes": draw(st.lists(shape(), min_size=1, max_size=4)), "codec": draw(st.sampled_from(CODECS)),
            "per": draw(st.sampled_from((2, 3, 1, 2, 4, 7, 128))),
            "ops": [["w", i, 0] for i in range(draw(st.integers(1, 6)))] + draw(st.lists(op(), max_size=10)),
            "cuts": draw(st.one_of(st.just("all"), st.lists(near, min_size=10, max_size=30))),
            "readers": draw(st.lists(st.sampled_from(READERS), min_size=1, max_size=2, unique=True))}


@st.composite
def bigplans(draw):
    plan = draw(plans())
    near = st.tuples(st.integers(0, 1000), st.integers(-12, 12)).map(list)
    plan["shapes"] = draw(bigshapes(300000))
    plan["codec"] = draw(st.sampled_from(("none", "zip", "lz4", "zstd")))
    plan["ops"] = [["w", i, 1] for i in range(draw(st.integers(2, 6)))] + draw(st.lists(op(), max_size=3))
    plan["cuts"] = draw(st.lists(near, min_size=4, max_size=12))
    return plan


# ---------------------------------------------------------------- a process that stops without closing

def check_crash(plan, rec):
    """What a reader finds in the file while the writer has not been closed."""
    docs = CDocs(plan["shapes"])
    codec = plan["codec"] if plan["codec"] in available() else "zip"
    tmp = tempfile.mkdtemp(prefix="vp-c10-")
    w = None
    try:
        path = os.path.join(tmp, "c.docria")
        if plan["via"] == 0:
            w = MsgpackDocumentWriter(path, num_docs_per_block=plan["per"], codec=get_codec(codec))
        elif plan["via"] == 1:
            w = DocumentIO.write(path, num_docs_per_block=plan["per"], codec=get_codec(codec))
        elif plan["via"] == 2:
            w = MsgpackDocumentWriter(open(path, "wb"), num_docs_per_block=plan["per"], codec=get_codec(codec))
        else:
            w = MsgpackDocumentWriter(_BoundaryWriter(open(path, "wb"), boundary=plan["boundary"]), num_docs_per_block=plan["per"], codec=get_codec(codec))
            rec.label("boundary-segmented")
        order, pending, safe = [], 0, 0
        for k, op in enumerate(plan["ops"]):
            if op[0] == "flush":
                w.flush()
                pending, safe = 0, len(order)
            else:
                i = op[1] % len(docs.docs)
                w.write(docs.given(i, op[2]))
                order.append(i)
                pending = (pending + 1) % plan["per"]
                if pending == 0:
                    safe = len(order)
            for reader in plan["readers"]:
                with open(path, "rb") as f:
                    if plan["via"] == 3 and os.path.getsize(path) == 0:
                        need(safe == 0, "nothing on storage after a flush")
                        continue
                    check_cut(_BoundaryReader(f) if plan["via"] == 3 else f, reader, docs, order, safe, "writer stopped after step %d" % k)
            rec.hit(0 < safe < len(order))
    finally:
        if w is not None:
            w.close()
        shutil.rmtree(tmp)


@st.composite
def crash_plans(draw):
    return {"shapes": draw(st.lists(shape(), min_size=1, max_size=3)), "codec": draw(st.sampled_from(CODECS)),
            "per": draw(st.sampled_from((2, 3, 1, 4, 128))), "via": draw(st.integers(0, 3)), "boundary": draw(st.sampled_from((12, 13, 20))),
            "ops": draw(st.lists(op(), min_size=2, max_size=10)),
            "readers": [draw(st.sampled_from(READERS))]}


FACETS = [
    Facet("cuts", plans, check,
          "collections of up to 16 documents cut at every byte (small files) or at and around block ends and at chosen fractions, read by "
          "one or two interfaces; non-trivial: at least one cut yields some but not all documents", 800, 20000),
    Facet("cuts of large files", bigplans, check, "the same with documents of up to 300 kB", 60, 1500, case_seconds=90),
    Facet("unclosed writers", crash_plans, check_crash,
          "a file on disk, plain or boundary-segmented, read after every step of its still open writer; non-trivial: some documents flushed and others not", 600, 10000),
]
