"""C08: collection files return what was written, in order."""
import io
import os
import shutil
import tempfile

from .. import wire
from ..core import Facet, Violation, need, raises, same
from ..model import canon, encode
from ..coll import CODECS, Arbitrary, Docs, Keep, arbitrary, available, bad_document, bigshapes, shape
from hypothesis import strategies as st
from docria.codec import MsgpackDocument
from docria.model import DataTypes as T, Document, Node
from docria.collection import (DocumentIO, DocumentReader, MsgpackDocumentIO, MsgpackDocumentReader, MsgpackDocumentWriter, get_codec,
                               register_codec, unregister_codec)

ASSUMPTIONS = ["codecs whose library is missing are skipped", "num_docs_per_block is at least 1"]


class Boom(Exception):
    pass


def with_extra(i, k, extra=True):
    """A document in which a node has a field that is not declared, and the same without it."""
    d = Document(i=1000 + k)
    tok = d.add_layer("token", id=T.int32)
    tok.add(Node(id=i, extra="x" * i) if extra else Node(id=i))
    tok.add(id=i + 1)
    return d


def read_all(data, plan, want, docs, rec, what):
    for reader in plan["readers"]:
        rec.label("reader:" + reader)
        f = Keep(data)
        if reader == "encoded":
            got = [d.binary() for d in MsgpackDocumentReader(f)]
        elif reader == "io":
            with MsgpackDocumentIO.readfile(f) as r:
                got = []
                for d in r:
                    need(isinstance(d, MsgpackDocument), "reader yields %r", d)
                    got.append(d.binary())
                need(next(r, None) is None, "the reader goes on after its end")
            need(getattr(f, "was_closed", False), "the file was not closed by the reader")
        elif reader == "blocks":
            got = [d.binary() for b in MsgpackDocumentReader(f).blocks() for d in b]
        elif reader == "block documents":
            got = [d.binary() for b in MsgpackDocumentReader(f).blocks() for _, d in b.documents()]
        elif reader == "reread block":       # some documents are taken before the list of all is asked for
            got = []
            for i, b in enumerate(MsgpackDocumentReader(f).blocks()):
                for _ in range((i + len(want)) % 4):
                    next(b, None)
                got += [d.binary() for _, d in b.documents()]
                need(next(b, None) is None, "a document after the list of all documents of a block")
        elif reader == "readblock":
            r, got = MsgpackDocumentReader(f), []
            while True:
                b = r.readblock()
                if b is None:
                    break
                got += [d.binary() for d in b]
        else:
            with (DocumentIO.readfile(f) if reader == "decoded io" else DocumentReader(MsgpackDocumentReader(f))) as r:
                got = [canon(d) for d in r]
            need(getattr(f, "was_closed", False), "the file was not closed by the reader")
            same(got, [canon(docs.docs[i]) for i in want], "%s, %s" % (what, reader))
            continue
        same([docs.data.index(g) if g in docs.data else g[:40] for g in got], want, "%s, documents read (%s)" % (what, reader))


READERS = ("encoded", "io", "blocks", "block documents", "reread block", "readblock", "decoded", "decoded io")


def check(plan, rec):
    docs = Docs(plan["shapes"])
    count = len(docs.docs)
    codec = plan["codec"] if plan["codec"] in available() else "zip"
    per = plan["per"]
    rec.label("codec:" + codec)
    custom = None
    tmp = path = None
    try:
        if plan["custom"]:
            custom = "x-verif"
            register_codec(custom, lambda b: b[::-1], lambda b: b[::-1])
            codec = custom
        if plan["target"] == "path":
            tmp = tempfile.mkdtemp(prefix="vp-c08-")
            path = os.path.join(tmp, "c.docria")
            out = path
        else:
            out = Keep()
        if plan["via"]:
            w = (DocumentIO.write if path else DocumentIO.writefile)(out, num_docs_per_block=per, codec=get_codec(codec))
        else:
            w = MsgpackDocumentWriter(out, num_docs_per_block=per, codec=get_codec(codec))
        want, pending, failed, given = [], 0, 0, None
        for op in plan["ops"]:
            if op[0] == "flush":
                w.flush()
                pending = 0
            elif op[0] == "extra":
                # undeclared fields are refused unless allowed, by the option handed on to the encoder
                d = with_extra(op[1], len(docs.data))
                raises((Exception,), lambda: w.write(d), "writing a document with an undeclared field")
                raises((Exception,), lambda: w.write(d, extra_fields_ok=False), "writing a document with an undeclared field")
                failed += 1
                w.write(d, extra_fields_ok=True)
                docs.docs.append(with_extra(op[1], len(docs.data), False))
                docs.data.append(encode(docs.docs[-1]))
                want.append(len(docs.data) - 1)
                pending = (pending + 1) % per
            elif op[0] == "fail":
                for bad in ((bad_document(),) if op[1] else (None, b"DM_1", object())):
                    try:
                        w.write(bad)
                    except Exception:
                        failed += 1
                    else:
                        raise Violation("writing %r succeeded" % (bad,))
            else:
                i = op[1] % count
                if op[0] == "again" and given is not None:      # the very object written before
                    i = given[0]
                else:
                    given = i, docs.given(i, op[2])
                w.write(given[1])
                want.append(i)
                pending = (pending + 1) % per
            if not path and pending == 0 and want:
                # a full or flushed block is complete on the storage
                same([d.binary() == docs.data[i] for d, i in zip(MsgpackDocumentReader(io.BytesIO(out.getvalue())), want)],
                     [True] * len(want), "documents on the storage after a flush")
        if plan["ctx"]:
            try:
                with w as entered:
                    need(entered is w, "with gives %r instead of the writer", entered)
                    if plan["boom"]:
                        raise Boom()
            except Boom:
                pass
            else:
                need(not plan["boom"], "an exception was swallowed by the writer")
        else:
            w.close()
        if path:
            with open(path, "rb") as f:
                data = f.read()
        else:
            need(getattr(out, "was_closed", False), "the underlying file was not closed")
            data = out.getvalue()
        blocks = (len(want) + per - 1) // per
        rec.label("blocks:%s" % ("0" if not want else "1" if blocks == 1 else "2+"), "failed writes" if failed else "no failed writes")
        if any(op[0] == "flush" for op in plan["ops"]):
            rec.label("flushes")
        rec.hit(len(want) >= 2 and (blocks > 1 or failed > 0 or len(want) % per != 0))
        read_all(data, plan, want, docs, rec, "codec %s, %d per block" % (codec, per))
        if path:
            with MsgpackDocumentReader(path) as r:
                same([docs.data.index(d.binary()) for d in r], want, "documents read from the path")
            with DocumentIO.read(path) as r:
                same([d.props["i"] for d in r], [docs.docs[i].props["i"] for i in want], "documents read from the path with DocumentIO")
            with MsgpackDocumentIO.read(path) as r:
                same([d.properties("i")["i"] for d in r], [docs.docs[i].props["i"] for i in want], "documents read from the path with MsgpackDocumentIO")
            try:
                MsgpackDocumentWriter(path)
            except FileExistsError:
                pass
            else:
                raise Violation("an existing file was opened for writing")
            with open(path, "rb") as f:
                same(f.read(), data, "existing file after the refused open")
            if plan["ctx"]:
                with MsgpackDocumentWriter(path, mode="wb") as w:
                    w.write(docs.given(0, 0))
                with MsgpackDocumentReader(path) as r:
                    same([d.binary() for d in r], [docs.data[0]], "overwritten file")
    finally:
        if custom:
            unregister_codec(custom)
        if tmp:
            shutil.rmtree(tmp)


def op():
    return st.one_of(*[st.tuples(st.just("w"), st.integers(0, 9), st.integers(0, 3))] * 4,
                     st.tuples(st.just("again"), st.integers(0, 9), st.integers(0, 3)),
                     st.tuples(st.just("flush")), st.tuples(st.just("fail"), st.booleans()),
                     st.tuples(st.just("extra"), st.integers(0, 3))).map(list)


@st.composite
def plans(draw):
    ops = [["w", i, i % 4] for i in range(draw(st.integers(0, 9)))] + draw(st.lists(op(), max_size=20))
    if draw(st.integers(0, 9)) == 9:   # longer than the default block
        n = draw(st.sampled_from((100, 127, 128, 129, 256, 257)))
        ops = ops + [["w", i, 1] for i in range(n)]
    return {"shapes": draw(st.lists(shape(), min_size=1, max_size=6)), "codec": draw(st.sampled_from(CODECS)),
            "custom": draw(st.integers(0, 14)) == 14,
            "per": draw(st.sampled_from((1, 2, 3, 4, 5, 7, 128, 1000))), "ops": ops,
            "boom": draw(st.booleans()),
            "target": draw(st.sampled_from(("memory", "memory", "memory", "path"))), "ctx": draw(st.booleans()), "via": draw(st.booleans()),
            "readers": draw(st.lists(st.sampled_from(READERS), min_size=1, max_size=3, unique=True))}


@st.composite
def bigplans(draw):
    """Blocks beyond the buffer sizes of readers (16 KiB, 64 KiB, 1 MiB)."""
    plan = draw(plans())
    plan["shapes"] = draw(bigshapes())
    n = draw(st.integers(1, 6))
    plan["ops"] = [["w", i, draw(st.integers(0, 3))] for i in range(n)]
    if draw(st.booleans()):
        plan["ops"].insert(draw(st.integers(0, n)), draw(st.sampled_from((["flush"], ["fail", True]))))
    if plan["codec"] == "zstd:ultra":
        plan["codec"] = "zstd"
    return plan


def check_big(plan, rec):
    check(plan, rec)
    rec.hit()


# ---------------------------------------------------------------- storage that fails for a while

class Flaky(Keep):
    """Refuses some write or flush calls without storing anything."""

    def __init__(self, faults):
        super().__init__()
        self.faults, self.calls, self.raised = faults, 0, 0

    def fault(self, kind):
        self.calls += 1
        if (self.calls, kind) in self.faults:
            self.raised += 1
            raise OSError(28, "No space left on device")

    def write(self, data):
        self.fault("w")
        return super().write(data)

    def flush(self):
        self.fault("f")


def check_faults(plan, rec):
    docs = Docs(plan["shapes"])
    per = plan["per"]
    out = Flaky({(4 + c, k) for c, k in plan["faults"]})       # the header takes four writes
    broken = []
    lib = library(plan["codec"])

    def compress(b):
        if broken and broken.pop():
            raise MemoryError("verif")
        return lib[0](b)

    name = "x-flaky"
    register_codec(name, compress, lib[1], codec_name=plan["codec"])
    must, seen = [], 0          # [document, certain]
    try:
        w = MsgpackDocumentWriter(out, num_docs_per_block=per, codec=get_codec(name))
        for op in plan["ops"]:
            if op[0] == "break":
                broken[:] = [True]
            elif op[0] == "flush":
                try:
                    w.flush()
                except (OSError, MemoryError):
                    seen += 1
            else:
                i = op[1] % len(docs.docs)
                try:
                    w.write(docs.given(i, op[2]))
                except (OSError, MemoryError):
                    seen += 1
                    must.append((i, False))
                else:
                    must.append((i, True))
        broken[:] = []
        out.faults = set()
        w.flush()
        w.close()
    finally:
        unregister_codec(name)
    with MsgpackDocumentReader(io.BytesIO(out.getvalue())) as r:
        got = [d.binary() for d in r]
    # every accepted document once and in order; one whose write raised may be there, at its place
    k = 0
    left = [docs.data[i] for i, _ in must]
    match = {0}                 # positions in `left` reachable after matching a prefix of got
    for n, g in enumerate(got):
        nxt = set()
        for k in match:
            j = k
            while j < len(left):
                if left[j] == g:
                    nxt.add(j + 1)
                if must[j][1]:
                    break
                j += 1
        need(nxt, "document %d read is not one that was to come after %d refusals (%s)", n, seen, plan["ops"])
        match = nxt
    need(any(all(not c for _, c in must[k:]) for k in match), "accepted documents are missing: %d read of %d accepted, after %d refusals",
         len(got), sum(c for _, c in must), seen)
    rec.label("codec:" + plan["codec"])
    rec.hit(seen > 0 and sum(c for _, c in must) >= 2)


@st.composite
def fault_plans(draw):
    ops = st.one_of(*[st.tuples(st.just("w"), st.integers(0, 9), st.integers(0, 3))] * 5, st.tuples(st.just("flush")), st.tuples(st.just("break"))).map(list)
    return {"shapes": draw(st.lists(shape(), min_size=1, max_size=4)), "codec": draw(st.sampled_from(("none", "zip", "lzma"))),
            "per": draw(st.sampled_from((1, 2, 3, 4, 7, 128))), "ops": draw(st.lists(ops, min_size=1, max_size=16)),
            "faults": draw(st.lists(st.tuples(st.integers(1, 12), st.sampled_from("wwf")), max_size=4))}


# ---------------------------------------------------------------- the codecs themselves

def library(name):
    """Independent (compress, decompress) of a codec name, None when its library is missing."""
    import bz2
    import lzma
    import zlib
    fixed = {"none": (bytes, bytes), "zip": (zlib.compress, zlib.decompress), "bzip2": (bz2.compress, bz2.decompress),
             "lzma": (lzma.compress, lzma.decompress),
             "zipsq": (lambda b: zlib.compress(zlib.compress(b)), lambda b: zlib.decompress(zlib.decompress(b)))}
    if name in fixed:
        return fixed[name]
    try:
        if name == "lz4":
            import lz4.frame
            return lz4.frame.compress, lz4.frame.decompress
        import zstd
        return zstd.compress, zstd.decompress
    except ImportError:
        return None


def check_codec(plan, rec):
    name = plan["codec"]
    lib = library(name)
    if lib is None:
        rec.label("library missing")
        return
    payload = b"".join(p * k for p, k in plan["payload"])
    codec = get_codec(name)
    written = "zstd" if name.startswith("zstd") else name
    same(codec.name, written, "name of codec %r" % name)
    need(get_codec(name, no_except=True) is codec, "codec %r looked up twice", name)
    same(codec.decompress(codec.compress(payload)), payload, "codec %r: round trip of %d bytes" % (name, len(payload)))
    if payload:      # zstd refuses nothing at all
        same(lib[1](codec.compress(payload)), payload, "codec %r: compressed bytes read by the library" % name)
        same(codec.decompress(lib[0](payload)), payload, "codec %r: bytes compressed by the library" % name)
    docs = Docs(plan["shapes"])
    out = Keep()
    w = MsgpackDocumentWriter(out, num_docs_per_block=plan["per"], codec=codec)
    for i in range(len(docs.docs)):
        w.write(docs.given(i, 0))
    w.close()
    try:
        got, per, blocks = wire.parse_collection(out.getvalue(), lib[1])
    except wire.Malformed as e:
        raise Violation("file written with codec %r is malformed: %s" % (name, e))
    same((got, per), (written, plan["per"]), "header of a file written with codec %r" % name)
    same([d for _, b in blocks for _, d in b], docs.data, "documents in a file written with codec %r" % name)
    n = plan["per"]
    split = [docs.data[i:i + n] for i in range(0, len(docs.data), n)]
    data = wire.write_collection(wire.Writer(plan["widths"]), written, n, split, lib[0])
    with MsgpackDocumentReader(io.BytesIO(data)) as r:
        same([d.binary() for d in r], docs.data, "documents read from a file made with the library of %r" % name)
    with DocumentReader(MsgpackDocumentReader(io.BytesIO(data))) as r:
        same([d.props["i"] for d in r], list(range(len(docs.data))), "documents decoded from a file made with the library of %r" % name)
    # the registry
    other = "x-" + name
    need(get_codec(other, no_except=True) is None, "codec %r exists", other)
    for fn, what in ((lambda: get_codec(other), "unknown codec %r" % other), (lambda: get_codec(other, False), "unknown codec %r" % other)):
        raises((NotImplementedError,), fn, what)
    raises((ValueError,), lambda: register_codec(name, bytes, bytes), "registering %r again" % name)
    need(get_codec(name) is codec, "codec %r after a refused registration", name)
    register_codec(other, lambda b: b"<" + b, lambda b: b[1:], codec_name=plan["as"])
    try:
        same(get_codec(other).name, other if plan["as"] is None else plan["as"], "name of a registered codec")
        same(get_codec(other).compress(b"ab"), b"<ab", "registered codec")
    finally:
        unregister_codec(other)
    need(get_codec(other, no_except=True) is None, "codec %r after its removal", other)
    rec.label("codec:" + name)
    rec.hit(len(payload) > 20)


def codec_plans():
    piece = st.tuples(st.binary(max_size=20), st.sampled_from((1, 1, 2, 300, 5000))).map(list)
    return st.fixed_dictionaries({
        "codec": st.sampled_from(CODECS), "payload": st.lists(piece, max_size=5), "shapes": st.lists(shape(), max_size=4),
        "per": st.sampled_from((1, 2, 3, 128)), "widths": st.lists(st.integers(0, 9), min_size=1, max_size=5),
        "as": st.sampled_from((None, "zip", "x-registered"))})


# ---------------------------------------------------------------- documents of any content, whoever encoded them

def check_any(plan, rec):
    a = Arbitrary(plan["docs"])
    codec = plan["codec"] if plan["codec"] in available() else "zip"
    out = Keep()
    w = MsgpackDocumentWriter(out, num_docs_per_block=plan["per"], codec=get_codec(codec))
    for d in a.given:
        w.write(d)
    w.close()
    with MsgpackDocumentReader(io.BytesIO(out.getvalue())) as r:
        got = list(r)
    same([d.binary() for d in got], a.data, "documents read")
    same([canon(d.document()) for d in got], a.canon, "documents read and decoded")
    with DocumentReader(MsgpackDocumentReader(io.BytesIO(out.getvalue()))) as r:
        same([canon(d) for d in r], a.canon, "documents decoded by the reader")
    again = Keep()
    w = MsgpackDocumentWriter(again, num_docs_per_block=1)        # what was read is written on
    for d in MsgpackDocumentReader(io.BytesIO(out.getvalue())):
        w.write(d)
    w.close()
    with MsgpackDocumentReader(io.BytesIO(again.getvalue())) as r:
        same([d.binary() for d in r], a.data, "documents copied from file to file")
    rec.hit(any(how >= 2 for _, how, _ in plan["docs"]))


def any_plans():
    return st.fixed_dictionaries({"docs": arbitrary(), "codec": st.sampled_from(CODECS), "per": st.sampled_from((1, 2, 3, 128))})


FACETS = [
    Facet("write and read", plans, check,
          "up to 24 (sometimes 280) writes, flushes and failing writes; block sizes 1-1000; every codec; "
          "non-trivial: two or more documents and several blocks, a partial block or a failed write", 2000, 40000),
    Facet("large blocks", bigplans, check_big, "documents of up to 1.2 MB, compressible and not, so blocks exceed every reader's buffer; "
          "every case counts", 100, 2000, case_seconds=90),
    Facet("storage faults", fault_plans, check_faults, "up to 16 writes and flushes over a storage or codec that fails at up to 4 calls and then recovers; "
          "non-trivial: something was refused and two documents accepted", 1200, 20000),
    Facet("codecs", codec_plans, check_codec, "each codec against its library in both directions, and the registry; non-trivial: more than 20 bytes",
          600, 8000),
    Facet("any documents", any_plans, check_any, "1-4 documents of any content, as objects, as our encoding or as another writer's; "
          "non-trivial: one of another writer", 300, 6000),
]
