"""Shared by the collection checks: cheap pools of documents and recording files."""
import io
import random

from . import gen, wire  # noqa
from .model import build, canon, encode, repair
from hypothesis import strategies as st
from docria.model import Document, DataTypes as T, Node
from docria.codec import MsgpackCodec, MsgpackDocument

CODECS = ["none", "zip", "bzip2", "zipsq", "lzma", "lz4", "zstd", "zstd:high", "zstd:ultra"]


def available():
    from docria.collection import get_codec
    return [c for c in CODECS if get_codec(c, no_except=True) is not None]


class Keep(io.BytesIO):
    """Keeps its content when closed."""

    def close(self):
        self.was_closed = True


def make_doc(i, shape):
    """Document number i; shape: (text length, nodes, property length[, incompressible bytes[, integer widths]])."""
    size, nodes, plen, noise = (list(shape) + [0] * 3)[:4]
    d = Document(i=i, p="p" * plen, b=bytes([i % 256]) * (plen % 7))
    t = d.add_text("main", ("word%d " % i) * size)
    tok = d.add_layer("token", text=T.span("main"), id=T.int32, head=T.noderef("token"))
    if noise:
        d.props["noise"] = random.Random(i).randbytes(noise)
    for k in range(nodes):
        n = tok.add(id=i * 10 + k)
        if size:
            n["text"] = t[k % len(t):min(len(t), k % len(t) + 4)]
        if k:
            n["head"] = tok.first()
    return d


def shape():
    return st.tuples(st.sampled_from((0, 1, 3, 20)), st.sampled_from((0, 1, 2, 5)), st.sampled_from((0, 1, 31, 300, 3000)),
                     st.just(0), st.one_of(st.none(), st.none(), st.none(), st.lists(st.integers(0, 9), min_size=1, max_size=4))).map(list)


@st.composite
def bigshapes(draw, limit=1200000):
    """One to four documents, at least one of them large."""
    n = st.sampled_from([k for k in (16300, 16384, 20000, 65535, 65536, 70000, 300000, 1200000) if k <= limit])
    one = st.sampled_from(("text", "nodes", "property", "noise", "noise"))
    out = draw(st.lists(shape(), max_size=2))
    for kind in draw(st.lists(one, min_size=1, max_size=2)):
        s = {"text": [draw(n) // 6, 2, 0], "nodes": [3, draw(st.sampled_from((130, 300, 3000))), 1], "property": [1, 1, draw(n)],
             "noise": [0, 1, 3, draw(n)]}[kind]
        out.insert(draw(st.integers(0, len(out))), s)
    return out


def bad_document():
    """A document that cannot be encoded."""
    d = Document()
    d.add_layer("token", head=T.noderef("token"), id=T.int32)
    n = Node(id="not a number")
    d.layers["token"].add(n)
    return d


class Docs:
    """Documents 0..n-1 with their encodings."""

    def __init__(self, shapes):
        self.docs = [make_doc(i, s) for i, s in enumerate(shapes)]
        self.data = [encode(d) for d in self.docs]
        self.foreign = set()
        for i, s in enumerate(shapes):       # as another writer of the format might put it
            if len(s) > 4 and s[4]:
                self.data[i] = wire.write_document(wire.Writer(s[4]), wire.parse_document(self.data[i]))
                self.foreign.add(i)

    def given(self, i, how):
        """What is handed to write() for document i."""
        if how == 0 and i not in self.foreign:
            return self.docs[i]
        if how == 1:
            return MsgpackDocument(self.data[i])
        if how == 2:
            m = MsgpackDocument(stream(self.data[i], i), ref=(5, 5))
            m.properties()
            return m
        m = MsgpackDocument(self.data[i] if i in self.foreign else self.docs[i])
        m.document()
        return m


class Arbitrary:
    """Documents of any content, as objects, as our encoding or as another writer's encoding; what write() is given and the bytes to expect."""

    def __init__(self, plans):
        self.given, self.data, self.canon = [], [], []
        for plan, how, widths in plans:
            model, (w,) = build(plan)
            repair(model, [w])
            doc = w.doc
            data = encode(doc)
            self.canon.append(canon(MsgpackCodec.decode(data)))
            if how >= 2:
                data = wire.write_document(wire.Writer(widths), wire.parse_document(data))
            self.data.append(data)
            self.given.append(doc if how == 0 else MsgpackDocument(doc) if how == 1 else MsgpackDocument(data) if how == 2 else
                              MsgpackDocument(stream(data, len(data))) if how == 3 else read_first(data))


def stream(data, k):
    """The data as some kind of file."""
    return io.BytesIO(data) if k % 2 else io.BufferedReader(io.BytesIO(data))


def read_first(data):
    m = MsgpackDocument(stream(data, len(data)))
    m.properties(), m.schema(), m.texts(), m.document()
    return m


def arbitrary():
    widths = st.lists(st.integers(0, 9), min_size=1, max_size=4)
    small = gen.document(maxlayers=2, big=False)
    bare = st.just({"props": {}, "texts": [], "layers": [], "ops": []})
    return st.lists(st.tuples(st.one_of(small, small, bare), st.integers(0, 4), widths), min_size=1, max_size=4)


class Dribble(io.RawIOBase):
    """A raw stream that returns fewer bytes than asked for, as raw streams may."""

    def __init__(self, raw, sizes):
        super().__init__()
        self.file, self.sizes, self.turn = io.BytesIO(raw), sizes, 0

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, offset, whence=0):
        return self.file.seek(offset, whence)

    def tell(self):
        return self.file.tell()

    def read(self, n=-1):
        self.turn += 1
        most = max(1, self.sizes[self.turn % len(self.sizes)]) if self.turn < 1500 else 1 << 30
        return self.file.read(most if n is None or n < 0 else min(n, most))

    def readinto(self, b):
        got = self.read(len(b))
        b[:len(got)] = got
        return len(got)
