"""An independent reader and writer of the docria wire formats (no code shared with docria or msgpack)."""
import struct


class Malformed(Exception):
    pass


class Reader:
    def __init__(self, data, pos=0, end=None):
        self.d, self.p, self.end = data, pos, len(data) if end is None else end

    def take(self, n):
        if n < 0 or self.p + n > self.end:
            raise Malformed("need %d bytes at %d, have %d" % (n, self.p, self.end - self.p))
        v = self.d[self.p:self.p + n]
        self.p += n
        return v

    def u(self, n):
        return int.from_bytes(self.take(n), "big")

    def s(self, n):
        return int.from_bytes(self.take(n), "big", signed=True)

    def value(self):
        b = self.u(1)
        if b < 0x80:
            return b
        if b < 0x90:
            return self.map(b & 15)
        if b < 0xa0:
            return [self.value() for _ in range(b & 15)]
        if b < 0xc0:
            return self.take(b & 31).decode("utf-8")
        if b >= 0xe0:
            return b - 256
        if b == 0xc0:
            return None
        if b in (0xc2, 0xc3):
            return b == 0xc3
        if b in (0xc4, 0xc5, 0xc6):
            return bytes(self.take(self.u(1 << (b - 0xc4))))
        if b == 0xca:
            return struct.unpack(">f", self.take(4))[0]
        if b == 0xcb:
            return struct.unpack(">d", self.take(8))[0]
        if 0xcc <= b <= 0xcf:
            return self.u(1 << (b - 0xcc))
        if 0xd0 <= b <= 0xd3:
            return self.s(1 << (b - 0xd0))
        if b in (0xd9, 0xda, 0xdb):
            return self.take(self.u(1 << (b - 0xd9))).decode("utf-8")
        if b in (0xdc, 0xdd):
            return [self.value() for _ in range(self.u(2 << (b - 0xdc)))]
        if b in (0xde, 0xdf):
            return self.map(self.u(2 << (b - 0xde)))
        raise Malformed("byte 0x%02x at %d" % (b, self.p - 1))

    def map(self, n):
        out = {}
        for _ in range(n):
            k = self.value()
            if k in out:
                raise Malformed("key %r twice" % (k,))
            out[k] = self.value()
        return out


def parse_document(data):
    """Bytes -> {"props", "types", "schema", "texts", "layers"}; every length must be right."""
    if data[:4] != b"DM_1":
        raise Malformed("magic %r" % data[:4])
    r = Reader(data, 4)
    n = r.value()
    sub = Reader(data, r.p, r.p + n)
    props = sub.value()
    if sub.p != sub.end:
        raise Malformed("properties are %d bytes shorter than declared" % (sub.end - sub.p))
    r.p = sub.end
    types = r.value()
    schema = {}
    for t in types:
        fields = []
        for _ in range(r.value()):
            name, has_args, typ = r.value(), r.value(), r.value()
            if has_args not in (True, False):
                raise Malformed("has_args is %r" % (has_args,))
            fields.append((name, typ, r.value() if has_args else {}))
        schema[t] = fields
    n = r.value()
    sub = Reader(data, r.p, r.p + n)
    texts = sub.value()
    if sub.p != sub.end:
        raise Malformed("texts are %d bytes shorter than declared" % (sub.end - sub.p))
    r.p = sub.end
    layers = {}
    for t in types:
        n = r.value()
        sub = Reader(data, r.p, r.p + n)
        count = sub.value()
        cols = {}
        for name, _, _ in schema[t]:
            if sub.value() is not False:
                raise Malformed("special encoding flag")
            cols[name] = sub.value()
        if sub.p != sub.end:
            raise Malformed("layer %r is %d bytes shorter than declared" % (t, sub.end - sub.p))
        r.p = sub.end
        layers[t] = (count, cols)
    if r.p != len(data):
        raise Malformed("%d trailing bytes" % (len(data) - r.p))
    return {"props": props, "types": types, "schema": schema, "texts": texts, "layers": layers}


class Writer:
    """MessagePack writer choosing any legal width, driven by a cyclic list of numbers."""

    def __init__(self, choices):
        self.c, self.k = choices or [0], 0

    def pick(self, n):
        v = self.c[self.k % len(self.c)]
        self.k += 1
        return v % n

    def sized(self, n, fix, fixmax, codes):
        """codes: list of (code, width)"""
        opts = []
        if fix is not None and n <= fixmax:
            opts.append(bytes([fix | n]))
        for code, w in codes:
            if n < 1 << (8 * w):
                opts.append(bytes([code]) + n.to_bytes(w, "big"))
        return opts[self.pick(len(opts))]

    def int(self, v):
        opts = []
        if 0 <= v < 128:
            opts.append(bytes([v]))
        if -32 <= v < 0:
            opts.append(bytes([v + 256]))
        for i in range(4):
            w = 1 << i
            if 0 <= v < 1 << (8 * w):
                opts.append(bytes([0xcc + i]) + v.to_bytes(w, "big"))
            if -(1 << (8 * w - 1)) <= v < 1 << (8 * w - 1):
                opts.append(bytes([0xd0 + i]) + v.to_bytes(w, "big", signed=True))
        return opts[self.pick(len(opts))]

    def value(self, v):
        if v is None:
            return b"\xc0"
        if v is True or v is False:
            return b"\xc3" if v else b"\xc2"
        if isinstance(v, int):
            return self.int(v)
        if isinstance(v, float):
            if v == v and self.pick(3) == 0:
                try:
                    if struct.unpack(">f", struct.pack(">f", v))[0] == v:
                        return b"\xca" + struct.pack(">f", v)
                except OverflowError:
                    pass
            return b"\xcb" + struct.pack(">d", v)
        if isinstance(v, str):
            b = v.encode("utf-8")
            return self.sized(len(b), 0xa0, 31, [(0xd9, 1), (0xda, 2), (0xdb, 4)]) + b
        if isinstance(v, bytes):
            return self.sized(len(v), None, 0, [(0xc4, 1), (0xc5, 2), (0xc6, 4)]) + v
        if isinstance(v, list):
            return self.array(len(v)) + b"".join(self.value(x) for x in v)
        if isinstance(v, dict):
            return self.sized(len(v), 0x80, 15, [(0xde, 2), (0xdf, 4)]) + b"".join(
                self.value(k) + self.value(x) for k, x in v.items())
        raise TypeError(type(v))

    def array(self, n):
        return self.sized(n, 0x90, 15, [(0xdc, 2), (0xdd, 4)])

    def chunk(self, b):
        return self.int(len(b)) + b


def write_document(w, d):
    """Inverse of parse_document, with the widths chosen by the Writer."""
    out = [b"DM_1", w.chunk(w.value(d["props"])), w.value(d["types"])]
    for t in d["types"]:
        fields = d["schema"][t]
        out.append(w.int(len(fields)))
        for name, typ, args in fields:
            out.append(w.value(name))
            if args or w.pick(4) == 1:      # an empty map of arguments is legal
                out.append(b"\xc3" + w.value(typ) + w.value(args))
            else:
                out.append(b"\xc2" + w.value(typ))
    out.append(w.chunk(w.value(d["texts"])))
    for t in d["types"]:
        count, cols = d["layers"][t]
        body = [w.int(count)]
        for name, _, _ in d["schema"][t]:
            body.append(b"\xc2" + w.value(cols[name]))
        out.append(w.chunk(b"".join(body)))
    return b"".join(out)


def parse_collection(data, decompress):
    """Bytes of a collection file -> (codec name, docs per block, [(block position, [(document position, bytes)])])."""
    if data[:4] != b"Dmf1":
        raise Malformed("magic %r" % data[:4])
    r = Reader(data, 4)
    name, per = r.value(), r.value()
    if r.value() is not False:
        raise Malformed("advanced flag")
    blocks = []
    while r.p < len(data):
        pos = r.p
        raw = r.value()
        if not isinstance(raw, bytes):
            raise Malformed("block is %s" % type(raw))
        buf = decompress(raw)
        b = Reader(buf)
        docs = []
        while b.p < len(buf):
            at = b.p
            doc = b.value()
            if not isinstance(doc, bytes):
                raise Malformed("document is %s" % type(doc))
            docs.append((at, doc))
        blocks.append((pos, docs))
    return name, per, blocks


def write_collection(w, name, per, blocks, compress):
    out = [b"Dmf1", w.value(name), w.int(per), b"\xc2"]
    for docs in blocks:
        out.append(w.value(compress(b"".join(w.value(d) for d in docs))))
    return b"".join(out)
