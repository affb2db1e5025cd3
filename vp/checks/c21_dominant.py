"""C21: overlap resolution selects a valid dominant-right set."""
from .. import gen
from ..core import Facet, need, same
from ..model import encode
from hypothesis import strategies as st
from docria.algorithm import dominant_right, dominant_right_span
from docria.codec import MsgpackCodec
from docria.model import DataTypes as T, Document, Node, NodeList

ASSUMPTIONS = ["segments occupy the positions start..stop-1, an empty one its start",
               "in chains of overlaps the choice between valid selections is left open; which of several equal ranges is returned, too"]


def last(r):
    return max(r[0], r[1] - 1)


def overlap(a, b):
    return max(a[0], b[0]) <= min(last(a), last(b))


def beats(a, b):
    """a wins over b."""
    return (a[1] - a[0], a[0]) > (b[1] - b[0], b[0])


def valid(ranges, chosen, what):
    """ranges: all ranges by key; chosen: the keys returned, in order."""
    need(len(set(chosen)) == len(chosen), "%s: an item returned twice: %r", what, chosen)
    got = [ranges[k] for k in chosen]
    for a, b in zip(got, got[1:]):
        need(last(a) < b[0], "%s: returned ranges %r overlap or are out of order", what, got)
    inside = set(chosen)
    keys = list(ranges)
    for k in keys:
        r = ranges[k]
        rivals = [ranges[j] for j in keys if j != k and overlap(r, ranges[j])]
        if k not in inside:
            need(any(beats(x, r) or x == r for x in rivals), "%s: %r left out though nothing that overlaps it wins over it; returned %r", what, r, got)
        if all(beats(r, x) for x in rivals):
            need(k in inside, "%s: %r wins over everything it overlaps but was left out; returned %r", what, r, got)
        if all(beats(r, x) or r == x for x in rivals):
            need(r in got, "%s: no item with range %r returned, which wins over everything else it overlaps; returned %r", what, r, got)


class Opaque(tuple):
    """Data that refuses to be compared or hashed (as arrays do)."""

    def __eq__(self, other):
        raise TypeError("items compared")
    __ne__ = __lt__ = __gt__ = __le__ = __ge__ = __eq__
    __hash__ = None


def check(plan, rec):
    segs = [(s, s + n) for s, n in plan["segs"]]
    data = [plan["data"][i % len(plan["data"])] if plan["same"] else "item %d" % i for i in range(len(segs))]
    items = [(s, e, (i, d)) for i, ((s, e), d) in enumerate(zip(segs, data))]
    if plan["plain"] == "opaque":
        items = [(s, e, Opaque(x)) for s, e, x in items]
    elif plan["plain"]:
        items = [(s, e, {"data": x}) for s, e, x in items]        # cannot be ordered
    keep = list(items)
    out = dominant_right(items)
    same([id(x) for x in items], [id(x) for x in keep], "the list of segments afterwards")
    keyof = (lambda x: x["data"][0]) if plan["plain"] is True else (lambda x: x[0])
    out = [keyof(x) for x in out]
    ranges = dict(enumerate(segs))
    what = "dominant_right(%r)" % segs
    need(all(k in ranges for k in out), "%s returned something else: %r", what, out)
    valid(ranges, out, what)
    # any other order of the input
    perm = list(range(len(items)))
    for k in plan["perm"]:
        if perm:
            perm.append(perm.pop(k % len(perm)))
    again = [keyof(x) for x in dominant_right([items[i] for i in perm])]
    same([ranges[k] for k in again], [ranges[k] for k in out], what + " in another order")
    # resolving the result changes nothing
    twice = dominant_right([items[k] for k in out])
    same([keyof(x) for x in twice], out, what + ", resolved again")
    if plan["shape"] in ("layer", "list") and plan["plain"] != "opaque":
        # the same list again after a change of it
        items[:] = [(e if k % 3 else s, e + k % 3, x) for k, (s, e, x) in enumerate(items)]
        if plan["shape"] == "list" and items:
            items[0] = (0, 15, items[0][2])
        valid({keyof(x): (s, e) for s, e, x in items}, [keyof(x) for x in dominant_right(items)], what + ", the list having become %r" % [x[:2] for x in items])
    n = len(segs) - len(out)
    if any(s == e for s, e in segs):
        rec.label("empty segments")
    if len(set(segs)) < len(segs):
        rec.label("equal segments")
    rec.hit(n >= 2 and len(out) >= 2)


def check_nodes(plan, rec):
    segs = [(s, s + n) for s, n in plan["segs"]]
    size = max([e for _, e in segs] + [1])
    doc = Document()
    text = doc.add_text("main", "x" * size)
    f = plan["field"]
    layer = doc.add_layer("token", **{f: T.span("main"), "id": T.int32, "other": T.span("main")})
    for i, (s, e) in enumerate(segs):
        node = layer.add(id=i, other=text[0:size])
        if not plan["gaps"][i % len(plan["gaps"])]:
            node[f] = text[s:e]
    if plan["plain"]:
        doc = MsgpackCodec.decode(encode(doc))
        layer = doc.layers["token"]
        text = doc.texts["main"]
    nodes = list(layer)
    perm = list(range(len(nodes)))
    for k in plan["perm"]:
        if perm:
            perm.append(perm.pop(k % len(perm)))
    given = [nodes[i] for i in perm]
    shape = plan["shape"]
    arg = layer if shape == "layer" else iter(given) if shape == "iter" else NodeList(given) if shape == "nodelist" and given else \
        [Node(dict(x.items())) for x in given] if shape == "loose" else given
    if shape == "loose":
        nodes = arg
    elif shape == "layer":
        nodes = list(layer)
    if f == "text" and plan["default"]:
        out = dominant_right_span(arg)
    else:
        out = dominant_right_span(arg, f) if plan["default"] else dominant_right_span(arg, spanfield=f)
    ranges = {id(x): (x[f].start, x[f].stop) for x in nodes if f in x}
    need(all(id(x) in ranges for x in out), "returned something else: %r", out)
    valid(ranges, [id(x) for x in out], "dominant_right_span over %r" % list(ranges.values()))
    rec.label(shape)
    if plan["same"] and shape != "iter":
        # the same nodes again after some of their spans have changed, and some are gone
        for k, x in enumerate(list(nodes)):
            if k % 3 == len(segs) % 3 and f in x:
                s, e = x[f].start, x[f].stop
                x[f] = text[0:s] if k % 2 else text[s:size]
            elif k % 4 == 3 and f in x:
                del x[f]
        if shape == "layer" and len(nodes) > 2 and len(segs) % 2:
            layer.remove(nodes.pop(1))
        if shape == "layer" and len(segs) % 5 == 0:
            nodes.append(layer.add(id=99))
            nodes[-1][f] = text[size // 2:size]
        now = {id(x): (x[f].start, x[f].stop) for x in nodes if f in x}
        out2 = dominant_right_span(arg, f)
        need(all(id(x) in now for x in out2), "returned something else after changes: %r", out2)
        valid(now, [id(x) for x in out2], "dominant_right_span over what became %r" % list(now.values()))
    rec.hit(len(ranges) - len(out) >= 1 and len(out) >= 1 and len(ranges) < len(nodes))


@st.composite
def plans(draw):
    seg = gen.weighted((4, st.tuples(st.integers(0, 14), st.integers(0, 4))), (1, st.tuples(st.integers(0, 14), st.integers(0, 14))),
                       (1, st.tuples(st.integers(0, 3), st.integers(1, 2))))
    segs = draw(st.lists(seg, min_size=draw(st.sampled_from((0, 2, 6, 8))), max_size=12))
    if segs and draw(st.integers(0, 3)) == 3:
        segs = segs + [segs[0]]
    if draw(st.integers(0, 3)) == 3:       # pairwise disjoint
        p, out = 0, []
        for s, n in segs:
            out.append((p + s % 2, n))
            p += s % 2 + max(n, 1)
        segs = out
    if draw(st.integers(0, 30)) == 30:
        segs = segs + [(10 * i, 7 + i % 9) for i in range(200)]
    return {"segs": [list(s) for s in segs], "data": ["a", "b", None, 1], "same": draw(st.booleans()), "plain": draw(st.sampled_from((True, False, "opaque"))),
            "perm": draw(st.lists(st.integers(0, 30), max_size=12)), "field": draw(st.sampled_from(("text", "text", "where", "id2"))),
            "gaps": draw(gen.weighted((1, st.just([False])), (3, st.sampled_from(([False, False, True], [False, True, False, False, False], [False, False, False, True]))))),
            "shape": draw(st.sampled_from(("layer", "iter", "list", "nodelist", "loose"))), "default": draw(st.booleans())}


@st.composite
def tiled(draw):
    plan = draw(plans())
    k, step = draw(st.sampled_from((8, 17, 33))), draw(st.sampled_from((0, 1, 2, 5, 16, 40)))
    if len(plan["segs"]) < 13:
        plan["segs"] = [[s + step * i, n] for i in range(k) for s, n in plan["segs"]]
    plan["perm"] = plan["perm"] + [draw(st.integers(0, 400)) for _ in range(8)]
    return plan


FACETS = [
    Facet("many segments", tiled, check, "the same with 8-33 copies, shifted: as below", 300, 8000),
    Facet("many nodes", tiled, check_nodes, "the same with 8-33 copies, shifted: as below", 300, 8000),
    Facet("segments", plans, check, "at least two segments returned and two left out", 6000, 150000),
    Facet("nodes", plans, check_nodes, "a node returned, a node left out and one without a span", 2500, 60000),
]
