"""C23: span translation maps every position through the mapping."""
from .. import gen
from ..core import Facet, need, same
from ..model import encode
from hypothesis import strategies as st
from docria.algorithm import span_translate
from docria.codec import MsgpackCodec
from docria.model import DataTypes as T, Document

ASSUMPTIONS = ["mapping ranges are not empty and as long in the target as in the source; every mapping node has both",
               "nodes to translate have a non-empty source span", "a node whose image would end before it starts is refused",
               "after a refusal, nodes may be translated or not, but not wrongly"]


def check(plan, rec):
    tname, sname = plan["texts"]
    doc = Document()
    size = {tname: plan["tsize"], sname: plan["ssize"]}
    if tname == sname:
        size = {tname: max(plan["tsize"], plan["ssize"])}
    for name, n in size.items():
        doc.add_text(name, ("0123456789abc\u00e5\U0001f600" * (n // 15 + 1))[:n])
    mt, ms, rs, rt = plan["fields"]
    one = plan["one"]
    mapf = {mt: T.span(tname), ms: T.span(sname), "id": T.int32}
    remf = {rs: T.span(sname), rt: T.span(tname), "id": T.int32}
    if one:
        m = doc.add_layer("map", **dict(mapf, **{"R" + k if k != "id" else k: v for k, v in remf.items()}))
        rs, rt = "R" + rs, "R" + rt
        r = m
    else:
        m, r = doc.add_layer("map", **mapf), doc.add_layer("token", **remf)
    mapping = plan["mapping"]          # [source start, length, target start]
    for i, (s, n, t) in enumerate(mapping):
        m.add(**{ms: doc.texts[sname][s:s + n], mt: doc.texts[tname][t:t + n], "id": i})
    rows = [(s, e, t) for s, e, t in plan["rows"]]
    if one:
        # every mapping node needs something to translate
        full = [(s, s + n, None) for s, n, _ in mapping]
        rows = [rows[i] if i < len(rows) else full[i] for i in range(len(full))]
    for i, (s, e, t) in enumerate(rows):
        values = {rs: doc.texts[sname][s:e], "id": i}
        if t is not None:
            values[rt] = doc.texts[tname][t:t]
        if one:
            for f, v in values.items():
                m[i][f] = v
        else:
            r.add(**values)
    if plan["decoded"]:
        doc = MsgpackCodec.decode(encode(doc))
        m, r = doc.layers["map"], doc.layers["map" if one else "token"]
    names = (tname, sname, mt, ms, rs, rt, one)
    translate(doc, m, r, mapping, rows, names, rec)
    if plan["again"] and not one:
        # the mapping and the nodes change, and everything is translated anew
        rec.label("translated again after changes")
        by = plan["again"]
        mapping = [[s, n, t + by] for s, n, t in mapping]
        if by % 2 and len(mapping) > 1:        # two ranges of the mapping become another two
            a, b = mapping[0], mapping[1]
            n = min(a[1], b[1])
            mapping[0], mapping[1] = [b[0], n, a[2]], [a[0], n, b[2]]
        rows = [(s, e, None) for s, e, _ in rows[1:] + rows[:1]]
        for node, (s, n, t) in zip(list(m), mapping):
            node[ms], node[mt] = doc.texts[sname][s:s + n], doc.texts[tname][t:t + n]
        for node, (s, e, _) in zip(list(r), rows):
            node[rs] = doc.texts[sname][s:e]
            node.pop(rt, None)
        if by == 4 and len(mapping) > 1:
            m.remove(m.last())
            mapping.pop()
            m.add(**{ms: doc.texts[sname][0:1], mt: doc.texts[tname][by:by + 1], "id": 77}) if all(s > 0 for s, _, _ in mapping) else None
            if len(m) > len(mapping):
                mapping.append([0, 1, by])
        translate(doc, m, r, mapping, rows, names, rec)


def translate(doc, m, r, mapping, rows, names, rec):
    tname, sname, mt, ms, rs, rt, one = names
    image = {}
    overlap = False
    for s, n, t in mapping:
        for k in range(n):
            overlap = overlap or s + k in image
            image[s + k] = t + k
    expect = []
    bad = overlap
    for s, e, t in rows:
        if t is not None:
            expect.append(("old", t, t))
        elif s not in image or e - 1 not in image or image[s] > image[e - 1] + 1:
            expect.append(None)
            bad = True
        else:
            # an image that is empty because it runs backwards by one is left open
            if image[s] == image[e - 1] + 1:
                bad = "open" if bad is False else bad
            expect.append(("new", image[s], image[e - 1] + 1))

    def others(node):
        return [(f, v if isinstance(v, int) else (v.start, v.stop, str(v))) for f, v in sorted(node.items()) if f != rt]
    before = [[others(n) for n in layer] for layer in (m, r)]
    what = "mapping %r of %r" % (mapping, rows)
    try:
        span_translate(doc, "map", (mt, ms), "map" if one else "token", (rs, rt))
        failed = False
    except Exception as e:
        failed = True
        if bad is False:
            raise
        rec.label("refused")
    need(failed or bad is not True, "%s accepted; targets %r", what, [n.get(rt) for n in r])
    same([[others(n) for n in layer] for layer in (m, r)], before, what + ": everything else")
    for node, want in zip(list(r), expect):
        got = (node[rt].start, node[rt].stop) if rt in node else None
        if want is None:
            need(got is None, "%s: node %d mapped to %r", what, node["id"], got)
        elif want[0] == "old":
            same(got, want[1:], "%s: the target node %d had" % (what, node["id"]))
        elif not (failed and got is None):
            if not overlap:
                same(got, want[1:], "%s: target of node %d" % (what, node["id"]))
                same(str(node[rt]), str(doc.texts[tname])[want[1]:want[2]], "%s: text of node %d" % (what, node["id"]))
    if overlap:
        rec.label("overlapping mapping")
    if any(image.get(s) is not None and image.get(e - 1) is not None and image[e - 1] - image[s] != e - 1 - s for s, e, t in rows):
        rec.label("across mapping ranges")
    if any(t is not None for _, _, t in rows):
        rec.label("already translated")
    rec.hit(len(mapping) >= 2 and sum(w is not None and w[0] == "new" for w in expect) >= 2 and len(image) > 2)


@st.composite
def plans(draw):
    """Non-overlapping mapping by construction, then sometimes disturbed."""
    mapping = []
    s = t = 0
    spos = []
    for _ in range(draw(st.sampled_from((3, 2, 4, 1, 6, 5, 0)))):
        s += draw(gen.weighted((4, st.just(0)), (1, st.integers(1, 3))))
        t += draw(st.sampled_from((0, 0, 1, 2, 5)))
        n = draw(st.sampled_from((1, 2, 3, 5)))
        mapping.append([s, n, t])
        spos += range(s, s + n)
        s += n
        t += n
    if draw(st.integers(0, 7)) == 7 and len(mapping) > 1:      # targets in another order
        i = draw(st.integers(0, len(mapping) - 2))
        a, b = mapping[i], mapping[i + 1]
        a[2], b[2] = b[2], a[2]
    if draw(st.integers(0, 9)) == 9 and mapping:
        a = draw(st.sampled_from(mapping))
        mapping.append([max(0, a[0] + draw(st.integers(-1, 1))), draw(st.integers(1, 3)), a[2]])
    mapping = draw(st.permutations(mapping))
    rows = []
    wild = draw(st.integers(0, 3)) == 3
    for _ in range(draw(st.sampled_from((4, 3, 2, 6, 1, 8, 0)))):
        if wild or not spos:
            a, n = draw(st.integers(0, s + 2)), draw(st.integers(1, 5))
            b = a + n
        else:
            a, b = draw(st.sampled_from(spos)), draw(st.sampled_from(spos))
            a, b = min(a, b), max(a, b) + 1
        rows.append([a, b, draw(gen.weighted((4, st.none()), (1, st.integers(0, t))))])
    names = draw(st.sampled_from((["text", "source", "text", "target"], ["t", "s", "a", "b"], ["text", "source", "source", "text"])))
    texts = draw(st.sampled_from((["main", "part"], ["main", "part"], ["original", "main"], ["main", "main"])))
    return {"mapping": [list(x) for x in mapping], "rows": rows, "fields": names, "texts": texts, "tsize": t + 8, "ssize": s + 12,
            "one": draw(st.integers(0, 9)) == 9, "decoded": draw(st.booleans()),
            "again": draw(st.sampled_from((0, 0, 1, 2, 3, 4)))}


@st.composite
def tiled(draw):
    plan = draw(plans())
    k = draw(st.sampled_from((10, 40, 100)))
    ds = max([s + n for s, n, _ in plan["mapping"]] + [1]) + draw(st.sampled_from((0, 0, 2)))
    dt = max([t + n for _, n, t in plan["mapping"]] + [1]) + draw(st.sampled_from((0, 0, 3)))
    order = draw(st.sampled_from(("up", "down", "mixed")))
    idx = list(range(k)) if order == "up" else list(range(k))[::-1] if order == "down" else sorted(range(k), key=lambda i: i * 7 % 11)
    plan["mapping"] = [[s + ds * i, n, t + dt * i] for i in idx for s, n, t in plan["mapping"]]
    far = draw(st.sampled_from((0, 0, 1, 5)))
    plan["rows"] = [[a + ds * i, b + ds * min(k - 1, i + (far if j == 0 else 0)), None if t is None else t] for i in idx for j, (a, b, t) in enumerate(plan["rows"])]
    plan["tsize"] += dt * k
    plan["ssize"] += ds * k
    return plan


FACETS = [
    Facet("long mappings", tiled, check, "the same 10-100 times over, one after the other: as below", 300, 6000),
    Facet("mappings", plans, check, "at least two mapping ranges and two nodes to translate that lie inside them", 10000, 150000),
]
