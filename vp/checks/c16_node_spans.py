"""C16: node spans and neighbour navigation follow layer order."""
from .. import gen
from ..core import Facet, Violation, need, same
from ..model import apply, build
from hypothesis import strategies as st
from docria.model import Node, NodeSpan, TextSpan

ASSUMPTIONS = ["first/last/text of a span whose ends are removed or out of order are not judged, iterating it must be refused"]


def refused(fn, what):
    try:
        r = fn()
    except Exception:
        return
    raise Violation("%s: accepted (%r)" % (what, r))


def ids(nodes):
    return [id(n) for n in nodes]


def check_span(span, ml, a, b, w, model, what):
    want = [w.node[n] for n in ml.nodes[a:b + 1]]
    same(ids(span), ids(want), what + ": nodes")
    same(ids(span), ids(want), what + ": nodes, iterated again")
    same(len(span), len(want), what + ": len")
    need(span.first() is want[0] and span.last() is want[-1], "%s: ends", what)
    need(span.left is want[0] and span.right is want[-1], "%s: left and right", what)
    same(ids(span.to_list()), ids(want), what + ": to_list")
    for f, (typ, arg, _) in ml.fields.items():
        col = list(span[f])
        need(len(col) == len(want) and all(v is n.get(f) for v, n in zip(col, want)), "%s: column %r", what, f)
        if typ == "span":
            l, r = ml.nodes[a].fields.get(f), ml.nodes[b].fields.get(f)
            if l is not None and r is not None and l[2] <= r[3]:
                same(span.text(f), model.texts[arg][l[2]:r[3]], what + ": text")
                ts = span.textspan(f)
                need(isinstance(ts, TextSpan), "%s: textspan is %r", what, ts)
                same((ts.start, ts.stop, str(ts)), (l[2], r[3], model.texts[arg][l[2]:r[3]]), what + ": textspan")


def check_nav(model, w, spans, rec, what, ks):
    for ln, ml in model.layers.items():
        layer = w.doc.layers[ln]
        nodes = [w.node[n] for n in ml.nodes]
        n = len(nodes)
        for i in (range(n) if n <= 40 else list(range(5)) + list(range(n - 5, n)) + [k % n for k in ks]):
            l = nodes[i - 1] if i else None
            r = nodes[i + 1] if i + 1 < n else None
            need(nodes[i].left is l and layer.left(nodes[i]) is l, "%s: left neighbour of node %d of %r", what, i, ln)
            need(nodes[i].right is r and layer.right(nodes[i]) is r, "%s: right neighbour of node %d of %r", what, i, ln)
        for k in ks:
            if not n:
                break
            a, b = k % n, (k * 7 + k // 5) % n
            lo, hi = min(a, b), max(a, b)
            same(ids(nodes[a].iter_span(nodes[b])), ids(nodes[lo:hi + 1]), "%s: iter_span from %d to %d of %r" % (what, a, b, ln))
            same(ids(layer.iter_nodespan(nodes[lo], nodes[hi])), ids(nodes[lo:hi + 1]), "%s: iter_nodespan(%d, %d) of %r" % (what, lo, hi, ln))
            check_span(NodeSpan(nodes[lo], nodes[hi]), ml, lo, hi, w, model, "%s: new span (%d, %d) of %r" % (what, lo, hi, ln))
            if lo < hi:
                refused(lambda: NodeSpan(nodes[hi], nodes[lo]), "%s: span (%d, %d) of %r" % (what, hi, lo, ln))
                refused(lambda: list(layer.iter_nodespan(nodes[hi], nodes[lo])), "%s: iter_nodespan(%d, %d) of %r" % (what, hi, lo, ln))
            for ln2, ml2 in model.layers.items():
                if ml2 is not ml and ml2.nodes:
                    o = w.node[ml2.nodes[k % len(ml2.nodes)]]
                    refused(lambda: NodeSpan(nodes[a], o), "%s: a span from layer %r to %r" % (what, ln, ln2))
                    refused(lambda: list(nodes[a].iter_span(o)), "%s: iterating from layer %r to %r" % (what, ln, ln2))
                    refused(lambda: layer.left(o), "%s: left neighbour of another layer's node" % what)
                    rec.label("other layer")
        for gn, gl in model.graveyard:
            if gl is ml and nodes:
                g = w.node[gn]
                refused(lambda: NodeSpan(nodes[0], g), "%s: a span to a removed node" % what)
                refused(lambda: NodeSpan(g, nodes[0]), "%s: a span from a removed node" % what)
    changed = 0
    for span, ml, l, r in spans:
        lw = l.layer is ml and r.layer is ml
        if not lw:
            refused(lambda: list(span), "%s: iterating a span with a removed end" % what)
            refused(lambda: len(span), "%s: len of a span with a removed end" % what)
            rec.label("removed end")
            continue
        a, b = ml.nodes.index(l), ml.nodes.index(r)
        if a > b:
            refused(lambda: list(span), "%s: iterating a span whose ends changed order" % what)
            refused(lambda: len(span), "%s: len of a span whose ends changed order" % what)
            rec.label("order changed")
        else:
            check_span(span, ml, a, b, w, model, "%s: kept span, now (%d, %d) of %r" % (what, a, b, ml.name))
            changed += 1
    return changed


def check(plan, rec):
    model, (w,) = build(plan, apply_ops=False)
    spans = []
    kept = check_nav(model, w, spans, rec, "after building", plan["ks"])
    edits = 0
    for op in plan["ops"]:
        if op[0] == "span":
            mls = [ml for ml in model.layers.values() if ml.nodes]
            if not mls:
                continue
            ml = mls[op[1] % len(mls)]
            a = op[2] % len(ml.nodes)
            b = min(len(ml.nodes) - 1, a + op[3])
            spans.append((NodeSpan(w.node[ml.nodes[a]], w.node[ml.nodes[b]]), ml, ml.nodes[a], ml.nodes[b]))
            rec.label("span kept")
        else:
            apply(model, [w], op)
            edits += 1
        kept += check_nav(model, w, spans, rec, "after %r" % (op,), plan["ks"])
    dangling = Node(x=1)
    for ml in model.layers.values():
        if ml.nodes:
            refused(lambda: NodeSpan(dangling, w.node[ml.nodes[0]]), "a span from a node never added")
            refused(lambda: NodeSpan(w.node[ml.nodes[0]], dangling), "a span to a node never added")
            break
    rec.hit(kept > 0 and edits >= 2)


@st.composite
def plans(draw):
    plan = draw(gen.document(need_layer=True, maxlayers=2, need_text=True, types=("span", "span", "i32", "str", "ref"), big=False))
    plan["props"] = {}
    keep = st.tuples(st.just("span"), gen.small, gen.idx, st.integers(0, 6)).map(list)
    srt = st.tuples(st.just("sort"), gen.small, st.integers(2, 7), st.integers(1, 9)).map(list)
    plan["ops"] = [draw(keep) for _ in range(draw(st.integers(0, 2)))] + draw(st.lists(gen.weighted((2, keep), (5, gen.edit_ops()), (1, srt)), min_size=2, max_size=14))
    if draw(st.integers(0, 3)) == 3:
        plan["layers"][0]["n"] = draw(st.sampled_from((17, 20, 40, 70)))
    plan["ks"] = draw(st.lists(gen.idx, min_size=1, max_size=4))
    return plan


@st.composite
def tall_plans(draw):
    plan = draw(gen.tall(maxlayers=2, types=("span", "span", "i32", "ref")))
    plan["props"] = {}
    keep = st.tuples(st.just("span"), gen.small, st.integers(0, 2000), st.sampled_from((0, 1, 15, 16, 17, 100, 2000))).map(list)
    rmq = st.tuples(st.sampled_from(("rmq", "retq")), gen.small, st.integers(2, 6), gen.small, st.integers(0, 2)).map(list)
    plan["ops"] = [draw(keep), draw(keep)] + draw(st.lists(gen.weighted((2, keep), (4, gen.edit_ops()), (2, rmq)), min_size=2, max_size=5))
    plan["ks"] = draw(st.lists(st.integers(0, 4000), min_size=1, max_size=2))
    return plan


@st.composite
def sparse_plans(draw):
    """Small layers most of whose nodes are taken out, one by one or at once (below the size at which places are given up)."""
    plan = draw(plans())
    plan["layers"][0]["n"] = draw(st.integers(8, 34))
    keep = st.tuples(st.just("span"), st.just(0), st.integers(0, 40), st.integers(0, 40)).map(list)
    out = st.one_of(st.tuples(st.just("rm"), st.just(0), gen.idx), st.tuples(st.just("del"), st.just(0), gen.idx),
                    st.tuples(st.just("rml"), st.just(0), st.lists(gen.idx, min_size=1, max_size=16), st.booleans()),
                    st.tuples(st.sampled_from(("rmq", "retq")), st.just(0), st.integers(2, 6), st.integers(0, 4), st.integers(0, 2)),
                    st.tuples(st.just("add"), st.just(0), gen.ks)).map(list)
    plan["ops"] = [draw(keep)] + draw(st.lists(gen.weighted((5, out), (1, keep)), min_size=3, max_size=14))
    return plan


FACETS = [
    Facet("sparse layers", sparse_plans, check, "the same over layers of 8-34 nodes most of which are removed; non-trivial as below", 500, 10000),
    Facet("large layers", tall_plans, check, "the same over layers of 64-2000 nodes, 4-7 steps; non-trivial as below", 200, 5000),
    Facet("navigation", plans, check,
          "neighbours, iteration both ways and new and kept spans after every step of 2-16 edits of up to two layers; "
          "non-trivial: two edits or more with a kept span still in order", 1500, 40000),
]
