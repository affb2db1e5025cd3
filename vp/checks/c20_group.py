"""C20: grouping by span puts every node in exactly the right groups."""
from .. import gen
from ..core import Facet, need, raises, same
from ..model import encode
from hypothesis import strategies as st
from docria.algorithm import group_by_span
from docria.codec import MsgpackCodec
from docria.model import DataTypes as T, Document, Node, NodeList

QUICK = 1     # factor on the quick numbers of cases
ASSUMPTIONS = ["the nodes given for the groups, and those given for one layer, are distinct and lie in one text",
               "the order within a bucket is left open, and so is the order of groups with the same start"]


def overlaps(a, b):
    """Half-open ranges; an empty one overlaps what contains its position."""
    (s, e), (x, y) = a, b
    if s == e and x == y:
        return s == x
    if s == e:
        return x <= s < y
    if x == y:
        return s <= x < e
    return max(s, x) < min(e, y)


def covered(a, g):
    return g[0] <= a[0] and a[1] <= g[1]


def check(plan, rec):
    n = plan["size"]
    if plan.get("tile"):       # every layer repeated, each time further right
        times, step = plan["tile"]
        n += times * step
        plan = dict(plan, layers=[[name, f, [None if r is None else [r[0] + step * k, r[1]] for k in range(times) for r in rows] + rows[:2]]
                                  for name, f, rows in plan["layers"]])
    doc = Document()
    text = doc.add_text("main", "abcdefghij" * (n // 10 + 1))
    spans = {}           # (node, field) -> range
    made = {}
    more = {}            # further span fields
    nones = []
    for name, field, rows in plan["layers"]:
        decoys = sorted({f for _, f, _ in plan["layers"]} - {field}) if plan.get("decoys") else []     # further spans, which do not count
        layer = doc.add_layer(name, **{field: T.span("main"), "id": T.int32}, **{f: T.span("main") for f in decoys})
        more[name] = decoys
        out = []
        for i, row in enumerate(rows):
            node = layer.add(id=i)
            if row is not None:
                s, e = row[0], min(n, row[0] + row[1])
                node[field] = text[s:e]
            elif plan.get("none"):
                nones.append((name, i, field))
            for k, f in enumerate(decoys):
                row = rows[(i + 1 + k) % len(rows)]
                if row is not None:
                    node[f] = text[row[0]:min(n, row[0] + row[1])]
            out.append(node)
        made[name] = (field, out)
    if plan["decoded"]:
        doc = MsgpackCodec.decode(encode(doc))
        made = {name: (field, list(doc.layers[name])) for name, (field, _) in made.items()}
    for name, field, rows in plan["layers"]:
        for node, row in zip(made[name][1], rows):
            if row is not None:
                spans[node, made[name][0]] = (row[0], min(n, row[0] + row[1]))
        for node in made[name][1]:
            for f, v in node.items():
                if f != "id" and (node, f) not in spans:
                    spans[node, f] = (v.start, v.stop)
    for name, i, field in nones:       # no span, said so
        made[name][1][i][field] = None
        rec.label("span None")
    text = doc.texts["main"]
    held = {}
    for k, c in enumerate(plan["calls"]):
        if k and plan["change"]:
            # spans change between the calls
            for name, field, rows in plan["layers"]:
                nodes = made[name][1]
                for j in plan["change"]:
                    if nodes:
                        x = nodes[j % len(nodes)]
                        if x.get(field) is not None and j % 5 == 0:
                            del x[field]
                            del spans[x, field]
                        else:
                            a = (j * 7 + k) % (n + 1)
                            x[field] = text[a:min(n, a + j % 4)]
                            spans[x, field] = (a, min(n, a + j % 4))
            rec.label("changed between the calls")
            if plan["change"][0] % 2:
                c = dict(plan["calls"][0])
        grouping(plan, c, made, more, spans, rec, doc, held)


def grouping(plan, c, made, more, every, rec, doc, held):
    gname = plan["layers"][c["group"] % len(plan["layers"])][0]
    gfield, gnodes = made[gname]
    gnodes = [g for i, g in enumerate(gnodes) if c["pick"][i % len(c["pick"])]]
    if c["reverse"]:
        gnodes = gnodes[::-1]
    layers = {}
    fields = {}
    spans = {g: every[g, gfield] for g in gnodes if (g, gfield) in every}
    of = {}              # key -> node -> range
    for key, which, shape, alt in c["layers"]:
        name = plan["layers"][which % len(plan["layers"])][0]
        field, nodes = made[name]
        field = ([field] + more[name])[alt % (1 + len(more[name]))]
        mine = of[key] = {x: every[x, field] for x in nodes if (x, field) in every}
        if shape == "loose":
            nodes = [Node({field: x[field]} if field in x else {"id": 0}) for x in nodes]
            mine.update((x, (x[field].start, x[field].stop)) for x in nodes if x.get(field) is not None)
        layers[key] = nodes
        fields[key] = field

    def shaped(nodes, shape, name):
        if shape == "iter":
            return iter(list(nodes))
        if shape == "tuple":
            return tuple(nodes)
        if shape == "nodelist" and nodes:
            return NodeList(nodes)
        if shape == "layer" and len(nodes) == len(doc.layers.get(name, ())) and set(nodes) == set(doc.layers[name]):
            return doc.layers[name]
        if shape == "same":      # the same list object for every call
            if held.setdefault(name, nodes) != nodes:
                held[name] = nodes
            return held[name]
        if shape == "reversed":
            return list(nodes)[::-1]
        return list(nodes)
    kw = {}
    if c["mode"] is not None:
        kw["resolution"] = c["mode"]
    if c["empty"] is not None:
        kw["include_empty_groups"] = c["empty"]
    if gfield != "text" or c["explicit"]:
        kw["group_span_field"] = gfield
    if c["explicit"] or any(f != "text" for f in fields.values()):
        kw["layer_span_field"] = dict(fields)
    result = group_by_span(shaped(gnodes, c["gshape"], gname), {k: shaped(layers[k], s, plan["layers"][w % len(plan["layers"])][0]) for k, w, s, _ in c["layers"]}, **kw)
    want = {}
    total = 0
    for g in gnodes:
        if g not in spans:
            continue
        buckets = {key: sorted(id(x) for x in nodes if x in of[key] and overlaps(of[key][x], spans[g])
                               and (c["mode"] != "cover" or covered(of[key][x], spans[g]))) for key, nodes in layers.items()}
        total += sum(map(len, buckets.values()))
        if c["empty"] is False and not any(buckets.values()):
            rec.label("empty group dropped")
            continue
        want[id(g)] = buckets
    names = {}
    for key, nodes in layers.items():
        for i, x in enumerate(nodes):
            names[key, id(x)] = (key, i, of[key].get(x))
    what = "group_by_span(%r of %r, %r)" % ([spans.get(g) for g in gnodes], gname, {k: [of[k].get(x) for x in v] for k, v in layers.items()}) \
        + repr({k: v for k, v in kw.items()})
    same([len(r) for r in result], [2] * len(result), what + ": shape")
    same(sorted(id(g) for g, _ in result), sorted(want), what + ": the groups returned")
    starts = [spans[g][0] for g, _ in result]
    same(starts, sorted(starts), what + ": order of the groups")
    for g, got in result:
        same(set(got), set(layers), what + ": layers of the group %r" % (spans[g],))
        for key in layers:
            ids = sorted(id(x) for x in got[key])
            if ids != want[id(g)][key]:
                same([names.get((key, i)) for i in ids], [names.get((key, i)) for i in want[id(g)][key]], what + ": bucket %r of the group %r" % (key, spans[g]))
                need(False, what + ": bucket %r" % key)
    if kw.get("layer_span_field") and c["reverse"]:
        del kw["layer_span_field"][sorted(layers)[0]]
        raises((KeyError,), lambda: group_by_span(gnodes, {k: list(v) for k, v in layers.items()}, **kw), what + ": a layer without a span field")
    rec.label("mode %s" % c["mode"], "%d layers" % len(layers))
    if len(gnodes) > 100:
        rec.label("more than 100 groups")
    if any(spans[g][0] == spans[g][1] for g, _ in result):
        rec.label("empty group span")
    rec.hit(total >= 3 and len(result) >= 2)


@st.composite
def plans(draw, big=False):
    size = draw(st.sampled_from((4, 8, 8, 12, 40) if not big else (60, 200)))
    row = st.one_of(st.tuples(st.integers(0, size), st.sampled_from((0, 1, 2, 3, 1, 2, 4))),
                    st.tuples(st.integers(0, size), st.integers(0, size)))
    rows = st.lists(gen.weighted((6, row), (1, st.none())), max_size=8 if not big else 60, min_size=0 if not big else 30)
    names = draw(st.lists(st.sampled_from(("token", "sentence", "ent", "text")), min_size=1, max_size=3, unique=True))
    layers = []
    for name in names:
        r = draw(rows)
        if r and draw(st.integers(0, 3)) == 3:
            r = r + [r[0]]
        layers.append([name, draw(st.sampled_from(("text", "text", "text", "where", "k"))), r])
    shape = st.sampled_from(("list", "iter", "tuple", "nodelist", "loose", "list", "reversed", "layer", "same"))
    calls = []
    for _ in range(draw(st.integers(1, 4))):
        keys = draw(st.lists(st.sampled_from(("token", "ent", "k", "v", "x")), min_size=0 if draw(st.integers(0, 9)) == 9 else 1, max_size=3, unique=True))
        same_layer = draw(gen.small) if draw(st.integers(0, 2)) == 2 else None      # one layer under several names
        calls.append({"group": draw(gen.small), "pick": draw(gen.weighted((3, st.just([True])), (1, gen.mask))), "reverse": draw(st.booleans()),
                      "gshape": draw(st.sampled_from(("list", "iter", "tuple", "nodelist", "layer", "same"))),
                      "layers": [[k, draw(gen.small) if same_layer is None else same_layer, draw(shape), draw(st.sampled_from((0, 0, 1, 2)))] for k in keys],
                      "mode": draw(st.sampled_from((None, "intersect", "cover", "cover"))),
                      "empty": draw(st.sampled_from((None, True, False))), "explicit": draw(st.booleans())})
    return {"size": size, "layers": layers, "calls": calls, "decoded": draw(st.booleans()), "decoys": draw(st.booleans()), "none": draw(st.booleans()),
            "change": draw(st.lists(st.integers(0, 30), min_size=1, max_size=4)) if draw(st.booleans()) else []}


@st.composite
def tiled(draw):
    plan = draw(plans())
    plan["tile"] = [draw(st.sampled_from((20, 33, 60, 130))), draw(st.sampled_from((0, 1, 3, 9, 40)))]
    plan["calls"] = plan["calls"][:2]
    return plan


FACETS = [
    Facet("repeated sets", tiled, check, "the small sets 20-130 times over, shifted by 0-40: as below", 250, 6000),
    Facet("small sets", plans, check,
          "some call returned at least two groups with three memberships in total", 8000, 120000),
    Facet("large sets", lambda: plans(big=True), check,
          "some call returned at least two groups with three memberships in total", 300, 6000),
]
