"""C14: a layer is an ordered list of nodes under any edit history."""
from .. import gen
from ..core import Facet, Violation, need, same
from ..model import apply, build, canon, check_layers, expected, _bury
from hypothesis import strategies as st
from docria.model import Node

ASSUMPTIONS = ["nodes handed to add() are not attached elsewhere", "a layer is not edited while being iterated over (removing what an iterator "
               "over the layer yields in one call is included)",
               "what a refused edit with several nodes did to the nodes before the offending one is left open"]


def refused(fn, what):
    try:
        fn()
    except Exception:
        return
    raise Violation("%s: accepted" % what)


def attempt(model, w, op, rec):
    """An edit that must be refused; the layer keeps what the model says."""
    kind = op[1]
    if not model.layers:
        return
    mls = list(model.layers.values())
    ml = mls[op[2] % len(mls)]
    layer = w.doc.layers[ml.name]
    others = [n for o in mls if o is not ml for n in o.nodes]
    graves = [n for n, _ in model.graveyard]
    bad = None
    if kind in ("foreign", "mixed") and others:
        bad = w.node[others[op[3] % len(others)]]
    elif kind == "removed" and graves:
        bad = w.node[graves[op[3] % len(graves)]]
    elif kind == "never added":
        bad = Node(x=1)
    elif kind == "garbage":
        bad = (5, object(), 1.5)[op[3] % 3]
    if kind == "sort":
        if len(ml.nodes) < 2:
            return
        pos = {id(w.node[n]): i for i, n in enumerate(ml.nodes)}
        cut = op[3] % len(ml.nodes)

        def key(n):
            i = pos[id(n)]
            return None if i == cut else -(i * 7 % 5)
        refused(lambda: layer.sort(key), "sort by keys that cannot be compared")
        got = list(layer)
        need(sorted(map(id, got)) == sorted(id(w.node[n]) for n in ml.nodes), "a failed sort lost or duplicated nodes")
        back = {id(w.node[n]): n for n in ml.nodes}
        ml.nodes = [back[id(n)] for n in got]
        rec.label("refused:sort")
        return
    if bad is None:
        return
    rec.label("refused:" + kind)
    how = op[4] % 5
    if how == 0 or kind == "mixed":
        good = ml.nodes[op[3] % len(ml.nodes)] if ml.nodes else None
        if kind == "mixed" and good is not None:
            refused(lambda: layer.remove([w.node[good], bad]), "removing a node of the layer and %r" % (bad,))
            if w.node[good].is_dangling():
                _bury(model, ml, [good])
        else:
            refused(lambda: layer.remove(bad), "removing %r" % (bad,))
    elif how == 1:
        refused(lambda: layer.remove([bad]), "removing [%r]" % (bad,))
    elif how == 2:
        refused(lambda: layer.retain([w.node[n] for n in ml.nodes[:2]] + [bad]), "retaining %r" % (bad,))
    elif how == 3:
        if isinstance(bad, Node):
            refused(lambda: layer[bad], "layer[%r]" % bad)
        else:
            refused(lambda: layer.add(bad), "adding %r" % (bad,))
    elif kind == "foreign":
        refused(lambda: layer.add_many([bad]), "adding a node of another layer with add_many")
    elif kind == "garbage":
        refused(lambda: layer.add_many([bad]), "adding %r with add_many" % (bad,))


def extra(model, w, op, rec):
    """Edits through the layer itself."""
    kind = op[1]
    mls = list(model.layers.values())
    if not mls:
        return
    ml = mls[op[2] % len(mls)]
    layer = w.doc.layers[ml.name]
    m, k = 2 + op[3] % 4, op[4] % 4
    pos = {id(w.node[n]): i for i, n in enumerate(ml.nodes)}
    dead = [n for i, n in enumerate(ml.nodes) if i % m == k % m]
    rec.label(kind)
    if kind == "remove generator":
        layer.remove(n for n in layer if pos[id(n)] % m == k % m)
    elif kind == "remove slice":
        dead = [n for n in ml.nodes if m <= w.node[n].i < m + 2 * k]
        layer.remove(layer[m:m + 2 * k])
    elif kind == "del query":
        del layer[layer[lambda n: pos[id(n)] % m == k % m]]
    elif kind == "retain list":
        dead = [n for i, n in enumerate(ml.nodes) if i % m != k % m]
        layer.retain(layer.to_list()[k % m::m])
    elif kind == "remove and add again":
        if not dead:
            return
        reals = [w.node[n] for n in dead]
        layer.remove(reals)
        need(all(n.is_dangling() and n.collection is None for n in reals), "removed nodes are still attached")
        layer.add(*reals)
        dset = set(dead)
        ml.nodes = [n for n in ml.nodes if n not in dset] + dead
        return
    elif kind == "sort by neighbour":
        # a key that looks at the layer while it is being sorted
        order = {n: -i for i, n in enumerate(ml.nodes)}
        if m % 2 or len(ml.nodes) > 100:
            layer.sort(lambda n: -n.i)
        else:
            layer.sort(lambda n: -sum(1 for x in layer if x.i < n.i))
        ml.nodes.sort(key=order.__getitem__)
        return
    elif kind == "sort by field":
        if not ml.fields:
            return
        f = list(ml.fields)[k % len(ml.fields)]
        if ml.fields[f][0] not in ("i32", "i64", "str", "i1", "bin"):
            return
        keys = {n: (f in n.fields, n.fields.get(f)) if f in n.fields else (False,) for n in ml.nodes}
        layer.sort(lambda n: (f in n, n[f]) if f in n else (False,))
        ml.nodes.sort(key=keys.__getitem__)
        return
    elif kind == "sort one way and back":
        layer.sort(lambda n: -pos[id(n)])
        layer.sort(lambda n: pos[id(n)])
        return
    _bury(model, ml, dead)


EXTRA = ("remove generator", "remove slice", "del query", "retain list", "remove and add again", "sort by neighbour", "sort by field",
         "sort one way and back")
REFUSED = ("foreign", "removed", "never added", "garbage", "mixed", "sort")


def check(plan, rec):
    model, (w,) = build(plan, apply_ops=False)
    check_layers(model, [w], "after building: ")
    changed = 0
    for op in plan["ops"]:
        before = [list(ml.nodes) for ml in model.layers.values()]
        if op[0] == "refuse":
            attempt(model, w, op, rec)
        elif op[0] == "extra":
            extra(model, w, op, rec)
        else:
            apply(model, [w], op)
            rec.label(op[0])
        changed += before != [list(ml.nodes) for ml in model.layers.values()]
        compacted = op[0] in ("enc",) or (op[0] == "compact" and len(model.layers) == 1)
        check_layers(model, [w], "after %r: " % (op,), compacted=compacted)
        if op[0] == "compact":
            ml = list(model.layers.values())[op[1] % len(model.layers)] if model.layers else None
            if ml:
                same([w.node[n].i for n in ml.nodes], list(range(len(ml.nodes))), "indices after compaction of %r" % ml.name)
        if sum(len(ml.nodes) for ml in model.layers.values()) < 40:
            same(canon(w.doc), expected(model), "document after %r" % (op,))
    same(canon(w.doc), expected(model), "document at the end")
    rec.hit(changed >= 2)


def ops():
    return gen.weighted((6, gen.edit_ops()),
                        (2, st.tuples(st.just("refuse"), st.sampled_from(REFUSED), gen.small, gen.idx, gen.small).map(list)),
                        (2, st.tuples(st.just("extra"), st.sampled_from(EXTRA), gen.small, gen.idx, gen.small).map(list)))


@st.composite
def plans(draw):
    plan = draw(gen.document(need_layer=True, maxlayers=3))
    plan["props"] = {}
    plan["ops"] = draw(st.lists(ops(), min_size=3, max_size=18))
    return plan


@st.composite
def gap_plans(draw):
    """One layer around the size and gap density at which it compacts itself."""
    n = draw(st.sampled_from((16, 17, 18, 20, 24, 33, 64)))
    fields = [["id", "i32", None, ["none"]], ["next", "ref", 0, ["std"]]]
    cols = {"id": {"vals": [1, 5, 3], "mask": [True, True, False]}, "next": {"vals": [-1, 2], "mask": [True]}}
    layers = [{"name": "token", "fields": fields, "n": n, "cols": cols, "how": draw(st.sampled_from(gen.HOW))}]
    rm = st.one_of(st.tuples(st.just("rm"), st.just(0), gen.idx), st.tuples(st.just("det"), st.just(0), gen.idx),
                   st.tuples(st.just("rml"), st.just(0), gen.idxs, st.booleans()), st.tuples(st.just("del"), st.just(0), gen.idx),
                   st.tuples(st.just("rmq"), st.just(0), st.integers(2, 6), gen.small, st.integers(0, 2)),
                   st.tuples(st.just("re"), st.just(0), gen.idx, st.booleans())).map(list)
    return {"props": {}, "texts": [], "layers": layers, "ops": draw(st.lists(gen.weighted((2, rm), (1, ops())), min_size=4, max_size=25))}


@st.composite
def tall_plans(draw):
    plan = draw(gen.tall(maxlayers=2))
    plan["props"] = {}
    many = st.tuples(st.just("many"), gen.small, st.sampled_from((1, 40, 300)), gen.ks, st.booleans(), st.booleans(), st.booleans()).map(list)
    rmq = st.tuples(st.sampled_from(("rmq", "retq")), gen.small, st.integers(2, 6), gen.small, st.integers(0, 2)).map(list)
    srt = st.tuples(st.just("sort"), gen.small, st.integers(2, 40), st.integers(1, 40)).map(list)
    plan["ops"] = draw(st.lists(gen.weighted((4, ops()), (1, many), (2, rmq), (1, srt)), min_size=3, max_size=9))
    return plan


FACETS = [
    Facet("large histories", tall_plans, check,
          "layers of 64-2000 nodes under 3-9 edits, among them removals of every k-th node and re-orderings; non-trivial: at least two edits changed a layer",
          300, 8000),
    Facet("edit histories", plans, check,
          "documents of up to 3 layers under 3-18 edits including refused ones, compared with plain lists after every edit; "
          "non-trivial: at least two edits changed a layer", 1600, 40000),
    Facet("gaps and compaction", gap_plans, check,
          "one layer of 16-64 nodes under 4-25 removals, re-additions and other edits; non-trivial: at least two edits changed it", 1000, 30000),
]
