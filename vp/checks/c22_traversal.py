"""C22: graph traversals visit every reachable node once, in the promised order."""
from collections import deque
from .. import gen
from ..core import Facet, need, same
from ..model import encode
from hypothesis import strategies as st
from docria.algorithm import bfs, chain, children_of, dfs, dfs_leaves, get_prop
from docria.codec import MsgpackCodec
from docria.model import DataTypes as T, Document, Node, NodeList, NodeSpan

ASSUMPTIONS = ["the order of nodes at the same depth in a breadth-first traversal is left open",
               "children fields name nodes still in their layers"]


def check(plan, rec):
    n = plan["n"]
    doc = Document()
    layer = doc.add_layer("node", id=T.int32, flag=T.bool, **{f: T.noderef("node") if k == "ref" else T.noderef_many("node")
                                                               for f, k in plan["fields"]})
    nodes = []
    for i in range(n):
        if plan["bare"][i % len(plan["bare"])]:      # a node without any field (until it gets children)
            nodes.append(Node())
            layer.add(nodes[-1])
        else:
            nodes.append(layer.add(id=i, flag=bool(plan["flags"][i % len(plan["flags"])])))
    if any(plan["bare"]):
        rec.label("bare nodes")
    edges = {}           # field -> node -> list of targets
    for f, kind in plan["fields"]:
        edges[f] = {}
        for i, targets in plan["edges"].get(f, []):
            i %= n
            if kind == "ref":
                targets = [t % n for t in targets[:1]]
                if not targets:
                    continue
                nodes[i][f] = nodes[targets[0]]
            else:
                targets = [t % n for t in targets]
                arr = [nodes[t] for t in targets]
                if plan["arrays"] == 2 and arr:
                    # a run of nodes, held as a span
                    targets = list(range(min(targets), max(targets) + 1))
                    nodes[i][f] = NodeSpan(nodes[targets[0]], nodes[targets[-1]])
                    rec.label("node span")
                else:
                    nodes[i][f] = NodeList(arr) if plan["arrays"] == 1 and arr else arr
            edges[f][i] = targets
    if plan["chain"]:
        # a long chain through the last array field
        f = next((f for f, k in plan["fields"] if k == "refs"), None)
        if f is not None:
            for i in range(n - 1):
                edges[f][i] = edges[f].get(i, []) + [i + 1]
                nodes[i][f] = [nodes[t] for t in edges[f][i]]
    if plan["fan"]:
        # one node with very many children, which all have the same child
        f = next((f for f, k in plan["fields"] if k == "refs"), None)
        if f is not None:
            hub, last = plan["starts"][0] % n, (plan["starts"][0] + plan["fan"] + 1) % n
            edges[f][hub] = edges[f].get(hub, []) + [(hub + 1 + i) % n for i in range(plan["fan"])]
            for i in edges[f][hub]:
                edges[f][i] = edges[f].get(i, []) + [last] if i != hub else edges[f][hub]
            for i in edges[f]:
                nodes[i][f] = [nodes[t] for t in edges[f][i]]
    if plan["decoded"]:
        doc = MsgpackCodec.decode(encode(doc))
        layer = doc.layers["node"]
        nodes = list(layer)
    props = plan["props"]
    number = {id(x): i for i, x in enumerate(nodes)}

    def kids(i):
        return [t for f in props for t in edges[f].get(i, ())]
    if plan["how"] == "children_of":
        children = children_of(layer, *props)
    elif plan["how"] == "list":
        def children(x):
            return [nodes[t] for t in kids(number[id(x)])]
    else:
        def children(x):
            return (nodes[t] for t in kids(number[id(x)]))
    for i in plan["starts"]:
        i %= n
        got = [number.get(id(x)) for x in children(nodes[i])]
        same(got, kids(i), "children of node %d over %r" % (i, props))
        traversals(plan, rec, nodes, number, children, kids, i)
    if plan["change"] and not plan["decoded"]:
        # the same function of children after the fields have changed
        rec.label("changed graph")
        for f, i, targets in plan["change"]:
            f, kind = plan["fields"][f % len(plan["fields"])]
            i %= n
            targets = [t % n for t in targets]
            if not targets or kind == "ref" and i in edges[f] and not targets[0] % 3:
                if f in nodes[i]:
                    del nodes[i][f]
                edges[f].pop(i, None)
            elif kind == "ref":
                nodes[i][f], edges[f][i] = nodes[targets[0]], targets[:1]
            elif i in edges[f] and type(nodes[i][f]) is list and len(targets) % 2:
                nodes[i][f].append(nodes[targets[0]])
                edges[f][i] = edges[f][i] + targets[:1]
            else:
                nodes[i][f], edges[f][i] = [nodes[t] for t in targets], targets
        for i in plan["starts"]:
            i %= n
            same([number.get(id(x)) for x in children(nodes[i])], kids(i), "children of node %d over %r after changes" % (i, props))
            traversals(plan, rec, nodes, number, children, kids, i)


def traversals(plan, rec, nodes, number, children, kids, start):
    dist = {start: 0}
    q = deque([start])
    while q:
        i = q.popleft()
        for t in kids(i):
            if t not in dist:
                dist[t] = dist[i] + 1
                q.append(t)
    pre, seen, stack = [], {start}, [iter([start])]
    seen = set()
    while stack:
        i = next(stack[-1], None)
        if i is None:
            stack.pop()
        elif i not in seen:
            seen.add(i)
            pre.append(i)
            stack.append(iter(kids(i)))
    flag = {i: bool(plan["flags"][i % len(plan["flags"])]) and not plan["bare"][i % len(plan["bare"])] for i in dist}
    filters = [("all", None, lambda i: True), ("flagged", lambda x: x.get("flag"), lambda i: flag[i]),
               ("by id", lambda x: number[id(x)] % 3 == 1, lambda i: i % 3 == 1), ("none", lambda x: False, lambda i: False),
               ("every", lambda x: 1, lambda i: True), ("chained", chain(get_prop("flag"), lambda v: not v), lambda i: not flag[i]),
               ("by default", get_prop("flag", 5), lambda i: flag[i] or plan["bare"][i % len(plan["bare"])])]
    name, fn, ok = filters[plan["filter"] % len(filters)]
    kept = []
    if plan["give up"]:      # searches that are begun and not finished before the others
        rec.label("unfinished searches")
        for k, walk in enumerate((bfs, dfs, dfs_leaves)):
            kept.append(walk(nodes[start], children))
            for _ in range(plan["give up"] + k):
                next(kept[-1], None)
        if plan["give up"] % 2:
            kept.clear()
    args = () if fn is None and plan["default"] else (fn,)
    where = " from %d over %r, results %s, edges %r" % (start, plan["props"], name, {i: kids(i) for i in sorted(dist)} if len(dist) < 30 else "...")
    got = [(d, number.get(id(x))) for d, x in bfs(nodes[start], children, *args)]
    same(sorted(i for _, i in got), sorted(i for i in dist if ok(i)), "bfs" + where + ": nodes")
    same({i: d for d, i in got}, {i: d for i, d in dist.items() if ok(i)}, "bfs" + where + ": depths")
    depths = [d for d, _ in got]
    same(depths, sorted(depths), "bfs" + where + ": order of depths")
    same([number.get(id(x)) for x in dfs(nodes[start], children, *args)], [i for i in pre if ok(i)], "dfs" + where)
    leaves = [number.get(id(x)) for x in dfs_leaves(nodes[start], children, *args)]
    same(leaves, [i for i in pre if not kids(i) and ok(i)], "dfs_leaves" + where)
    if kept:
        # and go on as if nothing had happened
        for k, (walk, want) in enumerate(((bfs, None), (dfs, pre), (dfs_leaves, [i for i in pre if not kids(i)]))):
            rest = [number[id(x[1] if walk is bfs else x)] for x in kept[k]]
            if walk is bfs:
                same(len(rest), max(0, len(dist) - plan["give up"] - k), "rest of bfs" + where)
                need(len(set(rest)) == len(rest) and set(rest) <= set(dist), "rest of bfs%s: %r", where, rest)
            else:
                same(rest, want[plan["give up"] + k:], "rest of " + walk.__name__ + where)
    edges = sum(len(kids(i)) for i in dist)
    if any(i in kids(i) for i in dist):
        rec.label("self loop")
    if edges > len(dist):
        rec.label("more edges than nodes")
    if len(dist) > 500:
        rec.label("long chain")
    if len(kids(start)) >= 64:
        rec.label("wide")
    if len(plan["props"]) > 1:
        rec.label("several fields")
    if leaves:
        rec.label("leaves")
    if not all(fs for fs in (kids(i) for i in dist)):
        rec.label("nodes without children")
    rec.hit(len(dist) >= 4 and edges >= len(dist))


@st.composite
def plans(draw):
    fields = [["c%d" % i, draw(st.sampled_from(("ref", "refs", "refs")))] for i in range(draw(st.sampled_from((1, 2, 3, 2, 3, 5))))]
    long = draw(st.integers(0, 60)) == 60
    fan = 0 if long or draw(st.integers(0, 19)) else draw(st.sampled_from((20, 64, 70, 100, 130, 260, 1000)))
    n = draw(st.sampled_from((1500, 3000))) if long else fan + draw(st.integers(2, 9)) if fan else draw(st.sampled_from((5, 6, 4, 7, 9, 3, 2, 1)))
    node = st.integers(0, n - 1)
    targets = st.lists(node, min_size=0, max_size=4)
    edges = {f: [list(e) for e in draw(st.lists(st.tuples(node, targets), min_size=draw(st.sampled_from((0, 2, 5))), max_size=10 if k == "refs" else 8))] for f, k in fields}
    names = [f for f, _ in fields]
    return {"n": n, "fields": fields, "edges": edges, "chain": long or draw(st.integers(0, 5)) == 5,
            "props": draw(st.lists(st.sampled_from(names), min_size=1, max_size=5, unique=draw(st.integers(0, 5)) != 0)),
            "starts": draw(st.lists(node, min_size=1, max_size=1 if long else 3)), "flags": draw(gen.mask), "filter": draw(gen.small),
            "how": draw(st.sampled_from(("children_of", "children_of", "list", "generator"))),
            "default": draw(st.booleans()), "decoded": draw(st.booleans()), "arrays": draw(st.integers(0, 2)), "fan": fan,
            "give up": draw(st.sampled_from((0, 0, 0, 1, 2, 3, 4))),
            "change": [list(c) for c in draw(st.lists(st.tuples(gen.small, node, targets), max_size=4))] if draw(st.integers(0, 2)) == 2 and not fan and not long else [],
            "bare": draw(gen.mask) if draw(st.integers(0, 2)) == 2 else [False]}


# ---------------------------------------------------------------- children over several layers, refused fields

def check_children(plan, rec):
    doc = Document()
    types = {"r": lambda: T.noderef("b"), "m": lambda: T.noderef_many("b"), "i": lambda: T.int32, "s": lambda: T.string,
             "x": lambda: T.span("main"), "n": lambda: T.nodespan("b"), "o": lambda: T.noderef("a"), "q": lambda: T.noderef_many("a")}
    doc.add_text("main", "text")
    b = doc.add_layer("b", id=T.int32)
    a = doc.add_layer("a", id=T.int32, **{f: types[f]() for f in types})
    bs = [Node() if plan["bare"] else Node(id=i) for i in range(4)]
    b.add(*bs)
    node = a.add(id=0)
    other = a.add(id=1)
    values = {"r": bs[1], "m": [bs[0], bs[3], bs[0]], "o": other, "q": [other, node], "i": 7, "s": "x"}
    if plan["as"]:
        values["m"], values["q"] = bs[plan["as"] - 1:], [node, other]
    for f in plan["set"]:
        if f in values:
            v = values[f]
            node[f] = NodeSpan(v[0], v[-1]) if plan["as"] and f in "mq" else v
    props = plan["props"]
    wrong = [p for p in props if p not in "rmoq"]
    if wrong or not props:
        try:
            children_of(a, *props)
        except Exception:
            rec.label("refused")
            rec.hit()
            return
        need(False, "children_of(%r) accepted", props)
    want = []
    for p in props:
        if p in plan["set"]:
            want += [values[p]] if p in "ro" else values[p]
    children = children_of(a, *props)
    for _ in range(2):
        same([id(x) for x in children(node)], [id(x) for x in want], "children over %r with %r set" % (props, plan["set"]))
    same(list(children(bs[2])), [], "children of a node of another layer")
    same([id(x) for x in dfs(node, children)][:1], [id(node)], "start of dfs")
    reach = {id(node)}
    todo = [node]
    while todo:
        x = todo.pop()
        for p in props:
            if p in x:
                for y in ([x[p]] if p in "ro" else list(x[p])):
                    if id(y) not in reach:
                        reach.add(id(y))
                        todo.append(y)
    same(sorted(id(x) for x in dfs(node, children)), sorted(reach), "nodes of dfs over %r" % props)
    same(sorted(id(x) for _, x in bfs(node, children)), sorted(reach), "nodes of bfs over %r" % props)
    rec.hit(len(want) >= 2)


def child_plans():
    return st.fixed_dictionaries({"bare": st.booleans(), "set": st.lists(st.sampled_from("rmoqis"), unique=True, max_size=6), "as": st.sampled_from((0, 0, 1, 2, 4)),
                                  "props": gen.weighted((5, st.lists(st.sampled_from("rmoq"), min_size=1, max_size=4)),
                                                        (1, st.lists(st.sampled_from("rmoqisxn"), max_size=4)))})


FACETS = [
    Facet("graphs", plans, check, "some start reaches at least four nodes over at least as many edges", 5000, 60000, case_seconds=60),
    Facet("children", child_plans, check_children, "at least two children, or unsupported fields refused", 1200, 20000),
]
