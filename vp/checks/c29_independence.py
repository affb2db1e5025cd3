"""C29: independent uses never influence one another."""
import copy
import io
import sys
import threading

from .. import gen
from ..coll import CODECS, Docs, Keep, available, shape
from ..core import Facet, Violation, need, same
from ..model import tag, apply, build, canon, check_layers, encode, expected, repair
from .c01_binary_roundtrip import large  # noqa
from .c05_partial_reads import ruin, subset
from .c27_twins import PROBES, outcome, place
from hypothesis import strategies as st
from docria.algorithm import (bfs, children_of, dfs, dfs_leaves, dominant_right, group_by_span, sequence_to_textspans,
                              span_translate)
from docria.codec import JsonCodec, MsgpackCodec, MsgpackDocument, XmlCodec
from docria.collection import MsgpackDocumentReader, MsgpackDocumentWriter, get_codec
from docria.model import DataTypes as T, Document, NodeList, NodeSpan

QUICK = 1     # factor on the quick numbers of cases
ASSUMPTIONS = ["one document, reader or writer is used by one thread only; encoded bytes are shared freely",
               "layers are not edited while iterations over them are under way"]


# ---------------------------------------------------------------- scripts: generators of plain results, one per step

def script(s):
    kind = s["kind"]
    if kind == "doc":
        yield from doc_script(s)
    elif kind == "view":
        yield from view_script(s)
    elif kind == "coll":
        yield from coll_script(s)
    else:
        yield from algo_script(s)


def doc_script(s):
    model, (w,) = build(s["doc"])
    yield canon(w.doc)
    for op in s["later"]:
        apply(model, [w], op)
        check_layers(model, [w], "after %r: " % (op,))
        yield canon(w.doc)
    for p in s["probes"]:
        yield outcome(w.doc, p)
    repair(model, [w])


def view_script(s):
    model, (w,) = build(s["doc"])
    repair(model, [w])
    data = encode(w.doc)
    yield data
    view = MsgpackDocument(data if s["bytes"] else io.BytesIO(data))
    for kind, ks in s["reads"]:
        if kind == "props":
            yield tag(view.properties())
        elif kind == "some props":
            yield tag(view.properties(*(subset(list(model.props) + ["no such"], ks) or ["no such"])))
        elif kind == "schema":
            types, schema = view.schema()
            yield list(types), {t: [(f, repr(d)) for f, d in fs] for t, fs in schema.items()}
            for fs in schema.values():     # what was returned is the caller's
                del fs[::2]
            types.reverse()
        elif kind == "texts":
            got = {k: "".join(v) for k, v in view.texts().items()}
            same(got, model.texts, "texts()")
            yield got
        elif kind == "some texts":
            yield {k: "".join(v) for k, v in view.texts(*(subset(list(model.texts) + ["no such"], ks) or ["no such"])).items()}
        elif kind == "document":
            d = view.document()
            got = canon(d, drop_empty=True)
            same(got, expected(model, drop_empty=True), "document()")
            yield got
            ruin(d, ks[0])
        elif kind == "some layers":
            names = subset(model.layers, ks)
            yield sorted(canon(view.document(*names), drop_empty=True)["layers"]) if names else None
        elif kind == "json":
            d = MsgpackCodec.decode(data)
            yield outcome(d, ("doc", 0, 0, 7))
            yield outcome(d, ("doc", 0, 0, 6))
        else:
            yield view.binary()


def coll_script(s):
    docs = Docs(s["shapes"])
    out = Keep()
    w = MsgpackDocumentWriter(out, num_docs_per_block=s["per"], codec=get_codec(s["codec"] if s["codec"] in available() else "zip"))
    want = []
    for op in s["ops"]:
        if op[0] == "flush":
            w.flush()
        else:
            i = op[1] % len(docs.docs)
            w.write(docs.given(i, op[2]))
            want.append(i)
        yield len(out.getvalue())
    w.close()
    if s["again"]:
        w.close()
    r = MsgpackDocumentReader(io.BytesIO(out.getvalue()))
    refs = []
    for d in r:
        refs.append(d.ref)
        same(d.binary(), docs.data[want[len(refs) - 1]], "document %d read" % len(refs))
        yield d.ref, d.binary()
    same(len(refs), len(want), "documents read")
    for k in s["get"]:
        if refs:
            d = r.get(refs[k % len(refs)])
            same(d.binary(), docs.data[want[k % len(refs)]], "document fetched")
            yield canon(d.document())


def algo_script(s):
    doc = Document()
    words = s["words"]
    text = doc.add_text("main", " ".join(words) + " ")
    tok = doc.add_layer("token", text=T.span("main"), id=T.int32, head=T.noderef("token"), deps=T.noderef_many("token"),
                        image=T.span("main"))
    spans = sequence_to_textspans(words, text)
    yield [(x.start, x.stop) for x in spans]
    nodes = []
    for i, (word, x) in enumerate(zip(words, spans)):
        same(str(x), word, "token %d" % i)
        nodes.append(tok.add(id=i, text=x))
    for i, n in enumerate(nodes):
        n["head"] = nodes[s["heads"][i % len(s["heads"])] % len(nodes)]
        n["deps"] = [nodes[(i + k) % len(nodes)] for k in s["heads"]]
    yield canon(doc)
    children = children_of(tok, "head", "deps")
    walks = [bfs(nodes[0], children), dfs(nodes[0], children), dfs_leaves(nodes[-1], children_of(tok, "head"))]
    walks += [iter(tok), iter(NodeList(nodes)), iter(NodeSpan(nodes[0], nodes[-1])), iter(tok[tok["id"] > 1]), iter(text)]
    while walks:                       # one step of every traversal in turn
        for x in list(walks):
            v = next(x, None)
            if v is None:
                walks.remove(x)
            yield place(doc, v)
    ranges = [(a % 20, a % 20 + b % 5 + 1, i) for i, (a, b) in enumerate(s["ranges"])]
    yield dominant_right(list(ranges))
    sent = doc.add_layer("sentence", text=T.span("main"))
    for a, b, _ in ranges:
        if b <= len(text):
            sent.add(text=text[a:b])
    yield [(place(doc, g), sorted(map(repr, place(doc, b["token"])))) for g, b in group_by_span(list(sent), {"token": nodes})]
    m = doc.add_layer("map", source=T.span("main"), target=T.span("main"))
    n = len(text)
    for i in range(n):
        m.add(source=text[i:i + 1], target=text[n - 1 - i:n - i])
    todo = doc.add_layer("todo", text=T.span("main"), image=T.span("main"))
    for i in range(0, n, 3):
        todo.add(text=text[i:i + 1])
    span_translate(doc, "map", ("target", "source"), "todo", ("text", "image"))
    same([(x["image"].start, x["text"].start) for x in todo], [(n - 1 - i, i) for i in range(0, n, 3)], "translated")
    yield canon(doc)
    yield XmlCodec.encode_utf8string(doc), JsonCodec.encode(doc)
    yield MsgpackCodec.encode(doc)


# ---------------------------------------------------------------- alone, again, interleaved, in threads

def check(plan, rec):
    scripts = plan["scripts"]
    alone = [list(script(s)) for s in scripts]
    for i in reversed(range(len(scripts))):
        compare(list(script(scripts[i])), alone[i], "script %d run again after the others" % i)
    gens = [script(s) for s in scripts]
    out = [[] for _ in scripts]
    k = 0
    live = list(range(len(gens)))
    switches, last = 0, None
    while live:
        i = live[plan["schedule"][k % len(plan["schedule"])] % len(live)]
        k += 1
        switches += i != last
        last = i
        try:
            out[i].append(next(gens[i]))
        except StopIteration:
            live.remove(i)
    for i in range(len(scripts)):
        compare(out[i], alone[i], "script %d interleaved with the others" % i)
    if plan["threads"]:
        threads(plan, scripts, alone)
        rec.label("threads")
    for s in scripts:
        rec.label("kind " + s["kind"])
    rec.hit(switches >= 3 and all(len(a) >= 3 for a in alone))


def compare(got, want, what):
    same(len(got), len(want), what + ": steps")
    for n, (a, b) in enumerate(zip(got, want)):
        same(a, b, "%s: result of step %d" % (what, n))


def threads(plan, scripts, alone):
    results = {}
    start = threading.Barrier(len(scripts))

    def run(i):
        try:
            start.wait()
            results[i] = ("ok", list(script(scripts[i])))
        except BaseException as e:
            results[i] = ("raised", e)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=run, args=(i,), daemon=True) for i in range(len(scripts))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    for i in range(len(scripts)):
        how, r = results[i]
        if how == "raised":
            if isinstance(r, Violation):
                raise Violation("script %d in a thread: %s" % (i, r))
            raise Violation("script %d in a thread: %s: %s" % (i, type(r).__name__, r))
        compare(r, alone[i], "script %d in a thread of its own" % i)


READS = ("props", "some props", "schema", "texts", "some texts", "document", "document", "some layers", "json", "binary")


def vary(plan, how, draw):
    """The same names with other contents."""
    plan = copy.deepcopy(plan)
    plan["texts"] = [[name, [["\u00e5" if how & 1 else "zz ", 2]] + pieces[::-1]] for name, pieces in plan["texts"]]
    for la in plan["layers"]:
        la["n"] = max(0, la["n"] + (1 if how & 2 else -1))
        for f, c in la["cols"].items():
            c["vals"] = c["vals"][::-1] if how & 4 else c["vals"][1:] + c["vals"][:1]
            c["mask"] = c["mask"] + [True]
    plan["props"] = {k: (v if how & 8 else "other") for k, v in plan["props"].items()}
    return plan


@st.composite
def one(draw, docs):
    kind = draw(st.sampled_from(("doc", "doc", "view", "view", "coll", "coll", "algo")))
    if kind in ("doc", "view"):
        if docs and draw(st.integers(0, 3)):
            d = vary(docs[0], draw(st.integers(0, 15)), draw)
        else:
            d = draw(gen.document(binary=draw(st.booleans()), ops=gen.edit_ops() if kind == "view" else None, maxlayers=3,
                                  big=draw(st.integers(0, 19)) == 19))
            docs.append(d)
    if kind == "doc":
        return {"kind": kind, "doc": d, "later": draw(st.lists(gen.weighted((3, gen.edit_ops()), (1, gen.schema_ops())), max_size=6)) if d["layers"] else [],
                "probes": [list(p) for p in draw(st.lists(st.tuples(st.sampled_from(PROBES), gen.small, gen.idx, st.integers(0, 60)), min_size=draw(st.sampled_from((0, 2))), max_size=5))]}
    if kind == "view":
        return {"kind": kind, "doc": d, "bytes": draw(st.booleans()),
                "reads": draw(st.lists(st.tuples(st.sampled_from(READS), st.lists(st.integers(0, 20), min_size=1, max_size=3)).map(list), min_size=draw(st.sampled_from((1, 2, 3))), max_size=6))}
    if kind == "coll":
        ops = st.one_of(*[st.tuples(st.just("w"), st.integers(0, 5), st.integers(0, 3))] * 4, st.tuples(st.just("flush"))).map(list)
        return {"kind": kind, "shapes": draw(st.lists(shape(), min_size=1, max_size=3)), "codec": draw(st.sampled_from(CODECS[:7])),
                "per": draw(st.sampled_from((1, 2, 3, 128))), "ops": draw(st.lists(ops, max_size=8)), "again": draw(st.booleans()), "get": draw(st.lists(st.integers(0, 9), max_size=4))}
    return {"kind": "algo", "words": draw(st.lists(st.sampled_from(("a", "ab", "b", "Lund", "\u00e5\u00e4", "\U0001f600", "aa", ".")), min_size=1, max_size=9)),
            "heads": draw(st.lists(st.integers(0, 9), min_size=1, max_size=4)),
            "ranges": draw(st.lists(st.tuples(st.integers(0, 19), st.integers(0, 9)).map(list), max_size=6))}


@st.composite
def plans(draw, threads=None):
    docs = []
    n = draw(st.sampled_from((2, 2, 3, 4)))
    return {"scripts": [draw(one(docs)) for _ in range(n)], "schedule": draw(st.lists(st.integers(0, 11), min_size=1, max_size=12)),
            "threads": draw(st.integers(0, 3)) == 3 if threads is None else threads}


# ---------------------------------------------------------------- the same encoded bytes and heavy work in several threads

def check_busy(plan, rec):
    """Decoding and encoding over and over in several threads, some of them over the same bytes."""
    made = []
    for d in plan["docs"]:
        model, (w,) = build(d)
        repair(model, [w])
        made.append((encode(w.doc), expected(model, drop_empty=True)))
    errors, done = [], []
    start = threading.Barrier(len(plan["who"]))

    def run(i, ks):
        try:
            start.wait()
            for k in ks:
                data, want = made[i % len(made)]
                how = k % 4
                doc = MsgpackDocument(data).document() if how == 1 else MsgpackCodec.decode(data)
                same(canon(doc, drop_empty=True), want, "thread over document %d, step %d: decoded" % (i % len(made), k))
                if how == 2:
                    f = Keep()
                    x = MsgpackDocumentWriter(f, num_docs_per_block=1 + k % 3, codec=get_codec("none" if k % 2 else "zip"))
                    for _ in range(3):
                        x.write(doc)
                    x.close()
                    same([y.binary() == data for y in MsgpackDocumentReader(io.BytesIO(f.getvalue()))], [True] * 3,
                         "thread over document %d, step %d: collection" % (i % len(made), k))
                elif how == 3:
                    obj = outcome(doc, ("doc", 0, 0, 7))
                    same(outcome(MsgpackCodec.decode(data), ("doc", 0, 0, 7)), obj, "thread over document %d, step %d: JSON" % (i % len(made), k))
                same(encode(doc), data, "thread over document %d, step %d: encoded again" % (i % len(made), k))
            done.append(i)
        except BaseException as e:
            errors.append(e)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=run, args=w, daemon=True) for w in plan["who"]]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    if errors:
        e = errors[0]
        raise Violation(str(e) if isinstance(e, Violation) else "in one of %d threads: %s: %s" % (len(plan["who"]), type(e).__name__, e))
    rec.label("%d threads" % len(plan["who"]))
    rec.hit(sum(d["n"] for p in plan["docs"] for d in p["layers"]) >= 4)


@st.composite
def busy_plans(draw):
    docs = [draw(gen.document(maxlayers=3, big=False, need_layer=True, ops=gen.edit_ops()))]
    docs += [vary(docs[0], draw(st.integers(0, 15)), draw) for _ in range(draw(st.integers(0, 2)))]
    ks = st.lists(st.integers(0, 11), min_size=2, max_size=8)
    return {"docs": docs, "who": draw(st.lists(st.tuples(st.integers(0, 5), ks).map(list), min_size=2, max_size=4))}


# ---------------------------------------------------------------- several iterations over one object

def sources(doc, model):
    """name -> function giving a new iteration."""
    out = {}
    for ml in model.layers.values():
        layer = doc.layers[ml.name]
        nodes = list(layer)
        pre = ml.name + " "
        out[pre + "layer"] = layer.__iter__
        lst = NodeList(nodes)
        out[pre + "list"] = lst.__iter__
        out[pre + "slice"] = layer[:].__iter__
        if nodes:
            span = NodeSpan(nodes[0], nodes[-1])
            out[pre + "span"] = span.__iter__
            out[pre + "part"] = NodeSpan(nodes[len(nodes) // 3], nodes[-1]).__iter__
            out[pre + "iter_nodespan"] = lambda layer=layer, nodes=nodes: iter(layer.iter_nodespan(nodes[0], nodes[-1]))
        for f, (typ, arg, _) in list(ml.fields.items())[:3]:
            out[pre + "column " + f] = layer[f].__iter__
            q = layer[layer[f].has_value()]
            out[pre + "query " + f] = q.__iter__
            out[pre + "query of list " + f] = lst[lst[f].is_none()].__iter__ if f in lst.fieldtypes else lst.__iter__
            if typ in ("ref", "refs"):
                children = children_of(layer, f)
                if arg == ml.name and nodes:
                    out[pre + "bfs " + f] = lambda n=nodes[0], c=children: iter(bfs(n, c))
                    out[pre + "dfs " + f] = lambda n=nodes[-1], c=children: iter(dfs(n, c))
                    out[pre + "leaves " + f] = lambda n=nodes[0], c=children: iter(dfs_leaves(n, c))
                if nodes:
                    out[pre + "children " + f] = lambda n=nodes[0], c=children: iter(c(n))
    for name, t in doc.texts.items():
        out["text " + name] = t.__iter__
        if len(t) > 1:
            out["part of text " + name] = t[1:].__iter__
    return out


def check_iter(plan, rec):
    model, (w,) = build(plan)
    repair(model, [w])
    doc = w.doc
    src = sources(doc, model)
    names = sorted(src)
    if not names:
        rec.label("nothing to iterate over")
        return
    picked = [names[k % len(names)] for k in plan["pick"]]
    picked += picked[:1]                      # one of them twice at once
    alone = [[place(doc, v) for v in src[x]()] for x in picked]
    if plan["restart"]:                       # and left before its end
        for x in picked:
            it = src[x]()
            next(it, None)
    its = [src[x]() for x in picked]
    need(len({id(i) for i in its}) == len(its), "two iterations are one object: %r", picked)
    out = [[] for _ in picked]
    live = list(range(len(its)))
    k = 0
    while live:
        i = live[plan["schedule"][k % len(plan["schedule"])] % len(live)]
        k += 1
        try:
            out[i].append(place(doc, next(its[i])))
        except StopIteration:
            live.remove(i)
    for x, a, b in zip(picked, out, alone):
        same(a, b, "iteration over %s, interleaved with others over %r" % (x, picked))
        rec.label(" ".join(x.split()[1:2]) if not x.startswith(("text", "part")) else "text")
    rec.hit(sum(len(a) >= 2 for a in alone) >= 2)


@st.composite
def iter_plans(draw):
    plan = draw(gen.document(ops=gen.edit_ops(), maxlayers=3, big=False, need_layer=True, need_text=draw(st.booleans())))
    plan["pick"] = draw(st.lists(st.integers(0, 60), min_size=1, max_size=4))
    plan["schedule"] = draw(st.lists(st.integers(0, 11), min_size=1, max_size=12))
    plan["restart"] = draw(st.booleans())
    return plan


FACETS = [
    Facet("scripts", plans, check, "2-4 scripts over documents, views, collections and algorithms, mostly with the same names, run alone, again, "
          "interleaved and sometimes in threads; non-trivial: three switches or more and three results or more from each", 1000, 20000, case_seconds=60),
    Facet("threads", lambda: plans(threads=True), check, "the same, always also in threads", 300, 8000, case_seconds=60),
    Facet("busy threads", busy_plans, check_busy, "2-4 threads decoding and encoding 1-3 documents over and over; non-trivial: four nodes or more",
          400, 8000, case_seconds=60),
    Facet("iterations", iter_plans, check_iter, "2-5 interleaved iterations over layers, lists, spans, queries, columns, texts and graphs of one document; "
          "non-trivial: two of them of two items or more", 1500, 20000),
]
