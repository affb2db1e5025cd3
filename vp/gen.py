"""Hypothesis strategies for document plans (see model.build)."""
from . import env  # noqa
from hypothesis import strategies as st

I32 = (0, 1, -1, 7, 127, 128, -32, -33, 255, 256, 65535, 65536, -32768, -32769, 2 ** 31 - 1, -2 ** 31)
I64 = I32 + (2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 53 + 1, 2 ** 63 - 1, -2 ** 63, -2 ** 31 - 1)
F64 = (0.0, -0.0, 1.0, -1.5, 0.1, 1e308, -1e308, 5e-324, 3.0, float("inf"), float("-inf"), float("nan"), 1e16, 123456789.123)
STR = ("", "a", "NN", "\n", " x ", "<&>\"'", "\u00e5\u00e4\u00f6", "\u6c34", "\U0001f600", "a\x00b", "\u2028", "x" * 31, "x" * 32,
       "y" * 255, "y" * 256, "\u00e9" * 20, "urn:wikidata:Q34", "DM_1", "\r", "\t", "\x1f", "\ufffd", "\u200b", "None", "%d")
BIN = (b"", b"\x00", b"DM_1", b"\xff\xfe\x80", bytes(range(256)), b"a" * 31, b"a" * 32, b"b" * 255, b"b" * 256, b"\xc1\xd9")
BOOL = (False, True)
POOL = {"i32": I32, "i64": I64, "f64": F64, "str": STR, "bin": BIN, "i1": BOOL}

SCALARS = ("i32", "i64", "f64", "i1", "str", "bin")
LINKS = ("ref", "refs", "nspan")

chars = st.characters(exclude_categories=["Cs"])
short_text = st.one_of(st.sampled_from(STR), st.text(chars, max_size=6))

NAMES = ("token", "sentence", "text", "id", "pos", "head", "main", "x", "a.b", "Type", "type", "layer", "\u00c5ngstr\u00f6m",
         "n" * 33, "with space", "100%", "default", "args", "data", "keys", "_id", "i", "left", "name", "k1", "k2", "k3", "k4")
XMLNAMES = ("token", "sentence", "text", "id", "pos", "head", "main", "x", "a.b", "Type", "type", "layer", "name", "k1", "k2",
            "n" * 33, "default", "args", "data", "keys", "_id", "i", "left", "\u00e5ngstr\u00f6m")


def names(pool=NAMES, free=True):
    base = st.sampled_from(pool)
    if not free:
        return base
    return st.one_of(base, base, base, st.text(chars, max_size=5)).filter(lambda s: s not in ("self", "_Document__name"))


def scalar(typ):
    if typ == "i32":
        return st.one_of(st.sampled_from(I32), st.integers(-2 ** 31, 2 ** 31 - 1))
    if typ == "i64":
        return st.one_of(st.sampled_from(I64), st.integers(-2 ** 63, 2 ** 63 - 1))
    if typ == "f64":
        return st.one_of(st.sampled_from(F64), st.floats())
    if typ == "i1":
        return st.booleans()
    if typ == "str":
        return short_text
    return st.one_of(st.sampled_from(BIN), st.binary(max_size=6))


def propvalues(binary=True, big=True):
    leaf = [st.none(), st.booleans(), st.sampled_from(I64), st.floats(), short_text]
    if big:
        leaf.append(st.sampled_from((2 ** 64 - 1, 2 ** 63)))
    if binary:
        leaf.append(st.one_of(st.sampled_from(BIN), st.binary(max_size=5)))
    return st.recursive(st.one_of(leaf), lambda c: st.one_of(
        st.lists(c, max_size=4), st.dictionaries(short_text, c, max_size=3)), max_leaves=6)


@st.composite
def props(draw, binary=True):
    d = draw(st.dictionaries(names(), propvalues(binary), max_size=4))
    if draw(st.integers(0, 4)) == 4:
        v = draw(st.sampled_from(([], {}, 1, "x", [1, [2]], {"a": []})))
        for k in draw(st.lists(st.integers(0, 4), min_size=1, max_size=6)):
            v = ([v], {"a": v}, [0, v], {"b": 1, "c": v}, [v, [v]])[k]
        d["deep"] = v
    if draw(st.integers(0, 15)) == 15:
        for i in range(draw(st.sampled_from((14, 15, 16, 17)))):
            d["p%d" % i] = i
    if draw(st.integers(0, 15)) == 15:
        d["big"] = "z" * draw(st.sampled_from((255, 256, 16380, 16384, 40000, 65535, 65536)))
    return d


@st.composite
def textplan(draw, nonempty=False):
    pieces = draw(st.lists(st.tuples(short_text, st.integers(1, 3)), min_size=1 if nonempty else 0, max_size=5))
    pieces = [list(p) for p in pieces]
    if draw(st.integers(0, 15)) == 15:
        pieces.append([draw(st.sampled_from(("a", "\u00e5", "\U0001f600", "ab "))),
                       draw(st.sampled_from((31, 32, 255, 256, 5000, 16384, 20000, 65536)))])
    if nonempty and not any(p for p, _ in pieces):
        pieces.append(["Lund", 1])
    return pieces


NSMALL = (3, 4, 2, 5, 1, 6, 3, 7, 0, 4)
NLAYERS = (1, 2, 3, 2, 1, 4, 0, 2)
NBIG = (15, 16, 17, 31, 32, 33, 60, 130, 300)
mask = st.lists(st.booleans(), min_size=1, max_size=4)


@st.composite
def column(draw, typ):
    if typ in SCALARS:
        vals = draw(st.lists(scalar(typ), min_size=1, max_size=4))
    elif typ == "span":
        vals = [list(v) for v in draw(st.lists(
            st.tuples(st.integers(0, 30), st.integers(0, 6), st.integers(0, 3)), min_size=1, max_size=4))]
    elif typ == "ref":
        vals = draw(st.lists(st.integers(-3, 6), min_size=1, max_size=4))
    elif typ == "refs":
        vals = draw(st.lists(st.lists(st.integers(-3, 6), max_size=4), min_size=1, max_size=3))
        if draw(st.integers(0, 20)) == 20:
            vals.append([-i for i in range(draw(st.sampled_from((16, 17, 40))))])
    else:
        vals = [list(v) for v in draw(st.lists(st.tuples(st.integers(-3, 6), st.integers(0, 4)), min_size=1, max_size=3))]
    m = draw(mask)
    if not any(m) and draw(st.integers(0, 3)):
        m = [True] + m
    return {"vals": vals, "mask": m}


@st.composite
def field(draw, types, ntexts, nlayers):
    typ = draw(st.sampled_from(types))
    arg = None
    default = ["std"]
    if typ == "span":
        arg = draw(st.integers(0, ntexts - 1))
    elif typ in LINKS:
        arg = draw(st.integers(0, nlayers - 1))
    elif typ != "bin":
        k = draw(st.integers(0, 3))
        if k == 0:
            default = ["none"]
        elif k == 1:
            default = ["val", draw(scalar(typ))]
    return [typ, arg, default]


HOW = ("add", "many", "nofill", "star", "iter")


@st.composite
def document(draw, binary=True, types=None, ops=None, xmlnames=False, maxlayers=4, big=True, need_layer=False,
             need_text=False):
    """A document plan."""
    pool = XMLNAMES if xmlnames else NAMES
    nm = names(pool, free=not xmlnames)
    ntexts = draw(st.integers(1 if need_text else 0, 2))
    wide = draw(st.integers(0, 30)) if big else 30
    textnames = draw(st.lists(nm, min_size=ntexts, max_size=ntexts, unique=True))
    if wide == 1:
        textnames += ["t%d" % i for i in range(16)]
    texts = [[n, draw(textplan())] if i < 2 else [n, [["ab", i]]] for i, n in enumerate(textnames)]
    lo = 1 if need_layer else 0
    nlayers = max(lo, min(maxlayers, draw(st.sampled_from(NLAYERS))))
    layernames = draw(st.lists(nm, min_size=nlayers, max_size=nlayers, unique=True))
    if wide == 2:
        layernames += ["l%d" % i for i in range(16)]
    types = list(types or (SCALARS if binary else SCALARS[:-1]) + LINKS + ("span",))
    usable = [t for t in types if t != "span" or texts]
    layers = []
    for li, ln in enumerate(layernames):
        if li < nlayers:
            nf = draw(st.integers(0, 4))
            fn = draw(st.lists(nm, min_size=nf, max_size=nf, unique=True))
            fields = [[f] + draw(field(usable, max(1, len(texts)), len(layernames))) for f in fn]
            cols = {f[0]: draw(column(f[1])) for f in fields}
            if wide == 3:
                for i in range(16):
                    fields.append(["f%d" % i, "i32", None, ["std"]])
                    cols["f%d" % i] = {"vals": [i], "mask": [True, False]}
            n = draw(st.sampled_from(NBIG)) if big and draw(st.integers(0, 11)) == 11 else draw(st.sampled_from(NSMALL))
            layers.append({"name": ln, "fields": fields, "n": n, "cols": cols, "how": draw(st.sampled_from(HOW))})
        else:
            layers.append({"name": ln, "fields": [["id", "i32", None, ["none"]]], "n": li % 3,
                           "cols": {"id": {"vals": [li], "mask": [True]}}, "how": "add"})
    plan = {"props": draw(props(binary)), "texts": texts, "layers": layers}
    plan["ops"] = draw(st.lists(ops, max_size=8)) if ops is not None and layers else []
    return plan


small = st.integers(0, 6)
ks = st.lists(st.integers(0, 40), min_size=1, max_size=4)
idx = st.integers(0, 400)
idxs = st.lists(idx, max_size=6)


def edit_ops():
    """Edits of nodes (no schema changes)."""
    L = small
    return st.one_of(
        st.tuples(st.just("add"), L, ks),
        st.tuples(st.just("addn"), L, ks),
        st.tuples(st.just("many"), L, st.sampled_from((0, 1, 2, 3, 5, 9, 20, 40)), ks, st.booleans(), st.booleans(), st.booleans()),
        st.tuples(st.just("star"), L, st.integers(1, 4), ks),
        st.tuples(st.just("rm"), L, idx),
        st.tuples(st.just("rml"), L, idxs, st.booleans()),
        st.tuples(st.just("rmq"), L, st.integers(1, 5), st.integers(0, 4), st.integers(0, 2)),
        st.tuples(st.just("rmall"), L),
        st.tuples(st.just("det"), L, idx),
        st.tuples(st.just("del"), L, idx),
        st.tuples(st.just("ret"), L, idxs),
        st.tuples(st.just("retq"), L, st.integers(1, 5), st.integers(0, 4), st.integers(0, 2)),
        st.tuples(st.just("sort"), L, st.integers(1, 7), st.integers(1, 9)),
        st.tuples(st.just("compact"), L),
        st.tuples(st.just("enc"), L),
        st.tuples(st.just("set"), L, idx, small, st.integers(1, 40)),
        st.tuples(st.just("unset"), L, idx, small),
        st.tuples(st.just("re"), L, idx, st.booleans()),
    ).map(list)


def schema_ops():
    return st.one_of(
        st.tuples(st.just("addf"), small, st.integers(0, 9), st.integers(0, 9), st.integers(0, 40), st.booleans()),
        st.tuples(st.just("addf"), small, st.integers(0, 9), st.integers(0, 9), st.integers(0, 40), st.booleans()),
        st.tuples(st.just("rmf"), small, small, st.booleans()),
        st.tuples(st.just("rmlayer"), small, st.sampled_from((True, False, "del"))),
        st.tuples(st.just("refield"), small, small, st.booleans(), st.booleans(), st.integers(0, 9), st.integers(0, 40)),
        st.tuples(st.just("addlayer"), small, st.integers(0, 9), st.integers(0, 40)),
        st.tuples(st.just("renew"), small, small, st.integers(0, 9), st.integers(0, 40), ks),
    ).map(list)


LARGE = ("text", "nodes", "refs", "strings", "props", "layers", "fields", "names", "gaps", "spans")


@st.composite
def large(draw, binary=True, xmlnames=False, ops=None, kinds=LARGE):
    """A plain document that is large in one or two ways (lengths around the limits of 8, 12 and 16 bit counters and beyond)."""
    want = draw(st.lists(st.sampled_from(kinds), min_size=1, max_size=2, unique=True))
    size = lambda *extra: draw(st.sampled_from((255, 256, 257, 1000, 1024, 4095, 4097) + extra))  # noqa: E731
    unit = draw(st.sampled_from(("a", "ab ", "\u00e5", "\U0001f600", "x\U0001f600", "\u6c34 ", " ", "\u00a0", "e\u0301")))
    main = [["Lund ", draw(st.integers(0, 2))], [unit, size(20000, 65536, 70000, 300000) if "text" in want else draw(st.integers(1, 60))],
            [draw(short_text), 1], [" end", 1]]
    n = size(16383, 20000, 65535, 66000) if "nodes" in want else size(2000) if "spans" in want else draw(st.integers(1, 40))
    m = size(5000) if "nodes" in want and n < 5000 and draw(st.booleans()) else draw(st.integers(1, 30))
    far = st.integers(0, 400000)
    spans = draw(st.lists(st.tuples(far, st.sampled_from((0, 1, 2, 5, 40, 5000, 300000)), st.sampled_from((0, 1, 2, 7, 4097))),
                          min_size=1, max_size=4))
    token = [["text", "span", 0, ["std"], {"vals": [list(v) for v in spans], "mask": draw(mask) + [True]}],
             ["head", "ref", 0, ["std"], {"vals": draw(st.lists(st.integers(-3, 70000), min_size=1, max_size=4)), "mask": draw(mask)}],
             ["id", "i32", None, ["none"], {"vals": draw(st.lists(scalar("i32"), min_size=1, max_size=5)), "mask": draw(mask)}],
             ["s", "nspan", 0 if "spans" in want else draw(st.integers(0, 1)), ["std"],
              {"vals": draw(st.lists(st.tuples(st.one_of(st.integers(-3, 300), st.integers(0, 9000)),
                                               st.one_of(st.sampled_from((0, 1, 31, 32, 127, 128, 129, 200, 255, 256, 300, 1000)), st.integers(0, 66000))).map(list),
                                     min_size=1, max_size=3)), "mask": draw(mask) + [True]}],
             ["f", "f64", None, ["val", 2.5], {"vals": draw(st.lists(scalar("f64"), min_size=1, max_size=3)), "mask": draw(mask)}]]
    strings = [draw(short_text)]
    if "strings" in want:
        strings = [{"rep": [draw(st.sampled_from(("a", "\u00e5", "\U0001f600", "<&", "\n"))), size(65535, 65536, 70000, 1200000)]}, ""]
    sent = [["w", "str", None, ["none"], {"vals": strings, "mask": draw(mask) + [True]}],
            ["toks", "refs", 0, ["std"], {"vals": [{"run": [draw(st.integers(0, 9)),
                                                            size(16, 17, 64, 65, 66000) if "refs" in want else draw(st.integers(0, 5))]}, []],
                                          "mask": draw(mask) + [True]}]]
    if binary:
        sent.append(["b", "bin", None, ["std"], {"vals": [{"rep": [draw(st.sampled_from((b"\x00", b"DM_1", b"\xff\xc1"))),
                                                                  size(65535, 65536, 70000, 1200000) if "strings" in want else 3]}],
                                                 "mask": draw(mask)}])
    token = draw(st.permutations(token))
    if "spans" in want:
        token = sorted(token, key=lambda f: f[1] != "nspan")
    token = token[:draw(st.integers(1, 5))]
    sent = draw(st.permutations(sent))[:draw(st.integers(2 if {"refs", "strings"} & set(want) else 0, 3))]
    if n > 5000:
        token, m = token[:2], min(m, 30)
    if m > 40:
        sent = [f for f in sent if f[1] != "bin" and (f[1] == "str" or "refs" not in want)] if "strings" not in want else sent[:1]
        if "strings" in want or "refs" in want:
            m = 40
    # XML repeats the name in every reference
    name = "t" * (draw(st.sampled_from((255, 257, 1000))) if {"nodes", "refs", "spans"} & set(want) else size(65535, 70000)) if "names" in want else "token"
    how = draw(st.sampled_from(("many", "nofill", "star", "add", "iter")))
    layers = [{"name": name, "n": n, "how": how, "fields": [f[:4] for f in token], "cols": {f[0]: f[4] for f in token}},
              {"name": "sentence", "n": m, "how": "add", "fields": [f[:4] for f in sent], "cols": {f[0]: f[4] for f in sent}}]
    if "fields" in want:
        for i in range(draw(st.sampled_from((15, 16, 17, 130, 300, 1000)))):
            layers[1]["fields"].append(["f%d" % i, ("i32", "str")[i % 2], None, (["std"], ["none"])[i % 3 > 0]])
            layers[1]["cols"]["f%d" % i] = {"vals": [(i, "v%d" % i)[i % 2]], "mask": [True, i % 3 > 0]}
        layers[1]["n"] = min(m, 12)
    if "layers" in want:
        for i in range(draw(st.sampled_from((13, 14, 15, 16, 60, 130, 300, 1000)))):
            layers.append({"name": "l%d" % i, "n": i % 3, "how": "add", "fields": [["r", "ref", 0, ["std"]]],
                           "cols": {"r": {"vals": [i], "mask": [True]}}})
    if draw(st.booleans()):          # referring layers before or after the layers they refer to
        k = draw(st.integers(1, 5))
        order = list(range(len(layers)))[::-1] if k % 2 else list(range(1, len(layers))) + [0]
        back = {o: j for j, o in enumerate(order)}
        layers = [layers[o] for o in order]
        for la in layers:
            la["fields"] = [[f, t, back[a] if t in LINKS else a, d] for f, t, a, d in la["fields"]]
    plan = {"props": {"k": 1}, "texts": [["main", main], ["alt", [[unit, 3]]]], "layers": layers, "bigprops": []}
    if "props" in want:
        kinds = ("str", "list", "map", "deep") + (("bytes",) if binary else ())
        plan["bigprops"] = [[k, draw(st.sampled_from(kinds)), size(65535, 65536, 70000, 1200000)] for k in ("p1", "p2")[:draw(st.integers(1, 2))]]
        if draw(st.booleans()):
            plan["props"].update(("n%d" % i, i) for i in range(draw(st.sampled_from((14, 15, 16, 255, 256, 300, 1000)))))
    plan["ops"] = draw(st.lists(ops, max_size=4)) if ops is not None else []
    if "gaps" in want:
        big = [i for i, la in enumerate(layers) if la["name"] in (name, "sentence")]
        plan["ops"].append(draw(st.sampled_from((["rmq", big[0], 2, 1, 0], ["rmq", big[1], 3, 0, 1], ["retq", big[0], 5, 2, 0],
                                                 ["sort", big[1], 7, 5], ["rml", big[0], [0], False]))))
        plan["ops"] += draw(st.lists(ops, max_size=2)) if ops is not None else []
    plan["large"] = sorted(want)
    return plan


TALL = (64, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 513, 700, 1000, 1025, 2000)


@st.composite
def tall(draw, sizes=TALL, **kw):
    """A document with some tall layers over a longer text; spans and references reach far."""
    plan = draw(document(need_layer=True, need_text=True, big=False, **kw))
    plan["texts"][0][1] = plan["texts"][0][1] + [[draw(st.sampled_from(("a", "ab ", "\u00e5", "\U0001f600", " "))), draw(st.sampled_from((40, 300, 3000)))]]
    tops = draw(st.sampled_from(([0], [0], [0, 1], [-1])))
    for i in tops:
        if i < len(plan["layers"]):
            plan["layers"][i]["n"] = draw(st.sampled_from(sizes))
    for la in plan["layers"]:
        for f, typ, _, _ in la["fields"]:
            vals = la["cols"][f]["vals"]
            if typ == "span":
                vals += [list(v) for v in draw(st.lists(st.tuples(st.integers(0, 3000), st.sampled_from((0, 1, 2, 5, 40, 3000)), st.sampled_from((0, 1, 2, 7))), max_size=2))]
            elif typ == "ref":
                vals += draw(st.lists(st.integers(-2000, 2000), max_size=2))
            elif typ == "refs":
                vals += [[]] + draw(st.lists(st.lists(st.integers(-2000, 2000), max_size=4), max_size=2))
                if draw(st.integers(0, 3)) == 3:
                    vals.append({"run": [draw(st.integers(0, 9)), draw(st.sampled_from((15, 16, 17, 64, 130)))]})
            elif typ == "nspan":
                vals += [list(v) for v in draw(st.lists(st.tuples(st.integers(0, 2000), st.sampled_from((0, 1, 3, 100, 2000))), max_size=2))]
    plan["tall"] = True
    return plan


def weighted(*pairs):
    """weighted((3, a), (1, b)): a three times as often as b (one_of would flatten nested choices)."""
    pool = [i for i, (n, _) in enumerate(pairs) for _ in range(n)]
    return st.sampled_from(pool).flatmap(lambda i: pairs[i][1])
