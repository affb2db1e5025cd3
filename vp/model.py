"""Reference model of a document, and building/editing real documents in step with it.

A Model holds plain ordered lists of MNode.  A World is one real Document plus the map from
MNode to its real Node.  `build(plan)` makes a Model and the Worlds, `apply` performs one
edit on the model and on every world and checks that the edit was accepted or refused as the
model says.  `expected(model)` and `canon(doc)` give comparable plain data, the first from the
model alone, the second from the document alone through its public interface.
"""
from . import env  # noqa
from .core import Violation, need, same
from .gen import POOL, SCALARS, LINKS
from docria.model import (Document, Node, NodeList, NodeSpan, TextSpan, NodeCollection, SchemaValidationError,
                          DataValidationError, DataTypes as T)

STD = {"i32": 0, "i64": 0, "f64": 0.0, "i1": False, "str": ""}
ENUM = {"i32": "I32", "i64": "I64", "f64": "F64", "i1": "BOOL", "str": "STRING", "bin": "BINARY",
        "span": "SPAN", "ref": "NODEREF", "refs": "NODEREF_MANY", "nspan": "NODEREF_SPAN"}


# ---------------------------------------------------------------- comparable data

def tag(v):
    """Scalar or property value -> data that compares by type and exact value."""
    if v is None:
        return None
    if isinstance(v, bool):
        return ("b", v)
    if isinstance(v, int):
        return ("i", int(v))
    if isinstance(v, float):
        return ("f", repr(float(v)))
    if isinstance(v, str):
        return ("s", str(v))
    if isinstance(v, (bytes, bytearray)):
        return ("x", bytes(v))
    if isinstance(v, dict):
        return ("d", {k: tag(x) for k, x in v.items()})
    if isinstance(v, (list, tuple)):
        return ("l", [tag(x) for x in v])
    return ("?", type(v).__name__)


def canon_options(dtype):
    o = dict(dtype.options)
    out = {}
    for k, v in o.items():
        if k == "default":
            v = float(v) if dtype.typename.name == "F64" and not isinstance(v, bool) else v
            out[k] = tag(v)
        else:
            out[k] = v
    return out


def canon_schema(layer):
    return [(f, dt.typename.name, canon_options(dt)) for f, dt in layer.schema.fields.items()]


def canon(doc, drop_empty=False):
    """Content of a real document as plain data."""
    pos = {}
    for ln, layer in doc.layers.items():
        for i, n in enumerate(layer):
            need(isinstance(n, Node), "layer %r yields %r, not a node", ln, n)
            need(id(n) not in pos, "layer %r yields the same node twice", ln)
            pos[id(n)] = (ln, i)

    def ref(n):
        if id(n) in pos:
            return pos[id(n)]
        return ("dangling" if isinstance(n, Node) else "not a node", type(n).__name__)

    def val(v):
        if isinstance(v, TextSpan):
            ok = doc.texts.get(v.text.name) is v.text
            return ("span", v.text.name if ok else ("foreign text", v.text.name), v.start, v.stop, str(v))
        if isinstance(v, NodeSpan):
            return ("nspan", ref(v.left), ref(v.right))
        if isinstance(v, Node):
            return ("ref", ref(v))
        if isinstance(v, (list, NodeCollection)):
            return ("refs", [ref(n) for n in v])
        return tag(v)

    layers = []
    for ln, layer in doc.layers.items():
        need(layer.name == ln, "layer %r is named %r", ln, layer.name)
        nodes = []
        for n in layer:
            need(n.collection is layer, "node of layer %r is not attached to it", ln)
            d = {f: val(v) for f, v in n.items()}
            if drop_empty:
                d = {f: v for f, v in d.items() if v != ("refs", [])}
            nodes.append(d)
        need(len(layer) == len(nodes), "layer %r: len %d but %d nodes", ln, len(layer), len(nodes))
        layers.append((ln, canon_schema(layer), nodes))
    texts = []
    for tn, t in doc.texts.items():
        need(t.name == tn, "text %r is named %r", tn, t.name)
        texts.append((tn, str(t)))
    return {"props": tag(doc.props), "texts": texts, "layers": layers}


# ---------------------------------------------------------------- the model

class MNode:
    __slots__ = ("fields", "layer")

    def __init__(self, fields=None):
        self.fields = fields if fields is not None else {}
        self.layer = None


class MLayer:
    def __init__(self, name):
        self.name = name
        self.fields = {}   # name -> (typ, arg name, default spec)
        self.nodes = []

    def defaults(self):
        out = {}
        for f, (typ, _, default) in self.fields.items():
            d = default_value(typ, default)
            if d is not None:
                out[f] = d
        return out


class Model:
    def __init__(self):
        self.props, self.texts, self.layers, self.graveyard = {}, {}, {}, []
        self.former = {}        # fields of removed layers


class World:
    def __init__(self):
        self.doc = None
        self.node = {}   # MNode -> Node


def default_value(typ, default):
    if default[0] == "std":
        return STD.get(typ)
    if default[0] == "val":
        if typ == "f64":
            return 0.0 if default[1] == 0 else float(default[1])
        return default[1]
    return None


def dtype(typ, arg, default):
    if typ in LINKS:
        return {"ref": T.noderef, "refs": T.noderef_many, "nspan": T.nodespan}[typ](arg)
    if typ == "span":
        return T.span(arg)
    if typ == "bin":
        return T.binary
    factory = {"i32": T.int32, "i64": T.int64, "f64": T.float64, "i1": T.bool, "str": T.string}[typ]
    if default[0] == "std":
        return factory          # types may be given as their factory
    if default[0] == "none":
        return factory(None)
    return factory(default[1])


def expected_options(typ, arg, default):
    if typ in LINKS:
        return {"layer": arg}
    if typ == "span":
        return {"context": arg}
    d = default_value(typ, default)
    return {} if d is None else {"default": tag(float(d) if typ == "f64" else d)}


def expected(model, drop_empty=False):
    pos = {}
    for ln, layer in model.layers.items():
        for i, n in enumerate(layer.nodes):
            pos[n] = (ln, i)

    def ref(n):
        return pos.get(n, ("dangling", "Node"))

    def val(v):
        if isinstance(v, MNode):
            return ("ref", ref(v))
        if isinstance(v, list):
            return ("refs", [ref(n) for n in v])
        if isinstance(v, tuple):
            if v[0] == "span":
                return ("span", v[1], v[2], v[3], model.texts[v[1]][v[2]:v[3]])
            return ("nspan", ref(v[1]), ref(v[2]))
        return tag(v)

    layers = []
    for ln, layer in model.layers.items():
        schema = [(f, ENUM[t], expected_options(t, a, d)) for f, (t, a, d) in layer.fields.items()]
        nodes = []
        for n in layer.nodes:
            d = {f: val(v) for f, v in n.fields.items()}
            if drop_empty:
                d = {f: v for f, v in d.items() if v != ("refs", [])}
            nodes.append(d)
        layers.append((ln, schema, nodes))
    return {"props": tag(model.props), "texts": list(model.texts.items()), "layers": layers}


def to_real(w, v):
    if isinstance(v, MNode):
        return w.node[v]
    if isinstance(v, list):
        return [w.node[n] for n in v]
    if isinstance(v, tuple):
        if v[0] == "span":
            return w.doc.texts[v[1]][v[2]:v[3]]
        return NodeSpan(w.node[v[1]], w.node[v[2]])
    return v


def as_collections(w, k):
    """Replace reference lists by equal node collections (lists of nodes, queries, node spans, whole layers); how many."""
    done = 0
    for layer in w.doc.layers.values():
        refs = [f for f, dt in layer.schema.fields.items() if dt.typename.name == "NODEREF_MANY"]
        for n in layer if refs else ():
            for f in refs:
                v = n.get(f)
                if type(v) is not list or done >= 30:
                    continue
                target = w.doc.layers[layer.schema.fields[f].options["layer"]]
                k += 1
                ids = [m.i for m in v]
                inorder = all(a < b for a, b in zip(ids, ids[1:])) and len(target) < 2000
                if inorder and len(v) == len(target):
                    n[f] = target
                elif inorder and k % 3 == 0:
                    want = {id(m) for m in v}
                    n[f] = target[lambda m: id(m) in want]
                elif inorder and v and k % 3 == 1 and list(NodeSpan(v[0], v[-1])) == v:
                    n[f] = NodeSpan(v[0], v[-1])
                else:
                    n[f] = NodeList(v, fieldtypes=target.schema.fields)
                done += 1
    return done


def real_fields(w, fields):
    return {f: to_real(w, v) for f, v in fields.items()}


# ---------------------------------------------------------------- building from a plan

def colvalue(model, layer, f, typ, arg, col, i):
    """Model value of field f for node number i, or None when absent."""
    m = col["mask"]
    if not m[i % len(m)]:
        return None
    v = col["vals"][i % len(col["vals"])]
    if isinstance(v, dict):
        v = v["rep"][0] * v["rep"][1] if "rep" in v else list(range(v["run"][0], v["run"][0] + v["run"][1]))
    if typ in SCALARS:
        return v
    if typ == "span":
        size = len(model.texts[arg])
        a = (v[0] + i * v[2]) % (size + 1)
        return ("span", arg, a, min(size, a + v[1]))
    target = model.layers[arg].nodes
    n = len(target)

    def at(k):
        return target[(i - k) % n if k < 0 else k % n]
    if typ == "refs":
        return [at(k) for k in v] if n else []
    if n == 0:
        return None
    if typ == "ref":
        return at(v)
    a = (i - v[0]) % n if v[0] < 0 else v[0] % n
    return ("nspan", target[a], target[min(n - 1, a + v[1])])


def build(plan, worlds=1, apply_ops=True):
    """Build model and real document(s) from a plan; returns (model, [World])."""
    model = Model()
    ws = [World() for _ in range(worlds)]
    model.props = dict(plan["props"], **{k: bigprop(kind, n) for k, kind, n in plan.get("bigprops", ())})
    for w in ws:
        w.doc = Document()
        w.doc.props = _copy(model.props)
    for name, pieces in plan["texts"]:
        text = "".join(p * k for p, k in pieces)
        model.texts[name] = text
        for w in ws:
            w.doc.add_text(name, text)
    lnames = [la["name"] for la in plan["layers"]]
    tnames = list(model.texts)
    for la in plan["layers"]:
        ml = MLayer(la["name"])
        for f, typ, arg, default in la["fields"]:
            argname = tnames[arg] if typ == "span" else lnames[arg] if typ in LINKS else None
            ml.fields[f] = (typ, argname, default)
        model.layers[ml.name] = ml
        for w in ws:
            w.doc.add_layer(ml.name, **{f: dtype(*spec) for f, spec in ml.fields.items()})
        ml.nodes = [MNode() for _ in range(la["n"])]
        for n in ml.nodes:
            n.layer = ml
    later = []
    for la in plan["layers"]:
        ml = model.layers[la["name"]]
        how = la["how"]
        pre, post = [], []
        for f, (typ, arg, default) in ml.fields.items():
            early = typ in SCALARS or typ == "span" or (
                typ in ("ref", "refs") and arg == ml.name and how in ("many", "nofill", "iter"))
            (pre if early else post).append((f, typ, arg, la["cols"][f]))
        defaults = ml.defaults() if how in ("add", "many", "iter") else {}
        firsts = []
        for i, n in enumerate(ml.nodes):
            d = {}
            for f, typ, arg, col in pre:
                v = colvalue(model, ml, f, typ, arg, col, i)
                if v is not None:
                    d[f] = v
            firsts.append(d)
            n.fields = dict(defaults)
            n.fields.update(d)
        for w in ws:
            layer = w.doc.layers[ml.name]
            if how == "add":
                for n, d in zip(ml.nodes, firsts):
                    w.node[n] = layer.add(**real_fields(w, d))
            else:
                for n in ml.nodes:
                    w.node[n] = Node()
                for n, d in zip(ml.nodes, firsts):
                    w.node[n].update(real_fields(w, d))
                reals = [w.node[n] for n in ml.nodes]
                if how == "star":
                    if reals:
                        layer.add(*reals)
                elif how == "iter":
                    layer.add_many(iter(reals))
                else:
                    layer.add_many(reals, default_fill=(how == "many"))
        later.append((ml, post))
    for ml, post in later:
        for f, typ, arg, col in post:
            for i, n in enumerate(ml.nodes):
                v = colvalue(model, ml, f, typ, arg, col, i)
                if v is not None:
                    n.fields[f] = v
                    for w in ws:
                        w.node[n][f] = to_real(w, v)
    if apply_ops:
        for op in plan["ops"]:
            apply(model, ws, op)
    return model, ws


def bigprop(kind, n):
    if kind == "str":
        return "\u00e5b" * (n // 2)
    if kind == "bytes":
        return b"\x00\xff" * (n // 2)
    if kind == "list":
        return [i * 3 - 70 for i in range(min(n, 70000))]
    if kind == "map":
        return {"k%d" % i: i for i in range(min(n, 70000))}
    v = "bottom"
    for i in range(n % 200):
        v = [v] if i % 3 else {"k": v, "i": i}
    return v


def _copy(v):
    if isinstance(v, dict):
        return {k: _copy(x) for k, x in v.items()}
    if isinstance(v, list):
        return [_copy(x) for x in v]
    return v


# ---------------------------------------------------------------- editing

FNAMES = ("g0", "g1", "g2", "id", "text", "pos", "head", "x", "token", "k1")
FTYPES = ("i32", "str", "ref", "f64", "i1", "span", "refs", "i64", "bin", "nspan")


def mkval(model, typ, arg, k):
    """A valid model value of a type chosen by k, or None when there is none."""
    if typ in SCALARS:
        return POOL[typ][k % len(POOL[typ])]
    if typ == "span":
        size = len(model.texts[arg])
        a = k % (size + 1)
        return ("span", arg, a, min(size, a + k // 3 % 5))
    nodes = model.layers[arg].nodes
    n = len(nodes)
    if typ == "refs":
        return [nodes[(k + i) % n] for i in range(k % 4)] if n else []
    if not n:
        return None
    if typ == "ref":
        return nodes[k % n]
    return ("nspan", nodes[k % n], nodes[min(n - 1, k % n + k % 3)])


def newfields(model, ml, ks, salt=0):
    out = {}
    for j, (f, (typ, arg, default)) in enumerate(ml.fields.items()):
        k = ks[(j + salt) % len(ks)]
        if k % 4:
            v = mkval(model, typ, arg, k + salt)
            if v is not None:
                out[f] = v
    return out


def valid_value(model, typ, arg, v):
    """Would the model value still be valid for the type?  (only links can go stale)"""
    def attached(n):
        return n.layer is not None and n.layer is model.layers.get(arg)
    if typ == "ref":
        return attached(v)
    if typ == "refs":
        return all(attached(n) for n in v)
    if typ == "nspan":
        if not (attached(v[1]) and attached(v[2])):
            return False
        nodes = model.layers[arg].nodes
        return nodes.index(v[1]) <= nodes.index(v[2])
    return True


def fits(typ, arg, v):
    """Is a model value of the kind its type takes?"""
    if typ == "ref":
        return isinstance(v, MNode)
    if typ == "refs":
        return isinstance(v, list)
    if typ == "nspan":
        return isinstance(v, tuple) and v[0] == "nspan"
    if typ == "span":
        return isinstance(v, tuple) and v[0] == "span" and v[1] == arg
    if typ == "i1":
        return isinstance(v, bool)
    if typ == "i32":
        return isinstance(v, int) and not isinstance(v, bool) and -2 ** 31 <= v < 2 ** 31
    if typ == "i64":
        return isinstance(v, int) and not isinstance(v, bool)
    return isinstance(v, {"f64": float, "str": str, "bin": bytes}[typ])


def repair(model, ws):
    """Make the document valid for encoding: drop stale links and undeclared fields."""
    changed = 0
    index = {}
    for ml in model.layers.values():
        for i, n in enumerate(ml.nodes):
            index[n] = i
    for ml in model.layers.values():
        links = [(f, t, a) for f, (t, a, _) in ml.fields.items() if t in LINKS]
        for n in ml.nodes:
            for f in [f for f in n.fields if f not in ml.fields]:
                _unset(ws, n, f)
                changed += 1
            for f, (typ, arg, _) in ml.fields.items():     # values left behind by a removed field of another type
                v = n.fields.get(f)
                if v is not None and not fits(typ, arg, v):
                    _unset(ws, n, f)
                    changed += 1
            for f, typ, arg in links:
                v = n.fields.get(f)
                if v is None:
                    continue
                tl = model.layers[arg]
                if typ == "ref":
                    ok = v.layer is tl
                elif typ == "refs":
                    ok = all(x.layer is tl for x in v)
                    if not ok:
                        _set(ws, n, f, [x for x in v if x.layer is tl])
                        changed += 1
                        continue
                else:
                    ok = v[1].layer is tl and v[2].layer is tl and index[v[1]] <= index[v[2]]
                if not ok:
                    _unset(ws, n, f)
                    changed += 1
    return changed


def _set(ws, n, f, v):
    n.fields[f] = v
    for w in ws:
        w.node[n][f] = to_real(w, v)


def _unset(ws, n, f):
    n.fields.pop(f, None)
    for w in ws:
        w.node[n].pop(f, None)


def _kill(model, ml, dead):
    dead = set(dead)
    ml.nodes = [n for n in ml.nodes if n not in dead]
    for n in dead:
        n.layer = None


def _bury(model, ml, dead):
    gone = set(dead)
    order = [n for n in ml.nodes if n in gone]
    _kill(model, ml, dead)
    for n in order:
        model.graveyard.append((n, ml))


def _attach(model, ml, nodes):
    for n in nodes:
        n.layer = ml
        ml.nodes.append(n)


def encode(doc, k=0):
    from docria.codec import MsgpackCodec
    return MsgpackCodec.encode(doc, **({}, {"type_validation": False}, {"extra_fields_ok": True})[k % 3])


def refused(kinds, fn, what):
    try:
        fn()
    except kinds:
        return
    except Exception as e:
        raise Violation("%s: refused with %s (%s), expected %s" % (what, type(e).__name__, e, kinds))
    raise Violation("%s: accepted" % what)


def apply(model, ws, op, rec=None):
    """Apply one edit to the model and to every world."""
    kind = op[0]
    if kind == "addlayer":
        return _addlayer(model, ws, op)
    if not model.layers:
        return
    ml = list(model.layers.values())[op[1] % len(model.layers)]
    layers = [w.doc.layers[ml.name] for w in ws]
    cnt = len(ml.nodes)
    if kind == "add":
        f = newfields(model, ml, op[2])
        n = MNode(dict(ml.defaults(), **f))
        for w, layer in zip(ws, layers):
            w.node[n] = layer.add(**real_fields(w, f))
            need(w.node[n].collection is layer, "add returned a node that is not in the layer")
        _attach(model, ml, [n])
    elif kind in ("addn", "star"):
        many = 1 if kind == "addn" else op[2]
        new = [MNode(newfields(model, ml, op[-1], i)) for i in range(many)]
        for w, layer in zip(ws, layers):
            for n in new:
                w.node[n] = Node(real_fields(w, n.fields))
            layer.add(*[w.node[n] for n in new])
        _attach(model, ml, new)
    elif kind == "many":
        _, _, many, ks, fill, validated, as_iter = op
        new = [MNode(newfields(model, ml, ks, i)) for i in range(many)]
        for w, layer in zip(ws, layers):
            for n in new:
                w.node[n] = Node(**real_fields(w, n.fields))
            reals = [w.node[n] for n in new]
            layer.add_many(iter(reals) if as_iter else reals, default_fill=fill, full_validation=validated)
        if fill:
            for n in new:
                for f, v in ml.defaults().items():
                    n.fields.setdefault(f, v)
        _attach(model, ml, new)
    elif kind in ("rm", "det", "del"):
        if not cnt:
            return
        n = ml.nodes[op[2] % cnt]
        for w, layer in zip(ws, layers):
            if kind == "rm":
                layer.remove(w.node[n])
            elif kind == "det":
                w.node[n].detach()
            else:
                del layer[w.node[n]]
        _bury(model, ml, [n])
    elif kind in ("rml", "rmq", "rmall"):
        if kind == "rml":
            dead = list(dict.fromkeys(ml.nodes[i % cnt] for i in op[2])) if cnt else []
        elif kind == "rmq":
            dead = [n for i, n in enumerate(ml.nodes) if i % op[2] == op[3] % op[2]]
        else:
            dead = list(ml.nodes)
        for w, layer in zip(ws, layers):
            reals = [w.node[n] for n in dead]
            if kind == "rml":
                layer.remove([None] + reals if op[3] else reals)
            elif kind == "rmall":
                layer.remove(layer)
            elif op[4] == 0:
                layer.remove(reals)
            elif op[4] == 1:
                layer.remove(n for n in reals)
            else:
                chosen = set(map(id, reals))
                layer.remove(layer[lambda n: id(n) in chosen])
        _bury(model, ml, dead)
    elif kind in ("ret", "retq"):
        if kind == "ret":
            keep = [ml.nodes[i % cnt] for i in op[2]] if cnt else []
        else:
            keep = [n for i, n in enumerate(ml.nodes) if i % op[2] == op[3] % op[2]]
        for w, layer in zip(ws, layers):
            reals = [w.node[n] for n in keep]
            if kind == "ret" or op[4] == 0:
                layer.retain(reals)
            elif op[4] == 1:
                layer.retain(n for n in reals)
            else:
                chosen = set(map(id, reals))
                layer.retain(layer[lambda n: id(n) in chosen])
        kept = set(keep)
        _bury(model, ml, [n for n in ml.nodes if n not in kept])
    elif kind == "sort":
        key = {n: (i * op[3]) % op[2] for i, n in enumerate(ml.nodes)}
        for w, layer in zip(ws, layers):
            rk = {id(w.node[n]): k for n, k in key.items()}
            layer.sort(lambda n: rk[id(n)])
        ml.nodes.sort(key=key.__getitem__)
    elif kind == "compact":
        for layer in layers:
            layer.compact()
    elif kind == "enc":
        repair(model, ws)
        for w in ws:
            encode(w.doc, op[1])
    elif kind == "set":
        if not cnt or not ml.fields:
            return
        f = list(ml.fields)[op[3] % len(ml.fields)]
        v = mkval(model, *ml.fields[f][:2], op[4])
        if v is not None:
            _set(ws, ml.nodes[op[2] % cnt], f, v)
    elif kind == "unset":
        if not cnt or not ml.fields:
            return
        _unset(ws, ml.nodes[op[2] % cnt], list(ml.fields)[op[3] % len(ml.fields)])
    elif kind == "re":
        alive = [(n, gl) for n, gl in model.graveyard if model.layers.get(gl.name) is gl]
        if not alive:
            return
        n, gl = alive[op[2] % len(alive)]
        for w in ws:
            layer = w.doc.layers[gl.name]
            if op[3]:
                layer.add(w.node[n])
            else:
                layer.add_many([w.node[n]], default_fill=False, full_validation=False)
        model.graveyard = [(m, g) for m, g in model.graveyard if m is not n]
        _attach(model, gl, [n])
    elif kind == "addf":
        _addf(model, ws, ml, layers, op)
    elif kind == "rmf":
        name = list(ml.fields)[op[2] % len(ml.fields)] if ml.fields and op[2] < 6 else "no such field"
        for w, layer in zip(ws, layers):
            r = layer.remove_field(name, leave_data=op[3]) if op[3] else layer.remove_field(name)
            same(r, name in ml.fields, "result of remove_field(%r)" % name)
        if name in ml.fields:
            del ml.fields[name]
            if not op[3]:
                for n in ml.nodes:
                    n.fields.pop(name, None)
    elif kind == "refield":      # a field goes and one of its name comes
        if ml.fields:
            k = op[2] % len(ml.fields)
            name, spec = list(ml.fields)[k], list(ml.fields.values())[k]
            apply(model, ws, ["rmf", op[1], k % 6, op[3]])
            if name not in ml.fields:
                _addf(model, ws, ml, layers, ["addf", op[1], name, op[5], op[6], op[4]], spec if op[5] % 2 else None)
    elif kind == "rmlayer":
        _rmlayer(model, ws, ml, op)
    elif kind == "renew":        # a layer removed, and at once or later another one of its name
        _rmlayer(model, ws, ml, [kind, op[1], True])
        if ml.name not in model.layers:
            _addlayer(model, ws, ["addlayer", op[2], op[3], op[4]], ml.name)
            new = model.layers[ml.name]
            for i in range(op[2] % 3):
                f = {k: v for k, v in newfields(model, new, op[5], i).items() if (op[4] + i) % 2}
                n = MNode(dict(new.defaults(), **f))
                for w in ws:
                    w.node[n] = w.doc.layers[ml.name].add(**real_fields(w, f))
                _attach(model, new, [n])
    else:
        raise ValueError(kind)


def _spec(model, op_typ, k):
    typ = FTYPES[op_typ % len(FTYPES)]
    if typ == "span" and not model.texts:
        typ = "str"
    arg = None
    default = ["std"]
    if typ == "span":
        arg = list(model.texts)[k % len(model.texts)]
    elif typ in LINKS:
        arg = list(model.layers)[k % len(model.layers)]
    elif typ != "bin":
        v = POOL[typ][k % len(POOL[typ])]
        default = (["std"], ["none"], ["val", v if v == v else 1.0])[k % 3]
    return typ, arg, default


def _addf(model, ws, ml, layers, op, spec=None):
    name = op[2] if isinstance(op[2], str) else FNAMES[op[2] % len(FNAMES)]
    if spec is None or spec[0] in LINKS and spec[1] not in model.layers:
        spec = _spec(model, op[3], op[4])
    if name in ml.fields:
        for layer in layers:
            refused(SchemaValidationError, lambda: layer.add_field(name, dtype(*spec)), "add_field(existing %r)" % name)
        return
    for layer in layers:
        if op[5]:
            layer.add_field(name, dtype(*spec))
        else:
            layer.add_field(name, dtype(*spec), init_with_default=False)
    ml.fields[name] = spec
    d = default_value(spec[0], spec[2])
    if op[5] and d is not None:
        for n in ml.nodes:
            n.fields[name] = d


def _rmlayer(model, ws, ml, op):
    """op[2]: cascade or not, or "del" for `del doc[name]` (no cascade)."""
    users = [(other, f) for other in model.layers.values() if other is not ml
             for f, (typ, arg, _) in other.fields.items() if typ in LINKS and arg == ml.name]
    bydel = op[2] == "del"
    cascade = op[2] is True
    for w in ws:
        same(w.doc.remove_layer("no such layer", fieldcascade=cascade), False, "remove_layer of a missing layer")
    if users and not cascade:
        for w in ws:
            refused(DataValidationError, lambda: w.doc.__delitem__(ml.name) if bydel else w.doc.remove_layer(ml.name),
                    "%s(%r) while referenced" % ("del" if bydel else "remove_layer", ml.name))
        return
    for w in ws:
        if bydel:
            del w.doc[ml.name]
        else:
            same(w.doc.remove_layer(ml.name, fieldcascade=cascade), True, "result of remove_layer(%r)" % ml.name)
    for other, f in users:
        del other.fields[f]
        for n in other.nodes:
            n.fields.pop(f, None)
    model.former[ml.name] = dict(ml.fields)
    del model.layers[ml.name]


def _addlayer(model, ws, op, again=None):
    name = ("new0", "token", "new1", "sentence", "new2")[op[1] % 5]
    gone = [n for n in model.former if n not in model.layers]
    if gone and op[1] % 4:
        name = gone[op[1] % len(gone)]
    if again is not None:
        name = again
    if name in model.layers:
        return
    ml = MLayer(name)
    model.layers[name] = ml
    ml.fields["f"] = _spec(model, op[2], op[3])
    for i, (f, (typ, arg, default)) in enumerate(model.former.get(name, {}).items()):        # the fields of a removed layer, with other defaults
        if (op[3] + i) % 4 and typ not in LINKS + ("span",):
            if typ != "bin":
                v = POOL[typ][(op[3] + i) % len(POOL[typ])]
                default = (["std"], ["none"], ["val", v if v == v else 1.0])[(op[2] + i) % 3]
            ml.fields[f] = (typ, None, default)
    for w in ws:
        w.doc.add_layer(name, **{f: dtype(*spec) for f, spec in ml.fields.items()})


def check_layers(model, ws, what="", compacted=False):
    """Every world's layers are the ordered lists of the model."""
    for w in ws:
        same(list(w.doc.layers), list(model.layers), what + "layer names")
        for ln, ml in model.layers.items():
            layer = w.doc.layers[ln]
            want = [w.node[n] for n in ml.nodes]
            got = list(layer)
            need(len(got) == len(want) and all(a is b for a, b in zip(got, want)),
                 "%slayer %r: node sequence differs from the model (got %d nodes, want %d)", what, ln, len(got), len(want))
            same(len(layer), len(want), what + "len of layer %r" % ln)
            need(layer.first() is (want[0] if want else None), "%sfirst of layer %r", what, ln)
            need(layer.last() is (want[-1] if want else None), "%slast of layer %r", what, ln)
            last = -1
            for p, n in enumerate(want):
                need(n.collection is layer and not n.is_dangling(), "%snode %d of layer %r is not attached", what, p, ln)
                need(n in layer, "%snode %d not in layer %r", what, p, ln)
                i = n.i
                need(i > last, "%snode indices of layer %r do not increase: %d after %d", what, ln, i, last)
                last = i
                need(layer[i] is n, "%slayer[node.i] is not the node (layer %r, position %d)", what, ln, p)
                need(layer[n] is n, "%slayer[node] is not the node", what)
                if compacted:
                    same(i, p, what + "index after compaction in layer %r" % ln)
            need(all(a is b for a, b in zip(layer[:], want)) and len(layer[:]) == len(want), "%slayer[:] of %r", what, ln)
        for n, ml in model.graveyard:
            need(w.node[n].is_dangling() and w.node[n].collection is None, "%sa removed node is still attached", what)
