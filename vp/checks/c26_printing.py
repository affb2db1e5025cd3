"""C26: printing never fails, escapes markup and respects the size settings."""
import contextlib
import io
import re
from html.parser import HTMLParser

from .. import gen
from ..core import Facet, need, same
from ..model import MNode, apply, build, canon, newfields, real_fields, repair
from hypothesis import strategies as st
from docria import printout
from docria.codec import MsgpackCodec
from docria.model import Node, NodeList, NodeSpan, DataType2String
from docria.printout import PrintOptions, options

ASSUMPTIONS = ["node spans whose ends are no longer in order in one layer are not printed themselves (their nodes are)",
               "how much is shown below the limits is left open, as is wrapping at the display width",
               "what a column shows for nodes without the field is left open"]
SETTINGS = ("max_rows", "max_columns", "max_column_width", "max_display_width")


@contextlib.contextmanager
def settings(values):
    old = {k: getattr(options, k) for k in SETTINGS}
    try:
        for k, v in values.items():
            setattr(options, k, v)
            need(getattr(options, k) == v, "setting %s=%r gives %r", k, v, getattr(options, k))
        yield
    finally:
        for k, v in old.items():
            setattr(options, k, v)


NOLIMIT = {k: None for k in SETTINGS}


class Row(list):
    colspan = None

    def __init__(self):
        super().__init__()
        self.links = {}     # column -> target


class Page(HTMLParser):
    """A rendering as nested rows of cells; complains about anything that is not known markup."""
    NEST = {"table": None, "thead": "table", "tbody": "table", "tr": ("thead", "tbody"), "th": "tr", "td": "tr", "em": ("th", "td"),
            "a": ("th", "td"), "h3": None, "pre": None}

    def __init__(self, html, what):
        super().__init__(convert_charrefs=True)
        self.what, self.stack, self.head, self.body, self.loose = what, [], [], [], {}
        self.cells = None
        need(isinstance(html, str), "%s: HTML is %r", what, type(html))
        self.feed(html)
        self.close()
        need(not self.stack, "%s: %r never closed", what, self.stack)

    def bad(self, why):
        need(False, "%s: %s inside %r at %s", self.what, why, self.stack, self.getpos())

    def handle_starttag(self, tag, attrs):
        if tag not in self.NEST:
            self.bad("unexpected <%s>" % tag)
        parent = self.stack[-1] if self.stack else None
        want = self.NEST[tag]
        if parent != want and not (isinstance(want, tuple) and parent in want):
            self.bad("<%s>" % tag)
        names = [k for k, _ in attrs]
        if tag == "a":
            if names != ["href"] or not attrs[0][1].startswith("https://"):
                self.bad("link with %r" % attrs)
            self.cells.links[len(self.cells) - 1] = attrs[0][1]
        elif names and not (tag in ("td", "th") and set(names) <= {"style", "colspan"}):
            self.bad("attributes %r" % attrs)
        if tag == "tr":
            self.cells = Row()
            (self.head if "thead" in self.stack else self.body).append(self.cells)
        elif tag in ("td", "th"):
            self.cells.append("")
            self.cells.colspan = dict(attrs).get("colspan")
        self.stack.append(tag)

    def handle_startendtag(self, tag, attrs):
        self.bad("unexpected <%s/>" % tag)

    def handle_endtag(self, tag):
        if not self.stack or self.stack[-1] != tag:
            self.bad("</%s>" % tag)
        self.stack.pop()

    def handle_data(self, data):
        if "td" in self.stack or "th" in self.stack:
            self.cells[-1] += data
        elif self.stack and self.stack[-1] in ("h3", "pre"):
            self.loose[self.stack[-1]] = self.loose.get(self.stack[-1], "") + data
        else:
            self.bad("text %r" % data[:60])

    def handle_comment(self, data):
        self.bad("comment")

    def handle_decl(self, decl):
        self.bad("declaration")

    def handle_pi(self, data):
        self.bad("processing instruction")

    def unknown_decl(self, data):
        self.bad("declaration")


def table(html, what):
    """-> (caption or None, header cells, rows; the row standing for omitted ones is None)"""
    p = Page(html, what)
    need(1 <= len(p.head) <= 2, "%s: %d rows in the header", what, len(p.head))
    width = len(p.head[-1])
    caption = None
    if len(p.head) == 2:
        need(len(p.head[0]) == 1 and p.head[0].colspan == str(width), "%s: caption spans %r of %d columns", what, p.head[0].colspan, width)
        caption = p.head[0][0]
    for r in p.body:
        need((len(r), r.colspan) in ((width, None), (1, str(width))), "%s: row %r under %d headers", what, r, width)
    return caption, p.head[-1], [None if r.colspan else r for r in p.body]


def shown(cell, full, limit, what):
    if limit is None:
        same(cell, full, what)
        return
    need(len(cell) <= limit or len(full) <= limit and cell == full, "%s: %d characters shown under a limit of %d: %r", what, len(cell), limit, cell)
    if cell == full:
        return
    need(len(full) > limit - 8, "%s: %r truncated to %r under a limit of %d", what, full, cell, limit)
    parts = cell.split("...")
    ok = any(full.startswith("...".join(parts[:i]).rstrip(" ")) and full.endswith("...".join(parts[i:]).lstrip(" "))
             and "...".join(parts[:i]).strip(" ") and "...".join(parts[i:]).strip(" ") or
             # beginning or end may be blank themselves
             full.startswith("...".join(parts[:i])[:-1]) and full.endswith("...".join(parts[i:])[1:]) and cell for i in range(1, len(parts)))
    need(ok, "%s: %r shown as %r", what, full, cell)


URN = re.compile("urn:(wikidata|wikipedia):(.+)", re.I)
SIMPLE = re.compile("urn:(wikidata|wikipedia):[A-Za-z0-9_:]+")


def target(urn):
    kind, rest = urn[4:].split(":", 1)
    if kind.lower() == "wikidata":
        return "https://www.wikidata.org/wiki/" + rest
    site, sep, page = rest.partition(":")
    return "https://%s.wikipedia.org/wiki/%s" % ((site, page) if sep else ("www", rest))


def check_links(row, full, what, rec):
    for c, f in enumerate(full):
        got = row.links.get(c)
        if got is None:
            need(not SIMPLE.fullmatch(f) or c not in full.links, "%s: no link for %r", what, f)
            continue
        rec.label("link")
        need(URN.fullmatch(f), "%s: %r links to %r", what, f, got)
        same(got, target(f), "%s: where %r links to" % (what, f))


def check_table(obj, opts, what, rec, columns=None, rows=None, name=None, nested=False, indexed=False, raw=False, first=0):
    """obj renders as a table; columns/rows: what it must contain in full; indexed: also numbered as text; raw: strings as they are."""
    with settings(NOLIMIT):
        cap, head, full = table(obj._repr_html_(), what)
        text = str(obj)
        repr(obj)
    need(None not in full, "%s: rows omitted without a limit", what)
    if columns is not None:
        same(head[1:], columns, what + ": columns")
    if rows is not None:
        same(len(full), len(rows), what + ": number of rows without a limit")
        for i, (r, want) in enumerate(zip(full, rows)):
            same(len(r) - 1, len(want), what + ": cells of row %d" % i)
            for c, (got, w) in enumerate(zip(r[1:], want)):
                if callable(w):
                    need(w(got), "%s: row %d, column %d without a limit shows %r", what, i, c, got)
                elif w is not None:
                    same(got, w, what + ": row %d, column %d without a limit" % (i, c))
        for i, r in enumerate(full):
            if first is not None:
                same(r[0], str(first + i), what + ": number of a row")
            check_links(r, r, what, rec)
            if raw and SIMPLE.fullmatch(r[1]):
                need(1 in r.links, "%s: no link for %r", what, r[1])
    if name is not None and cap is not None:
        need(name in cap, "%s: %r not in the caption %r", what, name, cap)
    if name is not None and not raw and cap is not None and rows is not None:
        need(cap.count(str(len(rows))) > name.count(str(len(rows))), "%s: caption %r for %d nodes", what, cap, len(rows))
    in_text(text, cap, head, full, None, what + " as text without a limit", indexed, name is not None)
    # limited
    with settings(opts):
        _, head2, some = table(obj._repr_html_(), what)
        text = str(obj)
    limit, most = opts["max_column_width"], opts["max_rows"]
    narrow = opts["max_display_width"] if limit is not None else None
    same(len(head2), len(head), what + ": number of columns")
    for a, b in zip(head2[1:], head[1:]):
        cell(a, b, limit, narrow, what + ": header")
    gap = [i for i, r in enumerate(some) if r is None]
    if most is None or len(full) <= most:
        need(not gap and len(some) == len(full), "%s: %d of %d rows shown under a limit of %r", what, len(some), len(full), most)
        pairs = list(zip(some, full))
    else:
        rec.label("rows omitted")
        need(len(gap) == 1, "%s: %d marks of omitted rows", what, len(gap))
        a, b = gap[0], len(some) - gap[0] - 1
        need(a + b <= most, "%s: %d rows shown under a limit of %d", what, a + b, most)
        need(most < 2 or a and b, "%s: rows from the %s missing under a limit of %d", what, "end" if a else "beginning", most)
        pairs = list(zip(some[:a], full[:a])) + list(zip(some[a + 1:], full[len(full) - b:]))
    for r, f in pairs:
        same((len(r), r[0]), (len(f), f[0]), what + ": row and its number")
        check_links(r, f, what, rec)
        same(sorted(r.links), sorted(f.links), what + ": linked cells")
        for x, y in zip(r[1:], f[1:]):
            if nested:      # cells that are tables themselves
                need(limit is None or len(x) <= limit, "%s: cell of %d characters under a limit of %r", what, len(x), limit)
                continue
            cell(x, y, limit, narrow, what + ": cell")
            if x != y:
                rec.label("cell truncated")
    in_text(text, cap, head2, some, opts, what + " as text under %r" % opts, indexed)
    return full


def cell(x, y, limit, narrow, what):
    if limit is not None and narrow is not None:
        limit = min(limit, narrow) if len(y) > min(limit, narrow) - 8 else limit
    shown(x, y, limit, what)


def in_text(text, cap, head, rows, opts, what, indexed, named=False):
    """Header and cells of each column occur in the text in order, each row with its number, and there are no more lines than these rows need."""
    need(isinstance(text, str), "%s: str() is %r", what, type(text))
    if len(head) < 2:
        return
    # cells of several lines cannot be told apart
    if any(len((c + "x").splitlines()) > 1 for r in rows if r is not None for c in r) or any(len((c + "x").splitlines()) > 1 for c in head):
        return
    lines = text.split("\n")
    if cap is not None and opts is None and len(cap.splitlines()) == 1:
        need(lines[0].strip() and (not named or cap.strip() in lines[0]), "%s: caption %r missing in\n%.2000s", what, cap, text)
    start = len(cap.split("\n")) if cap is not None and opts is None else 0
    if opts is None:
        below = [r if indexed else r[1:] for r in [head] + rows if any(c.strip() for c in (r if indexed else r[1:]))]
        used = [x for x in lines[start:] if x.strip()]
        same(len(used), len(below), what + ": lines for header and rows")
        for c in range(len(below[0]) if below else 0):
            at = None
            for line, r in zip(used, below):
                if r[c].strip():
                    here = {i for i in range(len(line)) if line.startswith(r[c], i)}
                    at = here if at is None else at & here
                    need(at, "%s: cells of column %d missing or not below each other in\n%.2000s", what, c, text)
    for c in range(1, len(head)):
        k = start
        for i, r in enumerate([head] + rows):
            if r is None:
                while k < len(lines) and lines[k].strip() not in ("...", ". . ."):
                    k += 1
                need(k < len(lines), "%s: omitted rows not marked, or out of order, for column %d in\n%.2000s", what, c, text)
            else:
                want = r[c]
                if not want.strip() or i and opts is not None and want == "NIL":    # which may be shortened in the text only
                    want = ""
                if not want and not indexed:
                    continue
                label = r[0] if indexed else ""
                while k < len(lines) and not (want in lines[k] if not label else lines[k].lstrip().startswith(label) and want in lines[k].lstrip()[len(label):]):
                    k += 1
                need(k < len(lines), "%s: %s %r of column %d missing, or out of order, in\n%.2000s", what, "cell" if i else "header", r[c], c, text)
            k += 1
    if opts is not None and opts["max_display_width"] is not None:
        wide = [max(max(len(r[c]), 7) for r in [head] + rows if r is not None) + 4 for c in range(len(head))]
        most = max(opts["max_display_width"], wide[0] + max(wide[1:]))      # one column is never split
        for x in lines[len(cap.split("\n")) if cap is not None else 0:]:
            x = x.rstrip()
            x = x[:-1].rstrip() if x.endswith("\\") else x
            need(len(x) <= most, "%s: %d characters wide instead of %d:\n%.2000s", what, len(x), most, text)
    filled = sum(1 for x in lines if x.strip())
    most = (len(head) - 1) * (len(rows) + 2) + len((cap or "").split("\n"))
    need(filled <= most, "%s: %d lines for %d rows of %d columns:\n%.2000s", what, filled, len(rows), len(head) - 1, text)


def stale(model, v):
    l, r = v[1], v[2]
    return l.layer is None or l.layer is not r.layer or l.layer.nodes.index(l) > r.layer.nodes.index(r)


def shows(model, n, cell):
    if n.layer is None or model.layers.get(n.layer.name) is not n.layer or n not in n.layer.nodes or not n.fields:
        return True     # nothing to show it by
    return n.layer.name in cell


def plain(model, v):
    """The cell for a value in a table of nodes, if it is told by the value alone."""
    if v is None:
        return "NIL"
    if isinstance(v, MNode):
        return lambda cell: shows(model, v, cell)
    if isinstance(v, list):
        return lambda cell: cell == "[]" if not v or len(v) == 1 and not v[0].fields else \
            cell != "[]" and (len(v) < 2 or str(len(v)) in cell) and all(shows(model, n, cell) for n in v)
    return repr(v) if isinstance(v, (int, float, str, bytes)) else None


def check(plan, rec):
    model, (w,) = build(plan)
    doc = w.doc
    before = canon(doc)
    opts = dict(NOLIMIT, **plan["options"])
    for t in plan["targets"]:
        kind = t[0]
        rec.label(kind)
        layers = list(model.layers.values())
        ml = layers[t[1] % len(layers)] if layers else None
        if kind == "doc":
            document(model, doc, opts, rec)
            continue
        if kind == "text":
            for name, text in model.texts.items():
                for o in (opts, NOLIMIT):
                    with settings(o):
                        p = Page(doc.texts[name]._repr_html_(), "text %r" % name)
                        need(p.loose.get("pre", "") == text and name in p.loose.get("h3", ""), "text %r shown as %r", name, p.loose)
                        same(str(doc.texts[name]), text, "str() of a text")
                        repr(doc.texts[name])
                        sp = doc.texts[name][:t[1]]
                        need(str(sp) in text and repr(str(sp)) in repr(sp), "span shown as %r", sp)
            continue
        if kind == "dead":
            if not model.graveyard:
                continue
            n = model.graveyard[t[2] % len(model.graveyard)][0]
        elif kind == "loose":
            n = MNode(newfields(model, ml, t[3]) if ml else {})
            w.node[n] = Node(real_fields(w, n.fields))
        elif ml is None:
            continue
        elif kind == "node":
            if not ml.nodes:
                continue
            n = ml.nodes[t[2] % len(ml.nodes)]
        if kind in ("dead", "loose", "node"):
            real = w.node[n]
            order = list(real.keys())
            same(sorted(order), sorted(n.fields), "fields of a node")
            rows = [(f, plain(model, n.fields[f])) for f in order]
            check_table(real, opts, "%s %r" % (kind, list(n.fields)), rec, ["field", "value"], rows)
            same(list(real.keys()), order, "fields afterwards")
            continue
        fields = sorted(ml.fields)
        layer = doc.layers[ml.name]
        if kind == "layer":
            obj, nodes, name = layer, ml.nodes, ml.name
        elif kind == "list":
            obj, nodes, name = NodeList([w.node[n] for n in ml.nodes[t[2] % 3:]], fieldtypes=layer.schema.fields), ml.nodes[t[2] % 3:], None
        elif kind == "slice":
            obj, name = layer[t[2] % 4:], None
            back = {id(w.node[n]): n for n in ml.nodes}
            nodes = [back[id(x)] for x in obj]
        elif kind == "mixed":
            nodes = [n for x in layers for n in x.nodes[:3]] + [n for n, _ in model.graveyard][:2]
            try:
                obj = NodeList([w.node[n] for n in nodes])
            except Exception:
                continue       # fields of incompatible types
            fields, name = None, None
        elif kind == "nspan":
            if not ml.nodes:
                continue
            a = t[2] % len(ml.nodes)
            nodes = ml.nodes[a:a + 1 + t[1]]
            obj, name = NodeSpan(w.node[nodes[0]], w.node[nodes[-1]]), None
        elif kind == "query":
            nodes = [n for i, n in enumerate(ml.nodes) if i % 3 != t[2] % 3]
            chosen = {id(w.node[n]) for n in nodes}
            obj, name = layer[lambda x: id(x) in chosen], None
        elif kind == "predicate":
            if not fields:
                continue
            col = layer[fields[t[2] % len(fields)]]
            p = (col == 1) & (col != 2) | ~(col.is_any("a", 2)) | col.is_none() & (col < 3) & (col <= 3) & (col > 3) & (col >= 4) | col.has_value()
            need(isinstance(repr(p), str) and isinstance(str(p), str), "repr of a predicate")
            continue
        else:
            if not fields:
                continue
            f = fields[t[2] % len(fields)]
            values = [n.fields.get(f) for n in ml.nodes]
            if any(isinstance(v, tuple) and v[0] == "nspan" and stale(model, v) for v in values):
                rec.label("column of stale spans")
                repr(layer[f])
                continue
            want = []
            for v in values:
                if isinstance(v, tuple) and v[0] == "span":
                    # a node may keep the span of another text under the same field; its characters are what is shown
                    v = model.texts[v[1]][v[2]:v[3]] if v[1] in model.texts else None
                    want.append([v])
                else:
                    want.append([str(v) if isinstance(v, (int, float, str, bytes)) else None])
            check_table(layer[f], opts, "column %r of %r" % (f, ml.name), rec, [f], want, name=f,
                        nested=any(x is None for (x,) in want), indexed=True, raw=True)
            continue
        rows = [[plain(model, n.fields.get(f)) for f in fields] for n in nodes] if fields is not None else None
        full = check_table(obj, opts, "%s of %r" % (kind, ml.name), rec, fields, rows, name, first=None if kind == "nspan" else 0)
        if fields is None:
            same(len(full), len(nodes), "number of rows of a list from several layers")
        if len(nodes) >= 2 and fields:
            rec.hit()
    same(canon(doc), before, "the document after printing")


def document(model, doc, opts, rec):
    for o in (NOLIMIT, opts):
        with settings(o):
            s = str(doc)
            r = repr(doc)
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                doc.printschema()
        need("%d layers" % len(model.layers) in r and "%d texts" % len(model.texts) in r, "repr of the document: %r", r)
        if o is NOLIMIT:
            for k, v in model.props.items():
                need(str(k) in r and str(v) in r, "property %r not in %r", k, r)
            for name, ml in model.layers.items():
                need(name in s and "N=%d" % len(ml.nodes) in s, "layer %r not in %r", name, s)
            for name, text in model.texts.items():
                need(name in s and repr(text) in s, "text %r not in %r", name, s)
        schema = out.getvalue()
        at = 0
        for name in sorted(model.layers):
            for part in ["[%s]" % name] + list(model.layers[name].fields):
                k = schema.find(part, at)
                need(k >= 0, "%r of layer %r missing, or out of order, in the printed schema %r", part, name, schema)
                at = k + len(part)
        for ml in model.layers.values():
            for f, (typ, arg, _) in ml.fields.items():
                need(DataType2String[doc.layers[ml.name].schema.fields[f].typename] in schema and (arg is None or str(arg) in schema),
                     "type of %r not in %r", f, schema)


CONTENT = ("q", "<script>alert(1)</script>", "</td></tr></table>", "a&amp;b", "\"><b>x", "'/><a href='x'>", "<!-- ", "]]>", "{}", "{0}", "%s%d", "%",
           "urn:wikidata:Q34", "urn:wikipedia:sv:Sverige", "urn:wikidata:", "urn:wikipedia:'><b>:x", "urn:wikipedia:sv:a'b", "urn:wikipedia:sv:x&amp;<b>\"y", "urn:wikidata:<i>'\"", "urn::", "urn:x:y",
           "URN:wikidata:Q1", "urn:wikipedia:sv", "urn:WikiData:Q2", "NIL", "...", ". . .", "\n", "a\nb", "tab\tx", "x" * 23, "x" * 24, "x" * 25,
           "y" * 26, "0123456789" * 3, "0123456789" * 12, "\u00e5" * 40, "&lt;", "&")


@st.composite
def plans(draw):
    plan = draw(gen.document(ops=gen.weighted((3, gen.edit_ops()), (1, gen.schema_ops())), maxlayers=3, big=draw(st.integers(0, 9)) == 9,
                             need_layer=draw(st.integers(0, 9)) != 0))
    content = st.sampled_from(CONTENT)
    for la in plan["layers"]:
        for i, f in enumerate(la["fields"]):
            if f[1] == "str":
                la["cols"][f[0]]["vals"] += draw(st.lists(content, max_size=4))
        if draw(st.integers(0, 9)) == 9:
            la["n"] = draw(st.sampled_from((99, 100, 101, 102, 130, 300)))
    if draw(st.integers(0, 2)) == 2:
        rename(plan, draw, content)
    for t in plan["texts"]:
        if draw(st.integers(0, 3)) == 3:
            t[1] = [[draw(content), 1]] + t[1]
            if draw(st.booleans()):
                t[0] = draw(content) + t[0]
    plan["texts"] = list({t[0]: t for t in plan["texts"]}.values()) if len({t[0] for t in plan["texts"]}) == len(plan["texts"]) else \
        [["t%d" % i, t[1]] for i, t in enumerate(plan["texts"])]
    if draw(st.integers(0, 3)) == 3:
        plan["props"][draw(content)] = draw(content)
    kinds = ("node", "text", "node", "dead", "loose", "layer", "layer", "list", "slice", "mixed", "nspan", "query", "predicate", "column", "column", "doc", "layer")
    plan["targets"] = [list(t) for t in draw(st.lists(st.tuples(st.sampled_from(kinds), gen.small, gen.idx, gen.ks), min_size=3, max_size=9))]
    o = {}
    for k, vals in (("max_rows", (100, 1, 2, 3, 4, 5, 6, 99, 101)), ("max_columns", (8, 1, 2)), ("max_column_width", (30, 7, 8, 9, 10, 12, 29, 31, 200)),
                    ("max_display_width", (120, 11, 12, 20, 21, 40, 80, 200))):
        v = draw(st.one_of(st.none(), st.sampled_from(vals), st.just(vals[0]), st.integers(12, 60)))
        o[k] = v
    plan["options"] = o
    return plan


def rename(plan, draw, content):
    names = [draw(content) for _ in plan["layers"]]
    if len(set(names)) == len(names):
        for la, n in zip(plan["layers"], names):
            la["name"] = n
    for la in plan["layers"]:
        for f in la["fields"]:
            n = draw(content)
            if n not in la["cols"] and draw(st.booleans()):
                la["cols"][n] = la["cols"].pop(f[0])
                f[0] = n


# ---------------------------------------------------------------- large ones

@st.composite
def large_plans(draw):
    plan = draw(gen.large(ops=gen.edit_ops(), kinds=("strings", "fields", "layers", "names", "gaps", "spans", "refs", "text")))
    kinds = ("node", "text", "loose", "layer", "list", "slice", "nspan", "query", "column", "column", "doc")
    plan["targets"] = [list(t) for t in draw(st.lists(st.tuples(st.sampled_from(kinds), gen.small, gen.idx, gen.ks), min_size=1, max_size=3))]
    plan["options"] = {"max_rows": draw(st.sampled_from((1, 2, 100, 300))), "max_column_width": draw(st.sampled_from((7, 8, 30, 200))),
                       "max_columns": 8, "max_display_width": draw(st.sampled_from((None, 11, 60, 120, 1000)))}
    return plan


# ---------------------------------------------------------------- dumps of encoded documents

def check_dump(plan, rec):
    model, ws = build(plan)
    repair(model, ws)
    data = MsgpackCodec.encode(ws[0].doc)
    outs = []
    for src in (data, io.BytesIO(data)):
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            MsgpackCodec.debug(src)
        outs.append(out.getvalue())
    same(outs[0], outs[1], "dump of a file and of its bytes")
    s, at = outs[0], 0
    layers = {name: ml for name, ml in model.layers.items()}
    order = list(MsgpackCodec.decode(data).layers)
    same(sorted(order), sorted(layers), "layers of the encoded document")

    def after(part, what):
        nonlocal at
        k = s.find(part, at)
        need(k >= 0, "%s: %r missing, or out of order, in the dump %.3000s", what, part, s)
        at = k + len(part)
    for k, v in model.props.items():
        need(repr(k) in s, "property %r missing in the dump", k)
    for name in order:
        after(name, "declaration of a layer")
        start = at
        for f in layers[name].fields:
            at = start
            after(f, "field of %r" % name)
    for name, text in model.texts.items():
        need(name in s, "text %r missing in the dump", name)
    at = s.rfind("Types data")
    need(at >= 0 or not order, "no data in the dump")
    at = max(at, 0)
    for name in order:
        after(name, "data of a layer")
        after(str(len(layers[name].nodes)), "number of nodes of %r" % name)
        rec.hit()


# ---------------------------------------------------------------- the settings

def check_settings(plan, rec):
    low = {"max_rows": 1, "max_columns": 1, "max_column_width": 7, "max_display_width": 11}
    for o in (PrintOptions(), options):
        with settings({}):
            now = {k: getattr(o, k) for k in SETTINGS}
            if o is not options:
                same(now, {"max_rows": 100, "max_columns": 8, "max_column_width": 30, "max_display_width": 120}, "default settings")
            for k, v in plan:
                k = SETTINGS[k]
                try:
                    setattr(o, k, v)
                    ok = True
                except ValueError:
                    ok = False
                same(ok, v is None or v >= low[k], "%s=%r accepted" % (k, v))
                if ok:
                    now[k] = v
                    rec.hit()
                same({k: getattr(o, k) for k in SETTINGS}, now, "settings after %s=%r" % (k, v))
            if o is options:
                printout.set_large_screen()
                same((o.max_column_width, o.max_display_width), (200, 200), "large screen")


FACETS = [
    Facet("large tables", large_plans, check, "a collection of at least two nodes with fields was printed", 40, 900),
    Facet("dumps", lambda: gen.document(ops=gen.weighted((3, gen.edit_ops()), (1, gen.schema_ops())), maxlayers=3, big=False), check_dump,
          "a document with a layer was dumped", 500, 6000),
    Facet("renderings", plans, check, "a collection of at least two nodes with fields was printed", 3000, 40000),
    Facet("settings", lambda: st.lists(st.tuples(st.integers(0, 3), st.one_of(st.none(), st.integers(-3, 14), st.integers(0, 500))).map(list),
                                       min_size=1, max_size=8), check_settings, "a setting was accepted", 300, 3000),
]
