"""C15: a text span always denotes its substring."""
from .. import gen
from ..core import Facet, Violation, need, same
from ..model import encode
from hypothesis import strategies as st
from docria.algorithm import is_covered_by
from docria.codec import MsgpackCodec
from docria.model import DataTypes as T, Document, TextSpan

ASSUMPTIONS = ["spans are compared and joined within one text", "whether an empty span strictly inside another one intersects it is left open",
               "slices whose step is not one may be refused"]
WS = ("", " ", "\n", "\t ", "\u00a0", "\u2003\u3000", "\x1c\x85", "\u200b", "  \r\n")


def blank():
    """A run of whitespace (and what looks like it), up to a thousand characters."""
    n = st.one_of(st.integers(1, 12), st.sampled_from((15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 300, 1000)))
    return st.builds(lambda u, n: (u * n)[:n], st.sampled_from(tuple(w for w in WS if w)), n)


def piece():
    return st.one_of(st.sampled_from(WS), blank(), st.builds(lambda u, n: u * n, st.sampled_from(("ab ", "\U0001f600", "x")), st.sampled_from((9, 40, 300))), st.sampled_from(("a", "bc", "word", "\u00e5\u00e4", "\U0001f600", "e\u0301", "\u200b", ".", "x y")),
                     gen.short_text)


def slices(size):
    end = st.one_of(st.integers(-size - 3, size + 3), st.none())
    return st.tuples(end, end)


def oracle_slice(n, a, b):
    s, e, _ = slice(a, b).indices(n)
    return s, e


def check_span(span, text, s, e, what):
    sub = text[s:e]
    need(isinstance(span, TextSpan), "%s is %r", what, span)
    same((span.start, span.stop), (s, e), "%s: offsets" % what)
    same(str(span), sub, "%s: string" % what)
    same(len(span), e - s, "%s: len" % what)
    same(list(span), list(sub), "%s: characters" % what)
    need(span == sub and not (span != sub) and sub == span, "%s: not equal to its own string", what)
    need(not (span == sub + "x") and span != sub + "x", "%s: equal to a longer string", what)
    if sub:
        need(span != sub[1:] and span != sub[:-1], "%s: equal to a shorter string", what)
    need(repr(sub) in repr(span), "%s: repr %r", what, span)


def check(plan, rec):
    text = "".join(plan["text"])
    doc = Document()
    doc.add_text("other", "something else entirely")
    if plan["maintext"]:
        doc.maintext = text
        t = doc.maintext
    else:
        t = doc.add_text("main", text)
    if plan["decoded"]:
        lay = doc.add_layer("token", text=T.span("main"))
        for a, b in plan["cuts"]:
            a, b = sorted((a % (len(text) + 1), b % (len(text) + 1)))
            lay.add(text=t[a:b])
        doc = MsgpackCodec.decode(encode(doc))
        t = doc.texts["main"]
        rec.label("decoded text")
    same((str(t), len(t), list(t)), (text, len(text), list(text)), "the text")
    pool = []      # [span, start, stop]
    n = len(text)
    if plan["decoded"]:
        for node, (a, b) in zip(doc.layers["token"], plan["cuts"]):
            a, b = sorted((a % (n + 1), b % (n + 1)))
            pool.append([node["text"], a, b])
    trimmed = derived = 0
    for op in plan["ops"]:
        kind = op[0]
        if kind == "text slice":
            a, b = op[1]
            s, e = oracle_slice(n, a, b)
            try:
                sp = t[a:b]
            except Exception:
                need(s > e, "text[%r:%r] of length %d refused", a, b, n)
                continue
            pool.append([sp, s, max(s, e)])
            if s > e:
                same(str(sp), "", "reversed slice text[%r:%r]" % (a, b))
                pool.pop()
                continue
        elif kind == "text tuple":
            a, b = op[1]
            ok = a is not None and b is not None and 0 <= a <= b <= n
            if a is None or b is None:
                continue
            try:
                sp = t[(a, b)]
            except Exception:
                need(not ok, "text[(%d, %d)] of length %d refused", a, b, n)
                continue
            need(ok, "text[(%d, %d)] of length %d gave %r", a, b, n, sp)
            pool.append([sp, a, b])
        elif kind == "text int":
            a = op[1][0]
            if a is None:
                continue
            try:
                c = t[a]
            except IndexError:
                need(not -n <= a < n, "text[%d] of length %d refused", a, n)
                continue
            need(-n <= a < n, "text[%d] of length %d gave %r", a, n, c)
            same(c, text[a], "text[%d]" % a)
            continue
        elif not pool:
            continue
        elif kind == "step":     # a step other than one may be refused, but never ignored
            a, b = op[1]
            step = (1, 2, 3, -1, -2, 7)[op[3] % 6]
            base, s, e = (t, 0, n) if op[2] % 3 == 0 else pool[op[2] % len(pool)]
            sub = text[s:e]
            try:
                sp = base[a:b:step]
            except Exception:
                need(step != 1 or slice(a, b).indices(e - s)[0] > slice(a, b).indices(e - s)[1], "[%r:%r:%r] of length %d refused", a, b, step, e - s)
                continue
            same(str(sp), sub[a:b:step], "[%r:%r:%r] of length %d" % (a, b, step, e - s))
            continue
        else:
            span, s, e = cur = pool[op[2] % len(pool)]
            size = e - s
            sub = text[s:e]
            if kind == "slice":
                a, b = op[1]
                # offsets relative to the span
                x, y = oracle_slice(size, a, b)
                try:
                    sp = span[a:b]
                except Exception:
                    need(x > y, "span[%r:%r] of length %d refused", a, b, size)
                    continue
                if x > y:
                    same(str(sp), "", "reversed slice span[%r:%r]" % (a, b))
                    continue
                pool.append([sp, s + x, s + y])
                derived += x > 0 or y < size
            elif kind == "tuple":
                a, b = op[1]
                if a is None or b is None:
                    continue
                ok = 0 <= a <= b <= size
                try:
                    sp = span[(a, b)]
                except Exception:
                    need(not ok, "span[(%d, %d)] of length %d refused", a, b, size)
                    continue
                if ok:
                    same((sp.start, sp.stop), (s + a, s + b), "span[(%d, %d)] of length %d" % (a, b, size))
                    pool.append([sp, s + a, s + b])
                else:   # may be clipped, but never leave the span
                    need(s <= sp.start <= sp.stop <= e, "span[(%d, %d)] of [%d, %d) gave %r", a, b, s, e, sp)
                continue
            elif kind == "int":
                a = op[1][0]
                if a is None:
                    continue
                try:
                    c = span[a]
                except IndexError:
                    need(not -size <= a < size, "span[%d] of length %d refused", a, size)
                    continue
                need(-size <= a < size, "span[%d] of length %d gave %r", a, size, c)
                same(str(c), sub[a], "span[%d]" % a)
                continue
            elif kind in ("trim", "trim_"):
                sp = getattr(span, kind)()
                st_ = sub.strip()
                if st_:
                    x = s + len(sub) - len(sub.lstrip())
                    y = x + len(st_)
                else:
                    x, y = sp.start, sp.stop
                    need(s <= x == y <= e, "%s() of a blank span [%d, %d) gave [%d, %d)", kind, s, e, x, y)
                trimmed += (x, y) != (s, e)
                if kind == "trim_":
                    need(sp is span, "trim_() returned another span")
                    for p in pool:
                        if p[0] is span:
                            p[1], p[2] = x, y
                else:
                    pool.append([sp, x, y])
                check_span(sp, text, x, y, "%s() of %r" % (kind, sub))
                for p in pool:
                    check_span(p[0], text, p[1], p[2], "a span after %s() of another" % kind)
                continue
            elif kind in ("join", "compare"):
                other, s2, e2 = pool[op[3] % len(pool)]
                if kind == "join":
                    want = text[s:e2]
                    if s <= e2:
                        same(span.text_to(other), want, "text_to")
                        check_span(span.span_to(other), text, s, e2, "span_to")
                        pool.append([span.span_to(other), s, e2])
                    else:
                        try:
                            same(str(span.text_to(other)), "", "text_to a span further left")
                            same(str(span.span_to(other)), "", "span_to a span further left")
                        except Violation:
                            raise
                        except Exception:
                            pass
                    continue
                same(span == other, (s, e) == (s2, e2), "equality of [%d, %d) and [%d, %d)" % (s, e, s2, e2))
                same(span != other, (s, e) != (s2, e2), "inequality of [%d, %d) and [%d, %d)" % (s, e, s2, e2))
                if span == other:
                    same(hash(span), hash(other), "hashes of equal spans")
                for arg in (other, (s2, e2)):
                    predicates(span, s, e, arg, s2, e2)
                continue
            elif kind == "range":
                a, b = sorted(x if x is not None else 0 for x in op[1])
                predicates(span, s, e, (a, b), a, b)
                continue
            elif kind == "span of spans":
                # built with the offsets of another span
                sp = t[s:e]
                pool.append([sp, s, e])
                same(sp == span, True, "a span of the same offsets")
                continue
        if pool:
            check_span(pool[-1][0], text, pool[-1][1], pool[-1][2], "result of %s %r" % (kind, op[1]))
    for p in pool:
        check_span(p[0], text, p[1], p[2], "a span at the end")
    if trimmed:
        rec.label("trimmed")
    if derived:
        rec.label("proper sub-spans")
    rec.hit(len(pool) >= 2 and derived + trimmed > 0)


def predicates(span, s, e, arg, s2, e2):
    what = "[%d, %d) and %s[%d, %d)" % (s, e, "span " if isinstance(arg, TextSpan) else "", s2, e2)
    same(bool(span.covered_by(arg)), s2 <= s and e <= e2, "covered_by of " + what)
    if isinstance(arg, TextSpan):
        same(bool(is_covered_by(span, arg)), s2 <= s and e <= e2, "is_covered_by of " + what)
    inside_empty = (s == e and s2 < s < e2) or (s2 == e2 and s < s2 < e)
    if not inside_empty:
        same(bool(span.intersected_by(arg)), max(s, s2) < min(e, e2), "intersected_by of " + what)


LONG = (2047, 4095, 4096, 4097, 5000, 8193, 16385, 65535, 65537, 70000)


def long_piece():
    return st.builds(lambda u, n: (u * n)[:n], st.sampled_from(tuple(w for w in WS if w) + ("a", "ab ", "\U0001f600", "\u00e5")), st.sampled_from(LONG))


@st.composite
def plans(draw, long=False):
    ps = draw(st.lists(piece(), min_size=1, max_size=8 if not long else 3))
    if long:
        for p in draw(st.lists(long_piece(), min_size=1, max_size=2)):
            ps.insert(draw(st.integers(0, len(ps))), p)
    n = sum(map(len, ps))
    k = st.integers(0, 60)
    cuts, x = [], 0         # where the pieces begin
    for w in ps:
        cuts.append(x)
        x += len(w)
    sl = st.one_of(slices(min(n, 40)), st.tuples(st.sampled_from(cuts), st.sampled_from(cuts + [n, None])), slices(n))
    kinds = ("text slice", "text slice", "slice", "slice", "slice", "tuple", "int", "trim", "trim_", "trim", "join", "compare", "compare",
             "range", "text tuple", "text int", "span of spans", "step")
    op = st.tuples(st.sampled_from(kinds), sl, k, k).map(list)
    full = [["text slice", (None, None), 0, 0]] if draw(st.booleans()) else []
    return {"text": ps, "maintext": draw(st.booleans()), "decoded": draw(st.booleans()),
            "cuts": [list(x) for x in draw(st.lists(st.tuples(k, k), max_size=4))],
            "ops": full + draw(st.lists(op, min_size=4, max_size=16 if not long else 8))}


FACETS = [
    Facet("long texts", lambda: plans(long=True), check, "texts with runs of 2047-70000 characters: as below", 120, 3000, case_seconds=60),
    Facet("span histories", plans, check,
          "texts of whitespace-rich pieces (fresh or decoded) and 4-17 slicing, indexing, trimming, joining and comparing steps over a pool of "
          "spans; non-trivial: two spans or more and a proper sub-span or an effective trim", 5000, 150000),
]
