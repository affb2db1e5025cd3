"""C24: token alignment yields one in-order, exact span per token."""
from .. import gen
from ..core import Facet, need, same
from hypothesis import strategies as st
from docria.algorithm import sequence_to_textspans
from docria.codec import MsgpackCodec
from ..model import encode
from docria.model import DataTypes as T, Document, TextSpan

ASSUMPTIONS = ["0 <= start <= stop <= length of the text, k >= 0"]
WS = (" ", "  ", "\n", "\t ", "\u00a0", " - ", "~", "")
ALPHA = ("a", "b", "ab", "aba", "c", "\u00e5", "\U0001f600", "bb", "aa", "Lund", "e\u0301", "abc")


def find(s, t, pos):
    for i in range(pos, len(s) - len(t) + 1):
        if s[i:i + len(t)] == t:
            return i
    return None


def reference(tokens, region, k):
    """Offsets within the region: the next occurrence of each token, unless one of the k tokens that follow it occurs
    earlier: then the first such is taken and those before it get empty spans; as do tokens that do not occur."""
    out = []
    pos = 0
    i = 0
    while i < len(tokens):
        at = find(region, tokens[i], pos)
        if at is None:
            out.append((pos, pos))
            i += 1
            continue
        take = i
        for j in range(i + 1, min(i + k, len(tokens) - 1) + 1):
            cand = find(region, tokens[j], pos)
            if cand is not None and cand < at:
                take, at = j, cand
                break
        out += [(pos, pos)] * (take - i)
        pos = at + len(tokens[take])
        out.append((at, pos))
        i = take + 1
    return out


def check(plan, rec):
    parts = plan["parts"] * plan.get("tile", 1)          # [token, gap after, what happens to it]
    region = plan["lead"] + "".join(t + g for t, g, _ in parts)
    before, after = plan["before"], plan["after"]
    doc = Document()
    text = doc.add_text("main", before + region + after)
    if plan["decoded"]:
        text = MsgpackCodec.decode(encode(doc)).texts["main"]
    start, stop = len(before), len(before) + len(region)
    truth = []
    tokens = []
    pos = start + len(plan["lead"])
    exact = True
    for t, g, fate in parts:
        if fate[0] == "keep":
            tokens.append(t)
            truth.append((pos, pos + len(t)))
        else:
            exact = False
            if fate[0] == "foreign":
                tokens += [fate[1], t]
            elif fate[0] == "change":
                tokens.append(fate[1] + t[1:])
            elif fate[0] == "shorten":
                tokens.append(t[1:])
            elif fate[0] == "join":
                tokens.append(t + fate[1])
            else:
                need(fate[0] == "drop", "plan")
        pos += len(t) + len(g)
    k = plan["k"]
    args = {}
    if start or plan["explicit"]:
        args["start_offset"] = start
    if after or plan["explicit"]:
        args["stop_offset"] = stop
    if k != 1 or plan["explicit"]:
        args["k"] = k
    given = list(tokens)
    spans = sequence_to_textspans(given, text, **args)
    what = "%r in %r, region %d:%d, k=%d" % (tokens, str(text), start, stop, k)
    same(given, tokens, "the tokens afterwards")
    same(len(spans), len(tokens), what + ": number of spans")
    got = [(s.start, s.stop) for s in spans]
    here = start
    for i, ((s, e), span, t) in enumerate(zip(got, spans, tokens)):
        need(isinstance(span, TextSpan), "%s: span %d is %r", what, i, span)
        need(here <= s <= e <= stop, "%s: span %d of %r goes back or leaves the region", what, i, got)
        same(str(span), str(text)[s:e], what + ": text of span %d" % i)
        need(s == e or str(text)[s:e] == t, "%s: span %d covers %r, not %r", what, i, str(text)[s:e], t)
        here = e
    # gaps that no token starts in
    gaps = plan["lead"] + "".join(g for _, g, _ in parts)
    clear = all(t and not (set(t) & set(gaps)) for t in tokens)
    if exact and clear:
        rec.label("exact tokenisation")
        same(got, truth, what + ": spans of a tokenisation")
    want = [(start + s, start + e) for s, e in reference(tokens, region, k)]
    same(got, want, what + ": spans")
    # the result may be used as values of a layer
    layer = doc.add_layer("token", text=T.span("main"))
    if not plan["decoded"]:
        for s in spans:
            layer.add(text=s)
        same([(n["text"].start, n["text"].stop) for n in layer], got, what + ": spans stored")
    if before:
        rec.label("start offset")
    if after:
        rec.label("stop offset")
    if any(s == e for s, e in got):
        rec.label("not found")
    rec.label("k=%d" % min(k, 4))
    rec.hit(len(tokens) >= 3 and sum(e > s for s, e in got) >= 2 and (bool(before or after) or any(s == e for s, e in got)))


@st.composite
def plans(draw):
    token = gen.weighted((5, st.sampled_from(ALPHA)), (2, st.text(st.sampled_from("ab"), min_size=1, max_size=3)), (1, gen.short_text))
    other = st.sampled_from(("zz", "q", "<unk>", "a", "b", "ab", "x" * 50, "\u00e5", ""))
    fates = gen.weighted((8, st.just(["keep"])), (1, st.tuples(st.just("foreign"), other).map(list)), (1, st.tuples(st.just("change"), other).map(list)),
                         (1, st.just(["shorten"])), (1, st.just(["drop"])), (1, st.tuples(st.just("join"), other).map(list)))
    if draw(st.booleans()):
        fates = st.just(["keep"])
    parts = draw(st.lists(st.tuples(token, st.sampled_from(WS), fates).map(list), min_size=draw(st.sampled_from((0, 3, 5))), max_size=10))
    if draw(st.integers(0, 11)) == 11:      # nothing but tokens that are not there
        parts = [["", "", ["change", draw(token)]] for _ in range(draw(st.integers(1, 4)))]
    outside = st.one_of(st.just(""), st.lists(token, max_size=4).map("".join), st.lists(st.sampled_from([p[0] for p in parts] or ["a"]), max_size=3).map(" ".join))
    return {"parts": parts, "lead": draw(st.sampled_from(WS)), "before": draw(outside), "after": draw(outside),
            "k": draw(st.sampled_from((1, 1, 0, 2, 3, 10))), "explicit": draw(st.booleans()), "decoded": draw(st.booleans())}


@st.composite
def tiled(draw):
    plan = draw(plans())
    plan["tile"] = draw(st.sampled_from((8, 20, 50)))
    if draw(st.booleans()):      # one thing goes wrong in a long text
        plan["parts"] = [p[:2] + [["keep"]] for p in plan["parts"]]
        extra = [["z", " ", draw(st.sampled_from((["drop"], ["change", "y"], ["foreign", "<unk>"], ["join", "b"])))]]
        at = draw(st.integers(0, 400))
        whole = plan["parts"] * plan["tile"]
        plan["parts"] = whole[:at] + extra + whole[at:]
        plan["tile"] = 1
    if draw(st.integers(0, 3)) == 3:
        plan["before"] = plan["before"] + "x" * draw(st.sampled_from((64, 300, 70000)))
    plan["k"] = draw(st.sampled_from((1, 2, 3, 10, 70)))
    return plan


@st.composite
def wide(draw):
    """Few tokens, some of them long or far apart."""
    plan = draw(plans())
    size = st.sampled_from((63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4100))
    parts = plan["parts"] or [["a", " ", ["keep"]], ["b", " ", ["keep"]]]
    for _ in range(draw(st.integers(1, 3))):
        i = draw(st.integers(0, len(parts) - 1))
        what = draw(st.sampled_from(("gap", "gap", "token", "lead")))
        n = draw(size)
        if what == "gap":
            parts[i] = [parts[i][0], draw(st.sampled_from((" ", "~", ". "))) * n, parts[i][2]]
        elif what == "token":
            parts[i] = [draw(st.sampled_from(("a", "ab", "\u00e5", "xy "))) * n, parts[i][1], parts[i][2]]
        else:
            plan["lead"] = draw(st.sampled_from((" ", "-", "\n"))) * n
    plan["parts"] = parts
    return plan


FACETS = [
    Facet("wide alignments", wide, check, "the same with tokens or gaps of 63-8200 characters: as below", 500, 10000),
    Facet("long alignments", tiled, check, "the same with 8-50 times the tokens: as below", 300, 6000),
    Facet("alignments", plans, check, "three tokens, two of them found, with a restricted region or a token not found", 9000, 150000),
]
