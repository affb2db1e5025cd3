"""C13: index search returns exactly the matching documents."""
import contextlib
import io
import itertools
import os
import shutil
import tempfile

from ..core import Facet, need, same
from ..coll import CODECS, available
from ..model import canon, encode
from hypothesis import strategies as st
from docria.codec import MsgpackDocument
from docria.collection import (DocumentFileIndex, DocumentIndex, MsgpackDocumentReader, MsgpackDocumentWriter, build_msgpack_directory_fileindex,
                               build_msgpack_fileindex, get_codec)
from docria.model import DataTypes as T, Document

ASSUMPTIONS = ["indexed values are hashable and not NaN; a search has at least one condition", "values are equal when == says so",
               "directories are indexed through names of the form NAME.docria[.xz|.bz2|.z|.lz4]"]
VALUES = (0, 1, 2, "a", "b", "", None, True, False, 1.0, 0.5, b"a", b"", "1", 2 ** 40, -1, 2 ** 63, "\u00e5", "x" * 300)
ALIKE = ((0, "0", False, "", None, b"", "False", "None"), (1, "1", True, 1.0, b"1", "True", "1.0", "01"), ("a", b"a", "A", "b", "ab", " a", "a "),
         ("\u00e5", "a\u030a", "\u00c5", "a", b"a", "\\u00e5"), (2 ** 53, float(2 ** 53), 2 ** 53 + 1, str(2 ** 53), -2 ** 53), (0.1, "0.1", 0.1 + 2 ** -50, 0, 1))
PROPS = ("p", "q", "r", "\u00e5 b", "uri")


def make(f, i, spec, values=VALUES):
    d = Document(f=f, i=i)
    for k, v in spec["props"]:
        d.props[PROPS[k]] = values[v]
    t = d.add_text("main", "text of %d.%d " % (f, i) + "z" * spec["pad"])
    d.add_layer("token", text=T.span("main"))
    if spec["pad"] % 3:
        d.layers["token"].add(text=t[1:4])
    return d


def values_of(plan):
    return ALIKE[plan["alike"]] if plan.get("alike") is not None else VALUES


def matching(docs, conds, indexed):
    return [i for i, d in enumerate(docs)
            if all(k in indexed and k in d.props and d.props[k] == v for k, v in conds.items())]


def search_all(plan, files, paths, indexed, indexes, at=None):
    """All searches of the plan, on every index; numbers of documents found and not found.
    Document i is at position i of its file, or at positions a + b * i for (a, b) of `at`."""
    where = lambda f, i: i if at is None else at[f][0] + at[f][1] * i
    searches = [({PROPS[k]: values_of(plan)[v] for k, v in s["conds"]}, s["lazy"]) for s in plan["searches"]]
    hits = misses = 0
    for index, fs in indexes:
        if plan.get("abandon"):        # a search given up after its first hit
            for conds, lazy in searches:
                next(index.search(conds, lazy=lazy), None)
        pending = []
        for conds, lazy in searches:
            want = {f: matching(files[f], conds, indexed) for f in fs}
            total = sum(map(len, want.values()))
            hits += total
            misses += sum(len(files[f]) for f in fs) - total
            pending.append((conds, lazy, want, index.search(conds, lazy=lazy), []))
        if plan["interleave"]:
            for row in itertools.zip_longest(*[p[3] for p in pending]):
                for p, d in zip(pending, row):
                    if d is not None:
                        p[4].append(d)
        else:
            for p in pending:
                p[4].extend(p[3])
        for conds, lazy, want, _, got in pending:
            what = "search %r%s" % (conds, " (lazy)" if lazy else "")
            seen = {f: [] for f in fs}
            for d in got:
                need(isinstance(d, MsgpackDocument if lazy else Document), "%s gives %r", what, d)
                props = d.properties("f", "i") if lazy else d.props
                f, i = props["f"], props["i"]
                need(f in seen, "%s: document of file %r", what, f)
                seen[f].append(i)
                if lazy:
                    same(d.binary() == encode(files[f][where(f, i)]), True, "%s: bytes of document %d of file %d" % (what, i, f))
                    r = MsgpackDocumentReader(paths[f])
                    same(r.get(d.ref).binary() == d.binary(), True, "%s: document fetched by the reference of a hit" % what)
                    r.close()
                else:
                    same(canon(d), canon(files[f][where(f, i)]), "%s: document %d of file %d" % (what, i, f))
            for f in fs:
                same([where(f, i) for i in seen[f]], want[f], "%s: hits in file %d" % (what, f))
    return hits, misses


def check(plan, rec):
    here = os.getcwd()
    tmp = tempfile.mkdtemp(prefix="vp-c13-")
    try:
        base = os.path.join(tmp, "base")
        cdir = os.path.join(base, *plan["sub"])
        other = os.path.join(tmp, "other")
        os.makedirs(cdir)
        decoy = os.path.join(other, *plan["sub"])
        os.makedirs(decoy)
        files, paths = [], []
        for f, fs in enumerate(plan["files"]):
            docs = [make(f, i, s, values_of(plan)) for i, s in enumerate(fs["docs"])]
            name = "f%d.docria%s" % (f, fs["ext"])
            codec = get_codec(fs["codec"] if fs["codec"] in available() else "zip")
            place = ""
            if plan.get("spread") and plan["kind"] != "directory":     # files of the same name in several directories
                place, name = "p%d" % f, "f.docria"
            versions = [(cdir, docs), (decoy, docs[::-1] + docs)]
            if plan.get("rewritten"):        # the file had other contents when it was indexed first
                versions.insert(0, (cdir, docs[::-1]))
            for v, (where, what) in enumerate(versions):
                where = os.path.join(where, place)
                os.makedirs(where, exist_ok=True)
                with MsgpackDocumentWriter(os.path.join(where, name), num_docs_per_block=fs["per"], codec=codec) as w:
                    for d in what:
                        w.write(d)
                if len(versions) == 3 and v == 0:
                    at = os.path.join(where, name)
                    former = [build(at, *[PROPS[k] for k in plan["indexed"]]) for build in (DocumentFileIndex.build, build_msgpack_fileindex)]
                    search_all(plan, {f: what}, {f: at}, [PROPS[k] for k in plan["indexed"]], [(x, [f]) for x in former], at={f: (len(docs) - 1, -1)})
                    os.remove(at)
                    rec.label("file rewritten")
            files.append(docs)
            paths.append(os.path.join(cdir, place, name))
        with open(os.path.join(cdir, "notes.txt"), "w") as f:
            f.write("not a collection")
        indexed = [PROPS[k] for k in plan["indexed"]]
        kind = plan["kind"]
        rec.label("kind:" + kind)
        os.chdir(base)
        rel = (lambda p: os.path.relpath(p, base)) if plan["relative"] else (lambda p: p)
        idxpath = os.path.join(tmp, "index")
        more = []
        if kind == "single":
            indexes = [((build_msgpack_fileindex if plan["relative"] else DocumentFileIndex.build)(p, *indexed), [f]) for f, p in enumerate(paths)]
        else:
            if kind == "directory":
                with contextlib.redirect_stderr(io.StringIO()):
                    index = build_msgpack_directory_fileindex(rel(cdir), *indexed, basepath="." if plan["relative"] else base,
                                                              num_workers=plan["workers"])
            else:
                index = DocumentIndex(basepath="." if plan["relative"] else base) if plan["workers"] == 1 else DocumentIndex()
                parts = [build_msgpack_fileindex(rel(p), *indexed) for p in paths]
                for part in parts:
                    index.add(part)
                if plan.get("shared"):       # the same file indexes in a second index, and searched on their own
                    second = DocumentIndex(basepath=(tmp, cdir)[plan["workers"] - 1])
                    for part in parts:
                        second.add(part)
                    more.append((second, range(len(files))))
                    singles = [(part, [f]) for f, part in enumerate(parts)]
                    rec.label("file indexes shared")
                    if plan["relative"]:
                        search_all(plan, files, paths, indexed, singles)
                    else:
                        more.extend(singles)
            if plan["saved"]:
                if plan.get("early"):        # already searched when saved
                    search_all(plan, files, paths, indexed, [(index, range(len(files)))])
                    rec.label("searched, then saved")
                original = index
                index.save(idxpath)
                index = DocumentIndex.load(idxpath)
                rec.label("saved and loaded")
            indexes = [(index, range(len(files)))] + more
            if plan["elsewhere"]:
                os.chdir(other)
                rec.label("other working directory")
        hits, misses = search_all(plan, files, paths, indexed, indexes)
        if kind != "single" and plan["saved"] and plan.get("early"):
            os.chdir(base)
            search_all(plan, files, paths, indexed, [(original, range(len(files)))])
        rec.label("hits" if hits else "no hits")
        rec.hit(hits > 0 and misses > 0)
    finally:
        os.chdir(here)
        shutil.rmtree(tmp)


@st.composite
def plans(draw):
    alike = draw(st.one_of(st.none(), st.none(), st.integers(0, len(ALIKE) - 1)))
    nv = draw(st.sampled_from((2, 3, 4, len(VALUES) if alike is None else len(ALIKE[alike]))))
    if alike is not None:
        nv = min(nv + 1, len(ALIKE[alike]))
    value = st.integers(0, nv - 1)
    prop = st.sampled_from((0, 1, 0, 1, 0, 1, 2, 3, 4))
    kind = draw(st.sampled_from(("single", "single", "multi", "multi", "multi", "directory")))
    doc = st.fixed_dictionaries({"props": st.dictionaries(prop, value, min_size=1, max_size=draw(st.sampled_from((4, 5)))).map(lambda d: [list(x) for x in d.items()]),
                                 "pad": st.sampled_from((0, 1, 5, 700))})
    pool = draw(st.lists(doc, min_size=2, max_size=4))
    if draw(st.booleans()):        # a document that differs from another in one property
        twin = draw(st.sampled_from(pool))
        k = draw(st.integers(0, 4)) % len(twin["props"])
        pool.append(dict(twin, props=[[p, draw(value) if i == k else v] for i, (p, v) in enumerate(twin["props"])]))
    files = []
    for _ in range(draw(st.integers(1, 3))):
        docs = [pool[k % len(pool)] for k in draw(st.lists(st.integers(0, 20), min_size=draw(st.sampled_from((3, 2, 0))), max_size=9))]
        files.append({"docs": docs, "per": draw(st.sampled_from((1, 2, 3, 128))), "codec": draw(st.sampled_from(CODECS[:6])),
                      "ext": draw(st.sampled_from(("", "", ".xz", ".bz2", ".z", ".lz4")))})
    conds = st.dictionaries(prop, value, min_size=1, max_size=draw(st.sampled_from((3, 3, 5)))).map(lambda d: [list(x) for x in d.items()])
    known = [d["props"] for d in pool if d["props"]]
    if known:
        conds = st.one_of(st.tuples(st.sampled_from(known), st.integers(1, 5)).map(lambda x: x[0][:x[1]]), conds)
    return {"files": files, "alike": alike, "sub": draw(st.sampled_from(((), ("c",), ("c", "d e")))), "kind": kind,
            "indexed": draw(st.sampled_from(([0, 1, 2, 3, 4], [0, 1], [0, 1, 2], [0], [1, 4, 3]))),
            "relative": draw(st.booleans()), "spread": draw(st.booleans()), "saved": draw(st.booleans()), "rewritten": draw(st.integers(0, 2)) == 2, "early": draw(st.booleans()), "abandon": draw(st.integers(0, 4)) == 4, "elsewhere": draw(st.booleans()), "shared": draw(st.booleans()), "interleave": draw(st.booleans()),
            "workers": draw(st.sampled_from((1, 2))),
            "searches": draw(st.lists(st.fixed_dictionaries({"conds": conds, "lazy": st.booleans()}), min_size=2, max_size=5))}


@st.composite
def bigplans(draw):
    """Collections of hundreds of documents in many or large blocks."""
    plan = draw(plans())
    pool = [d for f in plan["files"] for d in f["docs"]] or [{"props": [[0, 1]], "pad": 3}, {"props": [[1, 0], [0, 0]], "pad": 0}]
    for f in plan["files"][:1]:
        n = draw(st.sampled_from((20, 127, 129, 300)))
        a, b = draw(st.integers(1, 7)), draw(st.integers(0, 7))
        f["docs"] = [dict(pool[(a * k + b + k // 5) % len(pool)], pad=(0, 1, 5, 700, 20000)[(a + k) % 5 if k % 9 == 0 else 0]) for k in range(n)]
        f["per"] = draw(st.sampled_from((1, 3, 7, 128, 1000)))
    return plan


FACETS = [
    Facet("searches", plans, check,
          "1-3 files of up to 9 documents over up to 5 properties, indexed singly, together or as a directory, saved, loaded and searched from "
          "another directory holding other files of the same names; non-trivial: some documents match and some do not", 1500, 12000),
    Facet("many documents", bigplans, check, "the same with 20 to 300 documents in one of the files", 60, 1500, case_seconds=90),
]
