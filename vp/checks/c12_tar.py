"""C12: tar collections return what was written, in order."""
import io
import os
import shutil
import tarfile
import tempfile

from ..core import Facet, Violation, need, same
from ..coll import Arbitrary, Docs, arbitrary, bad_document, bigshapes, shape
from ..model import canon
from hypothesis import strategies as st
from docria.codec import MsgpackDocument
from docria.collection import DocumentReader, TarMsgpackReader, TarMsgpackWriter

ASSUMPTIONS = ["the file-name format contains one integer conversion and gives different names for different numbers"]
MODES = {"w|gz": ("r|gz", "r:gz", "r|*", "r:*"), "w|bz2": ("r|bz2", "r:bz2", "r|*"), "w|xz": ("r|xz", "r:xz", "r:*"), "w|": ("r|", "r:", "r|*"),
         "w": ("r", "r|"), "w:": ("r:",), "w:gz": ("r:gz", "r|gz"), "w:bz2": ("r|bz2",), "w:xz": ("r:xz",), "x:gz": ("r|gz",)}
FORMATS = ("doc%05d.msgpack", "%d", "doc%05d.msgpack", "d-%x.bin", "sub/%03d.m", "\u00e5\u6c34 %d.msgpack", "n" * 98 + "%d", "n" * 99 + "%d", "n" * 150 + "/%d",
           "x%% %d", "%05d", ".doc%d", "s/.hidden/%d", "d.d/%d~", "-%d", "%d.tar.gz")
ROOTS = (None, None, "root", "a/b", "r" * 101, "\u00e5", "root dir", "r.d", ".r", "./r", "a//b", "a/./b", "../r")


class Boom(Exception):
    pass


def check(plan, rec):
    docs = Docs(plan["shapes"])
    mode = plan["mode"]
    rmodes = MODES[mode]
    rmode = rmodes[plan["rmode"] % len(rmodes)]
    rec.label("mode:" + mode)
    tmp = tempfile.mkdtemp(prefix="vp-c12-")
    try:
        path = os.path.join(tmp, "c.tar")
        kw = {}
        if plan["format"] is not None:
            kw["docformat"] = plan["format"]
        if plan["root"] is not None:
            kw["rootdir"] = plan["root"]
        if mode != "w|gz" or plan["explicit"]:
            kw["mode"] = mode
        w = TarMsgpackWriter(path, **kw)
        order = []
        failed = 0
        for op in plan["ops"]:
            if op[0] == "fail":
                for bad in ((bad_document(),) if op[1] else (None, b"DM_1", object())):
                    try:
                        w.write(bad)
                    except Exception:
                        failed += 1
                    else:
                        raise Violation("writing %r succeeded" % (bad,))
            else:
                order.append(op[1] % len(docs.docs))
                w.write(docs.given(order[-1], op[2]))
        if plan["ctx"]:
            try:
                with w as entered:
                    need(entered is w, "with gives %r instead of the writer", entered)
                    if plan.get("twice"):
                        w.close()
                        rec.label("closed twice")
                    if plan["boom"]:
                        raise Boom()
            except Boom:
                pass
            else:
                need(not plan["boom"], "an exception was swallowed by the writer")
        else:
            w.close()
        rec.label("documents:%s" % ("0" if not order else "1" if len(order) == 1 else "2+"), "failed writes" if failed else "no failed writes")
        rec.hit(len(order) > 1)

        # a plain tar
        fmt = plan["format"] or "doc%05d.msgpack"
        names = [(plan["root"] + "/" if plan["root"] is not None else "") + fmt % k for k in range(len(order))]
        with tarfile.open(path, "r:*") as t:
            members = t.getmembers()
            if plan["root"] is not None:
                need(members and members[0].isdir() and members[0].name == plan["root"], "the root directory is the first member")
                members = members[1:]
            same([m.name for m in members], names, "member names")
            for m, i in zip(members, order):
                need(m.isreg(), "member %r is not a regular file", m.name)
                same(t.extractfile(m).read() == docs.data[i], True, "content of member %r" % m.name)

        def reader():
            return TarMsgpackReader(path) if mode.endswith("gz") and plan["explicit"] else TarMsgpackReader(path, mode=rmode)

        with reader() as r:
            got = list(r)
        for d in got:
            need(isinstance(d, MsgpackDocument), "the reader gives %r", d)
        same([docs.data.index(d.binary()) if d.binary() in docs.data else d.binary()[:40] for d in got], order, "documents read (%s)" % rmode)
        for d, i in zip(got, order):
            same(d.properties("i"), {"i": i}, "property of a document read")
        try:
            with reader() as r:
                for d in r:
                    raise Boom()
        except Boom:
            pass
        else:
            need(not order, "an exception was swallowed by the reader")
        r = DocumentReader(reader())
        with r:
            for i, d in zip(order, r):
                same(canon(d), canon(docs.docs[i]), "decoded document")
    finally:
        shutil.rmtree(tmp)


def op():
    return st.one_of(*[st.tuples(st.just("w"), st.integers(0, 9), st.integers(0, 3))] * 5, st.tuples(st.just("fail"), st.booleans())).map(list)


@st.composite
def plans(draw):
    ops = [["w", i, i % 4] for i in range(draw(st.integers(0, 5)))] + draw(st.lists(op(), max_size=10))
    if draw(st.integers(0, 30)) == 30:
        ops += [["w", i, 1] for i in range(draw(st.sampled_from((10, 100, 300))))]
    return {"shapes": draw(st.lists(shape(), min_size=1, max_size=4)), "ops": ops, "mode": draw(st.sampled_from(sorted(MODES))),
            "rmode": draw(st.integers(0, 3)), "explicit": draw(st.booleans()), "ctx": draw(st.booleans()), "twice": draw(st.booleans()), "boom": draw(st.booleans()),
            "format": draw(st.sampled_from((None,) + FORMATS)), "root": draw(st.sampled_from(ROOTS))}


@st.composite
def bigplans(draw):
    plan = draw(plans())
    plan["shapes"] = draw(bigshapes(70000 if "xz" in plan["mode"] else 1200000))
    plan["ops"] = [["w", i, draw(st.integers(0, 3))] for i in range(draw(st.integers(1, 5)))]
    return plan


def check_big(plan, rec):
    check(plan, rec)
    rec.hit()


# ---------------------------------------------------------------- archives put together by another tool

def check_foreign(plan, rec):
    """Directories between the documents, other tar dialects: every regular file is a document."""
    docs = Docs(plan["shapes"])
    buf = io.BytesIO()
    order = []
    tmp = tempfile.mkdtemp(prefix="vp-c12-")
    try:
        path = os.path.join(tmp, "f.tar.gz")
        with tarfile.open(path, "w:gz", format=plan["dialect"]) as t:
            for k, i in enumerate(plan["items"]):
                if i < 0:
                    ti = tarfile.TarInfo("dir%d" % k)
                    ti.type = tarfile.DIRTYPE
                    t.addfile(ti)
                else:
                    i %= len(docs.docs)
                    ti = tarfile.TarInfo(("dir%d/doc%d", "dir%d/.doc%d", ".d%d/x%d.tmp")[plan["name"] % 3] % (k // 3, k))
                    ti.size = len(docs.data[i])
                    t.addfile(ti, io.BytesIO(docs.data[i]))
                    order.append(i)
        with TarMsgpackReader(path) as r:
            same([d.binary() for d in r], [docs.data[i] for i in order], "documents read")
        rec.hit(any(i < 0 for i in plan["items"]) and len(order) > 1)
    finally:
        shutil.rmtree(tmp)


@st.composite
def foreign_plans(draw):
    return {"shapes": draw(st.lists(shape(), min_size=1, max_size=4)), "items": draw(st.lists(st.integers(-2, 6), min_size=2, max_size=10)),
            "name": draw(st.integers(0, 2)), "dialect": draw(st.sampled_from((tarfile.USTAR_FORMAT, tarfile.GNU_FORMAT, tarfile.PAX_FORMAT)))}


# ---------------------------------------------------------------- documents of any content, whoever encoded them

def check_any(plan, rec):
    a = Arbitrary(plan["docs"])
    tmp = tempfile.mkdtemp(prefix="vp-c12-")
    try:
        path, again = os.path.join(tmp, "a.tar.gz"), os.path.join(tmp, "b.tar")
        with TarMsgpackWriter(path) as w:
            for d in a.given:
                w.write(d)
        with TarMsgpackReader(path) as r:
            got = list(r)
        same([d.binary() for d in got], a.data, "documents read")
        same([canon(d.document()) for d in got], a.canon, "documents read and decoded")
        with DocumentReader(TarMsgpackReader(path)) as r:
            same([canon(d) for d in r], a.canon, "documents decoded by the reader")
        with TarMsgpackWriter(again, mode="w") as w, TarMsgpackReader(path) as r:     # what was read is written on
            for d in r:
                w.write(d)
        with TarMsgpackReader(again, mode="r") as r:
            same([d.binary() for d in r], a.data, "documents copied from archive to archive")
    finally:
        shutil.rmtree(tmp)
    rec.hit(any(how >= 2 for _, how, _ in plan["docs"]))


def any_plans():
    return st.fixed_dictionaries({"docs": arbitrary()})


FACETS = [
    Facet("write and read", plans, check,
          "up to 15 (sometimes 315) writes and failing writes; 17 name formats, 13 roots, 10 compression modes; non-trivial: two documents or more",
          1200, 20000),
    Facet("large members", bigplans, check_big, "documents of up to 1.2 MB; every case counts", 60, 1000, case_seconds=90),
    Facet("directories", foreign_plans, check_foreign,
          "archives in three tar dialects with directories between documents; non-trivial: both kinds of member", 200, 2000),
    Facet("any documents", any_plans, check_any, "1-4 documents of any content, as objects, as our encoding or as another writer's; "
          "non-trivial: one of another writer", 200, 4000),
]
