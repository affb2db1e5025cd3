"""Writes /verif/DESIGN.md from tools/design.in.md, the facets, known_findings.json and tools/results.json."""
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vp import env  # noqa

ROWS = {
 "C01": ("documents of 0-5 layers x 0-4 fields of every serialisable type, edit histories, large documents; decoded from bytes, file objects, MsgpackDocument, pickle, copy, deepcopy",
         "canon(decoded) = model; references compared by identity of the nodes they reach, spans by text object and offsets"),
 "C02": ("the same without binary values", "JSON text and JSON object against the model, and against the binary route"),
 "C03": ("documents after edit histories, twins rebuilt from the final content by another history (extra nodes removed, other order of assignment), XML/JSON/binary",
         "byte equality of repeated encodings and of twins; content and identities before = after; encode(decode(b)) = b"),
 "C04": ("documents written by docria; documents written by our own writer with arbitrary legal MessagePack widths, segmentations, key orders; collection files likewise",
         "independent parser recovers the model from docria's bytes, lengths included; docria recovers the model from foreign bytes"),
 "C05": ("one encoded document (own or foreign, bytes, file, collection member) and 1-8 partial reads in random order", "the corresponding part of the model; passed-on bytes identical"),
 "C06": ("any value class for any type by any way in (add, add_many, set, unvalidated, stale), fresh and decoded documents, long lists, schemas with missing targets",
         "independent validity oracle: accepted iff valid; state unchanged after refusal"),
 "C07": ("every cut of small and sampled cuts of larger documents; wrong headers; collection headers; JSON; inside generators and collections", "must raise (not StopIteration), never return a document; other documents unaffected"),
 "C08": ("up to 280 writes/flushes/failing writes, block sizes 1-1000, all codecs, all reader interfaces, blocks of megabytes", "the list of encoded documents written"),
 "C09": ("random walks of one reader: next, fetch a reference, seek to a block, read blocks, second reader", "model: list of documents and a cursor; references resolve to their own document"),
 "C10": ("every cut (small) or block-end and sampled cuts (large); still open writers after each step", "yielded = prefix of the written bytes; contains all documents of blocks completely before the cut"),
 "C11": ("write splits and read sizes around segment edges, seeks, every segment size exponent, collection files on top", "a plain byte string, and an independent parse of segment markers"),
 "C12": ("12 name formats, 7 roots, 10 compression modes, writes and failing writes, foreign archives in 3 dialects with directories", "Python's tarfile, and the list written"),
 "C13": ("1-3 files, up to 300 documents, up to 5 properties, saved/loaded/moved indexes, decoy files in another working directory", "linear scan of the documents' properties"),
 "C14": ("3-25 edits incl. refused ones on layers of 0-2000 nodes", "plain list under the same edits; indices increasing, lookup by index, fields untouched"),
 "C15": ("whitespace-rich texts, fresh and decoded; 4-17 slice/index/trim/join/compare steps over a pool of spans", "str slicing, str.strip, interval arithmetic"),
 "C16": ("layers under edits; all neighbours, iteration between pairs, new and kept spans after every edit", "plain list positions"),
 "C17": ("predicate trees over every field type and every kind of collection, edits and updates between", "naive evaluation node by node"),
 "C18": ("schema changes x edits, cascades, defaults of every type; encoded after every change", "model of declarations and values; decoded content equal"),
 "C19": ("lists, slices, index lists, columns, pandas frames; lists merged from several layers and loose nodes", "plain lists; independent merge of types"),
 "C20": ("up to 4 layers of random intervals incl. empty, nested, equal, touching and absent ones; hundreds of nodes", "brute-force overlap of every pair"),
 "C21": ("segment lists, also of nodes, permuted", "validity conditions and a reference selection"),
 "C22": ("graphs of up to 30 nodes over up to 3 fields, cycles, chains, shared children", "reference BFS distances, preorder, leaves; exactly-once"),
 "C23": ("mappings of ranges and nodes in several layers, refused ones, 10-100 times repeated", "each position mapped directly"),
 "C24": ("tokens cut from a text with dropped/changed/unknown ones, regions, look-ahead 0-4", "validity, exact recovery, and a reference procedure"),
 "C25": ("documents with XML names, verbose and plain export, control and astral characters", "parsed with ElementTree and read back against the model"),
 "C26": ("documents, removed and loose nodes, all renderings, 0-500 or no limit", "no exception, document unchanged, HTML parsed: nesting, escaping, cell sizes and row counts"),
 "C27": ("12 ways of copying, then the same edits/queries/schema changes/encodings on both", "outcome by outcome equality; the untouched copy stays as it was"),
 "C28": ("additions, removals, subscript deletions, attribute-style access, copies; pairs of types", "plain dictionaries; equality iff same type and options, hash alike"),
 "C29": ("2-4 scripts (build, edit, encode, partial reads, collections, algorithms) interleaved by a schedule or run in threads", "the outputs of each script run alone"),
}


def table():
    out = []
    for f in sorted(os.listdir(os.path.join(HERE, "vp", "checks"))):
        if not (f.startswith("c") and f.endswith(".py")):
            continue
        m = importlib.import_module("vp.checks." + f[:-3])
        pid = f[:3].upper()
        counts = "; ".join("%s %d/%d" % (x.name, x.quick * getattr(m, "QUICK", 2), x.thorough) for x in m.FACETS)
        out.append("| %s | %s | %s | %s |" % (pid, ROWS[pid][0], ROWS[pid][1], counts))
    return "\n".join(out)


def main():
    with open(os.path.join(HERE, "tools", "design.in.md")) as f:
        t = f.read()
    kf = json.load(open(os.path.join(HERE, "known_findings.json")))
    fixed = "\n".join("* " + e[len("fixed: property="):] for e in kf["fixed"])
    res = json.load(open(os.path.join(HERE, "tools", "results.json")))
    metas = {}
    for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        metas[d] = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
    rows = ["| bug | property | what it breaks | caught by |", "|---|---|---|---|"]
    for d, m in metas.items():
        r = res["seeded"].get(d, "?")
        rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "/"), r))
    t = (t.replace("@TABLE@", table()).replace("@FIXED@", fixed).replace("@NSEED@", str(len(metas)))
         .replace("@SEEDED@", "\n".join(rows)).replace("@MUT@", res["mutation"]))
    with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
        f.write(t)


main()
