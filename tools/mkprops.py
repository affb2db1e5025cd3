"""Writes /verif/properties.jsonl (source of the property list)."""
import json
import os

P = []


def prop(id, title, statement, over, quant, tests, files, mechanism, observe, state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": quant},
        "why_tests_cant": tests,
        "anchors": {"files": files,
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                    "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                    "observe_at": observe, "hook_needed": None},
    })


M, C, L, A, PR, Q = ("py/docria/model.py", "py/docria/codec.py", "py/docria/collection.py",
                     "py/docria/algorithm.py", "py/docria/printout.py", "py/docria/query.py")

prop("C01", "Binary encoding round-trips every document",
     "Encoding any valid document to the binary (MessagePack) form and decoding it, from bytes, from a file-like object, "
     "through a lazily decoded document view, or through pickling/copying the document, gives a document with the same "
     "properties, texts, layers, schema (types, options, defaults, order), node order and field values. "
     "References, reference lists, node spans and text spans in the decoded document point at the corresponding nodes and text of that "
     "document, by identity; an absent field stays absent, and an empty reference list may come back as absent.",
     ["inputs", "histories"],
     "all documents expressible with the serialisable field types (int32, int64, float64, bool, string, binary, text span, node "
     "reference, reference list, node span; extension fields, which the encoder does not implement, are outside), of any size and shape, built by any sequence of edits",
     "The tests round-trip one 9-token sentence with string, span and reference fields; sizes, gaps, empty layers, cycles, "
     "self references, non-ASCII text, extreme numbers and format thresholds are never reached.",
     [C, M],
     [("column-wise encoder/decoder per type", C + ": Codec.encode, MsgpackCodec.encode/decode, decode_layer"),
      ("reference resolution after decoding", C + ": Codec.commit_layers"),
      ("id assignment and text offsets", M + ": Document.compile")],
     ["MsgpackCodec.encode / decode", "MsgpackDocument.document", "pickle and copy of a Document"],
     [("node ids", "position of each node in its layer, written as reference", M + ": NodeLayerCollection")])

prop("C02", "JSON encoding round-trips every document",
     "Encoding any valid document whose fields and properties are JSON-representable to the JSON form and decoding it gives a document with the same "
     "properties, texts, layers, schema, node order, field values, reference identities and spans. The JSON text and the JSON object form decode to the same document, "
     "and the JSON route and the binary route give equal documents.",
     ["inputs", "histories"],
     "all documents without binary/extension fields, of any size and shape, built by any sequence of edits",
     "One test round-trips one sentence and looks at a handful of values.",
     [C, M],
     [("JSON encoder/decoder", C + ": JsonCodec.encode/encode_object/decode/decode_object")],
     ["JsonCodec.encode / encode_object / decode / decode_object"])

prop("C03", "Encoding is deterministic and leaves the document's content alone",
     "Encoding the same document again, or an equal document built by a different edit history, yields byte-identical output, and "
     "encoding never changes what the document contains (layers, nodes and their order, fields, texts, properties), nor which nodes its references denote. Decoding and re-encoding is a fixed point: the bytes stay the same.",
     ["inputs", "histories"],
     "all valid documents, all edit histories reaching the same content, binary, JSON and XML encoders",
     "No test encodes a document twice or compares bytes; gaps left by removals and edits between encodings are never exercised.",
     [C, M],
     [("compaction and id assignment", M + ": Document.compile, NodeLayerCollection.compact"),
      ("encoders", C + ": MsgpackCodec.encode, JsonCodec.encode, XmlCodec")],
     ["bytes returned by the encoders", "document content before and after"])

prop("C04", "Encoded form follows the published wire format, in both directions",
     "The bytes written for a document parse, with an independent reader of the format (header, properties, type list, schema, segmented texts, per-layer columns, length prefixes), "
     "to exactly that document's content, every stored length being right. Any well-formed bytes produced by an "
     "independent writer of the same format (any legal MessagePack widths, any covering text segmentation) decode to the content written; the JSON object layout agrees likewise. Collection files likewise: header, codec name, block size, then length-prefixed compressed blocks of length-prefixed documents.",
     ["inputs"],
     "all documents and all legal encodings of them by another implementation (the Java library shares the format)",
     "One test decodes one canned file written by Java; nothing checks Python's output against the format, so a symmetric change to encoder and decoder passes.",
     [C],
     [("format layout", C + ": MsgpackCodec.encode/decode/decode_schema/decode_texts/decode_layer"),
      ("Java counterpart", "java/docria: MsgpackCodec")],
     ["MsgpackCodec.encode output bytes", "MsgpackCodec.decode and MsgpackDocument on foreign bytes", "JsonCodec.encode_object"])

prop("C05", "Partial decoding agrees with full decoding",
     "Reading only the properties (all or selected), the schema, the texts (all or selected) or a chosen subset of layers of an encoded document gives exactly the corresponding part of "
     "the full document, in whatever order and however often the parts are asked for. An encoded document passed on unchanged (its bytes, a pickled copy, a copy into another collection) stays byte-identical and keeps where it came from.",
     ["inputs", "histories"],
     "all encoded documents, all sequences of partial reads on one view, all subsets of properties, texts and layers",
     "No test uses the partial readers.",
     [C],
     [("section offsets", C + ": MsgpackDocument._parse_state"),
      ("selective decoding", C + ": MsgpackCodec.decode_property/decode_texts/decode_layer")],
     ["MsgpackDocument.properties/schema/texts/document/binary, pickle of MsgpackDocument"],
     [("_read_state", "how many sections have been located", C + ": MsgpackDocument")])

prop("C06", "Field types are enforced: a value is accepted exactly when it is valid",
     "A node, whether being added or already in a document being encoded, is accepted exactly when each declared field present holds a value valid for its type (ranges, target layer or text, "
     "attached referent, span order) and, on encoding, it has no undeclared field unless that is explicitly allowed; otherwise an error is raised, a failed single add leaves the layer unchanged and a failed encode produces nothing. "
     "The rules are the same for decoded documents, and a schema that refers to a missing layer or text cannot be encoded.",
     ["inputs", "histories"],
     "all field types times all value classes, through every way of adding or setting, before and after decoding, including references made dangling by removals",
     "The tests add a few valid nodes and never an invalid one to a typed field, except extra fields in one case.",
     [M],
     [("type predicates", M + ": DataType*.is_valid"), ("node validation", M + ": NodeLayerCollection.validate/add/add_many, Node.is_valid"),
      ("document validation", M + ": Document.compile")],
     ["NodeLayerCollection.add/add_many, Node.is_valid, NodeCollection validation, MsgpackCodec.encode"])

prop("C07", "Damaged or foreign document data is rejected",
     "Any proper prefix of an encoded document, and any data with a wrong header, raises an error when decoded, eagerly or lazily, and never passes for a document. "
     "A collection file with a wrong or incomplete header, an unknown codec or an unknown mode is refused when opened. "
     "No error is ever mistaken for the end of an iteration, so a damaged document inside a collection is not silently skipped; a failed decode affects no other document.",
     ["inputs", "crash_points"],
     "all documents, every truncation point of their encoding, all wrong headers",
     "No test feeds damaged data.",
     [C, L],
     [("magic check and length-driven parsing", C + ": MsgpackCodec.decode, MsgpackDocument, JsonCodec.decode")],
     ["MsgpackCodec.decode, MsgpackDocument, JsonCodec.decode, iteration over readers"])

prop("C08", "Collection files return what was written, in order",
     "Every document (or already encoded document) written to a collection file is read back once, in order, with identical bytes, for any number of documents, any block size, any registered "
     "compression codec, any interleaving of flushes and any of the reader interfaces (documents, encoded documents, blocks). A write that fails leaves no trace: earlier and later documents are unaffected. A path that already exists is not overwritten unless asked for.",
     ["inputs", "histories", "configurations"],
     "all document sequences, block sizes, codecs, flush patterns, failing writes, reader interfaces",
     "One test writes one document and reads it without looking at it.",
     [L],
     [("block assembly", L + ": MsgpackDocumentWriter.write/flush/close"), ("block reading", L + ": MsgpackDocumentReader, MsgpackDocumentBlock"),
      ("codec registry", L + ": register_codec/get_codec")],
     ["MsgpackDocumentWriter, MsgpackDocumentReader, DocumentReader, DocumentIO, MsgpackDocumentIO"],
     [("currentblock / current_block_count", "documents waiting for the block to fill", L + ": MsgpackDocumentWriter")])

prop("C09", "A document reference always fetches the document it was issued for",
     "The reference carried by a document read from a collection file fetches that same document again, from the same or a freshly opened reader, in any order and any number of times. "
     "Seeking to a block position continues with exactly the documents from that block on, and block-level positions address the documents they were reported for; iteration continues after a fetched document, as after one read normally.",
     ["inputs", "histories"],
     "all collection files times all interleavings of iteration, reference lookups, seeks and block reads",
     "No test uses references, seek or blocks.",
     [L],
     [("reference bookkeeping", L + ": MsgpackDocumentReader.readblock/__next__/get/seek, MsgpackDocumentBlock.tell/seek/documents")],
     ["MsgpackDocument.ref, MsgpackDocumentReader.get/seek/blocks/readblock, MsgpackDocumentBlock"],
     [("dataread / _lastblockpos", "file position of the current block", L + ": MsgpackDocumentReader")])

prop("C10", "A cut-short collection file yields only an intact prefix",
     "If a collection file is cut at any byte (a crash while writing), reading it yields a prefix of the documents written, each byte-identical, then ends or raises an error; it never yields a damaged, reordered or invented document. "
     "Every document of a block that was completely on storage before the cut, in particular everything flushed earlier, is among those yielded.",
     ["crash_points", "inputs", "histories"],
     "all collection files, all cut positions, all codecs and batchings",
     "No test reads an incomplete file.",
     [L],
     [("self-delimiting blocks", L + ": MsgpackDocumentWriter.flush, MsgpackDocumentReader.readblock")],
     ["MsgpackDocumentReader, MsgpackDocumentReader.blocks over a truncated file"])

prop("C11", "The boundary-segmented stream is a transparent byte stream",
     "Bytes written through the boundary-segmented writer are read back identically through the boundary-segmented reader for every segment size, every way of splitting the writes and every sequence of read sizes, "
     "with the reported position equal to the number of payload bytes consumed and seeking to a payload position continuing from there. Every segment but the first starts with the distance (zero or negative) back to the start of the record in progress. A collection file stored this way gives the same documents and references that fetch them.",
     ["inputs", "histories", "configurations"],
     "all payload lengths around segment edges, segment exponents, write splits, read/seek sequences, collections on top",
     "One test writes a document far smaller than one segment; no boundary is ever crossed.",
     [L],
     [("segment arithmetic", L + ": _BoundaryReader.read/seek/tell/_to_absolute, _BoundaryWriter.write/_write_boundary/split")],
     ["bytes from _BoundaryReader.read/seek/tell", "MsgpackDocumentReader over a boundary stream", "segment markers in the raw file"],
     [("written / seg / lastsplit", "absolute position, segment number and last record start", L + ": _BoundaryWriter")])

prop("C12", "Tar collections return what was written, in order",
     "Every document or encoded document written to a tar collection is read back once, in order and byte-identical, for any number of documents, file-name format, root directory and tar compression mode. "
     "The archive is a plain tar whose members, one per document under the requested names, hold the encoded documents.",
     ["inputs", "configurations"],
     "all document sequences, naming formats, root directories and compression modes",
     "No test touches the tar collections.",
     [L], [("member naming and sizes", L + ": TarMsgpackWriter.write, TarMsgpackReader.__next__")],
     ["TarMsgpackWriter, TarMsgpackReader, tarfile on the archive"])

prop("C13", "Index search returns exactly the matching documents",
     "Searching a property index, of one collection file or of several, returns exactly the documents whose indexed properties equal all the given values, each once and in file order within a file, decoded or lazily as requested. "
     "This also holds for indexes that were saved and loaded, for indexes built over a directory, and for file indexes shared by several indexes, wherever the process's working directory is.",
     ["inputs", "configurations"],
     "all collections of documents with arbitrary hashable property values, all sets of indexed properties and of one or more conditions, any block layout, number of files and workers",
     "No test builds an index.",
     [L], [("index construction", L + ": DocumentFileIndex.build, build_msgpack_directory_fileindex"), ("search", L + ": DocumentFileIndex.search, DocumentIndex.search")],
     ["DocumentFileIndex.search, DocumentIndex.search/save/load"])

prop("C14", "A layer is an ordered list of nodes under any edit history",
     "After any sequence of adding, removing, detaching, retaining, sorting, compacting and encoding, a layer contains exactly the nodes a plain ordered list subjected to the same edits would contain, in that order, with matching length, first/last, membership and iteration. "
     "Node indices are strictly increasing along the layer (consecutive after compaction or encoding) and lead back to the node; fields of untouched nodes never change, and a removed node is unattached and can be added again.",
     ["histories"],
     "all operation sequences, including re-adding removed nodes, removals that trigger compaction, duplicate and foreign arguments",
     "Two tests remove or retain one fixed set of nodes from one layer.",
     [M], [("list with gaps", M + ": NodeLayerCollection.add/add_many/remove/retain/sort/compact"), ("positions", M + ": Node.i, __getitem__")],
     ["iteration, len, indexing, slicing, first, last, in, Node.i, is_dangling"],
     [("_nodes / num / _id", "slots with gaps, count of live nodes, slot of each node", M + ": NodeLayerCollection")])

prop("C15", "A text span always denotes its substring",
     "For every text and every span taken from it, the span's string, length, slices, iteration, comparison and joins equal those of the corresponding substring at the corresponding offsets; out-of-range requests raise an error or are clipped to the span and never expose text outside it. "
     "Trimming yields exactly the whitespace-stripped substring (in place or as a new span), and cover/intersection predicates agree with interval arithmetic on offsets.",
     ["inputs"],
     "all Unicode texts, all offsets, slices and span pairs",
     "One test takes a few slices of one ASCII sentence; trimming on both sides, indexing and out-of-range access are untested.",
     [M], [("offset arithmetic", M + ": Text.__getitem__, TextSpan.__getitem__/_trim_offsets/trim/trim_/text_to/span_to/covered_by/intersected_by")],
     ["str/len/iter/index/slice of TextSpan and Text, trim, trim_, covered_by, intersected_by"])

prop("C16", "Node spans and neighbour navigation follow layer order",
     "The left and right neighbours of a node, the iteration between two nodes in either order, and the contents, length, ends and covered text of a node span are those given by the current order of the layer's nodes, gaps skipped, after any edit history. "
     "A span whose end nodes are out of order or of different layers is refused when created, and iterating one whose ends later changed order is refused rather than giving a wrong answer.",
     ["histories", "inputs"],
     "all layers reached by any edit history, all node pairs",
     "One test forms one node span on a fresh layer without gaps.",
     [M], [("navigation", M + ": NodeLayerCollection.left/right/iter_nodespan, Node.iter_span, NodeSpan")],
     ["Node.left/right/iter_span, NodeSpan iteration/len/first/last/text/textspan"])

prop("C17", "A query returns exactly the nodes satisfying its predicate, in order",
     "For every predicate expression (comparisons, none/has-value/any-of tests, span cover/intersection, custom filters, and, or, not) over every node collection (layer, node list, node span, another query), "
     "the query yields exactly the nodes of the collection for which the expression is true, in collection order, without changing the collection. A query is a snapshot that reflects later edits exactly when it is updated, and its fields, length, conversion to a list and printing agree with its nodes.",
     ["inputs", "histories"],
     "all predicate trees, collections with absent fields and gaps, edits between evaluation and update",
     "A few fixed comparisons on one layer are used in one test.",
     [M, Q], [("predicates", Q + ": NodePredicate*, NodeFieldPredicate*"), ("queries", M + ": NodeCollection.__getitem__, NodeCollectionQuery, NodeFieldCollection")],
     ["collection[predicate], query.update, query[field], query.to_list"])

prop("C18", "Schema changes keep data and declarations consistent",
     "Adding a field declares it and, unless told otherwise, gives existing nodes its default; removing a field removes its declaration and its values everywhere (or, if asked, leaves the values); nodes added from field values or by add_many get the declared defaults (of any value) for fields they lack and nothing else, and never lose a given value. "
     "Removing a layer succeeds, reporting so, when no other layer refers to it and otherwise is refused without effect, or, if cascading, also removes every referring field; after any such sequence the document encodes, and decodes to the same content and declarations.",
     ["histories", "inputs"],
     "all sequences of field/layer additions and removals interleaved with node edits, all field types and defaults",
     "One test adds one field to one layer; removal is untested.",
     [M], [("schema evolution", M + ": NodeLayerCollection.add_field/remove_field, Document.remove_layer"), ("defaults", M + ": DataTypes, NodeLayerCollection._update_default_values/add/add_many")],
     ["schema, node fields, return values and errors, encode/decode afterwards"])

prop("C19", "Derived views of nodes agree with the nodes themselves",
     "Node lists (from slices, index lists, conversion or construction), field columns and data-frame exports contain exactly the selected nodes' values in order, absent fields as none; list behaviours (slicing, negative and list indices, first/last) match those of an ordinary list of the same nodes. "
     "The field types of a node list assembled from several layers or loose nodes are the declared types merged upward (bool, int32, int64, float64), and incompatible types are refused.",
     ["inputs", "histories"],
     "all layers with gaps and absent fields, all slices and index lists, all combinations of layers",
     "One test touches a column; merging and data frames are untested.",
     [M], [("views", M + ": NodeList, NodeFieldCollection, NodeCollection.to_list, NodeLayerCollection.to_pandas"), ("type merging", M + ": DataType.cast_up, NodeList.__init__, DataTypes.typeof")],
     ["NodeList, layer[field], to_list, to_pandas"])

prop("C20", "Grouping by span puts every node in exactly the right groups",
     "Grouping returns each group node that has a span exactly once, ordered by start, and its bucket for each layer contains exactly those nodes, once each, whose spans overlap (or, in cover mode, also lie fully within) the group's span; an empty span belongs to a group containing its position. "
     "Nodes without a span (absent or None) are ignored, groups without members are dropped exactly when asked for, and spans that merely touch are not grouped together.",
     ["inputs"],
     "all sets of group and layer spans over a text, nested, overlapping, touching, duplicate and empty, both resolution modes, several layers and custom field names",
     "One test groups a fixed set of spans.",
     [A], [("sweep over sorted end points", A + ": group_by_span")],
     ["result of group_by_span"])

prop("C21", "Overlap resolution selects a valid dominant-right set",
     "Resolving overlapping segments returns only given items, each at most once, ordered by position and pairwise non-overlapping; every segment left out overlaps one that is longer, or equally long and not further left, so non-overlapping input is returned whole. "
     "Among segments competing for the same place the longest wins and, at equal length, the rightmost; the result does not depend on the input order of distinct ranges, and the node version resolves nodes by their span field and ignores nodes without one.",
     ["inputs"],
     "all multisets of segments, nested, chained, duplicate and adjacent, in any order",
     "One test resolves three fixed segment lists.",
     [A], [("sweep with one open segment", A + ": dominant_right, dominant_right_span")],
     ["result of dominant_right / dominant_right_span"])

prop("C22", "Graph traversals visit every reachable node once, in the promised order",
     "Breadth-first, depth-first and leaf traversals over any graph, including cycles, self loops, shared children and several child fields, terminate and emit each qualifying reachable node exactly once and nothing else. Breadth-first order has "
     "non-decreasing depths equal to the shortest distance; depth-first is preorder following child order; the leaf traversal emits exactly the reachable nodes without children; children of several fields come in field order, absent fields contributing none.",
     ["inputs"],
     "all directed graphs of nodes, all child field combinations, all result filters and start nodes",
     "One test runs one small fixed graph.",
     [A], [("visited sets and queues", A + ": bfs, dfs, dfs_leaves, children_of")],
     ["sequences yielded by bfs/dfs/dfs_leaves/children_of"])

prop("C23", "Span translation maps every position through the mapping",
     "Translating a layer through a mapping of source ranges to target ranges gives each untranslated node the target span whose characters are the images of its first and last source characters, leaves already translated nodes alone, and changes nothing else. "
     "It does not depend on the order of the layers, and a node outside the mapping or overlapping source ranges are refused rather than mapped wrongly.",
     ["inputs"],
     "all gap-free or gapped non-overlapping mappings over any texts, all source spans",
     "One test maps one fixed layer.",
     [A], [("sweep over interval end points", A + ": span_translate")],
     ["target fields after span_translate, errors"])

prop("C24", "Token alignment yields one in-order, exact span per token",
     "Aligning a token sequence with a text returns exactly one span per token, in order and without overlap, inside the requested region; each span is empty or its text equals its token. "
     "A tokenisation of the region is recovered exactly, offsets included, and dropping characters or adding unknown tokens degrades only as documented: unknown tokens get empty spans and a bounded look-ahead recovers the following ones.",
     ["inputs"],
     "all texts, tokenisations, regions and look-ahead bounds, with inserted foreign tokens",
     "Four tests align short fixed sentences with default regions.",
     [A], [("forward search with look-ahead", A + ": sequence_to_textspans")],
     ["spans returned by sequence_to_textspans"])

prop("C25", "XML export is well-formed and faithful",
     "For every valid document whose layer and field names are XML names, and every option combination, the XML export is well-formed XML from which the document's schema, texts, every node in order with its field values, spans as text segment numbers and references as node ids, can be read back. "
     "Characters that XML cannot represent may be replaced by a blank, all others survive (supplementary-plane characters included).",
     ["inputs", "configurations"],
     "all documents over all serialisable field types whose layer and field names are XML names, Unicode content and export options",
     "No test uses the XML export.",
     [C], [("tree construction and character filtering", C + ": XmlCodec")],
     ["XmlCodec.encode_utf8string, encode_tree"])

prop("C26", "Printing never fails, escapes markup and respects the size settings",
     "The text and HTML renderings of documents, layers, nodes (also removed and never added ones), spans, lists, columns and queries never fail and never change the document, for any content and any permitted display settings. "
     "HTML output is properly nested with all content escaped; a limit on rows or cell width truncates to at most that size, keeping beginning and end, columns beyond the display width are wrapped, and no limit (none) shows everything, each row with its number in tables that number them. Values of a column that are URNs of Wikidata or Wikipedia link to the page they name.",
     ["inputs", "configurations", "histories"],
     "all documents and node states, all display settings including none",
     "No test prints anything.",
     [PR, M], [("tables and truncation", PR + ": Table, truncate, get_representation"), ("representations", M + ": __repr__/__str__/_repr_html_")],
     ["str(), repr(), _repr_html_(), printschema, printout.options"])

prop("C27", "A decoded document behaves exactly like the original under further use",
     "Applying the same sequence of edits, queries, schema changes and encodings to a document and to its decoded copy has the same effect on both: the same edits are accepted or refused, the same nodes are found, and the resulting documents are equal and encode identically. "
     "The copy shares nothing with the original: changing one never affects the other.",
     ["histories", "inputs"],
     "all documents, all subsequent operation sequences, both codecs",
     "No test edits a decoded document.",
     [C, M], [("rebuilding live layers from data", C + ": Codec.commit_layers, MsgpackCodec.decode, JsonCodec.decode_object")],
     ["content, errors and bytes after parallel edits"])

prop("C28", "Every way of reaching a layer, text, field or type leads to the same thing",
     "A layer, text, node field or field type reached by any of the offered ways (subscript, layer/layers, text/texts, maintext, membership, key completion, attribute-style field access, the type objects of layers and texts) is the same object or value, "
     "and a missing name is missing by every one of them (an error when fetched), after any sequence of additions, removals, subscript deletions and copies. Deleting a layer by subscript is the same as removing it, and is refused while others refer to it. "
     "Two field types are equal, and hash alike, exactly when they declare the same type with the same options, also after decoding; a field is declared once only. The type told of a value (DataTypes.typeof) is one that accepts it.",
     ["histories", "inputs"],
     "all sequences of additions, removals, deletions, field accesses and copies over all names, all pairs of field types",
     "The tests reach layers and fields by one route each on one document.",
     [M], [("name access", M + ": Document.__getitem__/__delitem__/__contains__/layers/texts/maintext, Node.fld"), ("type objects", M + ": DataType.__eq__/__hash__/encode/default, NodeLayerSchema, DataTypes")],
     ["Document, NodeLayerCollection, Node and DataType accessors"])
prop("C29", "Independent uses never influence one another",
     "Whatever is done with one document, encoded document, reader or writer gives the same results whether it is done alone, after other work in the same process, interleaved step by step with work on other documents (also with the same layer, field and text names), "
     "or in a thread of its own while others work on theirs; the same encoded bytes may be decoded by several threads at once. "
     "Several iterations over the same layer, node list, node span, query, column, text or graph, interleaved in any way, each yield exactly what a lone iteration yields, also after one that was left before its end.",
     ["schedules", "histories", "inputs"],
     "all interleavings and thread schedules of all uses of separate objects, and all interleavings of iterations over one object",
     "The tests do one thing at a time, each in a fresh document.",
     [M, C, L, A], [("codecs", C + ": MsgpackCodec/JsonCodec/XmlCodec encode and decode, MsgpackDocument"), ("collections", L + ": MsgpackDocumentReader/Writer, register_codec"),
                    ("iteration", M + ": __iter__ of NodeLayerCollection, NodeList, NodeSpan, NodeCollectionQuery, columns, Text"), ("traversals", A + ": children_of, bfs, dfs, dfs_leaves")],
     ["process-wide state, iterators"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
