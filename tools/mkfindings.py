"""Writes known_findings.json (fixed defects; `findings` would list recorded, unrepaired ones)."""
import json, os
F = [
 ("C15", "baa3c10", "TextSpan.trim/trim_ ignored trailing whitespace when the span also began with whitespace"),
 ("C15", "a5137c8", "span[i] and span[(a, b)] with out-of-range indices returned text outside of the span"),
 ("C14", "48685b9", "sort() raised for keys using node neighbours, and left indices wrong after a failed comparison"),
 ("C14", "697f502", "retain() failed on layers with gaps and corrupted the layer when given nodes of another layer"),
 ("C26", "63f9459", "repr of a removed node, or of a node span with removed ends, raised; remove() of a dangling node raised the wrong error"),
 ("C17", "f71c101", "is_any(string) on a text span field never matched, unlike == with the same string"),
 ("C17", "65e3f08", "queries over node lists, node spans and other queries failed (to_list/printing/callable predicate)"),
 ("C26", "36e3c18", "printing a layer with '%' in its name raised"),
 ("C19", "86fb7df", "NodeList merged from several layers reported the wrong merged field type"),
 ("C19", "bfb3c6b", "DataTypes.typeof(True) was int64"),
 ("C06", "f942c82", "default values of float64 (int 0), bool and string fields were wrong or rejected by their own type"),
 ("C18", "a1c3365", "add_field with an existing name raised an undocumented error or lost it; a type factory was not accepted"),
 ("C18", "6db2ffc", "remove_layer returned nothing, cascaded wrongly and ignored node span references"),
 ("C06", "777e657", "extra_fields_ok=True switched off type validation"),
 ("C06", "8051606", "add_many(iterator) was not validated"),
 ("C06", "d221fe2", "reference fields holding other things than nodes were accepted or crashed validation"),
 ("C06", "fc6f203", "decoded documents did not enforce field types at all"),
 ("C10", "a8d7002", "a flushed block of a file opened by path stayed in the buffer of the file object"),
 ("C01", "6c4a661", "binary values in document properties came back as text or failed to decode"),
 ("C05", "8588bf9", "MsgpackDocument.texts(name) failed"),
 ("C05", "f4a4e7f", "MsgpackDocument.document(layer) failed or lost the schema"),
 ("C05", "e7c1eb9", "an unpickled MsgpackDocument lost its reference"),
 ("C05", "77213e1", "binary()/pickling/writing of a MsgpackDocument over a file object failed"),
 ("C07", "872df8e", "truncated documents raised StopIteration, silently ending iterations"),
 ("C25", "8ef0b0f", "XML export failed on binary fields and control characters, blanked supplementary characters and mixed up verbose spans"),
 ("C25", "759ef1c", "XML export of a document with a control character in the name of a text was not well-formed"),
 ("C22", "18d59ce", "children_of with several fields failed on absent fields / mixed up fields"),
 ("C22", "0917848", "dfs_leaves emitted inner nodes whose children had all been visited"),
 ("C26", "87be409", "display settings of None failed, text names were not escaped, incomplete URNs failed"),
 ("C26", "d6bf924", "text tables were wider than the display width by their last column"),
 ("C09", "4c12af6", "references of documents read after readblock() pointed elsewhere"),
 ("C13", "e83fe97", "index search opened files relative to the working directory instead of the base path"),
 ("C07", "9e8b83d", "opening a collection file cut short in its header raised StopIteration, silently ending iterations over files"),
 ("C27", "be77f5d", "documents decoded with JsonCodec.decode_object shared their properties with the object, and it with the document it was made from"),
 ("C11", "f178c54", "the boundary reader lost its place when the stream below returned a segment marker in parts"),
 ("C13", "311c9b6", "adding a file index to a DocumentIndex changed the file index: it could then not be added to another index or searched itself"),
 ("C20", "faef17b", "group_by_span raised AttributeError for nodes whose span is None, which it promises to ignore"),
 ("C28", "ec5cffb", "an unknown field of a query was None instead of an error, as for every other collection"),
 ("C27", "7cbbb86", "the schema in the JSON object of a document was the options of its field types: changing the object changed the types of the document"),
 ("C11", "301983a", "the boundary reader failed or returned wrong bytes at segment edges"),
]
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
json.dump({"findings": [], "fixed": ["fixed: property=%s %s %s" % f for f in F]},
          open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)
