From baa3c1073d2219c0127b3ec3d93caed2da6dad17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:14 +0000
Subject: [PATCH 01/40] fix: trim whitespace on both sides of a text span

---
 py/docria/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index b1bb0af..9579e5e 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -685,7 +685,8 @@ class TextSpan:
                     break
 
                 new_start += 1
-        elif str.isspace(self.text.text[self.stop - 1]):
+
+        if str.isspace(self.text.text[self.stop - 1]):
             # move backward
             for i in range(len(self) - 1, -1, -1):
                 if not str.isspace(self.text.text[new_stop - 1]):
@@ -714,6 +715,7 @@ class TextSpan:
         offs = self._trim_offsets()
         if offs is not None:
             self._start, self._stop = offs
+            self.start_offset, self.stop_offset = offs
 
         return self
 
-- 
2.43.0


From a5137c8e3f44b87020c3438d1502ec54e15e7010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:14 +0000
Subject: [PATCH 02/40] fix: reject text span indices outside of the span

---
 py/docria/model.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 9579e5e..2719878 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -617,8 +617,16 @@ class TextSpan:
             start, stop, step = indx.indices(len(self))
             return self.text[start + self.start:stop + self.start]
         elif isinstance(indx, tuple) and len(indx) == 2:
-            return self.text[indx[0] + self.start:indx[1] + self.start]
+            start = int(indx[0])
+            stop = int(indx[1])
+            if not 0 <= start <= stop <= len(self):
+                raise DataValidationError("Out of bounds: [%d, %d), span length: %d" % (start, stop, len(self)))
+
+            return self.text[start + self.start:stop + self.start]
         elif isinstance(indx, int):
+            if not -len(self) <= indx < len(self):
+                raise IndexError("span index out of range: %d, span length: %d" % (indx, len(self)))
+
             start, stop, step = slice(indx, indx + 1).indices(len(self))
             return self.text.text[start + self.start]
         else:
-- 
2.43.0


From 697f502d9972bee9485de23136465a648181fc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:15 +0000
Subject: [PATCH 03/40] fix: retain() on layers with gaps and with foreign
 nodes

---
 py/docria/model.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 2719878..6bbdaa1 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1600,23 +1600,22 @@ class NodeLayerCollection(NodeCollection):
         """Retain all nodes in the given list nodes, remove everything else."""
 
         try:
-            for n in iter(nodes):
-                # Mark the nodes to retain
-                if n.collection is not self:
-                    raise ValueError("Node %s is not in this node collection '%s'" % (repr(n), self.name))
-
-                # Guards against more than one reference to a node in nodes
-                if n._id >= 0:
-                    n._id = -(n._id + 1)  # add 1, otherwise zero fails.
-
+            # Collect the nodes to retain, guards against more than one reference to a node in nodes
+            retained = set(nodes)
         except TypeError:
             raise ValueError("Given nodes is not iterable.")
 
+        for n in retained:
+            if n.collection is not self:
+                raise ValueError("Node %s is not in this node collection '%s'" % (repr(n), self.name))
+
         # Compact and remove unmarked nodes
         k = 0
         for i in range(len(self._nodes)):
             n = self._nodes[i]
-            if n._id >= 0:
+            if n is None:
+                continue
+            elif n not in retained:
                 n.collection = None
                 self.num -= 1
             else:
-- 
2.43.0


From 63f945906af236d6b37ea290211075ff173a9d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:16 +0000
Subject: [PATCH 04/40] fix: representation of dangling nodes and of spans with
 removed ends

---
 py/docria/model.py    | 13 ++++++++++---
 py/docria/printout.py |  2 +-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 6bbdaa1..0807ecd 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -179,7 +179,7 @@ class Node(dict):
     def _table_repr_(self):
         from docria.printout import Table, get_representation
         tbl = Table(hide_index=True,
-                    caption="Node %s#%d" % (self.collection.schema.name, self._id) if len(self) > 0 else "")
+                    caption="Node %s#%d" % (self._layer_name(), self._id) if len(self) > 0 else "")
 
         tbl.set_header("field", "value")
 
@@ -192,8 +192,11 @@ class Node(dict):
         tbl = self._table_repr_()
         return tbl.render_html()
 
+    def _layer_name(self):
+        return self.collection.schema.name if self.collection is not None else "(dangling)"
+
     def __repr__(self):
-        return "Node<%s#%d>" % (self.collection.schema.name, self._id) if len(self) > 0 else ""
+        return "Node<%s#%d>" % (self._layer_name(), self._id) if len(self) > 0 else ""
 
 
 class NodeCollection(Sized):
@@ -448,8 +451,12 @@ class NodeSpan(NodeCollection):
         return sum(1 for _ in self)
 
     def __repr__(self):
+        if self.left.is_dangling() or self.right.is_dangling():
+            return "NodeSpan[%s to incl. %s]" % (repr(self.left), repr(self.right))
+
         fields = self.left.collection.schema.fields
-        if "text" in fields and fields["text"].typename == DataTypeEnum.SPAN:
+        if "text" in fields and fields["text"].typename == DataTypeEnum.SPAN \
+                and "text" in self.left and "text" in self.right:
             return "NodeSpan[%s: %d to incl. %d] = %s" % (
                 self.left.collection.name, self.left.i, self.right.i, repr(self.text())
             )
diff --git a/py/docria/printout.py b/py/docria/printout.py
index 9b5e048..5c779d0 100644
--- a/py/docria/printout.py
+++ b/py/docria/printout.py
@@ -380,7 +380,7 @@ def get_representation(value):
 
             for elem in value:
                 if isinstance(elem, Node):
-                    nodetypes.add(elem.collection.name)
+                    nodetypes.add(elem._layer_name())
                 else:
                     all_nodes = False
                     break
-- 
2.43.0


From 65e3f08fe47080190cb7a38ee9a95bfecea97e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:16 +0000
Subject: [PATCH 05/40] fix: queries over node lists, node spans and other
 queries

---
 py/docria/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 0807ecd..cd0fd92 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1282,7 +1282,7 @@ class NodeCollectionQuery(NodeCollection):
 
     def __getitem__(self, item):
         if isinstance(item, str):
-            if item in self.collection.schema.fields:
+            if item in self.fieldtypes:
                 return NodeFieldCollection(self, item)
         else:
             return super().__getitem__(item)
@@ -1291,7 +1291,8 @@ class NodeCollectionQuery(NodeCollection):
         self.result = [n for n in self.collection if self.predicate(n)]
 
     def __repr__(self):
-        return "NodeCollectionQuery(collection=%s, N=%d)" % (self.collection.name, len(self))
+        return "NodeCollectionQuery(collection=%s, N=%d)" % (
+            getattr(self.collection, "name", type(self.collection).__name__), len(self))
 
     def _repr_html_(self):
         return self._table_repr_("Query with %d nodes.").render_html()
-- 
2.43.0


From 36e3c1810d336d7b8d1def764f160821b90708d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:17 +0000
Subject: [PATCH 06/40] fix: layers with a percent sign in their name could not
 be printed

---
 py/docria/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index cd0fd92..3911021 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1680,10 +1680,10 @@ class NodeLayerCollection(NodeCollection):
         return "Layer(%s, N=%d)" % (self.name, self.num)
 
     def _repr_html_(self):
-        return self._table_repr_("Layer '%s' with %%d nodes." % self.name).render_html()
+        return self._table_repr_("Layer '%s' with %%d nodes." % self.name.replace("%", "%%")).render_html()
 
     def __str__(self):
-        return self._table_repr_("Layer '%s' with %%d nodes." % self.name).render_text()
+        return self._table_repr_("Layer '%s' with %%d nodes." % self.name.replace("%", "%%")).render_text()
 
     def __len__(self):
         return self.num
-- 
2.43.0


From 86fb7df59a4a0673db939eee1e1c6f514900935d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:18 +0000
Subject: [PATCH 07/40] fix: keep the merged field type of node lists from
 several layers

---
 py/docria/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/docria/model.py b/py/docria/model.py
index 3911021..6f2344f 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -510,6 +510,8 @@ class NodeList(list, NodeCollection):
                                                  (repr(resolved_type), repr(el), fld, repr(self)))
                             else:
                                 resolved_type = resolved_type.cast_up(el)
+
+                        output_types[fld] = resolved_type
                 else:
                     output_types[fld] = next(iter(dtypes))
 
-- 
2.43.0


From bfb3c6b394c9dac74901d907b9f494e85cc26a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:19 +0000
Subject: [PATCH 08/40] fix: type of a bool value is bool

---
 py/docria/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 6f2344f..eefc7a0 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1196,6 +1196,8 @@ class DataTypes:
     def typeof(o, comparetype: "DataType" = None) -> DataType:
         if isinstance(o, str):
             return DataTypes.string()
+        elif isinstance(o, bool):
+            return DataTypes.bool()
         elif isinstance(o, int):
             if comparetype is not None and comparetype.typename == DataTypeEnum.I32:
                 if -0x80000000 <= o <= 0x7FFFFFFF:
@@ -1206,8 +1208,6 @@ class DataTypes:
                 return DataTypes.int64()
         elif isinstance(o, float):
             return DataTypes.float64()
-        elif isinstance(o, bool):
-            return DataTypes.bool()
         elif isinstance(o, bytes):
             return DataTypes.binary
         elif isinstance(o, TextSpan):
-- 
2.43.0


From f942c8290b4e9c359898cfc83cd8167547bb15e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:53 +0000
Subject: [PATCH 09/40] fix: default values of float64, bool and string fields

---
 py/docria/model.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index eefc7a0..711703e 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1011,6 +1011,10 @@ class DataTypeFloat(DataType):
     def __init__(self, typename: DataTypeEnum, **kwargs):
         super().__init__(typename, **kwargs)
 
+    def default(self):
+        value = super().default()
+        return None if value is None else float(value)
+
     def is_valid(self, value) -> bool:
         return isinstance(value, float)
 
@@ -1124,7 +1128,7 @@ class DataTypes:
         elif default is None:
             return DataTypes._float64_raw
         else:
-            return DataTypeFloat(DataTypeEnum.F64, default=0.0)
+            return DataTypeFloat(DataTypeEnum.F64, default=default)
 
     @staticmethod
     def string(default: Optional[str] = ""):
@@ -1133,16 +1137,16 @@ class DataTypes:
         elif default is None:
             return DataTypes._string_raw
         else:
-            return DataType(DataTypeEnum.STRING, default=default)
+            return DataTypeString(DataTypeEnum.STRING, default=default)
 
     @staticmethod
     def bool(default: Optional[bool] = False):
-        if default == "":
-            return DataTypes._string
+        if default is False:
+            return DataTypes._bool
         elif default is None:
             return DataTypes._bool_raw
         else:
-            return DataType(DataTypeEnum.BOOL, default=default)
+            return DataTypeBool(DataTypeEnum.BOOL, default=default)
 
     boolean = bool
 
-- 
2.43.0


From a1c3365b2a4d4a8cd37007c4ba61e07d2ca083fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:53 +0000
Subject: [PATCH 10/40] fix: add_field with an existing name or a type factory

---
 py/docria/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 711703e..c1af86e 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1347,9 +1347,10 @@ class NodeLayerCollection(NodeCollection):
         :raises SchemaValidationError if the field conflicts with existing field
         """
         if name in self._schema.fields:
-            raise SchemaValidationError("Cannot add field %s, it already exists!" % name)
+            raise SchemaValidationError("Cannot add field %s, it already exists!" % name, [name])
 
         self._schema.add(name, dtype)
+        dtype = self._schema.fields[name]
         self._update_default_values()
 
         if init_with_default:
-- 
2.43.0


From 6db2ffc1fd98f8fc8f1df4855ff09a0451d265c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:54 +0000
Subject: [PATCH 11/40] fix: remove_layer result, field cascade and node span
 references

---
 py/docria/model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index c1af86e..e36979e 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1874,7 +1874,7 @@ class Document:
         for k, v in self.layers.items():
             if k != name:
                 for fk, fv in v.schema.fields.items():
-                    if fv.typename == DataTypeEnum.NODEREF or fv.typename == DataTypeEnum.NODEREF_MANY:
+                    if fv.typename in {DataTypeEnum.NODEREF, DataTypeEnum.NODEREF_MANY, DataTypeEnum.NODEREF_SPAN}:
                         if fv.options["layer"] == name:
                             referencing_layer_field.setdefault(k, []).append(fk)
 
@@ -1887,7 +1887,12 @@ class Document:
             raise DataValidationError("Attempting to remove layer %s, but is referenced from layer(s)+field(s): %s"
                                       % (name, layer_field_names))
 
+        for referencing_layer, fields in referencing_layer_field.items():
+            for field in fields:
+                self.layers[referencing_layer].remove_field(field)
+
         del self.layers[name]
+        return True
 
     def __repr__(self):
         return "Document(%d layers, %d texts%s)" % (
-- 
2.43.0


From 777e6577c90b7872c7cbb2f8a17defeff766e8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:54 +0000
Subject: [PATCH 12/40] fix: type validation when extra fields are allowed

---
 py/docria/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index e36979e..20af5c7 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -2011,7 +2011,7 @@ class Document:
             validate_fn = v.validate
 
             # Validate nodes
-            if type_validation and not extra_fields_ok:
+            if type_validation:
                 for n in v:
                     validate_fn(n)
 
-- 
2.43.0


From 8051606699de4515a8bb3b8c5bbcf4e94abd7b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:55 +0000
Subject: [PATCH 13/40] fix: add_many validation of nodes given as an iterator

---
 py/docria/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py/docria/model.py b/py/docria/model.py
index 20af5c7..fef7286 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1513,6 +1513,7 @@ class NodeLayerCollection(NodeCollection):
         If full_validation is set to True, it will first add all nodes, and then perform validation. \
         Internal references between nodes in the nodes input is allowed.
         """
+        nodes = list(nodes)
         start_pos = len(self._nodes)
         for node in nodes:
             assert isinstance(node, Node), "Got a node which is not a Node: %s" % repr(node)
-- 
2.43.0


From d221fe2b4a0ca8f006755c8acb856fffc6b9d6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:56 +0000
Subject: [PATCH 14/40] fix: validation of reference fields holding something
 else than nodes

---
 py/docria/model.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index fef7286..dfa061b 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1086,7 +1086,8 @@ class DataTypeNoderefList(DataType):
     def is_valid(self, value) -> bool:
         target_layer = self.options["layer"]
         return (isinstance(value, list) or isinstance(value, NodeCollection)) and \
-               all(map(lambda n: n.collection is not None and n.collection.name == target_layer, value))
+               all(map(lambda n: isinstance(n, Node) and
+                                 n.collection is not None and n.collection.name == target_layer, value))
 
 
 class DataTypes:
@@ -1402,6 +1403,9 @@ class NodeLayerCollection(NodeCollection):
                 fieldvalue = node[field]
                 if not node.collection.fieldtypes[field].is_valid(fieldvalue):
                     if fieldtype.typename == DataTypeEnum.NODEREF_SPAN:
+                        assert isinstance(fieldvalue, NodeSpan), \
+                            "Not a nodespan: " \
+                            "field '%s' in layer '%s' for node %s" % (field, self.name, repr(node))
                         assert fieldvalue.left is not None, \
                             "Left node is None: " \
                             "field '%s' in layer '%s' for node %s" % (field, self.name, repr(node))
@@ -1427,6 +1431,9 @@ class NodeLayerCollection(NodeCollection):
                             "field '%s' in layer '%s' for node %s" % \
                             (fieldvalue.left.i, fieldvalue.right.i, field, self.name, repr(node))
                     elif fieldtype.typename == DataTypeEnum.NODEREF:
+                        assert isinstance(fieldvalue, Node), \
+                            "Not a node: " \
+                            "field '%s' in layer '%s' for node %s" % (field, self.name, repr(node))
                         assert fieldvalue.collection is not None, \
                             "Node is removed: " \
                             "field '%s' in layer '%s' for node %s" % (field, self.name, repr(node))
-- 
2.43.0


From fc6f203626765e700316c82c3e46e3175daec3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:56 +0000
Subject: [PATCH 15/40] fix: field types of decoded documents are enforced

---
 py/docria/codec.py | 11 ++++++-----
 py/docria/model.py | 18 ++++++++++++++++++
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index 5293445..f0e3bf9 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -15,7 +15,8 @@
 # limitations under the License.
 #
 """Codecs, encoding/decoding documents to/from binary or text representations"""
-from docria.model import TextSpan, Document, DataTypeEnum, NodeLayerSchema, String2DataType, DataType, Node, ExtData, NodeSpan
+from docria.model import TextSpan, Document, DataTypeEnum, NodeLayerSchema, String2DataType, DataType, DataTypes, \
+    Node, ExtData, NodeSpan
 import msgpack
 import json
 import logging
@@ -221,10 +222,10 @@ class JsonCodec:
                 if isinstance(typedef, dict): # Advanced type
                     ttype = String2DataType[typedef["type"]]
                     args = typedef["args"]
-                    fields.append((fieldname, DataType(ttype, **args)))
+                    fields.append((fieldname, DataTypes.of(ttype, **args)))
                 elif isinstance(typedef, str): # Simple type
                     ttype = String2DataType[typedef]
-                    fields.append((fieldname, DataType(ttype)))
+                    fields.append((fieldname, DataTypes.of(ttype)))
                 else:
                     raise DataError("Could not decode layer %s field types, " \
                                     "failed on field %s. Got data: %s" % (typename, fieldname, repr(typedef)))
@@ -705,9 +706,9 @@ class MsgpackCodec:
 
                 if has_args:
                     fieldargs = next(unpacker)
-                    fields.append((fieldname, DataType(ttype, **fieldargs)))
+                    fields.append((fieldname, DataTypes.of(ttype, **fieldargs)))
                 else:
-                    fields.append((fieldname, DataType(ttype)))
+                    fields.append((fieldname, DataTypes.of(ttype)))
 
                 nl.add(fieldname, fields[-1][1])
 
diff --git a/py/docria/model.py b/py/docria/model.py
index dfa061b..199e0bc 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1090,6 +1090,20 @@ class DataTypeNoderefList(DataType):
                                  n.collection is not None and n.collection.name == target_layer, value))
 
 
+DataType2Class = {
+    DataTypeEnum.I32: DataTypeInt32,
+    DataTypeEnum.I64: DataTypeInt64,
+    DataTypeEnum.F64: DataTypeFloat,
+    DataTypeEnum.BOOL: DataTypeBool,
+    DataTypeEnum.STRING: DataTypeString,
+    DataTypeEnum.BINARY: DataTypeBinary,
+    DataTypeEnum.NODEREF: DataTypeNoderef,
+    DataTypeEnum.NODEREF_MANY: DataTypeNoderefList,
+    DataTypeEnum.SPAN: DataTypeTextspan,
+    DataTypeEnum.NODEREF_SPAN: DataTypeNodespan
+}
+
+
 class DataTypes:
     """Layer field type factory"""
     _float64 = DataTypeFloat(DataTypeEnum.F64, default=0)
@@ -1193,6 +1207,10 @@ class DataTypes:
     def ext(typename):
         return DataType(DataTypeEnum.EXT, type=typename)
 
+    @staticmethod
+    def of(typename: DataTypeEnum, **options):
+        return DataType2Class.get(typename, DataType)(typename, **options)
+
     @staticmethod
     def matches(o, expected):
         return isinstance(o, expected) if expected is not None else None
-- 
2.43.0


From 6c4a6618cbe79770f7e3d945406bca11db6e293d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:27 +0000
Subject: [PATCH 16/40] fix: binary values in document properties

---
 py/docria/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index f0e3bf9..0e7bcc8 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -611,7 +611,7 @@ class MsgpackCodec:
         out_props = BytesIO()
 
         # TODO: Implement extension handling!
-        msgpack.pack(doc.props, out_props)
+        msgpack.pack(doc.props, out_props, use_bin_type=True)
 
         msgpack.pack(out_props.tell(), output)
         output.write(out_props.getbuffer()[0:out_props.tell()])
-- 
2.43.0


From 8588bf955e55705527eb3654d138316577eef1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:28 +0000
Subject: [PATCH 17/40] fix: decoding of selected texts

---
 py/docria/codec.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index 0e7bcc8..a2c0d05 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -721,19 +721,19 @@ class MsgpackCodec:
         if len(texts) == 0:
             return next(unpacker)
         else:
-            texts = {}
+            output = {}
 
-            prop_keys = set(texts)
+            text_keys = set(texts)
             num_entries = unpacker.read_map_header()
             for i in range(num_entries):
                 k = next(unpacker)
-                if k in prop_keys:
+                if k in text_keys:
                     v = next(unpacker)
-                    texts[k] = v
+                    output[k] = v
                 else:
                     unpacker.skip()
 
-            return texts
+            return output
 
     @staticmethod
     def compute_text_offsets(doc, texts):
-- 
2.43.0


From f4a4e7ff80d1ea3559acd7063bcd02dbf9b5fc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:29 +0000
Subject: [PATCH 18/40] fix: decoding of selected layers

---
 py/docria/codec.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index a2c0d05..f197f3d 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -145,7 +145,15 @@ class Codec:
         # Post-process layers
         for typename in types:
             for col, typedef in schema[typename]:
-                if typedef.typename == DataTypeEnum.NODEREF:
+                if typedef.typename in {DataTypeEnum.NODEREF, DataTypeEnum.NODEREF_MANY, DataTypeEnum.NODEREF_SPAN} \
+                        and typedef.options["layer"] not in all_nodes:
+                    logging.warning("Node field is referring to a layer which is not decoded: %s, "
+                                    "cannot decode this field: %s in %s. "
+                                    "Field ignored." % (typedef.options["layer"], col, typename))
+
+                    for n in all_nodes[typename]:
+                        n.pop(col, None)
+                elif typedef.typename == DataTypeEnum.NODEREF:
 
                     # Replace int placeholds with an actual node reference.
                     target_type = typedef.options["layer"]
@@ -498,7 +506,7 @@ class MsgpackDocument:
             layerschema = schema[typename]
             all_nodes[typename] = MsgpackCodec.decode_layer(unpacker, doc, typename, text2offsets, layerschema, **kwargs)
 
-        Codec.commit_layers(doc, types, schema, all_nodes)
+        Codec.commit_layers(doc, [typename for typename in types if typename in all_nodes], schema, all_nodes)
         return doc
 
 
-- 
2.43.0


From e7c1eb9fd6bc9615d77eeb0e5d98e5044cbcd548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:29 +0000
Subject: [PATCH 19/40] fix: unpickled MsgpackDocument keeps its reference

---
 py/docria/codec.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index f197f3d..796551a 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -407,6 +407,7 @@ class MsgpackDocument:
         return {"doc": self.rawdata.getvalue(), "ref": self.ref}
 
     def __setstate__(self, state):
+        self.ref = state["ref"]
         self.rawdata = BytesIO(state["doc"])
         if self.rawdata.read(4) != b"DM_1":
             raise ValueError("Magic bytes is not DM_1")
-- 
2.43.0


From 77213e1143b75a9c0b0faba7b388e07b2f86e547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:30 +0000
Subject: [PATCH 20/40] fix: MsgpackDocument over file objects can be copied,
 pickled and written

---
 py/docria/codec.py      | 5 +++--
 py/docria/collection.py | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index 796551a..54376ad 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -404,7 +404,7 @@ class MsgpackDocument:
         self._layers = None
 
     def __getstate__(self):
-        return {"doc": self.rawdata.getvalue(), "ref": self.ref}
+        return {"doc": self.binary(), "ref": self.ref}
 
     def __setstate__(self, state):
         self.ref = state["ref"]
@@ -458,7 +458,8 @@ class MsgpackDocument:
 
     def binary(self)->bytes:
         """Get this document as binary value"""
-        return self.rawdata.getvalue()
+        self.rawdata.seek(0)
+        return self.rawdata.read()
 
     def properties(self, *props):
         """Get document properties"""
diff --git a/py/docria/collection.py b/py/docria/collection.py
index e30fe31..e784659 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -496,7 +496,7 @@ class MsgpackDocumentWriter:
         if isinstance(doc, Document):
             data = MsgpackCodec.encode(doc, **kwargs)
         elif isinstance(doc, MsgpackDocument):
-            data = doc.rawdata.getvalue()
+            data = doc.binary()
         else:
             raise ValueError("Got unsupported doc, only Document and MsgpackDocument allowed")
 
@@ -612,7 +612,7 @@ class TarMsgpackWriter:
         if isinstance(doc, Document):
             data = MsgpackCodec.encode(doc)
         elif isinstance(doc, MsgpackDocument):
-            data = doc.rawdata.getvalue()
+            data = doc.binary()
         else:
             raise ValueError("Got unsupported doc, only Document and MsgpackDocument allowed")
 
-- 
2.43.0


From 872df8ea4f6acb47c7b33fe166dca5cccd9036c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:30 +0000
Subject: [PATCH 21/40] fix: truncated documents raise DataError instead of
 StopIteration

---
 py/docria/codec.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index 54376ad..5cb6a1e 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -17,6 +17,7 @@
 """Codecs, encoding/decoding documents to/from binary or text representations"""
 from docria.model import TextSpan, Document, DataTypeEnum, NodeLayerSchema, String2DataType, DataType, DataTypes, \
     Node, ExtData, NodeSpan
+import functools
 import msgpack
 import json
 import logging
@@ -33,6 +34,17 @@ class DataError(Exception):
         super().__init__(message)
 
 
+def _incomplete_data_is_error(fn):
+    """A StopIteration from the unpacker would silently end the iteration of a caller."""
+    @functools.wraps(fn)
+    def wrapper(*args, **kwargs):
+        try:
+            return fn(*args, **kwargs)
+        except StopIteration as e:
+            raise DataError("Unexpected end of data") from e
+    return wrapper
+
+
 def _codec_encode_span(offset_mapping: Dict[int, int]):
     def encoder(l, v: "TextSpan"):
         if v is None:
@@ -418,6 +430,7 @@ class MsgpackDocument:
         self._schema = None
         self._layers = None
 
+    @_incomplete_data_is_error
     def _parse_state(self, state):
         if self._read_state < 1 and state > 0:
             self.rawdata.seek(4)
@@ -461,6 +474,7 @@ class MsgpackDocument:
         self.rawdata.seek(0)
         return self.rawdata.read()
 
+    @_incomplete_data_is_error
     def properties(self, *props):
         """Get document properties"""
         self._parse_state(1)
@@ -473,6 +487,7 @@ class MsgpackDocument:
         self._parse_state(2)
         return self._schema[0], self._schema[1]
 
+    @_incomplete_data_is_error
     def texts(self, *texts):
         """Get document text"""
         self._parse_state(2)
@@ -480,6 +495,7 @@ class MsgpackDocument:
         unpacker = msgpack.Unpacker(self.rawdata, raw=False)
         return MsgpackCodec.decode_texts(unpacker, *texts)
 
+    @_incomplete_data_is_error
     def document(self, *layers, **kwargs):
         """Get fully decoded document"""
         self._parse_state(3)
@@ -844,6 +860,7 @@ class MsgpackCodec:
         return nodes
 
     @staticmethod
+    @_incomplete_data_is_error
     def decode(data, **kwargs):
         """
         Decode message pack encoded document
-- 
2.43.0


From 8ef0b0fa09513d95d9b061d57009953e72311176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:10 +0000
Subject: [PATCH 22/40] fix: XML export of binary fields, control characters,
 supplementary characters and materialised spans

---
 py/docria/codec.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index 5cb6a1e..e03dc4c 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -915,7 +915,7 @@ class MsgpackCodec:
 
 class XmlCodec:
     """XML Codec, only encoding support"""
-    _string_pattern = re.compile(r"[^\u0009\u000A\u000D\u0020-\uD7FF\uE000-\uFFFD\u10000-\u10FFFF]", re.UNICODE)
+    _string_pattern = re.compile(r"[^\u0009\u000A\u000D\u0020-\uD7FF\uE000-\uFFFD\U00010000-\U0010FFFF]", re.UNICODE)
 
     @staticmethod
     def _string_encoder(s, repl=" "):
@@ -930,7 +930,7 @@ class XmlCodec:
         DataTypeEnum.F64: lambda v: str(float(v)),
         DataTypeEnum.BOOL: lambda v: str(bool(v)),
         DataTypeEnum.STRING: lambda v: XmlCodec._string_encoder(v),
-        DataTypeEnum.BINARY: lambda v: standard_b64encode(bytes(v)),
+        DataTypeEnum.BINARY: lambda v: standard_b64encode(bytes(v)).decode("ascii"),
         DataTypeEnum.NODEREF: lambda v: str(v._id),
         DataTypeEnum.NODEREF_MANY: lambda v: [str(n._id) for n in v],
         DataTypeEnum.NODEREF_SPAN: lambda v: v
@@ -1037,6 +1037,7 @@ class XmlCodec:
         """
         import xml.etree.ElementTree as ET
         texts, schema, layers = XmlCodec.encode_intermediate(doc, **kwargs)
+        text_encoder = XmlCodec._string_encoder
 
         if document_id != "":
             document_node = ET.Element("document", {"{http://www.w3.org/XML/1998/namespace}id": document_id})
@@ -1049,7 +1050,7 @@ class XmlCodec:
 
         prop_node = ET.SubElement(document_node, "props")
         for k, v in doc.props.items():
-            ET.SubElement(prop_node, "prop", {"key": k, "value": str(v)})
+            ET.SubElement(prop_node, "prop", {"key": text_encoder(k), "value": text_encoder(str(v))})
 
         schema_node = ET.SubElement(document_node, "schema")
         for layer, schemadef in schema.items():
@@ -1058,7 +1059,7 @@ class XmlCodec:
                 if isinstance(fielddef, dict):
                     field_node = ET.SubElement(layer_schema_node, "field", {"name": field, "type": fielddef["type"]})
                     for argk, argv in fielddef["args"].items():
-                        ET.SubElement(field_node, "arg", {"key": argk, "value": str(argv)})
+                        ET.SubElement(field_node, "arg", {"key": argk, "value": text_encoder(str(argv))})
                 else:
                     ET.SubElement(layer_schema_node, "field", {"name": field, "type": fielddef})
 
@@ -1066,6 +1067,7 @@ class XmlCodec:
         for textk, textv in texts.items():
             text_node = ET.SubElement(texts_node, "text", {"name": textk})
             seps_node = ET.SubElement(text_node, "sep")
+            textv = [text_encoder(entry) for entry in textv]
             if verbose:
                 pos = 0
                 i = 0
@@ -1099,7 +1101,7 @@ class XmlCodec:
                                           })
                         )
                         if verbose_node_spans:
-                            text_entries[fk] = XmlCodec._string_encoder(fv)
+                            text_entries[fk] = XmlCodec._string_encoder(str(span))
                     elif isinstance(fv, NodeSpan):
                         embedded_entries.append(
                             ET.Element("d",
-- 
2.43.0


From 18d59ce22132d80c23f5c914ccaff0ac5f111bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:10 +0000
Subject: [PATCH 23/40] fix: children_of with several fields

---
 py/docria/algorithm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py/docria/algorithm.py b/py/docria/algorithm.py
index a9e1a36..1dd02e6 100644
--- a/py/docria/algorithm.py
+++ b/py/docria/algorithm.py
@@ -61,9 +61,9 @@ def children_of(layer: NodeLayerCollection, *props):
 
     def compose(yielders):
         def yielder(n: Node):
-            for yielder in yielders:
-                for n in yielder(n):
-                    yield n
+            for children in yielders:
+                for child in children(n):
+                    yield child
 
         return yielder
 
-- 
2.43.0


From 0917848e3434e954899632ae230e436485572f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:11 +0000
Subject: [PATCH 24/40] fix: nodes with visited children are not leaves

---
 py/docria/algorithm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/docria/algorithm.py b/py/docria/algorithm.py
index 1dd02e6..df19dba 100644
--- a/py/docria/algorithm.py
+++ b/py/docria/algorithm.py
@@ -183,7 +183,7 @@ def dfs_leaves(start: Node,
 
         visited.add(current)
 
-        child_nodes = [ch for ch in children(current) if ch not in visited]
+        child_nodes = list(children(current))
         child_nodes.reverse()
 
         if not child_nodes and is_result and is_result(current):
@@ -191,7 +191,7 @@ def dfs_leaves(start: Node,
         elif not child_nodes and not is_result:
             yield current
 
-        stack.extend(child_nodes)
+        stack.extend(ch for ch in child_nodes if ch not in visited)
 
 
 def span_translate(doc: Document,
-- 
2.43.0


From 87be4099343c000f6d1b48bcfa0e9fe974d0e279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:12 +0000
Subject: [PATCH 25/40] fix: display settings without a limit, escaping of text
 names, incomplete URNs

---
 py/docria/model.py    |  2 +-
 py/docria/printout.py | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 199e0bc..549e3fc 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -783,7 +783,7 @@ class Text:
 
     def _repr_html_(self):
         from html import escape
-        return "<h3>Text: {0}</h3><pre>{1}</pre>".format(self.name, escape(self.text))
+        return "<h3>Text: {0}</h3><pre>{1}</pre>".format(escape(self.name), escape(self.text))
 
     def compile(self, offsets: List[int]):
         """
diff --git a/py/docria/printout.py b/py/docria/printout.py
index 5c779d0..cc43675 100644
--- a/py/docria/printout.py
+++ b/py/docria/printout.py
@@ -53,7 +53,7 @@ class PrintOptions:
     @property
     def max_columns(self):
         """Max number of columns to display"""
-        return self._max_rows
+        return self._max_columns
 
     @max_columns.setter
     def max_columns(self, max_columns):
@@ -113,7 +113,10 @@ def truncate(text):
     if options.max_column_width is None:
         return text
     else:
-        min_sz = min(options._max_display_width-5, options.max_column_width-5)
+        min_sz = options.max_column_width-5
+        if options.max_display_width is not None:
+            min_sz = min(options.max_display_width-5, min_sz)
+
         if len(text) > min_sz:
             part = min_sz >> 1
             return "%s ... %s" % (text[0:part], text[-part:])
@@ -149,6 +152,9 @@ def urn_link_wikidata(partial):
 
 def urn_link_wikipedia(partial):
     parts = partial.split(":", 1)
+    if len(parts) == 1:
+        return "https://www.wikipedia.org/wiki/{0}".format(escape(parts[0]))
+
     return "https://{0}.wikipedia.org/wiki/{1}".format(escape(parts[0]), escape(parts[1]))
 
 
-- 
2.43.0


From 4c12af6ff8f3d2a0e62567c98d8a7024ee18d6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:12 +0000
Subject: [PATCH 26/40] fix: references of documents read after readblock

---
 py/docria/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/collection.py b/py/docria/collection.py
index e784659..000f9ba 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -398,7 +398,7 @@ class MsgpackDocumentReader:
             if doc is None:
                 self.block = None
             else:
-                return MsgpackDocument(doc, ref=(self._lastblockpos, start))
+                return MsgpackDocument(doc, ref=(self.block.position, start))
 
         while self.block is None:
             datablock = self.readblock()
-- 
2.43.0


From e83fe97432715bcd8a53711a6f4256b102b52a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:13 +0000
Subject: [PATCH 27/40] fix: index search opens files relative to its base path

---
 py/docria/collection.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/py/docria/collection.py b/py/docria/collection.py
index 000f9ba..02a885d 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -705,10 +705,14 @@ class DocumentFileIndex:
 
         return DocumentFileIndex(source_filepath, property2docis, docs)
 
-    def search(self, conds, lazy=False):
+    def search(self, conds, lazy=False, basepath=None):
         if len(conds) == 0:
             return
 
+        filepath = self.filepath
+        if basepath is not None and os.path.exists(os.path.join(basepath, filepath)):
+            filepath = os.path.join(basepath, filepath)
+
         all_hits = []
         for k, v in dict(conds).items():
             all_hits.append(set(self.properties.get(k, {}).get(v, [])))
@@ -720,7 +724,7 @@ class DocumentFileIndex:
         from docria.codec import MsgpackCodec
 
         if len(results) > 0:
-            reader = MsgpackDocumentIO.read(self.filepath)
+            reader = MsgpackDocumentIO.read(filepath)
             lastblk = None
 
             # Optimized reading if multiple hits exist within a block sequentially
@@ -756,7 +760,7 @@ class DocumentIndex:
 
     def search(self, conds, lazy=False):
         for indx in self.index.values():
-            for doc in indx.search(conds, lazy=lazy):
+            for doc in indx.search(conds, lazy=lazy, basepath=self.basepath):
                 yield doc
 
     def save(self, path):
-- 
2.43.0


From 301983afbb9b5a0f8eec02a9b1f65318f3b5e536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:14 +0000
Subject: [PATCH 28/40] fix: boundary reader at and beyond segment edges

---
 py/docria/collection.py | 55 ++++++++++++++---------------------------
 1 file changed, 18 insertions(+), 37 deletions(-)

diff --git a/py/docria/collection.py b/py/docria/collection.py
index 02a885d..e31cf46 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -48,7 +48,8 @@ class _BoundaryReader(RawIOBase):
         if self.boundary < 12 or self.boundary > 30:
             raise IOError("Incorrect boundary value: %d" % self.boundary)
 
-        self.offset = 0
+        self.offset = 0  # position in payload
+        self.position = 1  # position in underlying input
 
     def close(self):
         return self.inputio.close()
@@ -68,55 +69,35 @@ class _BoundaryReader(RawIOBase):
         if whence != SEEK_SET:
             raise NotImplementedError()
 
-        self.offset = offset
         abs_start_position = self._to_absolute(offset)
         pos = self.inputio.seek(abs_start_position, SEEK_SET)
         assert pos == abs_start_position
+        self.offset = offset
+        self.position = abs_start_position
         return offset
 
     def read(self, n=-1):
-        abs_start_position = ((self.offset + 1) >> self.boundary)*4+(self.offset + 1)
-        if n == -1:
-            alldata = self.inputio.read(n)
-            abs_stop_position = abs_start_position + len(alldata)
-        else:
-            abs_stop_position = ((self.offset + n + 1) >> self.boundary)*4+(self.offset + n + 1)
-            alldata = self.inputio.read(abs_stop_position-abs_start_position)
-            abs_stop_position = abs_start_position + len(alldata)
-
-        if len(alldata) == 0:
-            return alldata
-
-        if (abs_start_position >> self.boundary) << self.boundary == abs_start_position:
-            abs_start_position += 4
-
-        num_boundaries = (abs_stop_position >> self.boundary) - (abs_start_position >> self.boundary)
-        real_length = abs_stop_position-abs_start_position-num_boundaries*4
-
-        if (abs_stop_position >> self.boundary) << self.boundary == abs_stop_position:
-            real_length -= 4
-
-        output = bytearray(real_length)
-
-        output_position = 0
-        rel_position = 0
-        current_position = abs_start_position
+        output = bytearray()
 
-        while current_position < abs_stop_position:
-            max_read = min(((current_position >> self.boundary) + 1) << self.boundary, abs_stop_position)-current_position
+        while n < 0 or len(output) < n:
+            left = (1 << self.boundary) - (self.position & ((1 << self.boundary) - 1))
+            if left == (1 << self.boundary):
+                # At the edge of a segment, skip its marker
+                self.position += len(self.inputio.read(4))
+                left -= 4
 
-            output[output_position:output_position+max_read] = alldata[rel_position:rel_position+max_read]
-            rel_position += 4 + max_read
-            current_position += max_read + 4
-            output_position += max_read
+            data = self.inputio.read(left if n < 0 else min(left, n - len(output)))
+            if len(data) == 0:
+                break
 
-        assert output_position == real_length
-        self.offset += real_length
+            output += data
+            self.position += len(data)
 
+        self.offset += len(output)
         return bytes(output)
 
     def tell(self):
-        return self.inputio.tell()-(self.inputio.tell() >> self.boundary)*4-1
+        return self.offset
 
     def readable(self):
         return True
-- 
2.43.0


From a8d7002191040bfd542796969e92bfe3999bcb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:47 +0000
Subject: [PATCH 29/40] fix: flush() of a collection writer reaches the storage

The flushed block stayed in the buffer of the file object, so it was lost when
the process ended without closing the writer.
---
 py/docria/collection.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/py/docria/collection.py b/py/docria/collection.py
index e31cf46..4ea566a 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -162,6 +162,10 @@ class _BoundaryWriter(RawIOBase):
                 self._write_boundary()
                 maxwrite = min(((self.seg + 1) << self.boundary) - self.written, left)
 
+    def flush(self):
+        if hasattr(self.outputio, "flush"):
+            self.outputio.flush()
+
     def close(self):
         self.outputio.close()
 
@@ -504,6 +508,9 @@ class MsgpackDocumentWriter:
             self.currentblock = BytesIO()
             self.current_block_count = 0
 
+            if hasattr(self.outputio, "flush"):
+                self.outputio.flush()
+
     def close(self):
         """Flush data and close the underlying storage"""
         self.flush()
-- 
2.43.0


From 48685b9a18abfed32752baf75876f9cdb8ba9f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:07 +0000
Subject: [PATCH 30/40] fix: sort layers by keys that use node neighbours or
 cannot be compared

The node list is empty while being sorted in place, so keys could not use the
layer, and a failed comparison left nodes at other positions than their index.
---
 py/docria/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 549e3fc..140b89a 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1596,7 +1596,7 @@ class NodeLayerCollection(NodeCollection):
         :param keyfn: a function (input: Node) -> value to sort by.
         """
         self.compact()
-        self._nodes.sort(key=keyfn)
+        self._nodes[:] = sorted(self._nodes, key=keyfn)
         for i, n in zip(range(len(self)), self):
             n._id = i
 
-- 
2.43.0


From f71c1019393e8690f9308c1dce059487908382bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:07 +0000
Subject: [PATCH 31/40] fix: is_any on text span fields compares with the text

Spans equal strings with the same content but do not hash like them, so
is_any("word") never matched a span field.
---
 py/docria/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py/docria/model.py b/py/docria/model.py
index 140b89a..6c0e501 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -326,6 +326,10 @@ class NodeFieldCollection(Sized):
         :param item: the items to verify against
         :return: is any predicate
         """
+        if self.dtype.typename == DataTypeEnum.SPAN:
+            # Text spans equal strings, but do not hash like them
+            return self.filter(lambda span: any(span == v for v in item))
+
         return NodeFieldPredicateContains(self, set(item))
 
     def covered_by(self, *range):
-- 
2.43.0


From 759ef1cb13606157104be489316f974a3f0b3765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:38 +0000
Subject: [PATCH 32/40] fix: XML export of text names with control characters

---
 py/docria/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index e03dc4c..55553b9 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -1065,7 +1065,7 @@ class XmlCodec:
 
         texts_node = ET.SubElement(document_node, "texts")
         for textk, textv in texts.items():
-            text_node = ET.SubElement(texts_node, "text", {"name": textk})
+            text_node = ET.SubElement(texts_node, "text", {"name": text_encoder(textk)})
             seps_node = ET.SubElement(text_node, "sep")
             textv = [text_encoder(entry) for entry in textv]
             if verbose:
-- 
2.43.0


From 9e8b83d0db0f37f9c4099236a0ed3ecbe4c14021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:07 +0000
Subject: [PATCH 33/40] fix: report an incomplete collection header as an error
 instead of StopIteration

---
 py/docria/collection.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/py/docria/collection.py b/py/docria/collection.py
index 4ea566a..453b5c5 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -304,11 +304,14 @@ class MsgpackDocumentReader:
 
         self.unpacker = Unpacker(self.inputio, raw=False)
 
-        codecname = next(self.unpacker)
-        self.codec = get_codec(codecname).decompress
+        try:
+            codecname = next(self.unpacker)
+            self.num_doc_per_block = next(self.unpacker)
+            self.advanced = next(self.unpacker)
+        except StopIteration:
+            raise IOError("Incomplete header") from None
 
-        self.num_doc_per_block = next(self.unpacker)
-        self.advanced = next(self.unpacker)
+        self.codec = get_codec(codecname).decompress
         if self.advanced:
             raise NotImplementedError("Advanced mode not implemented.")
 
-- 
2.43.0


From be77f5dc843c66e5d839eed441a5ace1dcd68cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:51 +0000
Subject: [PATCH 34/40] fix: JSON objects do not share document properties with
 the document

---
 py/docria/codec.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index 55553b9..d36093a 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -17,6 +17,7 @@
 """Codecs, encoding/decoding documents to/from binary or text representations"""
 from docria.model import TextSpan, Document, DataTypeEnum, NodeLayerSchema, String2DataType, DataType, DataTypes, \
     Node, ExtData, NodeSpan
+import copy
 import functools
 import msgpack
 import json
@@ -205,7 +206,7 @@ class JsonCodec:
         texts, types, types_num_nodes, schema = Codec.encode(doc, doc_encoder=JsonCodec.encode_object)
         return {
             "DM10": {
-                "props": doc.props,
+                "props": copy.deepcopy(doc.props),
                 "texts": texts,
                 "num_nodes": types_num_nodes,
                 "types": types,
@@ -229,7 +230,7 @@ class JsonCodec:
         docobj = docobj["DM10"]
 
         doc = Document()
-        doc.props = docobj["props"]
+        doc.props = copy.deepcopy(docobj["props"])
 
         schema = {}  # type: Dict[str, List[Tuple[str, DataType]]]
 
-- 
2.43.0


From d6bf9241193dca436ca13e0a855c8af4b85ee53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:12 +0000
Subject: [PATCH 35/40] fix: text tables no longer exceed the display width by
 their last column

---
 py/docria/printout.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/py/docria/printout.py b/py/docria/printout.py
index cc43675..803e282 100644
--- a/py/docria/printout.py
+++ b/py/docria/printout.py
@@ -281,12 +281,13 @@ class Table:
                 column_width += actual_widths[0] + self.style.padding*2
 
             for i in range(column_pos, len(headers)):
-                column_width += actual_widths[i] + self.style.padding*2
-                column_end = i+1
-
-                if options.max_display_width is not None and column_width > options.max_display_width:
+                next_width = column_width + actual_widths[i] + self.style.padding*2
+                if options.max_display_width is not None and i > column_pos and next_width > options.max_display_width:
                     break
 
+                column_width = next_width
+                column_end = i+1
+
             if column_pos == 1 and self.caption is not None:
                 # Print caption
                 output.append(str.format("{:^%d}" % column_width, truncate(self.caption)))
-- 
2.43.0


From f178c54de97f6ad319505ff1c1f59a1be4fc036c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 36/40] fix: boundary reader lost its place when a segment
 marker was read in parts

---
 py/docria/collection.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/py/docria/collection.py b/py/docria/collection.py
index 453b5c5..8989ccc 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -80,12 +80,17 @@ class _BoundaryReader(RawIOBase):
         output = bytearray()
 
         while n < 0 or len(output) < n:
-            left = (1 << self.boundary) - (self.position & ((1 << self.boundary) - 1))
-            if left == (1 << self.boundary):
-                # At the edge of a segment, skip its marker
-                self.position += len(self.inputio.read(4))
-                left -= 4
+            segpos = self.position & ((1 << self.boundary) - 1)
+            if segpos < 4 and self.position >> self.boundary > 0:
+                # At the edge of a segment, skip (the rest of) its marker
+                marker = self.inputio.read(4 - segpos)
+                if len(marker) == 0:
+                    break
 
+                self.position += len(marker)
+                continue
+
+            left = (1 << self.boundary) - segpos
             data = self.inputio.read(left if n < 0 else min(left, n - len(output)))
             if len(data) == 0:
                 break
-- 
2.43.0


From 311c9b65e52d6edd5665fcbb946e4fbc2dfc07a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:08 +0000
Subject: [PATCH 37/40] fix: adding a file index to a DocumentIndex leaves the
 file index as it is

---
 py/docria/collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/docria/collection.py b/py/docria/collection.py
index 8989ccc..22c3ce7 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -751,8 +751,8 @@ class DocumentIndex:
         self.index = {}  # type: Dict[str, DocumentFileIndex]
 
     def add(self, index: "DocumentFileIndex"):
-        index.filepath = os.path.relpath(index.filepath, self.basepath)
-        self.index[index.filepath] = index
+        filepath = os.path.relpath(index.filepath, self.basepath)
+        self.index[filepath] = DocumentFileIndex(filepath, index.properties, index.docrefs)
 
     def search(self, conds, lazy=False):
         for indx in self.index.values():
-- 
2.43.0


From faef17b65bb80a6d461341309f0c5d6f4bdc66b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:08 +0000
Subject: [PATCH 38/40] fix: group_by_span ignores nodes whose span is None

---
 py/docria/algorithm.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/py/docria/algorithm.py b/py/docria/algorithm.py
index df19dba..f3e428e 100644
--- a/py/docria/algorithm.py
+++ b/py/docria/algorithm.py
@@ -320,9 +320,8 @@ def group_by_span(group_nodes: List[Node],
 
     # 1. Convert all nodes to Start, Stop symbols with added context information
     for group_node in group_nodes:
-        if group_span_field in group_node:
-            span = group_node[group_span_field]  # type: TextSpan
-
+        span = group_node.get(group_span_field)  # type: Optional[TextSpan]
+        if span is not None:
             if span.start == span.stop:
                 # singleton
                 node_list.append(((span.start, 3), (None, group_node)))
@@ -338,9 +337,8 @@ def group_by_span(group_nodes: List[Node],
             raise KeyError("Could not find span property name for layer: %s" % layer_name) from e
 
         for layer_node in layer:
-            if span_name in layer_node:
-                span = layer_node[span_name]  # type: TextSpan
-
+            span = layer_node.get(span_name)  # type: Optional[TextSpan]
+            if span is not None:
                 if span.start == span.stop:
                     # singleton
                     node_list.append(((span.start, 3), (layer_name, layer_node)))
-- 
2.43.0


From ec5cffb3884c56b19c78a4a057d1cf78848d8166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:20 +0000
Subject: [PATCH 39/40] fix: an unknown field of a query is an error, as of
 every other collection

---
 py/docria/model.py | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 6c0e501..0bde266 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1309,13 +1309,6 @@ class NodeCollectionQuery(NodeCollection):
     def __len__(self):
         return len(self.result)
 
-    def __getitem__(self, item):
-        if isinstance(item, str):
-            if item in self.fieldtypes:
-                return NodeFieldCollection(self, item)
-        else:
-            return super().__getitem__(item)
-
     def update(self):
         self.result = [n for n in self.collection if self.predicate(n)]
 
-- 
2.43.0


From 7cbbb86a2421de85b4bbd04a3442b47cba972211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:07 +0000
Subject: [PATCH 40/40] fix: the encoded schema does not share options with the
 field types

---
 py/docria/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 0bde266..9f49a98 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -929,7 +929,7 @@ class DataType:
         if len(self.options) > 0:
             return {
                 "type": DataType2String[self.typename],
-                "args": self.options
+                "args": dict(self.options)
             }
         else:
             return DataType2String[self.typename]
-- 
2.43.0

