From d0616231ae2ba5be11533af47704c3c61a12cdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:06 +0000
Subject: [PATCH 01/23] fix: a mapping element of None is skipped like any
 other element

---
 pydantic_xml/serializers/factories/mapping.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydantic_xml/serializers/factories/mapping.py b/pydantic_xml/serializers/factories/mapping.py
index e8856c8..a43e021 100644
--- a/pydantic_xml/serializers/factories/mapping.py
+++ b/pydantic_xml/serializers/factories/mapping.py
@@ -106,6 +106,9 @@ class ElementSerializer(AttributesSerializer):
             exclude_none: bool = False,
             exclude_unset: bool = False,
     ) -> Optional[XmlElementWriter]:
+        if value is None and (skip_empty or exclude_none):
+            return element
+
         if skip_empty and len(value) == 0:
             return element
 
-- 
2.43.0


From 1c93df059ab54ea0707ba3283195b24ea2223d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:10 +0000
Subject: [PATCH 02/23] fix: an optional discriminated union of None can be
 serialized

---
 pydantic_xml/serializers/factories/tagged_union.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydantic_xml/serializers/factories/tagged_union.py b/pydantic_xml/serializers/factories/tagged_union.py
index 5f17e43..22652ab 100644
--- a/pydantic_xml/serializers/factories/tagged_union.py
+++ b/pydantic_xml/serializers/factories/tagged_union.py
@@ -76,6 +76,9 @@ class ModelSerializer(Serializer):
             exclude_none: bool = False,
             exclude_unset: bool = False,
     ) -> Optional[XmlElementWriter]:
+        if value is None:
+            return None
+
         if (tag := encoded.get(self._discriminator)) and (serializer := self._inner_serializers[tag]):
             return serializer.serialize(
                 element, value, encoded, skip_empty=skip_empty, exclude_none=exclude_none, exclude_unset=exclude_unset,
-- 
2.43.0


From bf0a4ba8bdc59d90f4a4a4258a48b93c7239d241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:14 +0000
Subject: [PATCH 03/23] fix: mapping values are encoded like other primitive
 values

---
 pydantic_xml/serializers/factories/mapping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydantic_xml/serializers/factories/mapping.py b/pydantic_xml/serializers/factories/mapping.py
index a43e021..9a35389 100644
--- a/pydantic_xml/serializers/factories/mapping.py
+++ b/pydantic_xml/serializers/factories/mapping.py
@@ -4,7 +4,7 @@ from pydantic_core import core_schema as pcs
 
 from pydantic_xml import errors
 from pydantic_xml.element import XmlElementReader, XmlElementWriter
-from pydantic_xml.serializers.serializer import TYPE_FAMILY, SchemaTypeFamily, SearchMode, Serializer
+from pydantic_xml.serializers.serializer import TYPE_FAMILY, SchemaTypeFamily, SearchMode, Serializer, encode_primitive
 from pydantic_xml.typedefs import EntityLocation, Location, NsMap
 from pydantic_xml.utils import QName, merge_nsmaps, select_ns
 
@@ -40,7 +40,7 @@ class AttributesSerializer(Serializer):
 
         ns = self._nsmap.get(self._ns) if self._namespaced_attrs and self._ns and self._nsmap else None
         element.set_attributes({
-            QName(tag=attr, ns=ns).uri: str(enc)
+            QName(tag=attr, ns=ns).uri: encode_primitive(enc)
             for attr, enc in encoded.items()
         })
 
-- 
2.43.0


From 2b80ed1187b28ed70dcdd98f9453595d9647be3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:18 +0000
Subject: [PATCH 04/23] fix: a mapping does not drop attributes other fields
 have set

---
 pydantic_xml/element/element.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pydantic_xml/element/element.py b/pydantic_xml/element/element.py
index 6bcdb63..90c6126 100644
--- a/pydantic_xml/element/element.py
+++ b/pydantic_xml/element/element.py
@@ -375,7 +375,10 @@ class XmlElement(XmlElementReader, XmlElementWriter, Generic[NativeElement]):
         self._state.attrib[name] = value
 
     def set_attributes(self, attributes: Dict[str, str]) -> None:
-        self._state.attrib = dict(attributes)
+        if self._state.attrib is None:
+            self._state.attrib = {}
+
+        self._state.attrib.update(attributes)
 
     def append_element(self, element: 'XmlElement[NativeElement]') -> None:
         self._state.elements.append(element)
-- 
2.43.0


From 4a2c5dacb5d6ba82dde01fdf1c4ad9dbd403e54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:47 +0000
Subject: [PATCH 05/23] fix: the text after a comment is not dropped

---
 pydantic_xml/element/native/lxml.py | 22 +++++++++++++++-------
 pydantic_xml/element/native/std.py  | 22 +++++++++++++++-------
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/pydantic_xml/element/native/lxml.py b/pydantic_xml/element/native/lxml.py
index 433f553..dedf41a 100644
--- a/pydantic_xml/element/native/lxml.py
+++ b/pydantic_xml/element/native/lxml.py
@@ -1,5 +1,5 @@
 import typing
-from typing import Optional, Union
+from typing import List, Optional, Union
 
 from lxml import etree
 
@@ -18,19 +18,27 @@ ElementT = etree._Element
 class XmlElement(BaseXmlElement[ElementT]):
     @classmethod
     def from_native(cls, element: ElementT) -> 'XmlElement':
+        text = element.text
+        elements: List[XmlElement] = []
+        for sub_element in element:
+            if not is_xml_comment(sub_element):
+                elements.append(XmlElement.from_native(sub_element))
+            elif sub_element.tail:
+                # a comment doesn't interrupt the text it is placed in
+                if elements:
+                    elements[-1]._state.tail = (elements[-1]._state.tail or '') + sub_element.tail
+                else:
+                    text = (text or '') + sub_element.tail
+
         return cls(
             tag=element.tag,
-            text=element.text,
+            text=text,
             tail=element.tail,
             attributes={
                 force_str(name): force_str(value)  # transformation is safe since lxml bytes values are ASCII compatible
                 for name, value in element.attrib.items()
             },
-            elements=[
-                XmlElement.from_native(sub_element)
-                for sub_element in element
-                if not is_xml_comment(sub_element)
-            ],
+            elements=elements,
             sourceline=typing.cast(int, element.sourceline) if element.sourceline is not None else -1,
         )
 
diff --git a/pydantic_xml/element/native/std.py b/pydantic_xml/element/native/std.py
index f55f22c..2e976dd 100644
--- a/pydantic_xml/element/native/std.py
+++ b/pydantic_xml/element/native/std.py
@@ -1,5 +1,5 @@
 import xml.etree.ElementTree as etree
-from typing import Optional
+from typing import List, Optional
 
 from pydantic_xml.element import XmlElement as BaseXmlElement
 from pydantic_xml.typedefs import NsMap
@@ -16,16 +16,24 @@ ElementT = etree.Element
 class XmlElement(BaseXmlElement[ElementT]):
     @classmethod
     def from_native(cls, element: ElementT) -> 'XmlElement':
+        text = element.text
+        elements: List[XmlElement] = []
+        for sub_element in element:
+            if not is_xml_comment(sub_element):
+                elements.append(XmlElement.from_native(sub_element))
+            elif sub_element.tail:
+                # a comment doesn't interrupt the text it is placed in
+                if elements:
+                    elements[-1]._state.tail = (elements[-1]._state.tail or '') + sub_element.tail
+                else:
+                    text = (text or '') + sub_element.tail
+
         return cls(
             tag=element.tag,
-            text=element.text,
+            text=text,
             tail=element.tail,
             attributes=dict(element.attrib),
-            elements=[
-                XmlElement.from_native(sub_element)
-                for sub_element in element
-                if not is_xml_comment(sub_element)
-            ],
+            elements=elements,
         )
 
     def to_native(self) -> ElementT:
-- 
2.43.0


From c1c4037bd215386a164fa0c1220a5fd7344f0ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:50 +0000
Subject: [PATCH 06/23] fix: processing instructions are ignored

---
 pydantic_xml/element/native/lxml.py | 6 +++---
 pydantic_xml/element/native/std.py  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pydantic_xml/element/native/lxml.py b/pydantic_xml/element/native/lxml.py
index dedf41a..0f9891b 100644
--- a/pydantic_xml/element/native/lxml.py
+++ b/pydantic_xml/element/native/lxml.py
@@ -21,7 +21,7 @@ class XmlElement(BaseXmlElement[ElementT]):
         text = element.text
         elements: List[XmlElement] = []
         for sub_element in element:
-            if not is_xml_comment(sub_element):
+            if not is_xml_comment_or_pi(sub_element):
                 elements.append(XmlElement.from_native(sub_element))
             elif sub_element.tail:
                 # a comment doesn't interrupt the text it is placed in
@@ -69,5 +69,5 @@ def force_str(val: Union[str, bytes]) -> str:
         return val
 
 
-def is_xml_comment(element: ElementT) -> bool:
-    return isinstance(element, etree._Comment)
+def is_xml_comment_or_pi(element: ElementT) -> bool:
+    return isinstance(element, (etree._Comment, etree._ProcessingInstruction))
diff --git a/pydantic_xml/element/native/std.py b/pydantic_xml/element/native/std.py
index 2e976dd..ecf8765 100644
--- a/pydantic_xml/element/native/std.py
+++ b/pydantic_xml/element/native/std.py
@@ -19,7 +19,7 @@ class XmlElement(BaseXmlElement[ElementT]):
         text = element.text
         elements: List[XmlElement] = []
         for sub_element in element:
-            if not is_xml_comment(sub_element):
+            if not is_xml_comment_or_pi(sub_element):
                 elements.append(XmlElement.from_native(sub_element))
             elif sub_element.tail:
                 # a comment doesn't interrupt the text it is placed in
@@ -51,5 +51,5 @@ class XmlElement(BaseXmlElement[ElementT]):
         return -1
 
 
-def is_xml_comment(element: ElementT) -> bool:
-    return element.tag is etree.Comment  # type: ignore[comparison-overlap]
+def is_xml_comment_or_pi(element: ElementT) -> bool:
+    return element.tag in (etree.Comment, etree.ProcessingInstruction)  # type: ignore[comparison-overlap]
-- 
2.43.0


From d228907f5487c8c2b12396792adbefe55ef57690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:16 +0000
Subject: [PATCH 07/23] fix: a namespace map overrides the ones of the
 enclosing entities

---
 pydantic_xml/serializers/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydantic_xml/serializers/serializer.py b/pydantic_xml/serializers/serializer.py
index 40a4e53..59b0ca0 100644
--- a/pydantic_xml/serializers/serializer.py
+++ b/pydantic_xml/serializers/serializer.py
@@ -154,8 +154,8 @@ class Serializer(abc.ABC):
         def parent_nsmap(self) -> Optional[NsMap]:
             if parent_ctx := self.parent_ctx:
                 return {
-                    **(parent_ctx.entity_nsmap or {}),
                     **(parent_ctx.parent_nsmap or {}),
+                    **(parent_ctx.entity_nsmap or {}),
                 }
 
             return None
-- 
2.43.0


From e7365594521cfe04d07324f196b09e0d58c171db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:19 +0000
Subject: [PATCH 08/23] fix: source lines of nested and root models are not
 mixed up

---
 pydantic_xml/serializers/factories/model.py | 6 ++++++
 pydantic_xml/utils.py                       | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pydantic_xml/serializers/factories/model.py b/pydantic_xml/serializers/factories/model.py
index ed5bca9..cb45624 100644
--- a/pydantic_xml/serializers/factories/model.py
+++ b/pydantic_xml/serializers/factories/model.py
@@ -207,6 +207,9 @@ class ModelSerializer(BaseModelSerializer):
         if element is None:
             return None
 
+        # error locations are relative to the model
+        sourcemap = {(): element.get_sourceline()}
+
         result: Dict[str, Any] = {}
         field_errors: Dict[Union[None, str, int], pd.ValidationError] = {}
         for field_name, field_serializer in self._field_serializers.items():
@@ -334,6 +337,9 @@ class RootModelSerializer(BaseModelSerializer):
         if element is None:
             return None
 
+        # error locations are relative to the model
+        sourcemap, loc = {(): element.get_sourceline()}, ()
+
         try:
             result = self._root_serializer.deserialize(
                 element, context=context, sourcemap=sourcemap, loc=loc, empty_as_string=empty_as_string,
diff --git a/pydantic_xml/utils.py b/pydantic_xml/utils.py
index bb6e2aa..90b89ca 100644
--- a/pydantic_xml/utils.py
+++ b/pydantic_xml/utils.py
@@ -137,8 +137,8 @@ def set_validation_error_sourceline(
 ) -> pd.ValidationError:
     line_errors: List[pdc.InitErrorDetails] = []
     for error in err.errors():
-        loc, sourceline = error['loc'], -1
-        while loc and (sourceline := sourcemap.get(loc, sourceline)) == -1:
+        loc = error['loc']
+        while (sourceline := sourcemap.get(loc, -1)) == -1 and loc:
             loc = tuple(loc[:-1])
 
         line_errors.append(
-- 
2.43.0


From 07c02109ae70fea3617850f470ff8f10a638eedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:03 +0000
Subject: [PATCH 09/23] fix: create_model respects the module name

---
 pydantic_xml/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydantic_xml/model.py b/pydantic_xml/model.py
index 2473bff..bdf16b8 100644
--- a/pydantic_xml/model.py
+++ b/pydantic_xml/model.py
@@ -88,6 +88,9 @@ def create_model(
         else:
             model_base = (*model_base, BaseWithConfig)
 
+    if __module__ is not None:
+        kwargs['__module__'] = __module__
+
     model = pd.create_model(__model_name, __base__=model_base, **kwargs)
 
     return typing.cast(Type[Model], model)
-- 
2.43.0


From 49c8a64840d573a7d77a5b0ed563ae7c606fdac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:07 +0000
Subject: [PATCH 10/23] fix: conditionally excluded fields are skipped

---
 pydantic_xml/serializers/factories/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydantic_xml/serializers/factories/model.py b/pydantic_xml/serializers/factories/model.py
index cb45624..8f930d3 100644
--- a/pydantic_xml/serializers/factories/model.py
+++ b/pydantic_xml/serializers/factories/model.py
@@ -180,6 +180,9 @@ class ModelSerializer(BaseModelSerializer):
         for field_name, field_serializer in self._field_serializers.items():
             if field_name in self._fields_serialization_exclude:
                 continue
+            if field_name not in encoded:  # excluded by pydantic (exclude_if)
+                continue
+
             if exclude_unset and field_name not in value.__pydantic_fields_set__:
                 continue
 
-- 
2.43.0


From 63314c5af42b4fd7c274fe9516f4db3a589058b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:10 +0000
Subject: [PATCH 11/23] fix: an element that fits no union member is consumed
 whatever the search mode is

---
 pydantic_xml/serializers/factories/union.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pydantic_xml/serializers/factories/union.py b/pydantic_xml/serializers/factories/union.py
index 67ad02f..eea831b 100644
--- a/pydantic_xml/serializers/factories/union.py
+++ b/pydantic_xml/serializers/factories/union.py
@@ -5,7 +5,7 @@ from pydantic_core import core_schema as pcs
 
 import pydantic_xml as pxml
 from pydantic_xml import errors, utils
-from pydantic_xml.element import XmlElementReader, XmlElementWriter
+from pydantic_xml.element import XmlElement, XmlElementReader, XmlElementWriter
 from pydantic_xml.serializers.factories.model import ModelProxySerializer
 from pydantic_xml.serializers.serializer import TYPE_FAMILY, SchemaTypeFamily, Serializer
 from pydantic_xml.typedefs import Location
@@ -134,6 +134,7 @@ class ModelSerializer(Serializer):
 
         union_errors: Dict[Union[None, str, int], pd.ValidationError] = {}
         result: Any = None
+        failed_snapshot: Optional[XmlElement[Any]] = None
         for serializer in self._inner_serializers:
             snapshot = element.create_snapshot()
             try:
@@ -148,9 +149,11 @@ class ModelSerializer(Serializer):
                     return result
             except pd.ValidationError as e:
                 union_errors[e.title] = e
+                failed_snapshot = failed_snapshot or snapshot
 
-        if union_errors:
-            element.step_forward()
+        if failed_snapshot is not None:
+            # the element that doesn't fit is consumed
+            element.apply_snapshot(failed_snapshot)
             raise utils.into_validation_error(
                 title=self._model_name, errors_map=union_errors, hide_input=self._hide_input_in_errors,
             )
-- 
2.43.0


From 12a13afed30defe66ec15a36566b24645fb8e448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:25 +0000
Subject: [PATCH 12/23] fix: errors of aliased fields have the same location
 and a source line

---
 pydantic_xml/serializers/factories/model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pydantic_xml/serializers/factories/model.py b/pydantic_xml/serializers/factories/model.py
index 8f930d3..cf32708 100644
--- a/pydantic_xml/serializers/factories/model.py
+++ b/pydantic_xml/serializers/factories/model.py
@@ -216,8 +216,9 @@ class ModelSerializer(BaseModelSerializer):
         result: Dict[str, Any] = {}
         field_errors: Dict[Union[None, str, int], pd.ValidationError] = {}
         for field_name, field_serializer in self._field_serializers.items():
+            validation_name = self._fields_validation_aliases.get(field_name, field_name)
             try:
-                loc = (field_name,)
+                loc = (validation_name,)
                 sourcemap[loc] = element.get_sourceline()
                 if custom_field_validator := self._model.__xml_field_validators__.get(field_name):
                     field_value = custom_field_validator(self._model, element, field_name)
@@ -227,10 +228,9 @@ class ModelSerializer(BaseModelSerializer):
                     )
 
                 if field_value is not None:
-                    field_name = self._fields_validation_aliases.get(field_name, field_name)
-                    result[field_name] = field_value
+                    result[validation_name] = field_value
             except pd.ValidationError as err:
-                field_errors[field_name] = err
+                field_errors[validation_name] = err
 
         if field_errors:
             raise utils.into_validation_error(
-- 
2.43.0


From abe182cf8dd7bb4d7c624fdf666ea99d80714344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:55 +0000
Subject: [PATCH 13/23] fix: skip_empty omits wrapper elements that are left
 empty

---
 pydantic_xml/element/element.py               | 12 ++++++++++++
 pydantic_xml/serializers/factories/wrapper.py |  9 ++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/pydantic_xml/element/element.py b/pydantic_xml/element/element.py
index 90c6126..0cd71c9 100644
--- a/pydantic_xml/element/element.py
+++ b/pydantic_xml/element/element.py
@@ -220,6 +220,14 @@ class XmlElementWriter(abc.ABC):
         :param element: sub-element to be added
         """
 
+    @abc.abstractmethod
+    def remove_element(self, element: 'XmlElement[Any]') -> None:
+        """
+        Removes a sub-element from the xml element.
+
+        :param element: sub-element to be removed
+        """
+
     @abc.abstractmethod
     def make_element(self, tag: str, nsmap: Optional[NsMap]) -> 'XmlElement[Any]':
         """
@@ -384,6 +392,10 @@ class XmlElement(XmlElementReader, XmlElementWriter, Generic[NativeElement]):
         self._state.elements.append(element)
         self._state.next_element_idx += 1
 
+    def remove_element(self, element: 'XmlElement[NativeElement]') -> None:
+        self._state.elements.remove(element)
+        self._state.next_element_idx -= 1
+
     def get_attrib(self, name: str) -> Optional[str]:
         return self._state.attrib.get(name, None) if self._state.attrib else None
 
diff --git a/pydantic_xml/serializers/factories/wrapper.py b/pydantic_xml/serializers/factories/wrapper.py
index a21436e..17738ed 100644
--- a/pydantic_xml/serializers/factories/wrapper.py
+++ b/pydantic_xml/serializers/factories/wrapper.py
@@ -1,4 +1,4 @@
-from typing import Any, Dict, Optional, Sized
+from typing import Any, Dict, List, Optional, Sized
 
 from pydantic_core import core_schema as pcs
 
@@ -55,13 +55,20 @@ class ElementPathSerializer(Serializer):
         if skip_empty and isinstance(value, Sized) and len(value) == 0:
             return element
 
+        parents: List[XmlElementWriter] = []
         for part in self._path:
+            parents.append(element)
             element = element.find_element_or_create(part, self._search_mode, nsmap=self._nsmap)
 
         self._inner_serializer.serialize(
             element, value, encoded, skip_empty=skip_empty, exclude_none=exclude_none, exclude_unset=exclude_unset,
         )
 
+        wrapper = element
+        while skip_empty and parents and wrapper.is_empty():
+            wrapper, empty_element = parents.pop(), wrapper
+            wrapper.remove_element(empty_element)
+
         return element
 
     def deserialize(
-- 
2.43.0


From ecd4586bb25e8251f598a962fee559ebf1d51c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:22 +0000
Subject: [PATCH 14/23] fix: apply aliases given to wrapped()

---
 pydantic_xml/fields.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pydantic_xml/fields.py b/pydantic_xml/fields.py
index a262a7d..5ed4c01 100644
--- a/pydantic_xml/fields.py
+++ b/pydantic_xml/fields.py
@@ -108,11 +108,13 @@ _Unset: Any = pdc.PydanticUndefined
 
 
 def prepare_field_kwargs(kwargs: Dict[str, Any]) -> Dict[str, Any]:
-    if kwargs.get('serialization_alias') in (None, pdc.PydanticUndefined):
-        kwargs['serialization_alias'] = kwargs.get('alias')
-
-    if kwargs.get('validation_alias') in (None, pdc.PydanticUndefined):
-        kwargs['validation_alias'] = kwargs.get('alias')
+    for name in ('serialization_alias', 'validation_alias'):
+        if kwargs.get(name) in (None, pdc.PydanticUndefined):
+            # an explicit None would override the alias of the field the result is merged with
+            if kwargs.get('alias') is not None:
+                kwargs[name] = kwargs['alias']
+            else:
+                kwargs.pop(name, None)
 
     return kwargs
 
@@ -199,6 +201,8 @@ def wrapped(
     :param kwargs: pydantic field arguments. See :py:class:`pydantic.Field`
     """
 
+    kwargs = prepare_field_kwargs(kwargs)
+
     if entity is None:
         wrapped_entity_info = None
         field_info = pd.fields.FieldInfo(default=default, default_factory=default_factory, **kwargs)
-- 
2.43.0


From ed9cdacf23469e01c00845701306d657af4a79de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:37 +0000
Subject: [PATCH 15/23] fix: a member of a discriminated union with an empty
 discriminator is serialized

---
 pydantic_xml/serializers/factories/tagged_union.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydantic_xml/serializers/factories/tagged_union.py b/pydantic_xml/serializers/factories/tagged_union.py
index 22652ab..8f91f8a 100644
--- a/pydantic_xml/serializers/factories/tagged_union.py
+++ b/pydantic_xml/serializers/factories/tagged_union.py
@@ -79,8 +79,8 @@ class ModelSerializer(Serializer):
         if value is None:
             return None
 
-        if (tag := encoded.get(self._discriminator)) and (serializer := self._inner_serializers[tag]):
-            return serializer.serialize(
+        if (tag := encoded.get(self._discriminator)) is not None:
+            return self._inner_serializers[tag].serialize(
                 element, value, encoded, skip_empty=skip_empty, exclude_none=exclude_none, exclude_unset=exclude_unset,
             )
 
-- 
2.43.0


From bdb95a228912bc1cdc4686660659877b2f571d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:54 +0000
Subject: [PATCH 16/23] fix: skip_empty does not omit a wrapped raw element or
 an empty wrapped attribute

---
 pydantic_xml/serializers/factories/wrapper.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pydantic_xml/serializers/factories/wrapper.py b/pydantic_xml/serializers/factories/wrapper.py
index 17738ed..1e7d42d 100644
--- a/pydantic_xml/serializers/factories/wrapper.py
+++ b/pydantic_xml/serializers/factories/wrapper.py
@@ -1,4 +1,4 @@
-from typing import Any, Dict, List, Optional, Sized
+from typing import Any, Dict, List, Optional
 
 from pydantic_core import core_schema as pcs
 
@@ -52,9 +52,6 @@ class ElementPathSerializer(Serializer):
         if value is None:
             return element
 
-        if skip_empty and isinstance(value, Sized) and len(value) == 0:
-            return element
-
         parents: List[XmlElementWriter] = []
         for part in self._path:
             parents.append(element)
-- 
2.43.0


From f12aa33f69e8fcdc6626c8e20ae5074b8f7116d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:49 +0000
Subject: [PATCH 17/23] fix: serializers and validators of a subclass take
 precedence over the ones of its bases

Custom serializers/validators were collected in the order of a set of attribute names, so that which of two functions
bound to the same field was used depended on string hashes.
---
 pydantic_xml/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydantic_xml/model.py b/pydantic_xml/model.py
index bdf16b8..d59828d 100644
--- a/pydantic_xml/model.py
+++ b/pydantic_xml/model.py
@@ -132,7 +132,9 @@ class XmlModelMeta(ModelMetaclass):
         # though we want to skip any BaseModel attributes, as these can never be field
         # serializers/validators, and getting certain pydantic fields
         # may cause recursion errors for recursive / self-referential models
-        for attr_name in set(dir(cls)) - set(dir(BaseModel)):
+        skipped_attrs = set(dir(BaseModel))
+        # base classes go first so that their serializers/validators are overridden by the ones of the subclasses
+        for attr_name in [name for base in reversed(cls.__mro__) for name in vars(base) if name not in skipped_attrs]:
             if func := getattr(cls, attr_name, None):
                 if fields := getattr(func, '__xml_field_serializer__', None):
                     for field in fields:
-- 
2.43.0


From c6e72126bcaedac06e2c880c3d22069177b1363f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:05 +0000
Subject: [PATCH 18/23] fix: mypy plugin recognizes field specifiers

The specifiers have been moved to pydantic_xml.fields but the plugin looked for their former full names and thus treated
every attr/element/wrapped field as an optional one.
---
 pydantic_xml/mypy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydantic_xml/mypy.py b/pydantic_xml/mypy.py
index a789d77..b885fc5 100644
--- a/pydantic_xml/mypy.py
+++ b/pydantic_xml/mypy.py
@@ -5,9 +5,9 @@ from mypy.plugin import ClassDefContext, Plugin
 from pydantic.mypy import PydanticModelTransformer, PydanticPlugin
 
 MODEL_METACLASS_FULLNAME = 'pydantic_xml.model.XmlModelMeta'
-ATTR_FULLNAME = 'pydantic_xml.model.attr'
-ELEMENT_FULLNAME = 'pydantic_xml.model.element'
-WRAPPED_FULLNAME = 'pydantic_xml.model.wrapped'
+ATTR_FULLNAME = 'pydantic_xml.fields.attr'
+ELEMENT_FULLNAME = 'pydantic_xml.fields.element'
+WRAPPED_FULLNAME = 'pydantic_xml.fields.wrapped'
 ENTITIES_FULLNAME = (ATTR_FULLNAME, ELEMENT_FULLNAME, WRAPPED_FULLNAME)
 
 
-- 
2.43.0


From aef862a4991eea621765e7aee1132989c8d57644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:29 +0000
Subject: [PATCH 19/23] fix: mypy plugin takes arguments of wrapped entities
 into account

wrapped('path', element(default=None)) was treated as a required field.
---
 pydantic_xml/mypy.py | 56 ++++++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 26 deletions(-)

diff --git a/pydantic_xml/mypy.py b/pydantic_xml/mypy.py
index b885fc5..996fd67 100644
--- a/pydantic_xml/mypy.py
+++ b/pydantic_xml/mypy.py
@@ -1,4 +1,4 @@
-from typing import Callable, Optional, Tuple, Union
+from typing import Callable, Iterator, Optional, Tuple, Union
 
 from mypy import nodes
 from mypy.plugin import ClassDefContext, Plugin
@@ -26,6 +26,27 @@ class PydanticXmlPlugin(PydanticPlugin):
         transformer.transform()
 
 
+def _is_entity(expr: nodes.Node) -> bool:
+    return (
+        isinstance(expr, nodes.CallExpr) and
+        isinstance(expr.callee, nodes.RefExpr) and
+        expr.callee.fullname in ENTITIES_FULLNAME
+    )
+
+
+def _get_entity_args(expr: nodes.CallExpr) -> Iterator[Tuple[nodes.Expression, Optional[str]]]:
+    """
+    Returns entity arguments. The arguments of a wrapped entity go first since they override the wrapper ones.
+    """
+
+    if isinstance(expr.callee, nodes.RefExpr) and expr.callee.fullname == WRAPPED_FULLNAME:
+        for i, (arg, name) in enumerate(zip(expr.args, expr.arg_names)):
+            if (name == 'entity' or (name is None and i == 1)) and isinstance(arg, nodes.CallExpr) and _is_entity(arg):
+                yield from _get_entity_args(arg)
+
+    yield from zip(expr.args, expr.arg_names)
+
+
 class PydanticXmlModelTransformer(PydanticModelTransformer):
     @staticmethod
     def get_has_default(stmt: nodes.AssignmentStmt) -> bool:
@@ -33,12 +54,8 @@ class PydanticXmlModelTransformer(PydanticModelTransformer):
         if isinstance(expr, nodes.TempNode):
             return False
 
-        if (
-            isinstance(expr, nodes.CallExpr) and
-            isinstance(expr.callee, nodes.RefExpr) and
-            expr.callee.fullname in ENTITIES_FULLNAME
-        ):
-            for arg, name in zip(expr.args, expr.arg_names):
+        if isinstance(expr, nodes.CallExpr) and _is_entity(expr):
+            for arg, name in _get_entity_args(expr):
                 if name == 'default':
                     return arg.__class__ is not nodes.EllipsisExpr
                 if name == 'default_factory':
@@ -54,12 +71,8 @@ class PydanticXmlModelTransformer(PydanticModelTransformer):
         if isinstance(expr, nodes.TempNode):
             return None, False
 
-        if (
-            isinstance(expr, nodes.CallExpr) and
-            isinstance(expr.callee, nodes.RefExpr) and
-            expr.callee.fullname in ENTITIES_FULLNAME
-        ):
-            for arg, arg_name in zip(expr.args, expr.arg_names):
+        if isinstance(expr, nodes.CallExpr) and _is_entity(expr):
+            for arg, arg_name in _get_entity_args(expr):
                 if arg_name != 'alias':
                     continue
                 if isinstance(arg, nodes.StrExpr):
@@ -72,12 +85,8 @@ class PydanticXmlModelTransformer(PydanticModelTransformer):
     @staticmethod
     def get_strict(stmt: nodes.AssignmentStmt) -> Optional[bool]:
         expr = stmt.rvalue
-        if (
-            isinstance(expr, nodes.CallExpr) and
-            isinstance(expr.callee, nodes.RefExpr) and
-            expr.callee.fullname in ENTITIES_FULLNAME
-        ):
-            for arg, name in zip(expr.args, expr.arg_names):
+        if isinstance(expr, nodes.CallExpr) and _is_entity(expr):
+            for arg, name in _get_entity_args(expr):
                 if name != 'strict':
                     continue
                 if isinstance(arg, nodes.NameExpr):
@@ -95,16 +104,11 @@ class PydanticXmlModelTransformer(PydanticModelTransformer):
         if isinstance(expr, nodes.TempNode):
             return False
 
-        if not (
-            isinstance(expr, nodes.CallExpr) and
-            isinstance(expr.callee, nodes.RefExpr) and
-            expr.callee.fullname in ENTITIES_FULLNAME
-        ):
+        if not (isinstance(expr, nodes.CallExpr) and _is_entity(expr)):
             return False
 
-        for i, arg_name in enumerate(expr.arg_names):
+        for arg, arg_name in _get_entity_args(expr):
             if arg_name == 'frozen':
-                arg = expr.args[i]
                 return isinstance(arg, nodes.NameExpr) and arg.fullname == 'builtins.True'
 
         return PydanticModelTransformer.is_field_frozen(stmt)
-- 
2.43.0


From f1e2850fb6b4c4587be3ad28c6ec854bdc592a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:29 +0000
Subject: [PATCH 20/23] fix: mypy plugin takes validation aliases of field
 specifiers into account

It is the validation alias that names the constructor argument.
---
 pydantic_xml/mypy.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pydantic_xml/mypy.py b/pydantic_xml/mypy.py
index 996fd67..bb8132b 100644
--- a/pydantic_xml/mypy.py
+++ b/pydantic_xml/mypy.py
@@ -72,13 +72,14 @@ class PydanticXmlModelTransformer(PydanticModelTransformer):
             return None, False
 
         if isinstance(expr, nodes.CallExpr) and _is_entity(expr):
-            for arg, arg_name in _get_entity_args(expr):
-                if arg_name != 'alias':
-                    continue
-                if isinstance(arg, nodes.StrExpr):
-                    return arg.value, False
-                else:
-                    return None, True
+            for alias_name in ('validation_alias', 'alias'):
+                for arg, arg_name in _get_entity_args(expr):
+                    if arg_name != alias_name:
+                        continue
+                    if isinstance(arg, nodes.StrExpr):
+                        return arg.value, False
+                    else:
+                        return None, True
 
         return PydanticModelTransformer.get_alias_info(stmt)
 
-- 
2.43.0


From 05af7c079121ae883d221017f4bb19c2dca13d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:48 +0000
Subject: [PATCH 21/23] fix: mypy plugin takes frozen argument of pydantic
 fields into account

---
 pydantic_xml/mypy.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pydantic_xml/mypy.py b/pydantic_xml/mypy.py
index bb8132b..b7184bd 100644
--- a/pydantic_xml/mypy.py
+++ b/pydantic_xml/mypy.py
@@ -105,11 +105,11 @@ class PydanticXmlModelTransformer(PydanticModelTransformer):
         if isinstance(expr, nodes.TempNode):
             return False
 
-        if not (isinstance(expr, nodes.CallExpr) and _is_entity(expr)):
-            return False
+        if isinstance(expr, nodes.CallExpr) and _is_entity(expr):
+            for arg, arg_name in _get_entity_args(expr):
+                if arg_name == 'frozen':
+                    return isinstance(arg, nodes.NameExpr) and arg.fullname == 'builtins.True'
 
-        for arg, arg_name in _get_entity_args(expr):
-            if arg_name == 'frozen':
-                return isinstance(arg, nodes.NameExpr) and arg.fullname == 'builtins.True'
+            return False
 
         return PydanticModelTransformer.is_field_frozen(stmt)
-- 
2.43.0


From 929e982e6a8ae032307fface776d0ee0d39b4f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:06 +0000
Subject: [PATCH 22/23] fix: an element without a namespace doesn't get into
 the default one of its parent (lxml)

---
 pydantic_xml/element/native/lxml.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pydantic_xml/element/native/lxml.py b/pydantic_xml/element/native/lxml.py
index 0f9891b..2b8b7da 100644
--- a/pydantic_xml/element/native/lxml.py
+++ b/pydantic_xml/element/native/lxml.py
@@ -43,15 +43,25 @@ class XmlElement(BaseXmlElement[ElementT]):
         )
 
     def to_native(self) -> ElementT:
+        return self._to_native(default_ns='')
+
+    def _to_native(self, default_ns: str) -> ElementT:
+        nsmap = dict(self._nsmap or {})
+        if nsmap.get('', default_ns) and not self._tag.startswith('{'):
+            # the element has no namespace so that the default one mustn't be applied to it
+            nsmap[''] = ''
+
         element = etree.Element(
             self._tag,
             attrib=self._state.attrib,
             # https://github.com/lxml/lxml-stubs/issues/76
-            nsmap={ns or None: uri for ns, uri in self._nsmap.items()} if self._nsmap else None,  # type: ignore[misc]
+            nsmap={ns or None: uri for ns, uri in nsmap.items()} or None,  # type: ignore[misc]
         )
         element.text = self._state.text
         element.tail = self._state.tail
-        element.extend([element.to_native() for element in self._state.elements])
+
+        default_ns = nsmap.get('', default_ns)
+        element.extend([element._to_native(default_ns) for element in self._state.elements])
 
         return element
 
-- 
2.43.0


From b703600d5f1a5e372cbc6270cfbad7926de6f333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:57 +0000
Subject: [PATCH 23/23] fix: namespace prefixes redefined by a nested element
 are kept (lxml)

---
 pydantic_xml/element/native/lxml.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pydantic_xml/element/native/lxml.py b/pydantic_xml/element/native/lxml.py
index 2b8b7da..038239a 100644
--- a/pydantic_xml/element/native/lxml.py
+++ b/pydantic_xml/element/native/lxml.py
@@ -1,5 +1,5 @@
 import typing
-from typing import List, Optional, Union
+from typing import Any, List, Optional, Union
 
 from lxml import etree
 
@@ -43,25 +43,28 @@ class XmlElement(BaseXmlElement[ElementT]):
         )
 
     def to_native(self) -> ElementT:
-        return self._to_native(default_ns='')
+        return self._to_native(parent=None, default_ns='')
 
-    def _to_native(self, default_ns: str) -> ElementT:
+    def _to_native(self, parent: Optional[ElementT], default_ns: str) -> ElementT:
         nsmap = dict(self._nsmap or {})
         if nsmap.get('', default_ns) and not self._tag.startswith('{'):
             # the element has no namespace so that the default one mustn't be applied to it
             nsmap[''] = ''
 
-        element = etree.Element(
-            self._tag,
-            attrib=self._state.attrib,
-            # https://github.com/lxml/lxml-stubs/issues/76
-            nsmap={ns or None: uri for ns, uri in nsmap.items()} or None,  # type: ignore[misc]
-        )
+        # https://github.com/lxml/lxml-stubs/issues/76
+        native_nsmap: Any = {ns or None: uri for ns, uri in nsmap.items()} or None
+        if parent is None:
+            element = etree.Element(self._tag, attrib=self._state.attrib, nsmap=native_nsmap)
+        else:
+            # the element is created inside its parent since lxml replaces the prefixes of an element added later
+            # by the ones of the parent even if the element redefines them
+            element = etree.SubElement(parent, self._tag, attrib=self._state.attrib, nsmap=native_nsmap)
         element.text = self._state.text
         element.tail = self._state.tail
 
         default_ns = nsmap.get('', default_ns)
-        element.extend([element._to_native(default_ns) for element in self._state.elements])
+        for sub_element in self._state.elements:
+            typing.cast(XmlElement, sub_element)._to_native(element, default_ns)
 
         return element
 
-- 
2.43.0

