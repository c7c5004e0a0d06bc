From f5384484164ac61ee57ae5e2e02133f67fa13121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:52 +0000
Subject: [PATCH 01/93] fix: keep facts that have no id, or share one across
 documents, in Filing.get_all_facts

---
 brel/data/fact/in_memory_fact_repository.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/brel/data/fact/in_memory_fact_repository.py b/brel/data/fact/in_memory_fact_repository.py
index 6eb46ae..1a78bf9 100644
--- a/brel/data/fact/in_memory_fact_repository.py
+++ b/brel/data/fact/in_memory_fact_repository.py
@@ -16,7 +16,7 @@ from brel.brel_fact import Fact
 class InMemoryFactRepository(FactRepository):
     def __init__(self) -> None:
         self.__facts_by_id: dict[str, Fact] = {}
-        self.__facts_without_id: list[Fact] = []
+        self.__facts: list[Fact] = []
 
     def get_by_id(self, id: str) -> Fact:
         return self.__facts_by_id[id]
@@ -31,15 +31,16 @@ class InMemoryFactRepository(FactRepository):
         return id in self.__facts_by_id
 
     def get_all(self):
-        return list(self.__facts_by_id.values())
+        return list(self.__facts)
 
     def upsert(self, fact: Fact) -> None:
         """
         Set the fact by its ID.
+        The ID is optional and only unique within one document, so every fact is kept.
         :param fact: The fact to set.
         """
+        self.__facts.append(fact)
+
         fact_id = fact.get_id()
-        if fact_id is None:
-            self.__facts_without_id.append(fact)
-        else:
+        if fact_id is not None:
             self.__facts_by_id[fact_id] = fact
-- 
2.43.0


From aa6f370f0da903bd8ec3611f5a1d51dabf3d51ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:29 +0000
Subject: [PATCH 02/93] fix: compare QNames by namespace and local name, not by
 prefix

---
 brel/qnames/qname.py                                   | 5 +++--
 brel/services/report_element/report_element_service.py | 8 ++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/brel/qnames/qname.py b/brel/qnames/qname.py
index 15af6a9..eb0ecbf 100644
--- a/brel/qnames/qname.py
+++ b/brel/qnames/qname.py
@@ -8,13 +8,14 @@
 ====================
 """
 
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 
 
 @dataclass(frozen=True, eq=True)
 class QName:
     uri: str
-    prefix: str
+    # the prefix is only shorthand for the uri, it is not part of the name's identity
+    prefix: str = field(compare=False)
     local_name: str
 
     def get_URL(self) -> str:
diff --git a/brel/services/report_element/report_element_service.py b/brel/services/report_element/report_element_service.py
index 23d6155..1d353c2 100644
--- a/brel/services/report_element/report_element_service.py
+++ b/brel/services/report_element/report_element_service.py
@@ -45,7 +45,7 @@ class ReportElementService:
             )
 
         if uri_candidates or prefix_candidates:
-            qname_candidates = (
+            qname_candidates = {
                 QName(
                     uri,
                     prefix,
@@ -53,7 +53,7 @@ class ReportElementService:
                 )
                 for uri in uri_candidates
                 for prefix in prefix_candidates
-            )
+            }
 
             matching_qnames = filter(
                 lambda qname: self.__report_element_repository.has_typed_qname(
@@ -102,7 +102,7 @@ class ReportElementService:
                     self.__report_element_repository.get_by_qname,
                     filter(
                         lambda qname: self.__report_element_repository.has_qname(qname),
-                        [
+                        {
                             QName(
                                 uri,
                                 prefix,
@@ -110,7 +110,7 @@ class ReportElementService:
                             )
                             for uri in uri_candidates
                             for prefix in prefix_candidates
-                        ],
+                        },
                     ),
                 )
             )
-- 
2.43.0


From 96a58a98a111179729523b97e18761fa15483424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:37 +0000
Subject: [PATCH 03/93] fix: keep the decimals and precision of facts in XML
 instances

---
 brel/parsers/XML/xml_facts_parser.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/brel/parsers/XML/xml_facts_parser.py b/brel/parsers/XML/xml_facts_parser.py
index 73cf669..41cbce1 100644
--- a/brel/parsers/XML/xml_facts_parser.py
+++ b/brel/parsers/XML/xml_facts_parser.py
@@ -19,6 +19,9 @@ from brel import Context, Fact
 from brel.characteristics import *
 from brel.errors.error_code import ErrorCode
 from brel.errors.error_instance import ErrorInstance
+from brel.parsers.XHMTL.elements.parse_non_fraction import (
+    parse_decimals_or_precision,
+)
 from brel.parsers.XML.characteristics import parse_unit_from_xml
 from brel.parsers.XML.xml_context_parser import parse_context_xml
 from brel.parsers.utils.error_utils import error_on_none
@@ -80,7 +83,29 @@ def parse_fact_from_xml(
             context_concept=context_concept.get_value().get_name().clark_notation(),
         )
 
-    fact_repository.upsert(Fact(context, fact_value, fact_id))
+    decimals_str = fact_xml_element.get("decimals")
+    decimals: float | None = None
+    try:
+        decimals = parse_decimals_or_precision(decimals_str, True)
+    except ValueError:
+        error_repository.insert(
+            ErrorCode.INVALID_DECIMALS_ATTRIBUTE_VALUE,
+            fact_xml_element,
+            decimals=decimals_str,
+        )
+
+    precision_str = fact_xml_element.get("precision")
+    precision: float | None = None
+    try:
+        precision = parse_decimals_or_precision(precision_str, False)
+    except ValueError:
+        error_repository.insert(
+            ErrorCode.INVALID_PRECISION_ATTRIBUTE_VALUE,
+            fact_xml_element,
+            precision=precision_str,
+        )
+
+    fact_repository.upsert(Fact(context, fact_value, fact_id, decimals, precision))
 
 
 def parse_facts_xml(
-- 
2.43.0


From 1090fedd02400693cc1443f2b27bf9dc1c8ecc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:37 +0000
Subject: [PATCH 04/93] fix: tell entities with the same identifier but
 different schemes apart

---
 .../XML/characteristics/xml_parse_entity.py        | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/brel/parsers/XML/characteristics/xml_parse_entity.py b/brel/parsers/XML/characteristics/xml_parse_entity.py
index cc4b5da..33dd7f8 100644
--- a/brel/parsers/XML/characteristics/xml_parse_entity.py
+++ b/brel/parsers/XML/characteristics/xml_parse_entity.py
@@ -54,9 +54,11 @@ def parse_entity_from_xml(
         f"Could not find text in identifier element {identifier_element}",
         return None
 
-    if characteristic_repository.has(entity_id, EntityCharacteristic):
-        return characteristic_repository.get(entity_id, EntityCharacteristic)
-    else:
-        entity_characteristic = EntityCharacteristic(entity_id, entity_url)
-        characteristic_repository.upsert(entity_id, entity_characteristic)
-        return entity_characteristic
+    entity_characteristic = EntityCharacteristic(entity_id, entity_url)
+
+    # The identifier is only unique within its scheme
+    return characteristic_repository.get_or_create(
+        entity_characteristic.get_value(),
+        EntityCharacteristic,
+        lambda: entity_characteristic,
+    )
-- 
2.43.0


From 3f9db4d140dd9123af2cea65dbdd4f988dbdf110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:00 +0000
Subject: [PATCH 05/93] fix: report an entity identifier without a value

---
 brel/parsers/XML/characteristics/xml_parse_entity.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/brel/parsers/XML/characteristics/xml_parse_entity.py b/brel/parsers/XML/characteristics/xml_parse_entity.py
index 33dd7f8..7b3b4dc 100644
--- a/brel/parsers/XML/characteristics/xml_parse_entity.py
+++ b/brel/parsers/XML/characteristics/xml_parse_entity.py
@@ -51,7 +51,9 @@ def parse_entity_from_xml(
     entity_id = identifier_element.text
 
     if entity_id is None:
-        f"Could not find text in identifier element {identifier_element}",
+        error_repository.insert(
+            ErrorCode.ENTITY_IDENTIFIER_MISSING_VALUE, identifier_element
+        )
         return None
 
     entity_characteristic = EntityCharacteristic(entity_id, entity_url)
-- 
2.43.0


From 685a6aaf3d62841b2b804bb2871592ff5590deab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:02 +0000
Subject: [PATCH 06/93] fix: read every measure of a unit, and ignore comments
 inside units

---
 .../XML/characteristics/xml_parse_unit.py     | 41 +++++++++++--------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/brel/parsers/XML/characteristics/xml_parse_unit.py b/brel/parsers/XML/characteristics/xml_parse_unit.py
index 21fe6a9..8c218c6 100644
--- a/brel/parsers/XML/characteristics/xml_parse_unit.py
+++ b/brel/parsers/XML/characteristics/xml_parse_unit.py
@@ -64,8 +64,10 @@ def parse_unit_from_xml(
     denominators: list[QName] = []
 
     # get the child elements of the unit and check if its tag is 'measure' or 'divide'
-    children = list(xml_element)
-    if len(children) != 1:
+    # a unit is either a product of measures or a single divide
+    children = list(xml_element.iterchildren("{*}*"))
+    is_product = len(children) > 0 and all("measure" in c.tag for c in children)
+    if len(children) != 1 and not is_product:
         error_repository.insert(
             ErrorCode.XML_UNIT_ELEMENT_WITHOUT_ONE_CHILD,
             xml_element,
@@ -75,16 +77,17 @@ def parse_unit_from_xml(
     else:
         child = children[0]
         child_tag = child.tag
-        if "measure" in child_tag:
-            # get its text and parse it into a QName
-            child_qname = parse_unit_measure_from_xml(child, filing_context)
-            if not child_qname:
-                return None
+        if is_product:
+            # get the text of every measure and parse it into a QName
+            for measure in children:
+                measure_qname = parse_unit_measure_from_xml(measure, filing_context)
+                if not measure_qname:
+                    return None
 
-            numerators.append(child_qname)
+                numerators.append(measure_qname)
 
         elif "divide" in child_tag:
-            num_and_denom = list(child)
+            num_and_denom = list(child.iterchildren("{*}*"))
             if len(num_and_denom) != 2:
                 error_repository.insert(
                     ErrorCode.XML_DIVIDE_ELEMENT_WITHOUT_TWO_CHILDREN,
@@ -107,18 +110,20 @@ def parse_unit_from_xml(
                         child_tag=num_or_denom_tag,
                     )
 
-                measure_child = num_or_denom[0]
-                child_qname = parse_unit_measure_from_xml(measure_child, filing_context)
+                for measure_child in num_or_denom.iterchildren("{*}*"):
+                    child_qname = parse_unit_measure_from_xml(
+                        measure_child, filing_context
+                    )
 
-                if not child_qname:
-                    return None
+                    if not child_qname:
+                        return None
 
-                if "unitNumerator" in num_or_denom_tag:
-                    numerators.append(child_qname)
-                elif "unitDenominator" in num_or_denom_tag:
-                    denominators.append(child_qname)
+                    if "unitNumerator" in num_or_denom_tag:
+                        numerators.append(child_qname)
+                    elif "unitDenominator" in num_or_denom_tag:
+                        denominators.append(child_qname)
 
-            if num_and_denom[0].tag == num_and_denom[1].tag:
+            if len(num_and_denom) == 2 and num_and_denom[0].tag == num_and_denom[1].tag:
                 error_repository.insert(
                     ErrorCode.XML_DUPLICATE_DIVIDE_ELEMENT_CHILDREN,
                     xml_element,
-- 
2.43.0


From cbe8f5ce1782049008859d6ab6e083ae2eb9b391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:04 +0000
Subject: [PATCH 07/93] fix: look units up per instance document

---
 brel/parsers/XML/xml_facts_parser.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/brel/parsers/XML/xml_facts_parser.py b/brel/parsers/XML/xml_facts_parser.py
index 41cbce1..b281f4b 100644
--- a/brel/parsers/XML/xml_facts_parser.py
+++ b/brel/parsers/XML/xml_facts_parser.py
@@ -121,7 +121,7 @@ def parse_facts_xml(
 
     xml_service = context.get_xml_service()
 
-    for xbrl_instance in xml_service.get_all_etrees():
+    for instance_index, xbrl_instance in enumerate(xml_service.get_all_etrees()):
         for xml_fact in find_elements(xbrl_instance, ".//*[@contextRef]"):
             fact_characteristics: list[UnitCharacteristic | ConceptCharacteristic] = []
 
@@ -165,15 +165,17 @@ def parse_facts_xml(
 
                     continue
 
-                if not characteristics_repository.has(unit_id, UnitCharacteristic):
+                # unit ids are only unique within one instance document
+                unit_key = f"{instance_index} {unit_id}"
+                if not characteristics_repository.has(unit_key, UnitCharacteristic):
                     new_unit = parse_unit_from_xml(context, unit_xml)
                     if not new_unit:
                         continue
 
-                    characteristics_repository.upsert(unit_id, new_unit)
+                    characteristics_repository.upsert(unit_key, new_unit)
 
                 unit_characteristic = characteristics_repository.get(
-                    unit_id, UnitCharacteristic
+                    unit_key, UnitCharacteristic
                 )
 
                 fact_characteristics.append(
-- 
2.43.0


From d63e124dfed9237618e0eb6f7c4774ad88744f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:18 +0000
Subject: [PATCH 08/93] fix: report an unknown typed dimension instead of
 failing to open the filing

---
 brel/parsers/XML/characteristics/xml_parse_typed_dimension.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py b/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
index b06f67c..76b7a1a 100644
--- a/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
+++ b/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
@@ -72,6 +72,8 @@ def parse_typed_dimension_from_xml(
             dimension=dimension_axis,
         )
 
+        return None
+
     i_report_element = report_element_repository.get_typed_by_qname(
         dimension_qname, Dimension
     )
-- 
2.43.0


From 9ede9ea629754520c1e77bc437824fc06769b166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:20 +0000
Subject: [PATCH 09/93] fix: ignore the whitespace around names and identifiers
 in instances

---
 brel/parsers/XML/characteristics/xml_parse_entity.py | 3 ++-
 brel/qnames/qname_utils.py                           | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/brel/parsers/XML/characteristics/xml_parse_entity.py b/brel/parsers/XML/characteristics/xml_parse_entity.py
index 7b3b4dc..f023e9c 100644
--- a/brel/parsers/XML/characteristics/xml_parse_entity.py
+++ b/brel/parsers/XML/characteristics/xml_parse_entity.py
@@ -56,7 +56,8 @@ def parse_entity_from_xml(
         )
         return None
 
-    entity_characteristic = EntityCharacteristic(entity_id, entity_url)
+    # The identifier is an xs:token, the whitespace around it is not part of it
+    entity_characteristic = EntityCharacteristic(entity_id.strip(), entity_url)
 
     # The identifier is only unique within its scheme
     return characteristic_repository.get_or_create(
diff --git a/brel/qnames/qname_utils.py b/brel/qnames/qname_utils.py
index 27a2ede..4be434a 100644
--- a/brel/qnames/qname_utils.py
+++ b/brel/qnames/qname_utils.py
@@ -24,6 +24,9 @@ def qname_from_str(
     the conversion, it will be returned.
     :returns: The QName object.
     """
+    # the whitespace around an xs:QName is not part of it
+    qname_str = qname_str.strip()
+
     if is_clark_notation(qname_str):
         return qname_from_clark_notation(qname_str, referencing_element)
     elif is_namespace_localname_notation(qname_str):
-- 
2.43.0


From 23c1202750463f73fbb9665153bca4629c8cc138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:52 +0000
Subject: [PATCH 10/93] fix: tell dimensions and members apart by name, not by
 the prefix an instance uses

---
 brel/data/aspect/aspect_repository.py             |  9 +++++++++
 brel/data/aspect/in_memory_aspect_repository.py   | 15 +++++++++++++++
 .../xml_parse_explicit_dimension.py               | 14 +++++---------
 .../characteristics/xml_parse_typed_dimension.py  | 12 +++---------
 4 files changed, 32 insertions(+), 18 deletions(-)

diff --git a/brel/data/aspect/aspect_repository.py b/brel/data/aspect/aspect_repository.py
index 97fcdb7..6780c45 100644
--- a/brel/data/aspect/aspect_repository.py
+++ b/brel/data/aspect/aspect_repository.py
@@ -22,6 +22,15 @@ class AspectRepository(ABC):
     def get_by_qname(self, qname: QName) -> Aspect:
         return self.get(qname.prefix_local_name_notation())
 
+    @abstractmethod
+    def get_or_create_by_qname(self, qname: QName) -> Aspect:
+        """
+        :param qname: the name of a dimension
+        :returns Aspect: the aspect of that dimension. Different dimensions have different aspects,
+        no matter which prefixes are used to refer to them.
+        """
+        raise NotImplementedError()
+
     @abstractmethod
     def has(self, name: str) -> bool:
         raise NotImplementedError()
diff --git a/brel/data/aspect/in_memory_aspect_repository.py b/brel/data/aspect/in_memory_aspect_repository.py
index 10029d5..9654233 100644
--- a/brel/data/aspect/in_memory_aspect_repository.py
+++ b/brel/data/aspect/in_memory_aspect_repository.py
@@ -10,15 +10,30 @@
 
 from brel.characteristics.brel_aspect import Aspect
 from brel.data.aspect.aspect_repository import AspectRepository
+from brel.qnames.qname import QName
 
 
 class InMemoryAspectRepository(AspectRepository):
     def __init__(self) -> None:
         self.__aspects: dict[str, Aspect] = {}
+        self.__aspects_by_qname: dict[QName, Aspect] = {}
 
     def get(self, name: str) -> Aspect:
         return self.__aspects[name]
 
+    def get_or_create_by_qname(self, qname: QName) -> Aspect:
+        if qname not in self.__aspects_by_qname:
+            name = qname.prefix_local_name_notation()
+            if self.has(name):
+                # another dimension goes by this name
+                name = qname.clark_notation()
+
+            aspect = Aspect(name, [])
+            self.upsert(aspect)
+            self.__aspects_by_qname[qname] = aspect
+
+        return self.__aspects_by_qname[qname]
+
     def has(self, name: str) -> bool:
         return name in self.__aspects
 
diff --git a/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py b/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
index b75f1ec..8937330 100644
--- a/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
+++ b/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
@@ -13,10 +13,7 @@ Contains the xml parser for parsing an explicit dimension characteristic from an
 from typing import Optional
 import lxml.etree
 
-from brel.characteristics import (
-    Aspect,
-    ExplicitDimensionCharacteristic,
-)
+from brel.characteristics import ExplicitDimensionCharacteristic
 from brel.errors.error_code import ErrorCode
 
 from brel.parsers.utils.lxml_utils import get_str_attribute
@@ -48,10 +45,6 @@ def parse_explicit_dimension_from_xml(
     error_repository = filing_context.get_error_repository()
 
     aspect_id = get_str_attribute(xml_element, "dimension")
-    if not characteristic_repository.has(aspect_id, ExplicitDimensionCharacteristic):
-        aspect_repository.upsert(Aspect(aspect_id, []))
-
-    aspect = aspect_repository.get(aspect_id)
     dimension_qname = qname_from_str(aspect_id, xml_element)
     if not report_element_repository.has_typed_qname(dimension_qname, Dimension):
         error_repository.insert(
@@ -61,6 +54,7 @@ def parse_explicit_dimension_from_xml(
         )
         return None
 
+    aspect = aspect_repository.get_or_create_by_qname(dimension_qname)
     dimension = report_element_repository.get_typed_by_qname(dimension_qname, Dimension)
     member_id = xml_element.text
     if not member_id:
@@ -83,7 +77,9 @@ def parse_explicit_dimension_from_xml(
 
     member = report_element_repository.get_typed_by_qname(member_qname, Member)
 
-    dimension_id = f"{aspect_id} {member_id}"
+    dimension_id = (
+        f"{dimension_qname.clark_notation()} {member_qname.clark_notation()}"
+    )
     if not characteristic_repository.has(dimension_id, ExplicitDimensionCharacteristic):
         characteristic_repository.upsert(
             dimension_id,
diff --git a/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py b/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
index 76b7a1a..92ea450 100644
--- a/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
+++ b/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
@@ -14,10 +14,7 @@ It parses XBRL in the XML syntax.
 from typing import Optional
 import lxml.etree
 
-from brel.characteristics import (
-    Aspect,
-    TypedDimensionCharacteristic,
-)
+from brel.characteristics import TypedDimensionCharacteristic
 from brel.contexts.filing_context import FilingContext
 from brel.errors.error_code import ErrorCode
 from brel.parsers.utils.iterable_utils import get_first
@@ -60,10 +57,6 @@ def parse_typed_dimension_from_xml(
 
     dimension_axis = get_str_attribute(xml_element, "dimension")
 
-    if not aspect_repository.has(dimension_axis):
-        aspect_repository.upsert(Aspect(dimension_axis, []))
-    dimension_aspect = aspect_repository.get(dimension_axis)
-
     dimension_qname = qname_from_str(dimension_axis, xml_element)
     if not report_element_repository.has_typed_qname(dimension_qname, Dimension):
         error_repository.insert(
@@ -74,6 +67,7 @@ def parse_typed_dimension_from_xml(
 
         return None
 
+    dimension_aspect = aspect_repository.get_or_create_by_qname(dimension_qname)
     i_report_element = report_element_repository.get_typed_by_qname(
         dimension_qname, Dimension
     )
@@ -104,7 +98,7 @@ def parse_typed_dimension_from_xml(
 
         return None
 
-    dimension_id = f"{dimension_axis} {dimension_value}"
+    dimension_id = f"{dimension_qname.clark_notation()} {dimension_value}"
     if not characteristic_repository.has(dimension_id, TypedDimensionCharacteristic):
         dimension_characteristic = TypedDimensionCharacteristic(
             i_report_element, dimension_value, dimension_aspect
-- 
2.43.0


From 15a426e523d9e1265c7240366c739c554cc0f313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:15 +0000
Subject: [PATCH 11/93] fix: read local files from disk instead of a cached
 file of the same name

---
 brel/services/xml/xml_service.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index ae53ca7..afbe155 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -64,13 +64,14 @@ class XMLService:
 
         parser = self.__parser_resolver.get_parser(uri)
 
-        if self.__file_service.has_file(uri):
+        if is_uri_remote and self.__file_service.has_file(uri):
             with self.__file_service.get_file(uri) as file:
                 self.__xml_repository.add_etree(uri, parser(file))
         elif is_uri_remote:
             with self.__file_service.download_and_add_file(uri) as file:
                 self.__xml_repository.add_etree(uri, parser(file))
         else:
+            # local files can change, or share their name with another file
             local_filepath = urllib.parse.urlparse(uri).path
             with self.__file_service.copy_and_add_file(local_filepath) as file:
                 self.__xml_repository.add_etree(uri, parser(file))
-- 
2.43.0


From e709f3f3ea97f39627ad999a0c6e607e33d68986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:18 +0000
Subject: [PATCH 12/93] fix: load a file once, however the references to it are
 spelled

---
 brel/services/xml/xml_service.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index afbe155..c49ecaa 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -8,6 +8,7 @@
 ====================
 """
 
+import os
 import re
 from typing import List, Optional, Set
 import urllib.parse
@@ -57,7 +58,11 @@ class XMLService:
             uri = urllib.parse.urljoin(referencing_uri, uri)
 
         uri = self.__uri_rewrite_repository.rewrite(uri)
-        is_uri_remote = uri.startswith("http") or referencing_uri.startswith("http")
+        is_uri_remote = uri.startswith("http")
+
+        if not is_uri_remote:
+            # the same file must always go by the same name
+            uri = os.path.normpath(uri)
 
         if self.__xml_repository.has_etree(uri):
             return
-- 
2.43.0


From 9dd650df76bcf8c1087d5afa3c5a1633b564f2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:43 +0000
Subject: [PATCH 13/93] fix: find the files a document refers to by parsing it,
 in document order

---
 brel/services/xml/xml_service.py | 52 +++++++++++++++-----------------
 1 file changed, 24 insertions(+), 28 deletions(-)

diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index c49ecaa..2f7949b 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -9,10 +9,9 @@
 """
 
 import os
-import re
-from typing import List, Optional, Set
+from typing import Dict, List, Optional, Set
 import urllib.parse
-from lxml.etree import _ElementTree  # type: ignore
+from lxml.etree import QName, _ElementTree  # type: ignore
 import urllib
 
 from brel.data.uri_rewrite.uri_rewrite_repository import URIRewriteRepository
@@ -81,34 +80,31 @@ class XMLService:
             with self.__file_service.copy_and_add_file(local_filepath) as file:
                 self.__xml_repository.add_etree(uri, parser(file))
 
-        with self.__file_service.get_file(uri) as file:
-            for reference_uri in self.__extract_references(file.read()):
-                self.add_etree_recursive(reference_uri, referencing_uri=uri)
-
-    def __extract_references(self, content: bytes) -> set[str]:
-        reference_uris: set[str] = set()
-        reference_pattern = re.compile(
-            r":href=['\"]([^'\"]+)['\"]|schemaLocation=['\"]([^'\"]+)['\"]"
-        )
-
-        for match in reference_pattern.finditer(content.decode("utf-8")):
-            href = match.group(1)
-            if href:
-                if "#" in href:
-                    href_uri, _ = href.split("#")
-                else:
-                    href_uri = href
+        for reference_uri in self.__extract_references(
+            self.__xml_repository.get_etree(uri)
+        ):
+            self.add_etree_recursive(reference_uri, referencing_uri=uri)
+
+    def __extract_references(self, tree: _ElementTree) -> List[str]:
+        # a dict, because it keeps the order in which the references occur in the document
+        reference_uris: Dict[str, None] = {}
 
-                if href_uri:
-                    reference_uris.add(href_uri)
+        for element in tree.iter("{*}*"):
+            for name, value in element.attrib.items():
+                local_name = QName(name).localname
+
+                if local_name == "href" and QName(name).namespace is not None:
+                    reference_uri, _ = urllib.parse.urldefrag(value.strip())
+                elif local_name == "schemaLocation" and value.strip():
+                    # get only last part, as there can be 2 links, only the second of which is relevant in our case.
+                    reference_uri = value.split()[-1]
+                else:
+                    continue
 
-            schema_location = match.group(2)
-            if schema_location:
-                # get only last part, as there can be 2 links, only the second of which is relevant in our case.
-                schema_location = schema_location.split()[-1]
-                reference_uris.add(schema_location)
+                if reference_uri:
+                    reference_uris[reference_uri] = None
 
-        return reference_uris
+        return list(reference_uris)
 
     def get_etree(self, uri: str) -> _ElementTree:
         return self.__xml_repository.get_etree(uri)
-- 
2.43.0


From 79ff145026159cff213d5f42ea7a09735a2c914e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:45 +0000
Subject: [PATCH 14/93] fix: cache files byte by byte, whatever their encoding

---
 brel/data/file/pyfs_file_repository.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/brel/data/file/pyfs_file_repository.py b/brel/data/file/pyfs_file_repository.py
index 5c40743..9b97d2d 100644
--- a/brel/data/file/pyfs_file_repository.py
+++ b/brel/data/file/pyfs_file_repository.py
@@ -28,10 +28,8 @@ class PyFsFileRepository(FileRepository):
             self.fs.removetree("/")
 
     def add_file(self, uri: str, file: IO[bytes]) -> None:
-        return self.fs.writetext(
-            uri_to_filename(uri),
-            file.read().decode("utf-8"),
-        )
+        # the XML declaration says how the bytes are encoded
+        self.fs.writebytes(uri_to_filename(uri), file.read())
 
     def get_file(self, uri: str) -> IO[bytes]:
         file_name = uri_to_filename(uri)
-- 
2.43.0


From b59943646ca100774b70bf850ad36478f3bdc477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:48 +0000
Subject: [PATCH 15/93] fix: ignore comments and processing instructions

---
 brel/services/factory.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/brel/services/factory.py b/brel/services/factory.py
index 9c5584e..4225c90 100644
--- a/brel/services/factory.py
+++ b/brel/services/factory.py
@@ -8,7 +8,7 @@
 ====================
 """
 
-from lxml.etree import parse as parse_xml
+from lxml.etree import XMLParser, parse as parse_xml
 from lxml.html import html5parser
 from requests import Session
 from brel.data.errors.error_repository import ErrorRepository
@@ -50,7 +50,12 @@ def create_xml_service(
 
 
 def create_xml_file_parser_resolver() -> XMLFileParserResolver:
+    # comments and processing instructions carry no meaning in XBRL
     return XMLFileParserResolver(
-        lambda content: parse_xml(content),
-        lambda content: parse_xml(content),
+        lambda content: parse_xml(
+            content, XMLParser(remove_comments=True, remove_pis=True)
+        ),
+        lambda content: parse_xml(
+            content, XMLParser(remove_comments=True, remove_pis=True)
+        ),
     )
-- 
2.43.0


From e03e0fd16b7b106a78be4c87a0e350ebdc300b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:09 +0000
Subject: [PATCH 16/93] fix: open a single .htm or .html file, as the README
 describes

---
 brel/parsers/path_loaders/file_path_loader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brel/parsers/path_loaders/file_path_loader.py b/brel/parsers/path_loaders/file_path_loader.py
index 0cdba76..2b27ec6 100644
--- a/brel/parsers/path_loaders/file_path_loader.py
+++ b/brel/parsers/path_loaders/file_path_loader.py
@@ -17,12 +17,12 @@ class FilePathLoader(PathLoader):
         """
         Checks if the loader is applicable for the given path.
         This loader is applicable for any file path that is not a directory.
-        The supported file extensions are: .xml and .xhtml.
+        The supported file extensions are: .xml, .xhtml, .htm and .html.
         Weblinks are also supported.
         :param path: The file path to check.
         :returns: True if the loader can handle the path, False otherwise.
         """
-        if path.endswith((".xml", ".xhtml")):
+        if path.endswith((".xml", ".xhtml", ".htm", ".html")):
             if os.path.isfile(path):
                 return True
             if path.startswith(("http://", "https://")):
-- 
2.43.0


From f574f14cf6a2c1fdb1fa27ad684d1c43da10cdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:11 +0000
Subject: [PATCH 17/93] fix: extract zip files before opening them

---
 brel/parsers/path_loaders/zip_path_loader.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/brel/parsers/path_loaders/zip_path_loader.py b/brel/parsers/path_loaders/zip_path_loader.py
index b955013..002b59b 100644
--- a/brel/parsers/path_loaders/zip_path_loader.py
+++ b/brel/parsers/path_loaders/zip_path_loader.py
@@ -8,6 +8,12 @@
 ====================
 """
 
+import atexit
+import shutil
+import tempfile
+import zipfile
+
+from brel.parsers.path_loaders.folder_path_loader import FolderPathLoader
 from brel.parsers.path_loaders.path_loader import PathLoader
 
 
@@ -16,9 +22,15 @@ class ZipPathLoader(PathLoader):
         return path.endswith(".zip")
 
     def load(self, path: str) -> list[str]:
-        import zipfile
+        """
+        Extracts the archive to a temporary folder, which exists until the program ends.
+        :param path: The path of the zip file.
+        :returns: A list of paths of the extracted files that can be part of a filing.
+        """
+        folder = tempfile.mkdtemp(prefix="brel_")
+        atexit.register(shutil.rmtree, folder, ignore_errors=True)
 
         with zipfile.ZipFile(path, "r") as zip_ref:
-            file_list = zip_ref.namelist()
-            # More extensions?
-            return [file for file in file_list if file.endswith((".xml", ".xhtml"))]
+            zip_ref.extractall(folder)
+
+        return FolderPathLoader().load(folder)
-- 
2.43.0


From 05ed9d2a7845a432cbdacce78a5f8aa2154ff665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:09 +0000
Subject: [PATCH 18/93] fix: do not round the order of logical definition arcs

---
 brel/parsers/XML/networks/xml_definition_network_factory.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/XML/networks/xml_definition_network_factory.py b/brel/parsers/XML/networks/xml_definition_network_factory.py
index 2a67a3d..099de5b 100644
--- a/brel/parsers/XML/networks/xml_definition_network_factory.py
+++ b/brel/parsers/XML/networks/xml_definition_network_factory.py
@@ -136,15 +136,15 @@ class LogicalDefinitionNetworkFactory(IXMLNetworkFactory):
         if xml_arc is None:
             # the node is not connected to any other node
             arc_role = "unknown"
-            order = 0
+            order = 0.0
             arc_qname = qname_from_str("link:unknown", xml_link)
         elif get_str_attribute(xml_arc, "xlink:from") == label:
             arc_role = get_str_attribute(xml_arc, "xlink:arcrole")
-            order = 0
+            order = 0.0
             arc_qname = qname_from_str(xml_arc.tag, xml_arc)
         elif get_str_attribute(xml_arc, "xlink:to") == label:
             arc_role = get_str_attribute(xml_arc, "xlink:arcrole")
-            order = float(xml_arc.attrib.get("order") or 0.0).__round__()
+            order = float(xml_arc.attrib.get("order") or 0.0)
             arc_qname = qname_from_str(xml_arc.tag, xml_arc)
         else:
             raise ValueError(
-- 
2.43.0


From af0a37c585132366b7200f40ceaf73e90b1e2eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:19 +0000
Subject: [PATCH 19/93] fix: give every arc its own node, and keep networks in
 document order

---
 .../XML/networks/xml_extended_link_parser.py  | 169 ++++++------------
 1 file changed, 52 insertions(+), 117 deletions(-)

diff --git a/brel/parsers/XML/networks/xml_extended_link_parser.py b/brel/parsers/XML/networks/xml_extended_link_parser.py
index 579f7a0..06f5d47 100644
--- a/brel/parsers/XML/networks/xml_extended_link_parser.py
+++ b/brel/parsers/XML/networks/xml_extended_link_parser.py
@@ -115,16 +115,17 @@ def parse_xml_link(
         )
 
     for network_factory in network_factories:
-        nodes_lookup: dict[str, list[INetworkNode]] = defaultdict(list)
-        edges: set[tuple[str, str, str]] = set()
-        node_to_arcs: dict[str, list[lxml.etree._Element]] = defaultdict(list)  # type: ignore
-        roots: set[INetworkNode] = set()
+        # every node is remembered together with the arc that leads to it. It is None for roots
+        nodes_lookup: dict[
+            str, list[tuple[INetworkNode, Optional[lxml.etree._Element]]]  # type: ignore
+        ] = defaultdict(list)
+        edges: dict[tuple[str, str, str], lxml.etree._Element] = {}  # type: ignore
+        roots: list[INetworkNode] = []
 
         for arc_element in find_elements(xml_link_element, ".//*[@xlink:type='arc']"):
             arc_from = get_str_attribute(arc_element, "xlink:from")
             arc_to = get_str_attribute(arc_element, "xlink:to")
             arc_role = get_str_attribute(arc_element, "xlink:arcrole")
-
             if (arc_from, arc_to, arc_role) in edges:
                 error_repository.insert(
                     ErrorCode.DUPLICATE_LINKBASE_ARC,
@@ -132,11 +133,10 @@ def parse_xml_link(
                     arc_from=arc_from,
                     arc_to=arc_to,
                 )
+
                 continue
 
-            edges.add((arc_from, arc_to, arc_role))
-            node_to_arcs[arc_from].append(arc_element)
-            node_to_arcs[arc_to].append(arc_element)
+            edges[(arc_from, arc_to, arc_role)] = arc_element
 
         for link_element in find_elements(
             xml_link_element, ".//*[@xlink:type='resource' or @xlink:type='locator']"
@@ -149,115 +149,52 @@ def parse_xml_link(
             if to_object is None:
                 continue
 
-            node_arcs = node_to_arcs[label]
-            arcs_to = list(
-                filter(
-                    lambda arc: get_str_attribute(arc, "xlink:to", "") == label,
-                    node_arcs,
-                )
-            )
-            arcs_from = list(
-                filter(
-                    lambda arc: get_str_attribute(arc, "xlink:from", "") == label,
-                    node_arcs,
-                )
-            )
+            arcs_to = [arc for (_, to, _), arc in edges.items() if to == label]
+            arcs_from = [arc for (from_, _, _), arc in edges.items() if from_ == label]
 
-            if network_factory.is_physical():
-                if len(arcs_to) == 0 and len(arcs_from) == 0:
-                    node = network_factory.create_node(
-                        xml_link_element,
-                        link_element,
-                        None,
-                        to_object,
-                        error_repository,
-                    )
-
-                    if node is None:
-                        continue
-
-                    roots.add(node)
-                    nodes_lookup[label].append(node)
-                else:
-                    outgoing_role_types = set(
-                        get_str_attribute(arc, "xlink:arcrole") for arc in arcs_from
-                    )
-
-                    incoming_role_types = set(
-                        get_str_attribute(arc, "xlink:arcrole") for arc in arcs_to
-                    )
-
-                    for role_type in incoming_role_types.union(outgoing_role_types):
-                        node_arcs.sort(
-                            key=lambda arc: get_str_attribute(arc, "xlink:to") == label,
-                            reverse=True,
-                        )
-
-                        arc = next(
-                            (
-                                arc
-                                for arc in node_arcs
-                                if get_str_attribute(arc, "xlink:arcrole") == role_type
-                            ),
-                            None,
-                        )
-
-                        node = network_factory.create_node(
-                            xml_link_element,
-                            link_element,
-                            arc,
-                            to_object,
-                            error_repository,
-                        )
-
-                        if node is None:
-                            continue
-
-                        if role_type not in incoming_role_types:
-                            roots.add(node)
-                        nodes_lookup[label].append(node)
-
-            else:
-                if len(arcs_to) == 0 and len(arcs_from) == 0:
-                    node = network_factory.create_node(
-                        xml_link_element,
-                        link_element,
-                        None,
-                        to_object,
-                        error_repository,
-                    )
-
-                    if node is None:
-                        continue
-
-                    roots.add(node)
-                    nodes_lookup[label].append(node)
-                else:
-                    arc = arcs_to[0] if len(arcs_to) > 0 else arcs_from[0]
-
-                    node = network_factory.create_node(
-                        xml_link_element, link_element, arc, to_object, error_repository
-                    )
-
-                    if node is None:
-                        continue
-
-                    if len(arcs_to) == 0:
-                        roots.add(node)
-                    nodes_lookup[label].append(node)
-
-        # second pass. Create the tree by iterating over the edges and adding the edge's 'to' node as a child to the edge's 'from' node
-        for arc_from, arc_to, arc_role in edges:
-            from_nodes = nodes_lookup[arc_from]
-            to_nodes = nodes_lookup[arc_to]
+            # The arcs through which the parents of the node refer to it.
+            # Each of them gets its own node, since the order, the weight and the like belong to the arc.
+            node_arcs: list[tuple[Optional[lxml.etree._Element], bool]] = [  # type: ignore
+                (arc, False) for arc in arcs_to
+            ]
 
             if network_factory.is_physical():
-                from_nodes = list(
-                    filter(lambda node: node.get_arc_role() == arc_role, from_nodes)
-                )
-                to_nodes = list(
-                    filter(lambda node: node.get_arc_role() == arc_role, to_nodes)
+                # physical networks have a single arc role, so there is a root for every other arc role
+                role_types = {
+                    get_str_attribute(arc, "xlink:arcrole") for arc in arcs_to
+                }
+                for arc in arcs_from:
+                    role_type = get_str_attribute(arc, "xlink:arcrole")
+                    if role_type not in role_types:
+                        role_types.add(role_type)
+                        node_arcs.append((arc, True))
+            elif len(arcs_to) == 0 and len(arcs_from) > 0:
+                node_arcs.append((arcs_from[0], True))
+
+            if len(node_arcs) == 0:
+                node_arcs.append((None, True))
+
+            for node_arc, is_root in node_arcs:
+                node = network_factory.create_node(
+                    xml_link_element, link_element, node_arc, to_object, error_repository
                 )
+                if node is None:
+                    continue
+
+                if is_root:
+                    roots.append(node)
+                nodes_lookup[label].append((node, None if is_root else node_arc))
+
+        # second pass. Create the tree by iterating over the edges and adding the edge's 'to' node as a child to the edge's 'from' node
+        for (arc_from, arc_to, arc_role), arc_element in edges.items():
+            from_nodes = [
+                node
+                for node, _ in nodes_lookup[arc_from]
+                if not network_factory.is_physical() or node.get_arc_role() == arc_role
+            ]
+            to_nodes = [
+                node for node, arc in nodes_lookup[arc_to] if arc is arc_element
+            ]
 
             for from_node, to_node in itertools.product(from_nodes, to_nodes):
                 # Now we can link the nodes
@@ -270,8 +207,7 @@ def parse_xml_link(
             continue
 
         if network_factory.is_physical():
-            role_types = set(node.get_arc_role() for node in roots)
-            for role_type in role_types:
+            for role_type in dict.fromkeys(node.get_arc_role() for node in roots):
                 role_type_roots = [
                     node for node in roots if node.get_arc_role() == role_type
                 ]
@@ -283,8 +219,7 @@ def parse_xml_link(
                 )
                 networks.append(network)
         else:
-            root_nodes = list(roots)
-            network = network_factory.create_network(xml_link_element, root_nodes)
+            network = network_factory.create_network(xml_link_element, roots)
             network_factory.update_report_elements(
                 context.get_report_element_repository(), network
             )
-- 
2.43.0


From 8a72de17f333797db83b7bb9bf018ce21c6851d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:38 +0000
Subject: [PATCH 20/93] fix: combine networks that are split into several
 extended links

---
 brel/parsers/utils/network_utils.py | 165 ++++++++++++++++++----------
 1 file changed, 104 insertions(+), 61 deletions(-)

diff --git a/brel/parsers/utils/network_utils.py b/brel/parsers/utils/network_utils.py
index d6b369d..721680a 100644
--- a/brel/parsers/utils/network_utils.py
+++ b/brel/parsers/utils/network_utils.py
@@ -1,8 +1,5 @@
 from brel.networks import INetwork, INetworkNode
 
-# from brel.utils import pprint
-from functools import cmp_to_key
-
 
 def nodes_equal(self: INetworkNode, other: INetworkNode) -> bool:
     # checks if two nodes have the same type and point to the same thing
@@ -18,79 +15,125 @@ def nodes_equal(self: INetworkNode, other: INetworkNode) -> bool:
     if self.points_to() != other.points_to():
         return False
 
-    if self.points_to() == "resource":
-        return self.get_resource() == other.get_resource()
-    elif self.points_to() == "report element":
-        return self.get_report_element() == other.get_report_element()
-    elif self.points_to() == "fact":
-        return self.get_fact() == other.get_fact()
-    else:
-        return False
+    return _get_target(self) is _get_target(other)
+
+
+def _get_target(node: INetworkNode):
+    if node.points_to() == "resource":
+        return node.get_resource()
+    elif node.points_to() == "fact":
+        return node.get_fact()
+    return node.get_report_element()
+
+
+def _get_nodes(roots: list[INetworkNode]) -> list[INetworkNode]:
+    """
+    :returns list[INetworkNode]: the given nodes and their descendants. Every node once, parents first.
+    """
+    nodes: dict[int, INetworkNode] = {}
+    worklist = list(reversed(roots))
+    while len(worklist) > 0:
+        node = worklist.pop()
+        if id(node) not in nodes:
+            nodes[id(node)] = node
+            worklist.extend(reversed(node.get_children()))
+
+    return list(nodes.values())
+
+
+def _has_cycle(edges: dict[int, set[int]]) -> bool:
+    # repeatedly remove everything that does not lead anywhere. What cannot be removed is a cycle.
+    remaining = {target: set(children) for target, children in edges.items()}
+    while True:
+        leaves = {target for target, children in remaining.items() if not children}
+        if len(leaves) == 0:
+            return len(remaining) > 0
+        remaining = {
+            target: children - leaves
+            for target, children in remaining.items()
+            if target not in leaves
+        }
 
 
 def combine_networks(networks: list[INetwork]) -> INetwork:
     """
     Combine a list of networks into one network.
     This method destroys the original networks.
+
+    The networks are the parts of one network that was split into multiple extended links.
+    So every node gets the children that the nodes with the same target have in the other networks.
+    The roots are the roots of the networks that are not an inner node of another network.
     :param networks: The networks to combine.
     :returns INetwork: The combined network.
     """
     if len(networks) == 0:
         raise ValueError("No networks provided.")
 
-    # this algorithm works with the following steps:
-    # 1. Get an order of the networks. Networks closer to the root come first.
-    # 2. Create an empty aggregate network.
-    # 3. For each network in the order, add the roots to the aggregate network nodes as children.
-
     if len(networks) == 1:
         return networks[0]
 
-    # Step 1. sort the networks by prerequisite
-
-    def is_prerequisite(n1: INetwork, n2: INetwork) -> int:
-        # n1 is a prerequisite of n2 if all roots of n2 are in n1
-        # and if the roots of n2 are not a subset of the roots of n1
-        n1_roots = n1.get_roots()
-        n2_roots = n2.get_roots()
-
-        n1_nodes = n1.get_all_nodes()
-
-        result = all((n2_root in n1_nodes for n2_root in n2_roots)) and not all(
-            (n2_root in n1_roots for n2_root in n2_roots)
-        )
-
-        if result:
-            return -1
-        else:
-            return 1
-
-    networks_sorted = networks.copy()
-    sorted(networks_sorted, key=cmp_to_key(is_prerequisite))
-
-    # Step 2. Make an aggregate network.
-    # In this case we re-use the first network as the aggregate network.
-    agg_network = networks_sorted.pop()
+    agg_network = networks[0]
     agg_roots = agg_network.get_roots()
-
-    def get_all_nodes():
-        all_nodes = []
-        for root in agg_roots:
-            all_nodes.extend(root.get_all_descendants())
-        return all_nodes
-
-    # Step 3. Add the roots of each network to the aggregate network.
-    # if there is a node in the aggregate network that fits, then add the children of the root to that node.
-    # otherwise, add the root to the aggregate networks roots.
-    while len(networks_sorted) > 0:
-        network = networks_sorted.pop()
-        aggregate_nodes = get_all_nodes()
-        for root in network.get_roots():
-            parent = next((n for n in aggregate_nodes if nodes_equal(n, root)), None)
-            if parent is None:
-                agg_roots.append(root)
-            else:
-                for child in root.get_children():
-                    parent._add_child(child)
+    all_roots = [root for network in networks for root in network.get_roots()]
+
+    # Step 1. For each network, look up the children of every target.
+    nodes_by_network = [_get_nodes(network.get_roots()) for network in networks]
+    children_by_network: list[dict[int, list[INetworkNode]]] = []
+    edges: dict[int, set[int]] = {}
+    inner_targets: set[int] = set()
+    for nodes in nodes_by_network:
+        children_by_target: dict[int, list[INetworkNode]] = {}
+        for node in nodes:
+            target = id(_get_target(node))
+            children = children_by_target.setdefault(target, [])
+            edges.setdefault(target, set())
+            for child in node.get_children():
+                edges[target].add(id(_get_target(child)))
+                inner_targets.add(id(_get_target(child)))
+                if not any(child is other for other in children):
+                    children.append(child)
+        children_by_network.append(children_by_target)
+
+    # If the networks contradict each other, then they cannot be combined into a tree. Keep their roots side by side.
+    if _has_cycle(edges):
+        agg_roots[:] = all_roots
+        return agg_network
+
+    # Step 2. Add the children of the other networks to each node.
+    for nodes, own_children_by_target in zip(nodes_by_network, children_by_network):
+        for node in nodes:
+            target = id(_get_target(node))
+            present = list(node.get_children())
+            for children_by_target in children_by_network:
+                if children_by_target is own_children_by_target:
+                    continue
+                for child in children_by_target.get(target, []):
+                    if not any(_same_arc(child, other) for other in present):
+                        present.append(child)
+                        node._add_child(child)
+
+    # Step 3. Pick the roots. Roots that are part of the network already are dropped.
+    roots: dict[int, INetworkNode] = {}
+    for root in all_roots:
+        target = id(_get_target(root))
+        if target in inner_targets:
+            continue
+        # nodes without arcs do not know the arc role of the network
+        if target not in roots or roots[target].is_leaf():
+            roots[target] = root
+
+    agg_roots[:] = roots.values()
 
     return agg_network
+
+
+def _same_arc(node: INetworkNode, other: INetworkNode) -> bool:
+    """
+    :returns bool: True if two nodes with the same parent stand for equivalent arcs
+    """
+    attributes = ["get_arc_role", "get_order", "get_weight", "get_preferred_label_role"]
+    return nodes_equal(node, other) and all(
+        getattr(node, attribute)() == getattr(other, attribute)()
+        for attribute in attributes
+        if hasattr(node, attribute)
+    )
-- 
2.43.0


From 34c2ab0a4b87a81bc25f10d448a4e5450fc35d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:11 +0000
Subject: [PATCH 21/93] fix: read dates of periods as XML Schema dates, not by
 guessing

---
 brel/characteristics/period_characteristic.py | 30 +++++++++++++++----
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/brel/characteristics/period_characteristic.py b/brel/characteristics/period_characteristic.py
index 55b290c..69424d2 100644
--- a/brel/characteristics/period_characteristic.py
+++ b/brel/characteristics/period_characteristic.py
@@ -17,10 +17,9 @@ A duration consists of two `datetime.date` instances, a start date and an end da
 """
 
 import datetime
+import re
 from typing import List, Optional
 
-import dateutil.parser
-
 from brel.characteristics import Aspect, ICharacteristic
 from brel.services.translation.translation_service import TranslationService
 
@@ -125,11 +124,30 @@ class PeriodCharacteristic(ICharacteristic):
             return False
 
         try:
-            dateutil.parser.parse(date)
+            PeriodCharacteristic._parse_date(date)
             return True
         except ValueError:
             return False
 
+    @staticmethod
+    def _parse_date(date: str) -> datetime.date:
+        """
+        Parses an xs:date or xs:dateTime. The time and the time zone are ignored.
+        :param date: the string to parse
+        :returns datetime.date: the date
+        :raises ValueError: if the string is neither an xs:date nor an xs:dateTime.
+        """
+        match = re.fullmatch(
+            r"\s*([0-9]{4}-[0-9]{2}-[0-9]{2})"
+            r"(T[0-9]{2}:[0-9]{2}:[0-9]{2}(\.[0-9]+)?)?"
+            r"(Z|[+-][0-9]{2}:[0-9]{2})?\s*",
+            date,
+        )
+        if match is None:
+            raise ValueError(f"'{date}' is not a date.")
+
+        return datetime.date.fromisoformat(match.group(1))
+
     @classmethod
     def _instant(cls, instant_date: str) -> "PeriodCharacteristic":
         """
@@ -142,7 +160,7 @@ class PeriodCharacteristic(ICharacteristic):
             raise ValueError(f"Instant date '{instant_date}' is not a valid date.")
 
         period_instance = cls()
-        period_instance.__instant_date = dateutil.parser.parse(instant_date).date()
+        period_instance.__instant_date = cls._parse_date(instant_date)
         period_instance.__is_instant = True
 
         return period_instance
@@ -163,8 +181,8 @@ class PeriodCharacteristic(ICharacteristic):
             raise ValueError(f"End date '{end_date}' is not a valid date.")
 
         period_instance = cls()
-        period_instance.__start_date = dateutil.parser.parse(start_date).date()
-        period_instance.__end_date = dateutil.parser.parse(end_date).date()
+        period_instance.__start_date = cls._parse_date(start_date)
+        period_instance.__end_date = cls._parse_date(end_date)
         period_instance.__is_instant = False
 
         # if period_instance.start_date > period_instance.end_date:
-- 
2.43.0


From 6b7b0d5975dff9803517df04dd3a9917b1a4f4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:14 +0000
Subject: [PATCH 22/93] fix: read the dimensions in the scenario of a context

---
 brel/parsers/XML/xml_context_parser.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/XML/xml_context_parser.py b/brel/parsers/XML/xml_context_parser.py
index afb42bb..57053c8 100644
--- a/brel/parsers/XML/xml_context_parser.py
+++ b/brel/parsers/XML/xml_context_parser.py
@@ -67,11 +67,15 @@ def parse_context_xml(
     if entity is not None:
         fact_context._add_characteristic(entity)
 
-    # add the dimensions. the dimensions are the children of context/entity/segment
+    # add the dimensions. the dimensions are the children of context/entity/segment or of context/scenario
     segment = context_entity.find("{*}segment", namespaces=None)
+    scenario = xml_element.find("{*}scenario", namespaces=None)
 
-    if segment is not None:
-        for xml_dimension in segment:
+    for xml_dimension_container in (segment, scenario):
+        if xml_dimension_container is None:
+            continue
+
+        for xml_dimension in xml_dimension_container:
             if "explicitMember" in xml_dimension.tag:
                 explicit_dimension_characteristic = parse_explicit_dimension_from_xml(
                     filing_context, xml_dimension
-- 
2.43.0


From 926fbfdc19d5f2ffcab0e017fd22e7f9f82631b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:44 +0000
Subject: [PATCH 23/93] fix: give every remote document its own cache entry,
 and only treat web links as remote

---
 brel/data/xml/xml_repository.py  |  3 ++-
 brel/parsers/utils/file_utils.py | 37 +++++++++++---------------------
 brel/parsers/utils/url_utils.py  |  9 ++++++++
 brel/services/xml/xml_service.py |  5 +++--
 4 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/brel/data/xml/xml_repository.py b/brel/data/xml/xml_repository.py
index a65c593..5d08988 100644
--- a/brel/data/xml/xml_repository.py
+++ b/brel/data/xml/xml_repository.py
@@ -14,6 +14,7 @@ The XMLSchemaManager class is responsible for downloading and caching XBRL taxon
 import lxml
 import lxml.etree
 from brel.parsers.utils.lxml_xpath_utils import add_xpath_functions
+from brel.parsers.utils.url_utils import is_remote_uri
 
 
 class XMLRepository:
@@ -22,7 +23,7 @@ class XMLRepository:
         add_xpath_functions()
 
     def normalize_uri(self, uri: str) -> str:
-        if uri.startswith("http"):
+        if is_remote_uri(uri):
             return uri
 
         return uri.replace("\\", "/")
diff --git a/brel/parsers/utils/file_utils.py b/brel/parsers/utils/file_utils.py
index c05b40a..fe3403a 100644
--- a/brel/parsers/utils/file_utils.py
+++ b/brel/parsers/utils/file_utils.py
@@ -8,8 +8,11 @@
 ====================
 """
 
+import hashlib
 import re
 
+from brel.parsers.utils.url_utils import is_remote_uri
+
 
 def uri_to_filename(uri: str) -> str:
     """
@@ -22,33 +25,19 @@ def uri_to_filename(uri: str) -> str:
     file_format_match = re.search(r"\.([a-zA-Z0-9]+)$", uri)
     file_format = "." + file_format_match.group(1) if file_format_match else ""
 
-    if not uri.startswith("http"):
+    if not is_remote_uri(uri):
         posix_uri = uri.replace("\\", "/")
         if "/" in posix_uri:
             return posix_uri.split("/")[-1]
         else:
             return posix_uri
 
-    uri = uri.replace("." + file_format, "")
-
-    if "http" in uri:
-        # remove http and https
-        uri = uri.replace("http://", "")
-        uri = uri.replace("https://", "")
-
-        # replace www. and things like .com, .org, etc.
-        uri = uri.replace("www.", "")
-        # the .com is between the first . and the first /
-        # uri = uri.split(".")[0] + uri.split("/")[1]
-    # replace all / with _
-    uri = uri.replace("/", "_")
-    # replace all : with _
-    uri = uri.replace(":", "_")
-    # replace all ? with _
-    uri = uri.replace("?", "_")
-    # replace all . with _
-    uri = uri.replace(".", "_")
-    # replace all \ with _
-    uri = uri.replace("\\", "_")
-
-    return uri + file_format
+    # The readable part of the name is not unique, since it neither keeps the protocol nor the separators apart.
+    # So a hash of the uri follows.
+    uri_hash = hashlib.sha256(uri.encode("utf-8")).hexdigest()[:32]
+
+    name = re.sub(r"^https?://(www\.)?", "", uri)
+    name = re.sub(r"[^a-zA-Z0-9-]", "_", name)
+
+    # file systems limit the length of file names
+    return f"{name[:120]}_{uri_hash}{file_format[:20]}"
diff --git a/brel/parsers/utils/url_utils.py b/brel/parsers/utils/url_utils.py
index 5834092..8c0156b 100644
--- a/brel/parsers/utils/url_utils.py
+++ b/brel/parsers/utils/url_utils.py
@@ -1,6 +1,15 @@
 from urllib.parse import urlparse
 
 
+def is_remote_uri(uri: str) -> bool:
+    """
+    Checks whether the provided string is a URI of a file on the web
+    :param uri: the string to check
+    :return: True if the URI is a web link, False if it is a path of a local file.
+    """
+    return uri.startswith(("http://", "https://"))
+
+
 def is_valid_uri(uri: str) -> bool:
     """
     Checks whether the provided string is a valid URI (absolute or relative)
diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index 2f7949b..5c2cfb4 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -17,6 +17,7 @@ import urllib
 from brel.data.uri_rewrite.uri_rewrite_repository import URIRewriteRepository
 from brel.data.xml.xml_repository import XMLRepository
 from brel.parsers.utils.lxml_utils import get_str_attribute
+from brel.parsers.utils.url_utils import is_remote_uri
 from brel.services.file.file_service import FileService
 from brel.services.xml.xml_file_parser_resolver import XMLFileParserResolver
 
@@ -44,7 +45,7 @@ class XMLService:
         :param referencing_uri: The URI of the file that references this XML file.
         the referencing_uri is useful if a remote file references local files (e.g. http://example.com/file.xml has a reference to other_file.xml)
         """
-        is_uri_remote = uri.startswith("http") or referencing_uri.startswith("http")
+        is_uri_remote = is_remote_uri(uri) or is_remote_uri(referencing_uri)
         if not is_uri_remote:
             referencing_splitting_char = "\\" if "\\" in referencing_uri else "/"
             uri_splitting_char = "\\" if "\\" in uri else "/"
@@ -57,7 +58,7 @@ class XMLService:
             uri = urllib.parse.urljoin(referencing_uri, uri)
 
         uri = self.__uri_rewrite_repository.rewrite(uri)
-        is_uri_remote = uri.startswith("http")
+        is_uri_remote = is_remote_uri(uri)
 
         if not is_uri_remote:
             # the same file must always go by the same name
-- 
2.43.0


From 706c106e0a46f537fe968956d0057c5d3d9d609c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:04 +0000
Subject: [PATCH 24/93] fix: do not read local files back from the shared cache

---
 brel/services/file/file_service.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/brel/services/file/file_service.py b/brel/services/file/file_service.py
index 9f52118..fee2bb5 100644
--- a/brel/services/file/file_service.py
+++ b/brel/services/file/file_service.py
@@ -64,5 +64,9 @@ class FileService:
 
     def copy_and_add_file(self, local_path: str) -> IO[bytes]:
         with open(local_path, "rb") as file:
-            self.add_file(local_path, file)
-        return self.get_file(local_path)
+            content = file.read()
+
+        self.add_file(local_path, BytesIO(content))
+
+        # files with the same name share a place in the cache, so it may not be the file to read
+        return BytesIO(content)
-- 
2.43.0


From 3e28bc703a60bd265b1e6b194015d2ebfd168f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:24 +0000
Subject: [PATCH 25/93] fix: report a missing remote file instead of failing to
 open the filing

---
 brel/services/file/file_service.py | 11 +++++++++--
 brel/services/xml/xml_service.py   |  6 +++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/brel/services/file/file_service.py b/brel/services/file/file_service.py
index fee2bb5..db91aec 100644
--- a/brel/services/file/file_service.py
+++ b/brel/services/file/file_service.py
@@ -10,7 +10,7 @@
 
 import time
 from io import BytesIO
-from typing import IO
+from typing import IO, Optional
 from requests import Session
 from brel.data.errors.error_repository import ErrorRepository
 from brel.data.file.file_repository import FileRepository
@@ -37,7 +37,12 @@ class FileService:
     def has_file(self, uri: str) -> bool:
         return self.__file_repository.has_file(uri)
 
-    def download_and_add_file(self, uri: str) -> IO[bytes]:
+    def download_and_add_file(self, uri: str) -> Optional[IO[bytes]]:
+        """
+        Downloads a file and adds it to the repository.
+        :param uri: The URI of the file.
+        :returns: The file. None if it is not available, which is reported as an error.
+        """
         headers = {}
 
         if "www.sec.gov" in uri:
@@ -60,6 +65,8 @@ class FileService:
                 status_code=str(response.status_code),
             )
 
+            return None
+
         return self.get_file(uri)
 
     def copy_and_add_file(self, local_path: str) -> IO[bytes]:
diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index 5c2cfb4..f5fb830 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -73,7 +73,11 @@ class XMLService:
             with self.__file_service.get_file(uri) as file:
                 self.__xml_repository.add_etree(uri, parser(file))
         elif is_uri_remote:
-            with self.__file_service.download_and_add_file(uri) as file:
+            downloaded_file = self.__file_service.download_and_add_file(uri)
+            if downloaded_file is None:
+                return
+
+            with downloaded_file as file:
                 self.__xml_repository.add_etree(uri, parser(file))
         else:
             # local files can change, or share their name with another file
-- 
2.43.0


From db557de32918935cb77f7c6e08968fef294494a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:27 +0000
Subject: [PATCH 26/93] fix: load every schema that xsi:schemaLocation lists

---
 brel/services/xml/xml_service.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index f5fb830..2cb1a66 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -21,6 +21,8 @@ from brel.parsers.utils.url_utils import is_remote_uri
 from brel.services.file.file_service import FileService
 from brel.services.xml.xml_file_parser_resolver import XMLFileParserResolver
 
+XSI_NAMESPACE = "http://www.w3.org/2001/XMLSchema-instance"
+
 
 class XMLService:
     def __init__(
@@ -100,9 +102,13 @@ class XMLService:
 
                 if local_name == "href" and QName(name).namespace is not None:
                     reference_uri, _ = urllib.parse.urldefrag(value.strip())
-                elif local_name == "schemaLocation" and value.strip():
-                    # get only last part, as there can be 2 links, only the second of which is relevant in our case.
-                    reference_uri = value.split()[-1]
+                elif name == f"{{{XSI_NAMESPACE}}}schemaLocation":
+                    # a list of pairs, each of a namespace and the location of its schema
+                    for schema_location in value.split()[1::2]:
+                        reference_uris[schema_location] = None
+                    continue
+                elif local_name == "schemaLocation":
+                    reference_uri = value.strip()
                 else:
                     continue
 
-- 
2.43.0


From d428e045b108d4a0a1a2305746e775c1e414bf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:48 +0000
Subject: [PATCH 27/93] fix: open local files with '#', '?', ';' or spaces in
 their path

---
 brel/services/xml/xml_service.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index 2cb1a66..a490b04 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -83,7 +83,8 @@ class XMLService:
                 self.__xml_repository.add_etree(uri, parser(file))
         else:
             # local files can change, or share their name with another file
-            local_filepath = urllib.parse.urlparse(uri).path
+            # references are URIs, in which some characters are escaped
+            local_filepath = uri if os.path.exists(uri) else urllib.parse.unquote(uri)
             with self.__file_service.copy_and_add_file(local_filepath) as file:
                 self.__xml_repository.add_etree(uri, parser(file))
 
-- 
2.43.0


From bb1e55664d5221f89f88214d9a23ea0e5a574a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:12 +0000
Subject: [PATCH 28/93] fix: resolve typedDomainRefs into other schemas and to
 elements with anonymous types

---
 brel/data/xml/xml_repository.py               |  7 ++
 brel/parsers/XML/xml_report_element_parser.py | 35 ++++++----
 brel/services/xml/xml_service.py              | 70 +++++++++++++------
 3 files changed, 80 insertions(+), 32 deletions(-)

diff --git a/brel/data/xml/xml_repository.py b/brel/data/xml/xml_repository.py
index 5d08988..334982c 100644
--- a/brel/data/xml/xml_repository.py
+++ b/brel/data/xml/xml_repository.py
@@ -34,6 +34,13 @@ class XMLRepository:
     def get_etree(self, uri: str) -> lxml.etree._ElementTree:
         return self.__xml_etree_cache[self.normalize_uri(uri)]
 
+    def get_uri(self, etree: lxml.etree._ElementTree) -> str:
+        return next(
+            uri
+            for uri, other_etree in self.__xml_etree_cache.items()
+            if other_etree is etree
+        )
+
     def get_all_etrees(self) -> list[lxml.etree._ElementTree]:
         return list(self.__xml_etree_cache.values())
 
diff --git a/brel/parsers/XML/xml_report_element_parser.py b/brel/parsers/XML/xml_report_element_parser.py
index 703202c..0310455 100644
--- a/brel/parsers/XML/xml_report_element_parser.py
+++ b/brel/parsers/XML/xml_report_element_parser.py
@@ -82,20 +82,19 @@ def parse_report_element(
         report_element_repository.upsert(report_element)
 
         if isinstance(report_element, Dimension):
-            typed_domain_ref = qname_from_str(
-                to_namespace_localname_notation("xbrldt", "typedDomainRef"),
-                report_element_xml,
-            )
+            typed_domain_ref = "{http://xbrl.org/2005/xbrldt}typedDomainRef"
 
             if has_str_attribute(report_element_xml, typed_domain_ref):
                 ref_full = get_str_attribute(report_element_xml, typed_domain_ref)
-                ref_schema_name, ref_id = ref_full.split("#")
-                refschema = (
-                    xml_service.get_etree(ref_schema_name)
-                    if ref_schema_name and ref_schema_name != "."
-                    else current_etree
+                ref_schema_name, _, ref_id = ref_full.strip().partition("#")
+                refschema = xml_service.get_referenced_etree(
+                    ref_schema_name, current_etree
+                )
+                ref_xml = (
+                    refschema.find(f".//*[@id='{ref_id}']")
+                    if refschema is not None
+                    else None
                 )
-                ref_xml = refschema.find(f".//*[@id='{ref_id}']")
                 if ref_xml is None:
                     error_repository.insert(
                         ErrorCode.REFERENCED_SCHEMA_ELEMENT_NOT_FOUND,
@@ -104,6 +103,18 @@ def parse_report_element(
                         ref_schema_name=ref_schema_name,
                     )
                     return
-                ref_type = get_str_attribute(ref_xml, "type")
-                ref_type_qname = qname_from_str(ref_type, ref_xml)
+                ref_type = get_str_attribute_optional(ref_xml, "type")
+                if ref_type is not None:
+                    ref_type_qname = qname_from_str(ref_type, ref_xml)
+                else:
+                    # the type is anonymous, so only the element has a name
+                    ref_type_qname = qname_from_str(
+                        to_clark_notation(
+                            get_str_attribute(
+                                refschema.getroot(), "targetNamespace", ""
+                            ),
+                            get_str_attribute(ref_xml, "name"),
+                        ),
+                        ref_xml,
+                    )
                 report_element.make_typed(ref_type_qname)
diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index a490b04..b578243 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -47,25 +47,9 @@ class XMLService:
         :param referencing_uri: The URI of the file that references this XML file.
         the referencing_uri is useful if a remote file references local files (e.g. http://example.com/file.xml has a reference to other_file.xml)
         """
-        is_uri_remote = is_remote_uri(uri) or is_remote_uri(referencing_uri)
-        if not is_uri_remote:
-            referencing_splitting_char = "\\" if "\\" in referencing_uri else "/"
-            uri_splitting_char = "\\" if "\\" in uri else "/"
-
-            uri = uri_splitting_char.join(
-                referencing_uri.split(referencing_splitting_char)[:-1]
-                + uri.split(uri_splitting_char)
-            )
-        else:
-            uri = urllib.parse.urljoin(referencing_uri, uri)
-
-        uri = self.__uri_rewrite_repository.rewrite(uri)
+        uri = self.__resolve(uri, referencing_uri)
         is_uri_remote = is_remote_uri(uri)
 
-        if not is_uri_remote:
-            # the same file must always go by the same name
-            uri = os.path.normpath(uri)
-
         if self.__xml_repository.has_etree(uri):
             return
 
@@ -83,9 +67,7 @@ class XMLService:
                 self.__xml_repository.add_etree(uri, parser(file))
         else:
             # local files can change, or share their name with another file
-            # references are URIs, in which some characters are escaped
-            local_filepath = uri if os.path.exists(uri) else urllib.parse.unquote(uri)
-            with self.__file_service.copy_and_add_file(local_filepath) as file:
+            with self.__file_service.copy_and_add_file(uri) as file:
                 self.__xml_repository.add_etree(uri, parser(file))
 
         for reference_uri in self.__extract_references(
@@ -93,6 +75,36 @@ class XMLService:
         ):
             self.add_etree_recursive(reference_uri, referencing_uri=uri)
 
+    def __resolve(self, uri: str, referencing_uri: str) -> str:
+        """
+        :param uri: The URI as it is given in the referencing document.
+        :param referencing_uri: The URI of the referencing document.
+        :returns: The URI of the document, which is unique for each document.
+        """
+        is_uri_remote = is_remote_uri(uri) or is_remote_uri(referencing_uri)
+        if not is_uri_remote:
+            referencing_splitting_char = "\\" if "\\" in referencing_uri else "/"
+            uri_splitting_char = "\\" if "\\" in uri else "/"
+
+            uri = uri_splitting_char.join(
+                referencing_uri.split(referencing_splitting_char)[:-1]
+                + uri.split(uri_splitting_char)
+            )
+        else:
+            uri = urllib.parse.urljoin(referencing_uri, uri)
+
+        uri = self.__uri_rewrite_repository.rewrite(uri)
+
+        if not is_remote_uri(uri):
+            # references are URIs, in which some characters are escaped
+            if not os.path.exists(uri):
+                uri = urllib.parse.unquote(uri)
+
+            # the same file must always go by the same name
+            uri = os.path.normpath(uri)
+
+        return uri
+
     def __extract_references(self, tree: _ElementTree) -> List[str]:
         # a dict, because it keeps the order in which the references occur in the document
         reference_uris: Dict[str, None] = {}
@@ -121,6 +133,24 @@ class XMLService:
     def get_etree(self, uri: str) -> _ElementTree:
         return self.__xml_repository.get_etree(uri)
 
+    def get_referenced_etree(
+        self, uri: str, referencing_etree: _ElementTree
+    ) -> Optional[_ElementTree]:
+        """
+        :param uri: A reference to a document, as it is given in the referencing document.
+        :param referencing_etree: The document that contains the reference.
+        :returns: The document, None if it is not part of the filing
+        """
+        if not uri or uri == ".":
+            return referencing_etree
+
+        referencing_uri = self.__xml_repository.get_uri(referencing_etree)
+        resolved_uri = self.__resolve(uri, referencing_uri)
+        if not self.__xml_repository.has_etree(resolved_uri):
+            return None
+
+        return self.__xml_repository.get_etree(resolved_uri)
+
     def get_all_etrees(self) -> list[_ElementTree]:
         return self.__xml_repository.get_all_etrees()
 
-- 
2.43.0


From 70542f4835a29ec0d99f77da9c4347bfa4dc6dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:48 +0000
Subject: [PATCH 29/93] fix: look names up in Clark notation

---
 brel/qnames/qname_search_params.py                    | 11 +++++------
 .../services/report_element/report_element_service.py |  6 ++++--
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/brel/qnames/qname_search_params.py b/brel/qnames/qname_search_params.py
index 53daa7c..3593119 100644
--- a/brel/qnames/qname_search_params.py
+++ b/brel/qnames/qname_search_params.py
@@ -23,7 +23,7 @@ class QNameSearchParams:
         """
         Check if the given string is in Clark notation.
         """
-        re_expression = r"^(?P<prefix>[^:]+):(?P<local_name>[^:]+)$"
+        re_expression = r"^\{(?P<uri>[^{}]+)\}(?P<local_name>[^{}:]+)$"
         match = re.match(re_expression, clark_notation)
         return match is not None
 
@@ -32,17 +32,16 @@ class QNameSearchParams:
         """
         Create a QNameSearchParams object from a Clark notation string.
         """
-        re_expression = r"^(?P<prefix>[^:]+):(?P<local_name>[^:]+)$"
+        re_expression = r"^\{(?P<uri>[^{}]+)\}(?P<local_name>[^{}:]+)$"
         match = re.match(re_expression, clark_notation)
         if not match:
             raise ValueError(
-                f"Invalid Clark notation: {clark_notation}. Expected format: prefix:local_name"
+                f"Invalid Clark notation: {clark_notation}. Expected format: {{uri}}local_name"
             )
 
-        prefix = match.group("prefix")
+        uri = match.group("uri")
         local_name = match.group("local_name")
-        uri = None
-        return cls(local_name=local_name, uri=uri, prefix=prefix)
+        return cls(local_name=local_name, uri=uri, prefix=None)
 
     @staticmethod
     def is_prefix_local_name_notation(prefix_local_name: str) -> bool:
diff --git a/brel/services/report_element/report_element_service.py b/brel/services/report_element/report_element_service.py
index 1d353c2..a61cf1a 100644
--- a/brel/services/report_element/report_element_service.py
+++ b/brel/services/report_element/report_element_service.py
@@ -36,9 +36,10 @@ class ReportElementService:
             prefix_candidates.add(search_params.prefix)
 
         if search_params.uri and not search_params.prefix:
+            # a name without a known prefix is still a name
             prefix_candidates = set(
                 self.__namespace_repository.get_prefixes(search_params.uri)
-            )
+            ) or {""}
         elif not search_params.uri and search_params.prefix:
             uri_candidates = set(
                 self.__namespace_repository.get_uris(search_params.prefix)
@@ -88,9 +89,10 @@ class ReportElementService:
             prefix_candidates.add(search_params.prefix)
 
         if search_params.uri and not search_params.prefix:
+            # a name without a known prefix is still a name
             prefix_candidates = set(
                 self.__namespace_repository.get_prefixes(search_params.uri)
-            )
+            ) or {""}
         elif not search_params.uri and search_params.prefix:
             uri_candidates = set(
                 self.__namespace_repository.get_uris(search_params.prefix)
-- 
2.43.0


From 719a058cb08e36b7fa9b90e73d05c0e2dc7436b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:51 +0000
Subject: [PATCH 30/93] fix: accept 1 and 0 for the booleans in schemas

---
 brel/parsers/XML/xml_report_element_factory.py | 2 +-
 brel/reportelements/concept.py                 | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/XML/xml_report_element_factory.py b/brel/parsers/XML/xml_report_element_factory.py
index 4a03681..34f1c75 100644
--- a/brel/parsers/XML/xml_report_element_factory.py
+++ b/brel/parsers/XML/xml_report_element_factory.py
@@ -36,7 +36,7 @@ class XMLReportElementFactory:
         :returns tuple[str, IReportElement] | None: The report element created and its ID.
         """
 
-        is_abstract = xml_element.get("abstract", "false") == "true"
+        is_abstract = xml_element.get("abstract", "false").strip() in ("true", "1")
 
         is_item = "item" in xml_element.get("substitutionGroup", "")
         is_hypercube_item = "hypercubeItem" in xml_element.get("substitutionGroup", "")
diff --git a/brel/reportelements/concept.py b/brel/reportelements/concept.py
index 0943747..90407b9 100644
--- a/brel/reportelements/concept.py
+++ b/brel/reportelements/concept.py
@@ -313,9 +313,12 @@ class Concept(IReportElement):
 
         # get if the concept is nillable
         xml_nillable = xml_element.get("nillable", None)
+        if xml_nillable is not None:
+            xml_nillable = xml_nillable.strip()
         # According to the XBRL 2.1 specification, the nillable attribute can be either true or false.
+        # As an xs:boolean, these can also be written as 1 and 0.
         # It is optional (thus the "None" in possible_nillable_values), and defaults to false.
-        possible_nillable_values = ["true", "false", None]
+        possible_nillable_values = ["true", "false", "1", "0", None]
         if xml_nillable not in possible_nillable_values:
             error_repository.insert(
                 ErrorCode.INVALID_CONCEPT_NILLABLE_VALUE,
@@ -326,7 +329,7 @@ class Concept(IReportElement):
 
             return None
         else:
-            nillable = xml_nillable == "true"
+            nillable = xml_nillable in ("true", "1")
 
         # get the data type of the concept
         data_type = xml_element.get("type", None)
-- 
2.43.0


From a48183fd19dfcf91787e373017a5131008ee2f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:03 +0000
Subject: [PATCH 31/93] fix: resolve locators within the document they refer to

---
 brel/data/xml/xml_repository.py               |  2 +-
 .../XML/networks/xml_extended_link_parser.py  | 26 +++++++++++++++----
 brel/services/xml/xml_service.py              | 25 +++++++++++++++++-
 3 files changed, 46 insertions(+), 7 deletions(-)

diff --git a/brel/data/xml/xml_repository.py b/brel/data/xml/xml_repository.py
index 334982c..a2e3c68 100644
--- a/brel/data/xml/xml_repository.py
+++ b/brel/data/xml/xml_repository.py
@@ -38,7 +38,7 @@ class XMLRepository:
         return next(
             uri
             for uri, other_etree in self.__xml_etree_cache.items()
-            if other_etree is etree
+            if other_etree.getroot() is etree.getroot()
         )
 
     def get_all_etrees(self) -> list[lxml.etree._ElementTree]:
diff --git a/brel/parsers/XML/networks/xml_extended_link_parser.py b/brel/parsers/XML/networks/xml_extended_link_parser.py
index 06f5d47..aa6a064 100644
--- a/brel/parsers/XML/networks/xml_extended_link_parser.py
+++ b/brel/parsers/XML/networks/xml_extended_link_parser.py
@@ -36,7 +36,9 @@ from brel.parsers.utils.lxml_utils import (
     find_elements,
     get_str_attribute,
     get_clark_notation_tag,
+    has_str_attribute,
 )
+from brel.qnames.qname_utils import qname_from_str, to_clark_notation
 from brel.reportelements import *
 from brel.resource import *
 from brel.contexts.filing_context import FilingContext
@@ -57,13 +59,27 @@ def get_object_from_reference(
 
         href = get_str_attribute(referenced_element, "xlink:href")
 
-        elem_id = href.split("#")[-1]
+        elem_id = href.split("#")[-1].strip()
+        xml_target = filing_context.get_xml_service().get_referenced_element(
+            href, referenced_element
+        )
 
-        if report_element_repository.has_id(elem_id):
-            locator_target_element = report_element_repository.get_by_id(elem_id)
-        elif fact_repository.has_id(elem_id):
+        if xml_target is not None and has_str_attribute(xml_target, "name"):
+            target_namespace = get_str_attribute(
+                xml_target.getroottree().getroot(), "targetNamespace", ""
+            )
+            elem_qname = qname_from_str(
+                to_clark_notation(target_namespace, get_str_attribute(xml_target, "name")),
+                xml_target,
+            )
+            if report_element_repository.has_qname(elem_qname):
+                locator_target_element = report_element_repository.get_by_qname(
+                    elem_qname
+                )
+        elif xml_target is not None and fact_repository.has_id(elem_id):
             locator_target_element = fact_repository.get_by_id(elem_id)
-        else:
+
+        if locator_target_element is None:
             error_repository.insert(
                 ErrorCode.XML_REFERENCED_LOCATOR_ELEMENT_NOT_FOUND,
                 referenced_element,
diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index b578243..5f4b5c5 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -11,7 +11,7 @@
 import os
 from typing import Dict, List, Optional, Set
 import urllib.parse
-from lxml.etree import QName, _ElementTree  # type: ignore
+from lxml.etree import QName, _Element, _ElementTree  # type: ignore
 import urllib
 
 from brel.data.uri_rewrite.uri_rewrite_repository import URIRewriteRepository
@@ -37,6 +37,7 @@ class XMLService:
         self.__xml_repository = xml_repository
         self.__parser_resolver = parser_resolver
         self.__available_filing_languages: Optional[List[str]] = None
+        self.__elements_by_id: Dict[_Element, Dict[str, _Element]] = {}
 
     def add_etree_recursive(self, uri: str, referencing_uri: str = ".") -> None:
         """
@@ -151,6 +152,28 @@ class XMLService:
 
         return self.__xml_repository.get_etree(resolved_uri)
 
+    def get_referenced_element(
+        self, href: str, referencing_element: _Element
+    ) -> Optional[_Element]:
+        """
+        :param href: A reference to an element by its id, as it is given in the referencing document.
+        :param referencing_element: The element that contains the reference.
+        :returns: The element, None if there is no such element in the filing
+        """
+        uri, element_id = urllib.parse.urldefrag(href.strip())
+        etree = self.get_referenced_etree(uri, referencing_element.getroottree())
+        if etree is None:
+            return None
+
+        # ids are only unique within their document
+        root = etree.getroot()
+        if root not in self.__elements_by_id:
+            self.__elements_by_id[root] = {
+                element.get("id"): element for element in root.iterfind(".//*[@id]")
+            }
+
+        return self.__elements_by_id[root].get(element_id)
+
     def get_all_etrees(self) -> list[_ElementTree]:
         return self.__xml_repository.get_all_etrees()
 
-- 
2.43.0


From 0bb48e8da6535268901be98929539bc506c68e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:06 +0000
Subject: [PATCH 32/93] fix: read labels and footnotes with markup, and
 resources without a role

---
 brel/parsers/XML/networks/xml_resource_parser.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/XML/networks/xml_resource_parser.py b/brel/parsers/XML/networks/xml_resource_parser.py
index 2135f6f..779f557 100644
--- a/brel/parsers/XML/networks/xml_resource_parser.py
+++ b/brel/parsers/XML/networks/xml_resource_parser.py
@@ -21,6 +21,9 @@ from brel.parsers.utils.lxml_utils import (
     get_clark_notation_tag,
 )
 
+# resources without a role have the standard role of their kind
+STANDARD_ROLE = "http://www.xbrl.org/2003/role/"
+
 
 def parse_xml_resource(
     xml_element: _Element, filing_context: FilingContext
@@ -31,7 +34,6 @@ def parse_xml_resource(
         raise ValueError("The xlink:type is not resource")
 
     label = get_str_attribute(xml_element, "xlink:label")
-    role = get_str_attribute(xml_element, "xlink:role")
     tag = get_clark_notation_tag(xml_element)
 
     if "label" in tag:
@@ -41,7 +43,9 @@ def parse_xml_resource(
             error_repository.insert(ErrorCode.MISSING_LABEL_LANGUAGE, xml_element)
             return None
 
-        text = xml_element.text if xml_element.text else ""
+        # the text can contain XHTML markup
+        text = "".join(xml_element.itertext())
+        role = get_str_attribute(xml_element, "xlink:role", STANDARD_ROLE + "label")
         return BrelLabel(text, label, lang, role)
     elif "footnote" in tag:
         lang = get_elem_lang_recursive(xml_element)
@@ -52,12 +56,14 @@ def parse_xml_resource(
             )
             return None
 
-        text = xml_element.text or "".join(child.__str__() for child in xml_element)
+        text = "".join(xml_element.itertext())
+        role = get_str_attribute(xml_element, "xlink:role", STANDARD_ROLE + "footnote")
         return BrelFootnote(text, label, lang, role)
     elif "reference" in tag:
         content = {
             re.sub(r"^\{.*\}", "", child.tag): child.text for child in xml_element
         }
+        role = get_str_attribute(xml_element, "xlink:role", STANDARD_ROLE + "reference")
         return BrelReference(content, label, role)
     else:
         error_repository.insert(
-- 
2.43.0


From 6e75a20901fcc4d33816b943b0497124e6ac8f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:26 +0000
Subject: [PATCH 33/93] fix: take locators with the same target in one link for
 the same node

---
 .../XML/networks/xml_extended_link_parser.py  | 44 +++++++++++++------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/brel/parsers/XML/networks/xml_extended_link_parser.py b/brel/parsers/XML/networks/xml_extended_link_parser.py
index aa6a064..18ecaf6 100644
--- a/brel/parsers/XML/networks/xml_extended_link_parser.py
+++ b/brel/parsers/XML/networks/xml_extended_link_parser.py
@@ -131,10 +131,8 @@ def parse_xml_link(
         )
 
     for network_factory in network_factories:
-        # every node is remembered together with the arc that leads to it. It is None for roots
-        nodes_lookup: dict[
-            str, list[tuple[INetworkNode, Optional[lxml.etree._Element]]]  # type: ignore
-        ] = defaultdict(list)
+        nodes_lookup: dict[str, list[INetworkNode]] = defaultdict(list)
+        arc_nodes: dict[lxml.etree._Element, list[INetworkNode]] = defaultdict(list)  # type: ignore
         edges: dict[tuple[str, str, str], lxml.etree._Element] = {}  # type: ignore
         roots: list[INetworkNode] = []
 
@@ -154,6 +152,8 @@ def parse_xml_link(
 
             edges[(arc_from, arc_to, arc_role)] = arc_element
 
+        # Locators that refer to the same thing stand for the same node, even if their labels differ.
+        targets: dict[int, tuple[IResource | IReportElement | Fact, dict[str, lxml.etree._Element]]] = {}  # type: ignore
         for link_element in find_elements(
             xml_link_element, ".//*[@xlink:type='resource' or @xlink:type='locator']"
         ):
@@ -165,8 +165,14 @@ def parse_xml_link(
             if to_object is None:
                 continue
 
-            arcs_to = [arc for (_, to, _), arc in edges.items() if to == label]
-            arcs_from = [arc for (from_, _, _), arc in edges.items() if from_ == label]
+            _, link_elements = targets.setdefault(id(to_object), (to_object, {}))
+            link_elements.setdefault(label, link_element)
+
+        for to_object, link_elements in targets.values():
+            arcs_to = [arc for (_, to, _), arc in edges.items() if to in link_elements]
+            arcs_from = [
+                arc for (from_, _, _), arc in edges.items() if from_ in link_elements
+            ]
 
             # The arcs through which the parents of the node refer to it.
             # Each of them gets its own node, since the order, the weight and the like belong to the arc.
@@ -191,6 +197,15 @@ def parse_xml_link(
                 node_arcs.append((None, True))
 
             for node_arc, is_root in node_arcs:
+                if node_arc is None:
+                    link_element = next(iter(link_elements.values()))
+                else:
+                    link_element = link_elements[
+                        get_str_attribute(
+                            node_arc, "xlink:from" if is_root else "xlink:to"
+                        )
+                    ]
+
                 node = network_factory.create_node(
                     xml_link_element, link_element, node_arc, to_object, error_repository
                 )
@@ -199,20 +214,23 @@ def parse_xml_link(
 
                 if is_root:
                     roots.append(node)
-                nodes_lookup[label].append((node, None if is_root else node_arc))
+                else:
+                    arc_nodes[node_arc].append(node)
+
+                for label in link_elements:
+                    nodes_lookup[label].append(node)
 
         # second pass. Create the tree by iterating over the edges and adding the edge's 'to' node as a child to the edge's 'from' node
-        for (arc_from, arc_to, arc_role), arc_element in edges.items():
+        for (arc_from, _, arc_role), arc_element in edges.items():
             from_nodes = [
                 node
-                for node, _ in nodes_lookup[arc_from]
+                for node in nodes_lookup[arc_from]
                 if not network_factory.is_physical() or node.get_arc_role() == arc_role
             ]
-            to_nodes = [
-                node for node, arc in nodes_lookup[arc_to] if arc is arc_element
-            ]
 
-            for from_node, to_node in itertools.product(from_nodes, to_nodes):
+            for from_node, to_node in itertools.product(
+                from_nodes, arc_nodes[arc_element]
+            ):
                 # Now we can link the nodes
                 from_node._add_child(to_node)  # type: ignore
 
-- 
2.43.0


From 02072ee0c98eaba93cb8ace757f4228e6bb5be9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:58 +0000
Subject: [PATCH 34/93] fix: give definition arcs without an order the default
 order

---
 brel/parsers/XML/networks/xml_definition_network_factory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brel/parsers/XML/networks/xml_definition_network_factory.py b/brel/parsers/XML/networks/xml_definition_network_factory.py
index 099de5b..bb82c39 100644
--- a/brel/parsers/XML/networks/xml_definition_network_factory.py
+++ b/brel/parsers/XML/networks/xml_definition_network_factory.py
@@ -72,7 +72,7 @@ class PhysicalDefinitionNetworkFactory(IXMLNetworkFactory):
         elif get_str_attribute(xml_arc, "xlink:to", None) == label:
             # the node is an inner node
             arc_role = get_str_attribute(xml_arc, "xlink:arcrole")
-            order = float(xml_arc.attrib.get("order") or 0.0)
+            order = float(xml_arc.attrib.get("order") or 1)
             arc_qname = qname_from_str(xml_arc.tag, xml_arc)
         else:
             raise ValueError(
@@ -144,7 +144,7 @@ class LogicalDefinitionNetworkFactory(IXMLNetworkFactory):
             arc_qname = qname_from_str(xml_arc.tag, xml_arc)
         elif get_str_attribute(xml_arc, "xlink:to") == label:
             arc_role = get_str_attribute(xml_arc, "xlink:arcrole")
-            order = float(xml_arc.attrib.get("order") or 0.0)
+            order = float(xml_arc.attrib.get("order") or 1)
             arc_qname = qname_from_str(xml_arc.tag, xml_arc)
         else:
             raise ValueError(
-- 
2.43.0


From e2920d13a6e368bc0c17ab34247a6adf85a1ad27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:54 +0000
Subject: [PATCH 35/93] fix: open filings with label resources that no arc
 leads to

---
 brel/parsers/XML/networks/xml_label_network_factory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/brel/parsers/XML/networks/xml_label_network_factory.py b/brel/parsers/XML/networks/xml_label_network_factory.py
index 80f489d..bf39422 100644
--- a/brel/parsers/XML/networks/xml_label_network_factory.py
+++ b/brel/parsers/XML/networks/xml_label_network_factory.py
@@ -105,7 +105,8 @@ class LabelNetworkFactory(IXMLNetworkFactory):
             if not isinstance(root, LabelNetworkNode):
                 raise TypeError("roots must all be of type LabelNetworkNode")
             if not root.points_to() == "report element":
-                raise ValueError(f"root {root} is not a report element")
+                # no arc leads to the label, so it does not belong to any element
+                continue
 
             report_element = root.get_report_element()
             for label_node in root.get_children():
-- 
2.43.0


From df66aa3c8921a13d5301a0b1ad872b8d65124ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:51 +0000
Subject: [PATCH 36/93] fix: recognise the standard namespaces whatever
 prefixes a document uses for them

---
 .../xml_calculation_network_factory.py        |  2 +-
 .../xml_definition_network_factory.py         |  4 +-
 .../networks/xml_footnote_network_factory.py  |  4 +-
 .../XML/networks/xml_label_network_factory.py |  2 +-
 .../XML/networks/xml_networks_parser.py       |  7 +-
 .../xml_presentation_network_factory.py       |  2 +-
 .../networks/xml_reference_network_factory.py |  2 +-
 brel/parsers/XML/xml_component_parser.py      | 16 +++--
 brel/parsers/utils/lxml_utils.py              | 68 ++++++++++++++-----
 9 files changed, 71 insertions(+), 36 deletions(-)

diff --git a/brel/parsers/XML/networks/xml_calculation_network_factory.py b/brel/parsers/XML/networks/xml_calculation_network_factory.py
index 5f6b8b2..45fbaa2 100644
--- a/brel/parsers/XML/networks/xml_calculation_network_factory.py
+++ b/brel/parsers/XML/networks/xml_calculation_network_factory.py
@@ -67,7 +67,7 @@ class CalculationNetworkFactory(IXMLNetworkFactory):
             weight = 0.0
             arc_role = "unknown"
             order: float = 1
-            arc_qname = qname_from_str("link:unknown", xml_link)
+            arc_qname = qname_from_str("{http://www.xbrl.org/2003/linkbase}unknown", xml_link)
         elif get_str_attribute(xml_arc, "xlink:from") == label:
             # the node is a root
             weight = 0.0
diff --git a/brel/parsers/XML/networks/xml_definition_network_factory.py b/brel/parsers/XML/networks/xml_definition_network_factory.py
index bb82c39..6bfe63d 100644
--- a/brel/parsers/XML/networks/xml_definition_network_factory.py
+++ b/brel/parsers/XML/networks/xml_definition_network_factory.py
@@ -63,7 +63,7 @@ class PhysicalDefinitionNetworkFactory(IXMLNetworkFactory):
             # the node is not connected to any other node
             arc_role = "unknown"
             order = 0.0
-            arc_qname = qname_from_str("link:unknown", xml_link)
+            arc_qname = qname_from_str("{http://www.xbrl.org/2003/linkbase}unknown", xml_link)
         elif get_str_attribute(xml_arc, "xlink:from") == label:
             # the node is a root
             arc_role = get_str_attribute(xml_arc, "xlink:arcrole")
@@ -137,7 +137,7 @@ class LogicalDefinitionNetworkFactory(IXMLNetworkFactory):
             # the node is not connected to any other node
             arc_role = "unknown"
             order = 0.0
-            arc_qname = qname_from_str("link:unknown", xml_link)
+            arc_qname = qname_from_str("{http://www.xbrl.org/2003/linkbase}unknown", xml_link)
         elif get_str_attribute(xml_arc, "xlink:from") == label:
             arc_role = get_str_attribute(xml_arc, "xlink:arcrole")
             order = 0.0
diff --git a/brel/parsers/XML/networks/xml_footnote_network_factory.py b/brel/parsers/XML/networks/xml_footnote_network_factory.py
index c00247a..6fc2320 100644
--- a/brel/parsers/XML/networks/xml_footnote_network_factory.py
+++ b/brel/parsers/XML/networks/xml_footnote_network_factory.py
@@ -70,7 +70,7 @@ class FootnoteNetworkFactory(IXMLNetworkFactory):
             # the node is not connected to any other node
             arc_role: str = "unknown"
             order = 1.0
-            arc_qname = qname_from_str("link:unknown", xml_referenced_element)
+            arc_qname = qname_from_str("{http://www.xbrl.org/2003/linkbase}unknown", xml_referenced_element)
         elif (
             get_str_attribute(
                 xml_arc, to_namespace_localname_notation("xlink", "from"), None
@@ -82,7 +82,7 @@ class FootnoteNetworkFactory(IXMLNetworkFactory):
                 xml_arc, to_namespace_localname_notation("xlink", "arcrole")
             )
             order = 1.0
-            arc_qname = qname_from_str("link:unknown", xml_referenced_element)
+            arc_qname = qname_from_str("{http://www.xbrl.org/2003/linkbase}unknown", xml_referenced_element)
         elif (
             get_str_attribute(
                 xml_arc, to_namespace_localname_notation("xlink", "to"), None
diff --git a/brel/parsers/XML/networks/xml_label_network_factory.py b/brel/parsers/XML/networks/xml_label_network_factory.py
index bf39422..545dc1b 100644
--- a/brel/parsers/XML/networks/xml_label_network_factory.py
+++ b/brel/parsers/XML/networks/xml_label_network_factory.py
@@ -64,7 +64,7 @@ class LabelNetworkFactory(IXMLNetworkFactory):
         if xml_arc is None:
             # the node is not connected to any other node
             arc_role = "unknown"
-            arc_qname = qname_from_str("link:unknown", xml_link)
+            arc_qname = qname_from_str("{http://www.xbrl.org/2003/linkbase}unknown", xml_link)
         elif get_str_attribute(xml_arc, "xlink:from") == label:
             # the node is a root
             arc_role = get_str_attribute(xml_arc, "xlink:arcrole")
diff --git a/brel/parsers/XML/networks/xml_networks_parser.py b/brel/parsers/XML/networks/xml_networks_parser.py
index 95e5d3e..2967b93 100644
--- a/brel/parsers/XML/networks/xml_networks_parser.py
+++ b/brel/parsers/XML/networks/xml_networks_parser.py
@@ -26,7 +26,6 @@ from brel.parsers.utils.lxml_utils import (
     get_str_attribute_optional,
 )
 from brel.parsers.utils.network_utils import combine_networks
-from brel.qnames.qname_utils import qname_from_str
 from brel.reportelements import *
 from brel.resource import *
 
@@ -83,16 +82,14 @@ def parse_networks_from_xmls(
 
     link_xmls.sort(
         key=lambda link: is_standard_role(
-            get_str_attribute(link, qname_from_str("xlink:role", link), "")
+            get_str_attribute(link, "xlink:role", "")
         ),
         reverse=True,
     )
 
     # First pass: parse networks
     for link_xml in link_xmls:
-        link_role = get_str_attribute_optional(
-            link_xml, qname_from_str("xlink:role", link_xml)
-        )
+        link_role = get_str_attribute_optional(link_xml, "xlink:role")
         if link_role is None:
             error_repository.insert(ErrorCode.MISSING_LINK_ROLE, link_xml)
             continue
diff --git a/brel/parsers/XML/networks/xml_presentation_network_factory.py b/brel/parsers/XML/networks/xml_presentation_network_factory.py
index a3a0bbd..41de73f 100644
--- a/brel/parsers/XML/networks/xml_presentation_network_factory.py
+++ b/brel/parsers/XML/networks/xml_presentation_network_factory.py
@@ -80,7 +80,7 @@ class PresentationNetworkFactory(IXMLNetworkFactory):
             preferred_label_role = None
             arc_role = "unknown"
             order: float = 1
-            arc_qname = qname_from_str("link:unknown", xml_referenced_element)
+            arc_qname = qname_from_str("{http://www.xbrl.org/2003/linkbase}unknown", xml_referenced_element)
         elif (
             get_str_attribute(
                 xml_arc, to_namespace_localname_notation("xlink", "from"), None
diff --git a/brel/parsers/XML/networks/xml_reference_network_factory.py b/brel/parsers/XML/networks/xml_reference_network_factory.py
index 0886d1a..acbf99f 100644
--- a/brel/parsers/XML/networks/xml_reference_network_factory.py
+++ b/brel/parsers/XML/networks/xml_reference_network_factory.py
@@ -66,7 +66,7 @@ class ReferenceNetworkFactory(IXMLNetworkFactory):
             # the node is not connected to any other node
             arc_role = "unknown"
             order = 1.0
-            arc_qname = qname_from_str("link:unknown", xml_link)
+            arc_qname = qname_from_str("{http://www.xbrl.org/2003/linkbase}unknown", xml_link)
         elif (
             get_str_attribute(
                 xml_arc, to_namespace_localname_notation("xlink", "from"), None
diff --git a/brel/parsers/XML/xml_component_parser.py b/brel/parsers/XML/xml_component_parser.py
index 0904116..fbb887b 100644
--- a/brel/parsers/XML/xml_component_parser.py
+++ b/brel/parsers/XML/xml_component_parser.py
@@ -29,6 +29,9 @@ from brel.data.errors.error_repository import ErrorRepository
 from brel.data.component.component_repository import ComponentRepository
 from brel.data.network.network_repository import NetworkRepository
 from brel.parsers.utils.lxml_utils import find_element, find_elements, get_str_attribute
+from brel.qnames.qname_utils import qname_from_str, to_clark_notation
+
+LINK_NAMESPACE = "http://www.xbrl.org/2003/linkbase"
 
 
 def parse_component_from_xml(
@@ -43,10 +46,13 @@ def parse_component_from_xml(
     info_element = find_element(xml_element, "link:definition")
     info = (info_element.text or "") if info_element is not None else ""
 
-    used_ons = [used_on.text for used_on in find_elements(xml_element, "link:usedOn")]
+    used_ons = [
+        qname_from_str(used_on.text or "", used_on).clark_notation()
+        for used_on in find_elements(xml_element, "link:usedOn")
+    ]
     networks_in_component = network_repository.get_by_linkrole(role_uri)
 
-    if "link:presentationLink" not in used_ons and any(
+    if to_clark_notation(LINK_NAMESPACE, "presentationLink") not in used_ons and any(
         map(lambda n: isinstance(n, PresentationNetwork), networks_in_component)
     ):
         error_repository.insert(
@@ -55,7 +61,7 @@ def parse_component_from_xml(
             linkrole_uri=role_uri,
         )
 
-    if "link:calculationLink" not in used_ons and any(
+    if to_clark_notation(LINK_NAMESPACE, "calculationLink") not in used_ons and any(
         map(lambda n: isinstance(n, CalculationNetwork), networks_in_component)
     ):
         error_repository.insert(
@@ -64,7 +70,7 @@ def parse_component_from_xml(
             linkrole_uri=role_uri,
         )
 
-    if "link:definitionLink" not in used_ons and any(
+    if to_clark_notation(LINK_NAMESPACE, "definitionLink") not in used_ons and any(
         map(lambda n: isinstance(n, DefinitionNetwork), networks_in_component)
     ):
         error_repository.insert(
@@ -133,6 +139,6 @@ def parse_components_xml(
         for roletype in find_elements(
             schema,
             ".//link:roleType",
-            namespaces={"link": "http://www.xbrl.org/2003/linkbase"},
+            namespaces={"link": LINK_NAMESPACE},
         ):
             component_repository.upsert(parse_component_from_xml(context, roletype))
diff --git a/brel/parsers/utils/lxml_utils.py b/brel/parsers/utils/lxml_utils.py
index 06a04dd..5214300 100644
--- a/brel/parsers/utils/lxml_utils.py
+++ b/brel/parsers/utils/lxml_utils.py
@@ -15,11 +15,49 @@ import lxml.etree
 from lxml.etree import _Element, _ElementTree, XPath  # type: ignore
 
 from brel.qnames.qname_utils import (
-    is_clark_notation,
     is_namespace_localname_notation,
     qname_from_str,
+    to_clark_notation,
 )
 
+# the prefixes that the parsers use in names and queries. A document is free to choose others.
+STANDARD_PREFIXES: Mapping[str, str] = {
+    "xml": "http://www.w3.org/XML/1998/namespace",
+    "xlink": "http://www.w3.org/1999/xlink",
+    "xsi": "http://www.w3.org/2001/XMLSchema-instance",
+    "link": "http://www.xbrl.org/2003/linkbase",
+    "xbrli": "http://www.xbrl.org/2003/instance",
+    "xbrldi": "http://xbrl.org/2006/xbrldi",
+    "ix": "http://www.xbrl.org/2013/inlineXBRL",
+}
+
+
+def get_standard_nsmap(element: _Element) -> dict[str, str]:
+    """
+    Helper function for getting the namespaces in scope of an element, where the standard prefixes stand for
+    the standard namespaces, whatever prefixes the document uses for them.
+    :param element: lxml.etree.Element to get the namespaces of
+    :returns: dict mapping the prefixes to namespaces
+    """
+    nsmap = {k: v for k, v in element.nsmap.items() if k is not None}
+    in_scope = set(element.nsmap.values())
+    for prefix, uri in STANDARD_PREFIXES.items():
+        if prefix not in nsmap or uri in in_scope:
+            nsmap[prefix] = uri
+    return nsmap
+
+
+def _attribute_to_clark_notation(element: _Element, attribute: str | QName) -> str:
+    if isinstance(attribute, QName):
+        return attribute.clark_notation()
+    if is_namespace_localname_notation(attribute):
+        prefix, local_name = attribute.split(":")
+        uri = get_standard_nsmap(element).get(prefix)
+        if uri is not None:
+            return to_clark_notation(uri, local_name)
+        return qname_from_str(attribute, element).clark_notation()
+    return attribute
+
 
 def has_str_attribute(element: _Element, attribute: str | QName) -> bool:
     """
@@ -28,10 +66,7 @@ def has_str_attribute(element: _Element, attribute: str | QName) -> bool:
     :param attribute: str containing the name of the attribute
     :returns: bool indicating if the attribute is present
     """
-    if isinstance(attribute, QName):
-        attribute = attribute.clark_notation()
-    elif is_namespace_localname_notation(attribute):
-        attribute = qname_from_str(attribute, element).clark_notation()
+    attribute = _attribute_to_clark_notation(element, attribute)
 
     return attribute in element.attrib
 
@@ -48,10 +83,7 @@ def get_str_attribute(
     :raises: if the attribute is not found and no default value is provided
     :raises: if the attribute is not a string
     """
-    if isinstance(attribute, QName):
-        attribute = attribute.clark_notation()
-    elif is_namespace_localname_notation(attribute):
-        attribute = qname_from_str(attribute, element).clark_notation()
+    attribute = _attribute_to_clark_notation(element, attribute)
 
     value = element.get(attribute)
     if value is None:
@@ -70,10 +102,7 @@ def get_str_attribute_optional(element: _Element, attribute: str | QName) -> str
     :return: str containing the value of the attribute
     :raises: if the attribute is not a string
     """
-    if isinstance(attribute, QName):
-        attribute = attribute.clark_notation()
-    elif is_namespace_localname_notation(attribute):
-        attribute = qname_from_str(attribute, element).clark_notation()
+    attribute = _attribute_to_clark_notation(element, attribute)
 
     return element.attrib.get(attribute)
 
@@ -90,11 +119,15 @@ def get_clark_notation_tag(element: _Element) -> str:  # type: ignore
 def get_prefix_localname_tag(element: _Element) -> str:
     """
     Helper function for getting the tag of an element as a string in prefix:localname notation.
-    Uses the namespaces available in the passed element.
+    Uses the standard prefixes, and the namespaces available in the passed element for other namespaces.
     :param element: lxml.etree.Element to get the tag from
     :returns: str containing the tag of the element
     """
-    return qname_from_str(element.tag, element).prefix_local_name_notation()
+    qname = qname_from_str(element.tag, element)
+    for prefix, uri in STANDARD_PREFIXES.items():
+        if uri == qname.get_URL():
+            return f"{prefix}:{qname.get_local_name()}"
+    return qname.prefix_local_name_notation()
 
 
 def find_elements(
@@ -109,7 +142,7 @@ def find_elements(
         element = element.getroot()
 
     if not namespaces:
-        namespaces = {k: v for k, v in element.nsmap.items() if k is not None}
+        namespaces = get_standard_nsmap(element)
 
     try:
         find = XPath(xpath_query, namespaces=namespaces)
@@ -129,8 +162,7 @@ def find_element(
     if isinstance(element, _ElementTree):
         element = element.getroot()
 
-    nsmap: Mapping[str, str] = {k: v for k, v in element.nsmap.items() if k is not None}
-    return element.find(xpath_query, namespaces=nsmap)
+    return element.find(xpath_query, namespaces=get_standard_nsmap(element))
 
 
 def get_all_nsmaps(
-- 
2.43.0


From fc0e07c7cbd7e00e0124baa51ae1529ef86d4471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:40 +0000
Subject: [PATCH 37/93] fix: make one component of a role that several schemas
 declare

---
 brel/parsers/XML/xml_component_parser.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/brel/parsers/XML/xml_component_parser.py b/brel/parsers/XML/xml_component_parser.py
index fbb887b..091015d 100644
--- a/brel/parsers/XML/xml_component_parser.py
+++ b/brel/parsers/XML/xml_component_parser.py
@@ -134,6 +134,7 @@ def parse_components_xml(
 ) -> None:
     xml_service = context.get_xml_service()
     component_repository: ComponentRepository = context.get_component_repository()
+    role_uris: set[str] = set()
 
     for schema in xml_service.get_all_etrees():
         for roletype in find_elements(
@@ -141,4 +142,10 @@ def parse_components_xml(
             ".//link:roleType",
             namespaces={"link": LINK_NAMESPACE},
         ):
+            # several schemas may declare the same role
+            role_uri = get_str_attribute(roletype, "roleURI")
+            if role_uri in role_uris:
+                continue
+
+            role_uris.add(role_uri)
             component_repository.upsert(parse_component_from_xml(context, roletype))
-- 
2.43.0


From 880ecd1cc3d18231d3db5b6d09337d3b4dc94b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:54 +0000
Subject: [PATCH 38/93] fix: compare aggregated values exactly, and only with
 facts that have the same dimensions

---
 brel/networks/calculation_network.py | 36 +++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/brel/networks/calculation_network.py b/brel/networks/calculation_network.py
index 4b37881..367bfc0 100644
--- a/brel/networks/calculation_network.py
+++ b/brel/networks/calculation_network.py
@@ -14,6 +14,8 @@ Calculation networks also contain helper functions for checking the consistency
 
 DEBUG = False
 
+from fractions import Fraction
+from math import isfinite
 from typing import Iterable, cast
 
 from brel import Fact, QName
@@ -22,6 +24,15 @@ from brel.networks import CalculationNetworkNode, INetwork, INetworkNode
 from brel.reportelements import *
 
 
+def _get_exact_value(fact: Fact) -> Fraction | float:
+    """
+    :returns Fraction|float: The value of the fact without the rounding errors that floats have.
+    :raises ValueError: If the value of the fact is not a number
+    """
+    value = float(fact)
+    return Fraction(str(fact)) if isfinite(value) else value
+
+
 class CalculationNetwork(INetwork):
     """
     The class for representing a calculation network.
@@ -135,13 +146,13 @@ class CalculationNetwork(INetwork):
             )
 
             for node_fact in node_facts:
-                node_value = float(node_fact)
+                node_value = _get_exact_value(node_fact)
 
                 if DEBUG:  # pragma: no cover
                     print(f"{node_fact._get_id()}: {node_value} = ", end=" ")
 
                 # get the sum of the children values
-                children_sum: float = 0
+                children_sum: Fraction | float = Fraction(0)
                 for child in node.get_children():
                     child = cast(CalculationNetworkNode, child)
                     child_concept = child.get_concept()
@@ -170,6 +181,13 @@ class CalculationNetwork(INetwork):
                                 )
                             )
 
+                    # facts with further dimensions are not about the same thing
+                    child_facts = [
+                        fact
+                        for fact in child_facts
+                        if len(fact.get_aspects()) == len(node_fact.get_aspects())
+                    ]
+
                     # there should only be one child fact left
                     all_child_facts = list(child_facts)
                     parent_characteristics = {
@@ -189,7 +207,9 @@ class CalculationNetwork(INetwork):
 
                     child_fact = all_child_facts[0]
 
-                    children_sum += float(child_fact) * child.get_weight()
+                    children_sum += _get_exact_value(child_fact) * Fraction(
+                        str(child.get_weight())
+                    )
 
                     if DEBUG:  # pragma: no cover
                         print(
@@ -206,11 +226,11 @@ class CalculationNetwork(INetwork):
                 if node_value != children_sum:
                     return False
 
-                # check the children
-                for child in node.get_children():
-                    child = cast(CalculationNetworkNode, child)
-                    if not is_subnetwork_aggregation_consistent(child):
-                        return False
+            # check the children, which may have facts even if the node has none
+            for child in node.get_children():
+                child = cast(CalculationNetworkNode, child)
+                if not is_subnetwork_aggregation_consistent(child):
+                    return False
 
             return True
 
-- 
2.43.0


From 667c82c19aa9a0b82dcb66dfaca8262dcbaac583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:59 +0000
Subject: [PATCH 39/93] fix: accept the no-break space as a separator in inline
 numbers

---
 .../XHMTL/xhtml_parse_transformation_registry.py       | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index c268cd7..7112b56 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -9,11 +9,11 @@ from brel.data.errors.error_repository import ErrorRepository
 from brel.errors.error_code import ErrorCode
 
 number_format_to_regex = {
-    "ixt:num-comma-decimal-apos": r"^([\.\'`´’′  0-9]*)(,[  0-9]+)?$",
-    "ixt:num-dot-decimal-apos": r"^([,\'`´’′  0-9]*)(\.[  0-9]+)?$",
+    "ixt:num-comma-decimal-apos": r"^([\.\'`´’′ \u00a00-9]*)(,[ \u00a00-9]+)?$",
+    "ixt:num-dot-decimal-apos": r"^([,\'`´’′ \u00a00-9]*)(\.[ \u00a00-9]+)?$",
     "ixt:num-unit-decimal-apos": r"^([0-9０-９\.,，\'`´’′＇]+)[^0-9０-９\.,，\'`´’′＇][^0-9０-９]*([0-9０-９]{1,2})[^0-9０-９]*$",
-    "ixt:num-comma-decimal": r"^([\.  0-9]*)(,[  0-9]+)?$",
-    "ixt:num-dot-decimal": r"^([,  0-9]*)(\.[  0-9]+)?$",
+    "ixt:num-comma-decimal": r"^([\. \u00a00-9]*)(,[ \u00a00-9]+)?$",
+    "ixt:num-dot-decimal": r"^([, \u00a00-9]*)(\.[ \u00a00-9]+)?$",
     "ixt:num-unit-decimal": r"^([0-9０-９\.,，]+)[^0-9０-９\.,，][^0-9０-９]*([0-9０-９]{1,2})[^0-9０-９]*$",
 }
 
@@ -947,7 +947,7 @@ def apply_scale(whole_part: str, decimal_part: str, scale: int) -> tuple[str, st
 
 
 def process_number_part(number_part: str) -> str:
-    separators = " .,，'`´’′＇"
+    separators = " \u00a0.,，'`´’′＇"
 
     if not number_part:
         number_part = "0"
-- 
2.43.0


From 638af98c124f9fc0e885b7ccca85d234fd8d0bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:02 +0000
Subject: [PATCH 40/93] fix: an inline number that denotes zero has the value
 0, not the empty string

---
 brel/parsers/XHMTL/xhtml_parse_transformation_registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index 7112b56..0ee32bd 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -994,7 +994,7 @@ def normalize_numerical_fact_value(fact_value: str) -> str:
     fact_value = fact_value.lstrip("0")
 
     # Add leading zero if necessary
-    if fact_value.startswith("."):
+    if fact_value == "" or fact_value.startswith("."):
         fact_value = "0" + fact_value
 
     return fact_value
-- 
2.43.0


From d28556483cef2b5d4233309d0864d1c3f2145fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:04 +0000
Subject: [PATCH 41/93] fix: read a single digit after the unit as hundredths
 in num-unit-decimal

---
 brel/parsers/XHMTL/xhtml_parse_transformation_registry.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index 0ee32bd..afdf8f8 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -959,6 +959,7 @@ def process_number_part(number_part: str) -> str:
 
 def process_numerical_fact_value(
     match: re.Match,
+    fact_format: str,
     fact_scale: str,
     element: _Element,
     error_repository: ErrorRepository,
@@ -967,6 +968,10 @@ def process_numerical_fact_value(
     whole_part = process_number_part(match.group(1))
     decimal_part = process_number_part(match.group(2))
 
+    # The second number counts hundredths in the formats which name the units
+    if fact_format.startswith("ixt:num-unit-decimal"):
+        decimal_part = decimal_part.rjust(2, "0")
+
     # Parse the scale
     scale = 0
     try:
@@ -1033,7 +1038,7 @@ def parse_numerical_fact_value(
         return fact_value
 
     fact_value = process_numerical_fact_value(
-        match, fact_scale, element, error_repository
+        match, fact_format, fact_scale, element, error_repository
     )
     fact_value = normalize_numerical_fact_value(fact_value)
 
-- 
2.43.0


From 2b573b241ffea2b2bebd6ad1c0245410550c49e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:06 +0000
Subject: [PATCH 42/93] fix: recognise inline formats whatever prefix names
 their registry, and the legacy names of the fixed zero

---
 .../xhtml_parse_transformation_registry.py    | 24 ++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index afdf8f8..aa57dc5 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -601,6 +601,24 @@ legacy_to_current_formats = {
 }
 
 
+TRANSFORMATION_REGISTRY_NAMESPACE = "http://www.xbrl.org/inlineXBRL/transformation/"
+
+
+def normalize_fact_format(fact_format: str, element: _Element) -> str:
+    """
+    Gets the current name of a format, with the prefix that this module uses.
+    :param fact_format: The format as it is given in the filing. Its prefix is one that the filing declares.
+    :param element: The element that the format is given on.
+    :return: The name of the format in the current transformation registry.
+    """
+    prefix, _, local_name = fact_format.rpartition(":")
+    namespace = element.nsmap.get(prefix or None) or ""
+    if namespace.startswith(TRANSFORMATION_REGISTRY_NAMESPACE):
+        fact_format = f"ixt:{local_name}"
+
+    return legacy_to_current_formats.get(fact_format, fact_format)
+
+
 def match_regex_date_fact_value(
     fact_value: str,
     fact_format: str,
@@ -1024,11 +1042,11 @@ def parse_numerical_fact_value(
     :param fact_scale: The scale to apply to the numerical value, represented as a power of 10.
     :return: The parsed and scaled numerical value as a string.
     """
+    fact_format = normalize_fact_format(fact_format, element)
+
     if fact_format == "ixt:fixed-zero":
         return "0"
 
-    fact_format = legacy_to_current_formats.get(fact_format, fact_format)
-
     fact_value = fact_value.strip()
     match = match_regex_numerical_fact_value(
         fact_value, fact_format, element, error_repository
@@ -1054,7 +1072,7 @@ def parse_non_numerical_fact_value(
     if not fact_format:
         return fact_value
 
-    fact_format = legacy_to_current_formats.get(fact_format, fact_format)
+    fact_format = normalize_fact_format(fact_format, element)
 
     if fact_format.startswith("ixt:num") or fact_format == "ixt:fixed-zero":
         error_repository.insert(
-- 
2.43.0


From ff7b4a1e334c95c97d5bcdfd15c5d7928c6fc3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:48 +0000
Subject: [PATCH 43/93] fix: give an inline fact that nests another the number
 they share, not the nested element's markup

---
 .../XHMTL/elements/parse_non_fraction.py       | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/brel/parsers/XHMTL/elements/parse_non_fraction.py b/brel/parsers/XHMTL/elements/parse_non_fraction.py
index 219ea8f..4514e77 100644
--- a/brel/parsers/XHMTL/elements/parse_non_fraction.py
+++ b/brel/parsers/XHMTL/elements/parse_non_fraction.py
@@ -13,7 +13,6 @@ from brel.parsers.utils.lxml_utils import (
     get_str_attribute_optional,
 )
 from lxml.etree import _Element
-from lxml import etree
 from brel.contexts.filing_context import FilingContext
 
 
@@ -82,7 +81,7 @@ def validate_descendant_non_fraction_rules(
 
 
 def process_non_fraction_value(
-    fact_element: _Element, error_repository: ErrorRepository
+    fact_element: _Element, fact_value: str, error_repository: ErrorRepository
 ) -> str:
     format = get_str_attribute_optional(fact_element, "format")
     scale = get_str_attribute_optional(fact_element, "scale")
@@ -95,11 +94,6 @@ def process_non_fraction_value(
 
         sign = None  # Ignore sign
 
-    fact_value = fact_element.text
-
-    if not fact_value:
-        fact_value = ""
-
     if not format:
         value = None
         try:
@@ -221,7 +215,9 @@ def parse_non_fraction_fact_element(
     if xsi_nil == "true":
         fact_value = ""
     elif has_text:
-        fact_value = process_non_fraction_value(fact_element, error_repository)
+        fact_value = process_non_fraction_value(
+            fact_element, fact_value, error_repository
+        )
     else:
         if len(element_children) > 1:
             error_repository.insert(
@@ -236,7 +232,9 @@ def parse_non_fraction_fact_element(
                 child_tag=child_tag,
             )
 
-        # Input whole element as fact value
-        fact_value = etree.tostring(element_children[0]).decode()
+        # The text is shared with the nested fact
+        fact_value = process_non_fraction_value(
+            fact_element, fact_element.xpath("string()"), error_repository
+        )
 
     return Fact(context, fact_value, id, decimals, precision)
-- 
2.43.0


From 5b3dfc054d460def00fe3bb35ae5a6c20d148e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:48 +0000
Subject: [PATCH 44/93] fix: read German month names in German inline dates,
 they were the Danish ones

---
 brel/parsers/XHMTL/xhtml_parse_transformation_registry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index aa57dc5..ecf6f69 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -37,9 +37,9 @@ date_format_to_regex = {
     "ixt:date-day-monthname-da": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]{0,6}$",
     "ixt:date-day-monthname-year-da": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-monthname-year-da": r"^(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
-    "ixt:date-day-monthname-de": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]{0,6}$",
-    "ixt:date-day-monthname-year-de": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
-    "ixt:date-monthname-year-de": r"^(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
+    "ixt:date-day-monthname-de": r"^([0-9]{1,2})[^0-9]+(jan|jän|jaen|feb|mär|maer|mar|apr|mai|jun|jul|aug|sep|okt|nov|dez|JAN|JÄN|JAEN|FEB|MÄR|MAER|MAR|APR|MAI|JUN|JUL|AUG|SEP|OKT|NOV|DEZ|Jan|Jän|Jaen|Feb|Mär|Maer|Mar|Apr|Mai|Jun|Jul|Aug|Sep|Okt|Nov|Dez)[^0-9]{0,6}$",
+    "ixt:date-day-monthname-year-de": r"^([0-9]{1,2})[^0-9]+(jan|jän|jaen|feb|mär|maer|mar|apr|mai|jun|jul|aug|sep|okt|nov|dez|JAN|JÄN|JAEN|FEB|MÄR|MAER|MAR|APR|MAI|JUN|JUL|AUG|SEP|OKT|NOV|DEZ|Jan|Jän|Jaen|Feb|Mär|Maer|Mar|Apr|Mai|Jun|Jul|Aug|Sep|Okt|Nov|Dez)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
+    "ixt:date-monthname-year-de": r"^(jan|jän|jaen|feb|mär|maer|mar|apr|mai|jun|jul|aug|sep|okt|nov|dez|JAN|JÄN|JAEN|FEB|MÄR|MAER|MAR|APR|MAI|JUN|JUL|AUG|SEP|OKT|NOV|DEZ|Jan|Jän|Jaen|Feb|Mär|Maer|Mar|Apr|Mai|Jun|Jul|Aug|Sep|Okt|Nov|Dez)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-day-monthname-el": r"^([0-9]{1,2})[^0-9]+(ιαν|ίαν|φεβ|μάρ|μαρ|απρ|άπρ|αρίλ|άρίλ|αριλ|άριλ|μαΐ|μαι|μάι|μαϊ|μάϊ|ιούν|ίούν|ίουν|ιουν|ιούλ|ίούλ|ίουλ|ίουλ|ιουλ|αύγ|αυγ|σεπ|οκτ|όκτ|νοέ|νοε|δεκ|ΙΑΝ|ΊΑΝ|IΑΝ|ΦΕΒ|ΜΆΡ|ΜΑΡ|ΑΠΡ|ΆΠΡ|AΠΡ|AΡΙΛ|ΆΡΙΛ|ΑΡΙΛ|ΜΑΪ́|ΜΑΙ|ΜΆΙ|ΜΑΪ|ΜΆΪ|ΙΟΎΝ|ΊΟΎΝ|ΊΟΥΝ|IΟΥΝ|ΙΟΥΝ|IΟΥΝ|ΙΟΎΛ|ΊΟΎΛ|ΊΟΥΛ|IΟΎΛ|ΙΟΥΛ|IΟΥΛ|ΑΎΓ|ΑΥΓ|ΣΕΠ|ΟΚΤ|ΌΚΤ|OΚΤ|ΝΟΈ|ΝΟΕ|ΔΕΚ|Ιαν|Ίαν|Iαν|Φεβ|Μάρ|Μαρ|Απρ|Άπρ|Aπρ|Αρίλ|Άρίλ|Aρίλ|Aριλ|Άριλ|Αριλ|Μαΐ|Μαι|Μάι|Μαϊ|Μάϊ|Ιούν|Ίούν|Ίουν|Iούν|Ιουν|Iουν|Ιούλ|Ίούλ|Ίουλ|Iούλ|Ιουλ|Iουλ|Αύγ|Αυγ|Σεπ|Οκτ|Όκτ|Oκτ|Νοέ|Νοε|Δεκ)[^0-9]{0,8}$",
     "ixt:date-day-monthname-year-el": r"^([0-9]{1,2})[^0-9]+(ιαν|ίαν|φεβ|μάρ|μαρ|απρ|άπρ|αρίλ|άρίλ|αριλ|άριλ|μαΐ|μαι|μάι|μαϊ|μάϊ|ιούν|ίούν|ίουν|ιουν|ιούλ|ίούλ|ίουλ|ίουλ|ιουλ|αύγ|αυγ|σεπ|οκτ|όκτ|νοέ|νοε|δεκ|ΙΑΝ|ΊΑΝ|IΑΝ|ΦΕΒ|ΜΆΡ|ΜΑΡ|ΑΠΡ|ΆΠΡ|AΠΡ|AΡΙΛ|ΆΡΙΛ|ΑΡΙΛ|ΜΑΪ́|ΜΑΙ|ΜΆΙ|ΜΑΪ|ΜΆΪ|ΙΟΎΝ|ΊΟΎΝ|ΊΟΥΝ|IΟΎΝ|ΙΟΥΝ|IΟΥΝ|ΙΟΎΛ|ΊΟΎΛ|ΊΟΥΛ|IΟΎΛ|ΙΟΥΛ|IΟΥΛ|ΑΎΓ|ΑΥΓ|ΣΕΠ|ΟΚΤ|ΌΚΤ|OΚΤ|ΝΟΈ|ΝΟΕ|ΔΕΚ|Ιαν|Ίαν|Iαν|Φεβ|Μάρ|Μαρ|Απρ|Άπρ|Aπρ|Αρίλ|Άρίλ|Aρίλ|Aριλ|Άριλ|Αριλ|Μαΐ|Μαι|Μάι|Μαϊ|Μάϊ|Ιούν|Ίούν|Ίουν|Iούν|Ιουν|Iουν|Ιούλ|Ίούλ|Ίουλ|Iούλ|Ιουλ|Iουλ|Αύγ|Αυγ|Σεπ|Οκτ|Όκτ|Oκτ|Νοέ|Νοε|Δεκ)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-monthname-year-el": r"^(ιαν|ίαν|φεβ|μάρ|μαρ|απρ|άπρ|αρίλ|άρίλ|αριλ|άριλ|μαΐ|μαι|μάι|μαϊ|μάϊ|ιούν|ίούν|ίουν|ιουν|ιούλ|ίούλ|ίουλ|ίουλ|ιουλ|αύγ|αυγ|σεπ|οκτ|όκτ|νοέ|νοε|δεκ|ΙΑΝ|ΊΑΝ|IΑΝ|ΦΕΒ|ΜΆΡ|ΜΑΡ|ΑΠΡ|ΆΠΡ|AΠΡ|AΡΙΛ|ΆΡΙΛ|ΑΡΙΛ|ΜΑΪ́|ΜΑΙ|ΜΆΙ|ΜΑΪ|ΜΆΪ|ΙΟΎΝ|ΊΟΎΝ|ΊΟΥΝ|IΟΎΝ|ΙΟΥΝ|IΟΥΝ|ΙΟΎΛ|ΊΟΎΛ|ΊΟΥΛ|IΟΎΛ|ΙΟΥΛ|IΟΥΛ|ΑΎΓ|ΑΥΓ|ΣΕΠ|ΟΚΤ|ΌΚΤ|OΚΤ|ΝΟΈ|ΝΟΕ|ΔΕΚ|Ιαν|Ίαν|Iαν|Φεβ|Μάρ|Μαρ|Απρ|Άπρ|Aπρ|Αρίλ|Άρίλ|Aρίλ|Aριλ|Άριλ|Αριλ|Μαΐ|Μαι|Μάι|Μαϊ|Μάϊ|Ιούν|Ίούν|Ίουν|Iούν|Ιουν|Iουν|Ιούλ|Ίούλ|Ίουλ|Iούλ|Ιουλ|Iουλ|Αύγ|Αυγ|Σεπ|Οκτ|Όκτ|Oκτ|Νοέ|Νοε|Δεκ)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
-- 
2.43.0


From 23c3e3d21d4ce7b559ae4cad7f556d6bffa804bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:50 +0000
Subject: [PATCH 45/93] fix: map Dutch, Lithuanian and Welsh month names to the
 right months

---
 .../xhtml_parse_transformation_registry.py    | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index ecf6f69..1a2f471 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -19,7 +19,7 @@ number_format_to_regex = {
 
 date_format_to_regex = {
     "ixt:date-day-monthname-cy": r"^([0-9]{1,2})[^0-9]*[^0-9a-zA-Z]+(ion|chwe|maw|ebr|mai|meh|gor|aws|med|hyd|tach|rhag|ION|CHWE|MAW|EBR|MAI|MEH|GOR|AWS|MED|HYD|TACH|RHAG|Ion|Chwe|Maw|Ebr|Mai|Meh|Gor|Aws|Med|Hyd|Tach|Rhag)[^0-9]{0,7}$",
-    "ixt:date-monthname-year-cy": r"^(ion|chwe|maw|faw|ebr|mai|fai|meh|feh|gor|ngor|aws|med|fed|hyd|tach|dach|nhach|thach|rhag|rag|ION|CHWE|MAW|FAW|EBR|MAI|FAI|MEH|FEH|GOR|NGOR|AWS|MED|FED|HYD|TACH|DACH|NHACH|THACH|RHAG|RAG|Ion|Chwe|Maw|Faw|Ebr|Mai|Fai|Meh|Feh|Gor|Ngor|Aws|Med|Fedi|Hyd|Tach|Dach|Nhach|Thach|Rhag|Rag)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
+    "ixt:date-monthname-year-cy": r"^(ion|chwe|maw|faw|ebr|mai|fai|meh|feh|gor|ngor|aws|med|fed|hyd|tach|dach|nhach|thach|rhag|rag|ION|CHWE|MAW|FAW|EBR|MAI|FAI|MEH|FEH|GOR|NGOR|AWS|MED|FED|HYD|TACH|DACH|NHACH|THACH|RHAG|RAG|Ion|Chwe|Maw|Faw|Ebr|Mai|Fai|Meh|Feh|Gor|Ngor|Aws|Med|Fed|Hyd|Tach|Dach|Nhach|Thach|Rhag|Rag)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-day-monthname-year-cy": r"^([0-9]{1,2})[^0-9]*[^0-9a-zA-Z]+(ion|chwe|maw|ebr|mai|meh|gor|aws|med|hyd|tach|rhag|ION|CHWE|MAW|EBR|MAI|MEH|GOR|AWS|MED|HYD|TACH|RHAG|Ion|Chwe|Maw|Ebr|Mai|Meh|Gor|Aws|Med|Hyd|Tach|Rhag)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-day-month": r"^([0-9]{1,2})[^0-9]+([0-9]{1,2})$",
     "ixt:date-month-day": r"^([0-9]{1,2})[^0-9]+([0-9]{1,2})$",
@@ -206,16 +206,16 @@ country_to_month_names = {
     "cy": [
         ["ion"],
         ["chwe"],
-        ["maw"],
+        ["maw", "faw"],
         ["ebr"],
-        ["mai"],
-        ["meh"],
-        ["gor"],
+        ["mai", "fai"],
+        ["meh", "feh"],
+        ["gor", "ngor"],
         ["aws"],
-        ["med"],
+        ["med", "fed"],
         ["hyd"],
-        ["tach"],
-        ["rhag"],
+        ["tach", "dach", "nhach", "thach"],
+        ["rhag", "rag"],
     ],
     "da": [
         ["jan"],
@@ -374,8 +374,7 @@ country_to_month_names = {
     "nl": [
         ["jan"],
         ["feb"],
-        ["maa"],
-        ["mrt"],
+        ["maa", "mrt"],
         ["apr"],
         ["mei"],
         ["jun"],
@@ -408,7 +407,8 @@ country_to_month_names = {
         ["geg"],
         ["bir"],
         ["lie"],
-        ["rugp", "rgp", "rugs", "rgs"],
+        ["rugp", "rgp"],
+        ["rugs", "rgs"],
         ["spa", "spl"],
         ["lap"],
         ["gru", "grd"],
-- 
2.43.0


From 92c015d8740b87fde95d92670c0a8885e11e9447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:52 +0000
Subject: [PATCH 46/93] fix: capture the day of Slovenian dates and the year of
 dates with Roman months

---
 .../XHMTL/xhtml_parse_transformation_registry.py       | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index 1a2f471..e6e65f2 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -64,9 +64,9 @@ date_format_to_regex = {
     "ixt:date-day-monthname-hr": r"^([0-9]{1,2})[^0-9]+(sij|velj|ožu|ozu|tra|svi|lip|srp|kol|ruj|lis|stu|pro|SIJ|VELJ|OŽU|OZU|TRA|SVI|LIP|SRP|KOL|RUJ|LIS|STU|PRO|Sij|Velj|Ožu|Ozu|Tra|Svi|Lip|Srp|Kol|Ruj|Lis|Stu|Pro)[^0-9]{0,6}$",
     "ixt:date-day-monthname-year-hr": r"^([0-9]{1,2})[^0-9]+(sij|velj|ožu|ozu|tra|svi|lip|srp|kol|ruj|lis|stu|pro|SIJ|VELJ|OŽU|OZU|TRA|SVI|LIP|SRP|KOL|RUJ|LIS|STU|PRO|Sij|Velj|Ožu|Ozu|Tra|Svi|Lip|Srp|Kol|Ruj|Lis|Stu|Pro)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-monthname-year-hr": r"^(sij|velj|ožu|ozu|tra|svi|lip|srp|kol|ruj|lis|stu|pro|SIJ|VELJ|OŽU|OZU|TRA|SVI|LIP|SRP|KOL|RUJ|LIS|STU|PRO|Sij|Velj|Ožu|Ozu|Tra|Svi|Lip|Srp|Kol|Ruj|Lis|Stu|Pro)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
-    "ixt:date-day-monthroman": r"^([0-9]{1,2})[^0-9]*[^XVIxvi]((I?(X|V|I)I{0,3})|(i?(x|v|i)i{0,3}))$",
-    "ixt:date-day-monthroman-year": r"^([0-9]{1,2})[^0-9]*[^XVIxvi]((I?(X|V|I)I{0,3})|(i?(x|v|i)i{0,3}))[^XVIxvi][^0-9]*([0-9]{1,2}|[0-9]{4})$",
-    "ixt:date-monthroman-year": r"^((I?(X|V|I)I{0,3})|(i?(x|v|i)i{0,3}))[^XVIxvi][^0-9]*([0-9]{1,2}|[0-9]{4})$",
+    "ixt:date-day-monthroman": r"^([0-9]{1,2})[^0-9]*[^XVIxvi](I?(?:X|V|I)I{0,3}|i?(?:x|v|i)i{0,3})$",
+    "ixt:date-day-monthroman-year": r"^([0-9]{1,2})[^0-9]*[^XVIxvi](I?(?:X|V|I)I{0,3}|i?(?:x|v|i)i{0,3})[^XVIxvi][^0-9]*([0-9]{1,2}|[0-9]{4})$",
+    "ixt:date-monthroman-year": r"^(I?(?:X|V|I)I{0,3}|i?(?:x|v|i)i{0,3})[^XVIxvi][^0-9]*([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-day-monthname-it": r"^([0-9]{1,2})[^0-9]+(gen|feb|mar|apr|mag|giu|lug|ago|set|ott|nov|dic|GEN|FEB|MAR|APR|MAG|GIU|LUG|AGO|SET|OTT|NOV|DIC|Gen|Feb|Mar|Apr|Mag|Giu|Lug|Ago|Set|Ott|Nov|Dic)[^0-9]{0,6}$",
     "ixt:date-day-monthname-year-it": r"^([0-9]{1,2})[^0-9]+(gen|feb|mar|apr|mag|giu|lug|ago|set|ott|nov|dic|GEN|FEB|MAR|APR|MAG|GIU|LUG|AGO|SET|OTT|NOV|DIC|Gen|Feb|Mar|Apr|Mag|Giu|Lug|Ago|Set|Ott|Nov|Dic)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-monthname-year-it": r"^(gen|feb|mar|apr|mag|giu|lug|ago|set|ott|nov|dic|GEN|FEB|MAR|APR|MAG|GIU|LUG|AGO|SET|OTT|NOV|DIC|Gen|Feb|Mar|Apr|Mag|Giu|Lug|Ago|Set|Ott|Nov|Dic)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
@@ -97,8 +97,8 @@ date_format_to_regex = {
     "ixt:date-day-monthname-sk": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|máj|maj|jún|jun|júl|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MÁJ|MAJ|JÚN|JUN|JÚL|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Máj|Maj|Jún|Jun|Júl|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]{0,6}$",
     "ixt:date-day-monthname-year-sk": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|máj|maj|jún|jun|júl|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MÁJ|MAJ|JÚN|JUN|JÚL|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Máj|Maj|Jún|Jun|Júl|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-monthname-year-sk": r"^(jan|feb|mar|apr|máj|maj|jún|jun|júl|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MÁJ|MAJ|JÚN|JUN|JÚL|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Máj|Maj|Jún|Jun|Júl|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
-    "ixt:date-day-monthname-sl": r"^[0-9]{1,2}[^0-9]+(jan|feb|mar|apr|maj|jun|jul|avg|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AVG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Avg|Sep|Okt|Nov|Dec)[^0-9]{0,6}$",
-    "ixt:date-day-monthname-year-sl": r"^[0-9]{1,2}[^0-9]+(jan|feb|mar|apr|maj|jun|jul|avg|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AVG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Avg|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
+    "ixt:date-day-monthname-sl": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|avg|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AVG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Avg|Sep|Okt|Nov|Dec)[^0-9]{0,6}$",
+    "ixt:date-day-monthname-year-sl": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|avg|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AVG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Avg|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-monthname-year-sl": r"^(jan|feb|mar|apr|maj|jun|jul|avg|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AVG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Avg|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-day-monthname-sv": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]{0,6}$",
     "ixt:date-day-monthname-year-sv": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
-- 
2.43.0


From eaab09d1c016b108cdde7c65e7cabd898d10be00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:55 +0000
Subject: [PATCH 47/93] fix: legacy date formats stand for the formats that
 read the same text

---
 .../xhtml_parse_transformation_registry.py    | 23 ++++++++-----------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index e6e65f2..010b9bd 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -545,7 +545,7 @@ legacy_to_current_formats = {
     # Transformation registries 2 and 3
     "ixt:booleanfalse": "ixt:fixed-false",
     "ixt:booleantrue": "ixt:fixed-true",
-    "ixt:calindaymonthyear": "ixt:date-ind-day-month-year-hi",
+    "ixt:calindaymonthyear": "ixt:date-ind-day-monthname-year-hi",
     "ixt:datedaymonth": "ixt:date-day-month",
     "ixt:datedaymonthdk": "ixt:date-day-monthname-da",
     "ixt:datedaymonthen": "ixt:date-day-monthname-en",
@@ -591,7 +591,7 @@ legacy_to_current_formats = {
     "ixt:datelongdaymonthuk": "ixt:date-day-monthname-en",
     "ixt:datelongmonthdayus": "ixt:date-monthname-day-en",
     "ixt:dateshortdaymonthuk": "ixt:date-day-monthname-en",
-    "ixt:dateshortmonthdayus": "ixt:date-day-monthname-en",
+    "ixt:dateshortmonthdayus": "ixt:date-monthname-day-en",
     "ixt:dateslashdaymontheu": "ixt:date-day-month",
     "ixt:dateslashmonthdayus": "ixt:date-month-day",
     "ixt:datelongyearmonth": "ixt:date-year-monthname-en",
@@ -1086,19 +1086,14 @@ def parse_non_numerical_fact_value(
     if fact_format.startswith("ixt:date"):
         # Special handling of legacy format
         if fact_format == "ixt:datedaymonthyearin":
-            fact_value_option_1 = parse_date_fact_value(
-                fact_value, "ixt:date-day-month-year", element, error_repository
-            )
-
-            fact_value_option_2 = parse_date_fact_value(
-                fact_value, "ixt:date-day-monthname-year-hi", element, error_repository
-            )
+            # It allows both numbers and names for the month
+            fact_format = "ixt:date-day-monthname-year-hi"
+            if not re.search(date_format_to_regex[fact_format], fact_value.strip()):
+                fact_format = "ixt:date-day-month-year"
 
-            fact_value = fact_value_option_1 or fact_value_option_2
-        else:
-            fact_value = parse_date_fact_value(
-                fact_value, fact_format, element, error_repository
-            )
+        fact_value = parse_date_fact_value(
+            fact_value, fact_format, element, error_repository
+        )
     else:
         fact_value = parse_literal_fact_value(
             fact_value, fact_format, element, error_repository
-- 
2.43.0


From aa6f20f93f59d893d1d91cb67c36f34f192eba0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:54 +0000
Subject: [PATCH 48/93] fix: convert dates of the Indian national calendar

---
 .../xhtml_parse_transformation_registry.py    | 29 +++++++++++++++++--
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index 010b9bd..e6c6b9a 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -527,6 +527,22 @@ country_to_month_names = {
     ],
 }
 
+# The names of the months of the Indian national calendar, as date-ind-day-monthname-year-hi reads them
+indian_national_month_patterns = [
+    r"C\S*ait|चैत्र",
+    r"Vai|वैशाख|बैसाख",
+    r"Jy|ज्येष्ठ",
+    r"dha|ḍha|आषाढ|आषाढ़",
+    r"vana|Śrāvaṇa|श्रावण|सावन",
+    r"Bh\S+dra|Proṣṭhapada|भाद्रपद|भादो",
+    r"in|आश्विन",
+    r"K\S+rti|कार्तिक",
+    r"M\S+rga|Agra|मार्गशीर्ष|अगहन",
+    r"Pau|पौष",
+    r"M\S+gh|माघ",
+    r"Ph\S+lg|फाल्गुन",
+]
+
 japanese_era_to_gregorian_period = {
     # era: (starting_date, ending_date)
     "明治": (datetime.date(1868, 10, 23), datetime.date(1912, 7, 29)),
@@ -682,7 +698,8 @@ def convert_japanese_imperial_date_to_gregorian(
 def convert_national_indian_date_to_gregorian(
     date_parts: dict[str, str],
 ) -> dict[str, str]:
-    if len("year") == 2:
+    is_two_digit_year = len(date_parts["year"]) == 2
+    if is_two_digit_year:
         date_parts["year"] = "19" + date_parts["year"]
 
     gregorian_date = indian_civil.to_gregorian(
@@ -692,7 +709,7 @@ def convert_national_indian_date_to_gregorian(
     gregorian_year, gregorian_month, gregorian_day = gregorian_date
 
     # We assume two-digit years fall within 2000 and 2099, as in the specifications
-    if len("year") == 2 and gregorian_year < 2000:
+    if is_two_digit_year and gregorian_year < 2000:
         gregorian_year += 100
 
     date_parts["year"] = str(gregorian_year)
@@ -717,7 +734,12 @@ def normalize_date_parts(
 
     if "day" in date_parts:
         normalized_date_parts["day"] = "{:02n}".format(int(date_parts["day"]))
-    if "month" in date_parts:
+    if fact_format == "ixt:date-ind-day-monthname-year-hi":
+        for i, month_pattern in enumerate(indian_national_month_patterns):
+            if re.fullmatch(month_pattern, date_parts["month"]):
+                normalized_date_parts["month"] = "{:02n}".format(i + 1)
+                break
+    elif "month" in date_parts:
         country = fact_format[-2:] if fact_format[-3] == "-" else None
 
         if not country and "monthroman" in fact_format:
@@ -733,6 +755,7 @@ def normalize_date_parts(
     if "year" in date_parts:
         # special handling of indian national calendar
         if fact_format == "ixt:date-ind-day-monthname-year-hi":
+            normalized_date_parts["year"] = date_parts["year"]
             normalized_date_parts = convert_national_indian_date_to_gregorian(
                 normalized_date_parts
             )
-- 
2.43.0


From 3c164711d3431486bc22be00b5f67eafd7a20872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:16 +0000
Subject: [PATCH 49/93] fix: report inline dates with an impossible month or
 day instead of failing on them

---
 brel/parsers/XHMTL/xhtml_parse_transformation_registry.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index e6c6b9a..f3cadc5 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -832,7 +832,7 @@ def validate_date_fact_value(
             ErrorCode.DAY_NOT_PRESENT_IN_FULL_DATE, element, date=fact_value
         )
 
-    iso8601_formatted_string = f"{date_parts['year'] if not is_recurring else '2020'}-{date_parts['month']}-{date_parts['day'] if is_full_date else '01'}"
+    iso8601_formatted_string = f"{date_parts.get('year') if not is_recurring else '2020'}-{date_parts.get('month')}-{date_parts.get('day', '01')}"
 
     try:
         datetime.date.fromisoformat(iso8601_formatted_string)
@@ -880,6 +880,10 @@ def parse_date_fact_value(
         error_repository=error_repository,
     )
 
+    # The month is not one of the calendar, which has been reported
+    if "month" not in date_parts:
+        return fact_value
+
     if is_full_date:
         return f"{date_parts['year']}-{date_parts['month']}-{date_parts['day']}"
     elif is_recurring:
-- 
2.43.0


From db191b1161a26677f0c85cbfeaf01b0025f48f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:14 +0000
Subject: [PATCH 50/93] fix: markup of escaped inline text facts is escaped
 once, not twice

---
 .../XHMTL/elements/parse_non_numeric.py       | 34 +++----------------
 1 file changed, 4 insertions(+), 30 deletions(-)

diff --git a/brel/parsers/XHMTL/elements/parse_non_numeric.py b/brel/parsers/XHMTL/elements/parse_non_numeric.py
index 012e44b..51f4e94 100644
--- a/brel/parsers/XHMTL/elements/parse_non_numeric.py
+++ b/brel/parsers/XHMTL/elements/parse_non_numeric.py
@@ -1,5 +1,6 @@
 from copy import deepcopy
 from typing import Dict, Set
+from xml.sax.saxutils import escape as escape_characters
 
 from lxml.etree import _Element
 from lxml import etree
@@ -17,40 +18,13 @@ from brel.parsers.XHMTL.xhtml_parse_transformation_registry import (
 from brel.parsers.utils.lxml_utils import get_str_attribute_optional
 
 
-def convert_escaped_characters(text: str) -> str:
-    snippets_to_replace = {
-        "&": "&amp;",
-        "<": "&lt;",
-        ">": "&gt;",
-        '"': "&quot;",
-        "'": "&apos;",
-    }
-
-    for actual, escaped in snippets_to_replace.items():
-        text = text.replace(actual, escaped)
-
-    return text
-
-
-def convert_escaped_characters_recursive(content: _Element) -> None:
-    if content.text is not None:
-        content.text = convert_escaped_characters(content.text)
-
-    if content.tail is not None:
-        content.tail = convert_escaped_characters(content.tail)
-
-    for child in content:
-        convert_escaped_characters_recursive(child)
-
-
 def escape_content(content: _Element) -> str:
-    convert_escaped_characters_recursive(content)
-
     text_nodes = []
-    text_nodes.append(content.text if content.text else "")
+    text_nodes.append(escape_characters(content.text) if content.text else "")
 
+    # The serialization of the children escapes their texts
     for child in content:
-        child_str = etree.tostring(child).decode()
+        child_str = etree.tostring(child, encoding="unicode")
         text_nodes.append(child_str)
 
     full_text = "".join(text_nodes)
-- 
2.43.0


From 6ffad663bfdcc83376509ec4f4b1113b1a6777ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:14 +0000
Subject: [PATCH 51/93] fix: the content of an inline footnote is its text, as
 it is in an XML footnote, not the markup of the ix:footnote element

---
 brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
index f6172c7..fdf0a45 100644
--- a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
+++ b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
@@ -3,7 +3,6 @@ import itertools
 from typing import Dict, List, Optional, Set, Tuple
 from brel.brel_context import Context
 from lxml.etree import _Element
-from lxml import etree
 
 from brel.brel_fact import Fact
 from brel.contexts.filing_context import FilingContext
@@ -16,6 +15,7 @@ from brel.networks.footnote_network_node import FootnoteNetworkNode
 from brel.parsers.XHMTL.elements.parse_continuation_chain import (
     extract_relevant_content_from_continuation_chain,
 )
+from brel.parsers.XHMTL.elements.parse_non_numeric import extract_text_content
 from brel.parsers.XHMTL.networks import xhtml_footnote_network_elements
 from brel.parsers.utils.lxml_utils import (
     get_elem_lang_recursive,
@@ -71,7 +71,7 @@ def parse_footnote(
     relevant_content = extract_relevant_content_from_continuation_chain(
         [footnote_element] + continuation_chain
     )
-    content_text = etree.tostring(relevant_content).decode()
+    content_text = extract_text_content(relevant_content)
 
     title = get_str_attribute_optional(footnote_element, "title")
     return id, BrelFootnote(content_text, id, language, role, id, title)
-- 
2.43.0


From 75ac8dbb15d2dc600b28d309a7f2b62107781aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:14 +0000
Subject: [PATCH 52/93] fix: an ix:relationship without an order has order 1
 instead of failing, and order 0 is kept

---
 brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
index fdf0a45..4441a64 100644
--- a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
+++ b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
@@ -202,6 +202,7 @@ def parse_relationship_attributes(
         linkrole = "http://www.xbrl.org/2003/role/link"
 
     order_str = get_str_attribute_optional(relationship_element, "order")
+    order = 1.0
 
     if order_str:
         try:
@@ -213,9 +214,6 @@ def parse_relationship_attributes(
                 order=order_str,
             )
 
-    if not order:
-        order = 1.0
-
     return (arcrole, linkrole, order)
 
 
-- 
2.43.0


From 5c7637b3e94b209b57d4b0671e76071f177f1a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:46 +0000
Subject: [PATCH 53/93] fix: build the networks of inline footnotes with the
 link role, the order and the place of each arc

---
 .../networks/xhtml_parse_footnote_network.py  | 145 ++++++++----------
 1 file changed, 66 insertions(+), 79 deletions(-)

diff --git a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
index 4441a64..941dc8d 100644
--- a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
+++ b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
@@ -100,7 +100,7 @@ def parse_footnotes(
 
 def parse_relationship_from_and_to_refs(
     relationship_element: _Element, error_repository: ErrorRepository
-) -> Tuple[Set[str], Set[str]]:
+) -> Tuple[List[str], List[str]]:
     fromRefs = get_str_attribute_optional(relationship_element, "fromRefs")
     if not fromRefs:
         error_repository.insert(
@@ -117,15 +117,17 @@ def parse_relationship_from_and_to_refs(
         )
         toRefs = ""
 
-    fromIds, toIds = set(fromRefs.split()), set(toRefs.split())
+    # The ids without repetitions, in the order in which they are listed
+    fromIds = list(dict.fromkeys(fromRefs.split()))
+    toIds = list(dict.fromkeys(toRefs.split()))
 
     return fromIds, toIds
 
 
 def validate_relationship_from_and_to_refs(
     relationship_element: _Element,
-    fromIds: Set[str],
-    toIds: Set[str],
+    fromIds: List[str],
+    toIds: List[str],
     footnotes: Dict[str, BrelFootnote],
     fact_repository: FactRepository,
     error_repository: ErrorRepository,
@@ -222,7 +224,7 @@ def parse_relationship(
     footnotes: Dict[str, BrelFootnote],
     fact_repository: FactRepository,
     error_repository: ErrorRepository,
-) -> Optional[Tuple[Set[str], Set[str], str, str, float]]:
+) -> Optional[Tuple[List[str], List[str], str, str, float]]:
     fromIds, toIds = parse_relationship_from_and_to_refs(
         relationship_element, error_repository
     )
@@ -243,96 +245,79 @@ def parse_relationship(
     return (fromIds, toIds, arcrole, linkrole, order)
 
 
-def create_footnote_network_nodes(
-    arcs: List[Tuple[Set[str], Set[str], str, str, float]],
+def create_footnote_network_node(
+    id: str,
+    order: float,
+    arcrole: str,
+    linkrole: str,
+    ancestor_ids: Set[str],
+    outgoing: Dict[str, List[Tuple[str, float]]],
     footnotes: Dict[str, BrelFootnote],
     fact_repository: FactRepository,
-):
-    all_ids = set()
-    internal_ids = set()
-
-    # Compute Ids of root nodes
-    for from_ids, to_ids, _, _, _ in arcs:
-        all_ids.update(from_ids)
-        all_ids.update(to_ids)
-        internal_ids.update(to_ids)
-
-    root_ids = all_ids - internal_ids
-
-    id_to_node: Dict[str, FootnoteNetworkNode] = {}
-
-    for from_ids, to_ids, arcrole, linkrole, order in arcs:
-        for from_id in from_ids:
-            if from_id not in id_to_node and from_id in root_ids:
-                from_object = fact_repository.get_by_id(from_id)
-                id_to_node[from_id] = FootnoteNetworkNode(
-                    from_object,
-                    [],
-                    arcrole,
-                    qname.FOOTNOTE_NETWORK_ARCNAME,
-                    linkrole,
-                    qname.FOOTNOTE_NETWORK_LINKNAME,
-                )
-
-        for to_id in to_ids:
-            if to_id not in id_to_node:
-                to_object = (
-                    footnotes[to_id]
-                    if to_id in footnotes
-                    else fact_repository.get_by_id(to_id)
-                )
-
-                if not to_object:
-                    # Error
-                    continue
-
-                id_to_node[to_id] = FootnoteNetworkNode(
-                    to_object,
-                    [],
-                    arcrole,
-                    qname.FOOTNOTE_NETWORK_ARCNAME,
-                    linkrole,
-                    qname.FOOTNOTE_NETWORK_LINKNAME,
-                    order,
-                )
-
-    root_nodes = [id_to_node[id] for id in root_ids]
-
-    return id_to_node, root_nodes
-
-
-def connect_footnote_network_nodes(
-    arcs: List[Tuple[Set[str], Set[str], str, str, float]],
-    id_to_node: Dict[str, FootnoteNetworkNode],
-):
-    for from_ids, to_ids, _, _, _ in arcs:
-        for from_id, to_id in itertools.product(from_ids, to_ids):
-            from_node = id_to_node[from_id]
-            to_node = id_to_node[to_id]
-            from_node._add_child(to_node)
+) -> FootnoteNetworkNode:
+    node = FootnoteNetworkNode(
+        footnotes[id] if id in footnotes else fact_repository.get_by_id(id),
+        [],
+        arcrole,
+        qname.FOOTNOTE_NETWORK_ARCNAME,
+        linkrole,
+        qname.FOOTNOTE_NETWORK_LINKNAME,
+        order,
+    )
+
+    # Every arc has a node of its own, since the order belongs to the arc
+    for to_id, to_order in outgoing.get(id, []):
+        if to_id == id or to_id in ancestor_ids:
+            continue
+
+        child = create_footnote_network_node(
+            to_id,
+            to_order,
+            arcrole,
+            linkrole,
+            ancestor_ids | {id},
+            outgoing,
+            footnotes,
+            fact_repository,
+        )
+        node._add_child(child)
+
+    return node
 
 
 def build_footnote_network(
-    arcs: List[Tuple[Set[str], Set[str], str, str, float]],
+    arcs: List[Tuple[List[str], List[str], str, str, float]],
     linkrole: str,
+    arcrole: str,
     footnotes: Dict[str, BrelFootnote],
     fact_repository: FactRepository,
 ) -> FootnoteNetwork:
-    id_to_node, root_nodes = create_footnote_network_nodes(
-        arcs, footnotes, fact_repository
-    )
-    connect_footnote_network_nodes(arcs, id_to_node)
+    outgoing: Dict[str, List[Tuple[str, float]]] = defaultdict(list)
+    internal_ids: Set[str] = set()
+
+    for from_ids, to_ids, _, _, order in arcs:
+        for from_id, to_id in itertools.product(from_ids, to_ids):
+            outgoing[from_id].append((to_id, order))
+            internal_ids.add(to_id)
+
+    root_nodes = [
+        create_footnote_network_node(
+            id, 1.0, arcrole, linkrole, set(), outgoing, footnotes, fact_repository
+        )
+        for id in list(outgoing)
+        if id not in internal_ids
+    ]
 
     return FootnoteNetwork(root_nodes, linkrole, qname.FOOTNOTE_NETWORK_LINKNAME, True)
 
 
 def build_footnote_networks(
-    arcs: List[Tuple[Set[str], Set[str], str, str, float]],
+    arcs: List[Tuple[List[str], List[str], str, str, float]],
     footnotes: Dict[str, BrelFootnote],
     fact_repository: FactRepository,
 ) -> List[FootnoteNetwork]:
     network_arcs: Dict[
-        Tuple[str, str], List[Tuple[Set[str], Set[str], str, str, float]]
+        Tuple[str, str], List[Tuple[List[str], List[str], str, str, float]]
     ] = defaultdict(list)
 
     # Group arcs by linkrole and arcrole
@@ -341,8 +326,10 @@ def build_footnote_networks(
         network_arcs[linkrole, arcrole].append(arc)
 
     networks: List[FootnoteNetwork] = []
-    for (_, linkrole), arcs in network_arcs.items():
-        network = build_footnote_network(arcs, linkrole, footnotes, fact_repository)
+    for (linkrole, arcrole), arcs in network_arcs.items():
+        network = build_footnote_network(
+            arcs, linkrole, arcrole, footnotes, fact_repository
+        )
         networks.append(network)
 
     return networks
-- 
2.43.0


From 9298ad02ae2b19f92e877df85da455e7f72efa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:46 +0000
Subject: [PATCH 54/93] fix: leave the ids of an ix:relationship that were
 reported as invalid out of the network instead of failing on them

---
 .../XHMTL/networks/xhtml_parse_footnote_network.py    | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
index 941dc8d..0c985f9 100644
--- a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
+++ b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
@@ -131,7 +131,7 @@ def validate_relationship_from_and_to_refs(
     footnotes: Dict[str, BrelFootnote],
     fact_repository: FactRepository,
     error_repository: ErrorRepository,
-) -> None:
+) -> Tuple[List[str], List[str]]:
     # Check if any token is repeated in both fromRefs and toRefs - this is illegal
     if any([fromId in toIds for fromId in fromIds]):
         error_repository.insert(
@@ -174,6 +174,13 @@ def validate_relationship_from_and_to_refs(
             relationship_element,
         )
 
+    # The reported ids do not take part in the relationship
+    valid_from_ids = [fromId for fromId in fromIds if fromId not in invalid_from_ids]
+    valid_to_ids = [
+        toId for toId in toIds if toId not in invalid_to_ids and toId not in fromIds
+    ]
+    return valid_from_ids, valid_to_ids
+
 
 def parse_relationship_attributes(
     relationship_element: _Element, error_repository: ErrorRepository
@@ -229,7 +236,7 @@ def parse_relationship(
         relationship_element, error_repository
     )
 
-    validate_relationship_from_and_to_refs(
+    fromIds, toIds = validate_relationship_from_and_to_refs(
         relationship_element,
         fromIds,
         toIds,
-- 
2.43.0


From 7e93ff9ac6f2f855bcafa3f2afce35e1d762afb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:46 +0000
Subject: [PATCH 55/93] fix: read the xlink:type of role references and the
 arcroleURI of arc role references in inline resources

---
 .../XHMTL/networks/xhtml_parse_footnote_network.py        | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
index 0c985f9..781218e 100644
--- a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
+++ b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
@@ -19,6 +19,7 @@ from brel.parsers.XHMTL.elements.parse_non_numeric import extract_text_content
 from brel.parsers.XHMTL.networks import xhtml_footnote_network_elements
 from brel.parsers.utils.lxml_utils import (
     get_elem_lang_recursive,
+    get_prefix_localname_tag,
     get_str_attribute_optional,
 )
 from brel.parsers.utils.url_utils import is_valid_uri
@@ -365,7 +366,7 @@ def parse_relationships(
 def parse_role_reference(
     role_ref_element: _Element, error_repository: ErrorRepository
 ) -> None:
-    link_type = get_str_attribute_optional(role_ref_element, "xlink:linktype")
+    link_type = get_str_attribute_optional(role_ref_element, "xlink:type")
     if link_type != "simple":
         error_repository.insert(
             ErrorCode.ROLEREF_INVALID_LINKTYPE, role_ref_element, linktype=link_type
@@ -381,7 +382,10 @@ def parse_role_reference(
             ErrorCode.ROLEREF_INVALID_HREF_ATTRIBUTE, role_ref_element, href=href
         )
 
-    role_uri = get_str_attribute_optional(role_ref_element, "roleURI")
+    is_arcrole_ref = get_prefix_localname_tag(role_ref_element) == "link:arcroleRef"
+    role_uri = get_str_attribute_optional(
+        role_ref_element, "arcroleURI" if is_arcrole_ref else "roleURI"
+    )
     if not role_uri:
         error_repository.insert(
             ErrorCode.ROLEREF_MISSING_ROLE_URI_ATTRIBUTE, role_ref_element
-- 
2.43.0


From 15bdf68b799befcf65bfb34173f08c4318b3eb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:59 +0000
Subject: [PATCH 56/93] fix: report an ix:header inside the head of an XHTML
 page

---
 brel/parsers/XHMTL/elements/parse_header.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/brel/parsers/XHMTL/elements/parse_header.py b/brel/parsers/XHMTL/elements/parse_header.py
index e533c22..260feda 100644
--- a/brel/parsers/XHMTL/elements/parse_header.py
+++ b/brel/parsers/XHMTL/elements/parse_header.py
@@ -13,9 +13,11 @@ from lxml.etree import _Element
 def check_no_header_element_in_head(
     etree: _Element, error_repository: ErrorRepository
 ) -> None:
-    head_elements = find_elements(etree, ".//head")
+    head_elements = find_elements(
+        etree, ".//xhtml:head", namespaces={"xhtml": "http://www.w3.org/1999/xhtml"}
+    )
     for head_element in head_elements:
-        if find_element(head_element, ".//ix:header"):
+        if find_element(head_element, ".//ix:header") is not None:
             error_repository.insert(
                 ErrorCode.IXBRL_HEADER_ELEMENT_IN_HEAD, head_element
             )
-- 
2.43.0


From 3347f9bef4175972df65906beb2666c2b459b575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:08 +0000
Subject: [PATCH 57/93] fix: stop at a continuation chain that leads back to
 itself instead of following it forever

---
 brel/parsers/XHMTL/elements/parse_continuation_chain.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/brel/parsers/XHMTL/elements/parse_continuation_chain.py b/brel/parsers/XHMTL/elements/parse_continuation_chain.py
index 20504bc..ecf0a58 100644
--- a/brel/parsers/XHMTL/elements/parse_continuation_chain.py
+++ b/brel/parsers/XHMTL/elements/parse_continuation_chain.py
@@ -91,6 +91,10 @@ def create_continuation_chains(
 
                 break
 
+            if continuation in continuation_chain:
+                # The chain leads back to itself, which was reported as reused
+                break
+
             continuation_chain.append(continuation)
             used_continuation_ids.add(continued_at)
             continued_at = get_str_attribute_optional(continuation, "continuedAt")
-- 
2.43.0


From 580b4c5286b8fd51859ca0dcd83d5a8d992d8bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:08 +0000
Subject: [PATCH 58/93] fix: name the unused continuations in document order,
 not in the order of a set

---
 brel/parsers/XHMTL/elements/parse_continuation_chain.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/XHMTL/elements/parse_continuation_chain.py b/brel/parsers/XHMTL/elements/parse_continuation_chain.py
index ecf0a58..1359870 100644
--- a/brel/parsers/XHMTL/elements/parse_continuation_chain.py
+++ b/brel/parsers/XHMTL/elements/parse_continuation_chain.py
@@ -113,9 +113,9 @@ def create_continuation_chains(
                         parent_id=get_str_attribute_optional(element, "id"),
                     )
 
-    unused_continuation_elements = list(
-        set(continuation_element_index.keys()) - used_continuation_ids
-    )
+    unused_continuation_elements = [
+        id for id in continuation_element_index if id not in used_continuation_ids
+    ]
     if len(unused_continuation_elements) > 0:
         error_repository.insert(
             ErrorCode.IXBRL_UNUSED_CONTINUATION_ELEMENTS,
-- 
2.43.0


From 0f74b1d308b2c73bd038c40eea7bcdd64006c1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:02 +0000
Subject: [PATCH 59/93] fix: error messages name what they are about instead of
 failing on missing or mismatched arguments

---
 brel/errors/error_factory_registry.py       | 18 +++++++++---------
 brel/parsers/XHMTL/elements/parse_hidden.py |  2 +-
 brel/parsers/XML/xml_context_parser.py      |  6 +++++-
 3 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/brel/errors/error_factory_registry.py b/brel/errors/error_factory_registry.py
index 40cd86b..f0563ba 100644
--- a/brel/errors/error_factory_registry.py
+++ b/brel/errors/error_factory_registry.py
@@ -41,14 +41,14 @@ error_factory_registry: Dict[ErrorCode, Callable[[], ErrorInstance]] = {
         Severity.ERROR,
         Area.GENERAL_INSTANCE,
         "004",
-        "End date is missing from the duration period.",
+        "Start date is missing from the duration period.",
         "Check that the `period` element has a `startDate` child.",
     ),
     ErrorCode.DURATION_PERIOD_MISSING_END_DATE: lambda: ErrorInstance(
         Severity.ERROR,
         Area.GENERAL_INSTANCE,
         "005",
-        "Start date is missing from the duration period.",
+        "End date is missing from the duration period.",
         "Check that the `period` element has an `endDate` child.",
     ),
     ErrorCode.DURATION_PERIOD_START_AFTER_END: lambda: ErrorInstance(
@@ -188,7 +188,7 @@ error_factory_registry: Dict[ErrorCode, Callable[[], ErrorInstance]] = {
         Severity.ERROR,
         Area.XML_INSTANCE,
         "004",
-        "The unit {id} has a divide element with two children with the same tag: lambda: ErrorInstance(tag}. One should be 'unitNumerator' and the other 'unitDenominator'",
+        "The unit {id} has a divide element with two children with the same tag: {tag}. One should be 'unitNumerator' and the other 'unitDenominator'",
         "Check the children of the `divide` element. Did you forget to rename one of the children?",
     ),
     ErrorCode.XML_INVALID_UNIT_ELEMENT_CHILDREN: lambda: ErrorInstance(
@@ -219,7 +219,7 @@ error_factory_registry: Dict[ErrorCode, Callable[[], ErrorInstance]] = {
         "Context ID {context_id} is not valid.",
         "Check the `contextRef` attribute of the corresponding fact.",
     ),
-    ErrorCode.XML_INVALID_FACT_CONTEXT_ID: lambda: ErrorInstance(
+    ErrorCode.XML_INVALID_FACT_UNIT_ID: lambda: ErrorInstance(
         Severity.ERROR,
         Area.XML_INSTANCE,
         "102",
@@ -289,7 +289,7 @@ error_factory_registry: Dict[ErrorCode, Callable[[], ErrorInstance]] = {
         Severity.WARNING,
         Area.IXBRL_INSTANCE,
         "201",
-        "The ix:references element must have one of the following children: link:schemaRef, link:linkbaseRef. Found {children}.",
+        "The ix:references element must have one of the following children: link:schemaRef, link:linkbaseRef. Found {child_tag}.",
         "Check for a misspelling in the child element.",
     ),
     # RESOURCES: 300 - 399
@@ -445,8 +445,8 @@ error_factory_registry: Dict[ErrorCode, Callable[[], ErrorInstance]] = {
         Area.IXBRL_INSTANCE,
         "516",
         "Non-fraction child of another non-fraction element has a different format, scale or unit.\n"
-        + "Parent has the following format, scale and unit {parent_format), {parent_scale), {parent_unit}.\n"
-        + "The child has the following format, scale and unit: lambda: ErrorInstance(this_format), {this_scale), {this_unit}",
+        + "Parent has the following format, scale and unit: {parent_format}, {parent_scale}, {parent_unit}.\n"
+        + "The child has the following format, scale and unit: {this_format}, {this_scale}, {this_unit}",
         "Check the attributes of the child and parent element.",
     ),
     ErrorCode.IXBRL_INVALID_NON_NUMERIC_FACT_ESCAPE_ATTRIBUTE_VALUE: lambda: ErrorInstance(
@@ -742,7 +742,7 @@ error_factory_registry: Dict[ErrorCode, Callable[[], ErrorInstance]] = {
         Severity.WARNING,
         Area.GENERAL_LINKBASE,
         "401",
-        "The arc going from '{arc_from}' to '{arc_to} is defined multiple times.",
+        "The arc going from '{arc_from}' to '{arc_to}' is defined multiple times.",
         "Remove the duplicate arcs",
     ),
     ErrorCode.MISSING_LINK_ROLE: lambda: ErrorInstance(
@@ -789,7 +789,7 @@ error_factory_registry: Dict[ErrorCode, Callable[[], ErrorInstance]] = {
         Severity.ERROR,
         Area.TAXONOMY_PACKAGE,
         "002",
-        "The catalog contains multiple rewriteURI elements with equivalent 'uriStartString' URIs: lambda: ErrorInstance(uri}",
+        "The catalog contains multiple rewriteURI elements with equivalent 'uriStartString' URIs: {uri}",
         "Check the rewriteURI elements for typos or duplication.",
         QName(error_namespaces["tpe"], "tpe", "multipleRewriteURIsForStartString"),
     ),
diff --git a/brel/parsers/XHMTL/elements/parse_hidden.py b/brel/parsers/XHMTL/elements/parse_hidden.py
index 4b80f2a..fb84e6a 100644
--- a/brel/parsers/XHMTL/elements/parse_hidden.py
+++ b/brel/parsers/XHMTL/elements/parse_hidden.py
@@ -22,5 +22,5 @@ def validate_hidden_elements(
                 )
             else:
                 error_repository.insert(
-                    ErrorCode.IXBRL_INVALID_HIDDEN_ELEMENT, element, tag=child_tag
+                    ErrorCode.IXBRL_INVALID_HIDDEN_ELEMENT, element, child_tag=child_tag
                 )
diff --git a/brel/parsers/XML/xml_context_parser.py b/brel/parsers/XML/xml_context_parser.py
index 57053c8..877f02c 100644
--- a/brel/parsers/XML/xml_context_parser.py
+++ b/brel/parsers/XML/xml_context_parser.py
@@ -95,6 +95,10 @@ def parse_context_xml(
 
                 fact_context._add_characteristic(typed_dimension_characteristic)
             else:
-                error_repository.insert(ErrorCode.INVALID_DIMENSION_TYPE, xml_dimension)
+                error_repository.insert(
+                    ErrorCode.INVALID_DIMENSION_TYPE,
+                    xml_dimension,
+                    dimension_type=xml_dimension.tag,
+                )
 
     return fact_context
-- 
2.43.0


From db73b96cb7084d1939e25e0c8e51c02e60b59468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:52 +0000
Subject: [PATCH 60/93] fix: report the arcs, locators and resources of a link
 that are invalid instead of failing on them

---
 brel/errors/error_code.py                     |   5 +
 brel/errors/error_factory_registry.py         |  35 ++++
 .../XML/networks/i_xml_network_factory.py     |  17 ++
 .../xml_calculation_network_factory.py        |   9 +-
 .../xml_definition_network_factory.py         |   6 +-
 .../XML/networks/xml_extended_link_parser.py  | 190 +++++++++++++++---
 .../networks/xml_footnote_network_factory.py  |   7 +-
 .../XML/networks/xml_label_network_factory.py |  12 ++
 .../xml_presentation_network_factory.py       |   4 +-
 .../networks/xml_reference_network_factory.py |   7 +-
 brel/parsers/utils/lxml_utils.py              |  28 +++
 11 files changed, 275 insertions(+), 45 deletions(-)

diff --git a/brel/errors/error_code.py b/brel/errors/error_code.py
index 1ef6a23..05ad4a5 100644
--- a/brel/errors/error_code.py
+++ b/brel/errors/error_code.py
@@ -107,9 +107,14 @@ class ErrorCode(Enum):
         XML_UNSUPPORTED_RESOURCE_TAG,
         XML_REFERENCED_LOCATOR_ELEMENT_NOT_FOUND,
         XML_UNSUPPORTED_REFERENCED_ELEMENT_TYPE,
+        MISSING_XLINK_ATTRIBUTE,
+        INVALID_LOCATOR_TARGET,
         UNSUPPORTED_LINK_TYPE,
         DUPLICATE_LINKBASE_ARC,
         MISSING_LINK_ROLE,
+        ARC_END_NOT_FOUND,
+        INVALID_ARC_ENDS,
+        INVALID_ARC_ATTRIBUTE_VALUE,
         # Label linkbase
         MISSING_LABEL_LANGUAGE,
         # Footnote network
diff --git a/brel/errors/error_factory_registry.py b/brel/errors/error_factory_registry.py
index f0563ba..75c42ef 100644
--- a/brel/errors/error_factory_registry.py
+++ b/brel/errors/error_factory_registry.py
@@ -731,6 +731,20 @@ error_factory_registry: Dict[ErrorCode, Callable[[], ErrorInstance]] = {
         "The referenced element type must be a 'resource' or a 'locator'. {type} not a supported type.",
         "Check the value of the xlink:type attribute",
     ),
+    ErrorCode.MISSING_XLINK_ATTRIBUTE: lambda: ErrorInstance(
+        Severity.ERROR,
+        Area.GENERAL_LINKBASE,
+        "302",
+        "The element {tag} of an extended link is missing the attribute {attribute}.",
+        "Set the missing attribute.",
+    ),
+    ErrorCode.INVALID_LOCATOR_TARGET: lambda: ErrorInstance(
+        Severity.ERROR,
+        Area.GENERAL_LINKBASE,
+        "303",
+        "The element with the label '{label}' stands for something that {link_type} cannot contain.",
+        "Check the value of the xlink:href attribute.",
+    ),
     ErrorCode.UNSUPPORTED_LINK_TYPE: lambda: ErrorInstance(
         Severity.ERROR,
         Area.GENERAL_LINKBASE,
@@ -752,6 +766,27 @@ error_factory_registry: Dict[ErrorCode, Callable[[], ErrorInstance]] = {
         "A standard link element is required to have an xlink:role attribute.",
         "Set the xlink:role attribute.",
     ),
+    ErrorCode.ARC_END_NOT_FOUND: lambda: ErrorInstance(
+        Severity.ERROR,
+        Area.GENERAL_LINKBASE,
+        "403",
+        "The arc going from '{arc_from}' to '{arc_to}' has an end that no locator and no resource of its link has as its label.",
+        "Check the xlink:from and xlink:to attributes of the arc.",
+    ),
+    ErrorCode.INVALID_ARC_ENDS: lambda: ErrorInstance(
+        Severity.ERROR,
+        Area.GENERAL_LINKBASE,
+        "404",
+        "The arc going from '{arc_from}' to '{arc_to}' connects things that arcs in {link_type} cannot connect.",
+        "Check the locators and resources to which the arc refers.",
+    ),
+    ErrorCode.INVALID_ARC_ATTRIBUTE_VALUE: lambda: ErrorInstance(
+        Severity.ERROR,
+        Area.GENERAL_LINKBASE,
+        "405",
+        "The value '{value}' of the attribute {attribute} is not a number.",
+        "Check the value of the attribute of the arc.",
+    ),
     # Label network
     ErrorCode.MISSING_LABEL_LANGUAGE: lambda: ErrorInstance(
         Severity.ERROR,
diff --git a/brel/parsers/XML/networks/i_xml_network_factory.py b/brel/parsers/XML/networks/i_xml_network_factory.py
index 2afbc86..0909b79 100644
--- a/brel/parsers/XML/networks/i_xml_network_factory.py
+++ b/brel/parsers/XML/networks/i_xml_network_factory.py
@@ -37,6 +37,23 @@ class IXMLNetworkFactory(ABC):
     ) -> Optional[INetworkNode]:
         raise NotImplementedError
 
+    def can_point_to(self, target: IReportElement | IResource | Fact) -> bool:
+        """
+        :param target: what a locator refers to, or a resource
+        :returns: bool indicating if the nodes of the networks can point to the target
+        """
+        return isinstance(target, IReportElement)
+
+    def can_connect(
+        self,
+        from_target: IReportElement | IResource | Fact,
+        to_target: IReportElement | IResource | Fact,
+    ) -> bool:
+        """
+        :returns: bool indicating if an arc can lead from one of the targets to the other
+        """
+        return True
+
     def update_report_elements(
         self, report_element_repository: ReportElementRepository, network: INetwork
     ) -> None:
diff --git a/brel/parsers/XML/networks/xml_calculation_network_factory.py b/brel/parsers/XML/networks/xml_calculation_network_factory.py
index 45fbaa2..d21d458 100644
--- a/brel/parsers/XML/networks/xml_calculation_network_factory.py
+++ b/brel/parsers/XML/networks/xml_calculation_network_factory.py
@@ -25,7 +25,7 @@ from brel.networks import (
     INetworkNode,
 )
 from brel.parsers.XML.networks import IXMLNetworkFactory
-from brel.parsers.utils.lxml_utils import get_str_attribute
+from brel.parsers.utils.lxml_utils import get_number_attribute, get_str_attribute
 from brel.qnames.qname_utils import (
     qname_from_str,
     to_namespace_localname_notation,
@@ -75,9 +75,9 @@ class CalculationNetworkFactory(IXMLNetworkFactory):
             order = 1
             arc_qname = qname_from_str(xml_arc.tag, xml_arc)
         elif get_str_attribute(xml_arc, "xlink:to") == label:
-            weight = float(xml_arc.attrib.get("weight") or 0.0)
+            weight = get_number_attribute(xml_arc, "weight", 0.0)
             arc_role = get_str_attribute(xml_arc, "xlink:arcrole")
-            order = float(get_str_attribute(xml_arc, "order", "1.0"))
+            order = get_number_attribute(xml_arc, "order", 1.0)
             arc_qname = qname_from_str(xml_arc.tag, xml_arc)
         else:
             raise ValueError(
@@ -104,5 +104,8 @@ class CalculationNetworkFactory(IXMLNetworkFactory):
             order,
         )
 
+    def can_point_to(self, target: IReportElement | IResource | Fact) -> bool:
+        return isinstance(target, Concept)
+
     def is_physical(self) -> bool:
         return False
diff --git a/brel/parsers/XML/networks/xml_definition_network_factory.py b/brel/parsers/XML/networks/xml_definition_network_factory.py
index 6bfe63d..64d6f20 100644
--- a/brel/parsers/XML/networks/xml_definition_network_factory.py
+++ b/brel/parsers/XML/networks/xml_definition_network_factory.py
@@ -25,7 +25,7 @@ from brel.networks import (
     INetworkNode,
 )
 from brel.parsers.XML.networks import IXMLNetworkFactory
-from brel.parsers.utils.lxml_utils import get_str_attribute
+from brel.parsers.utils.lxml_utils import get_number_attribute, get_str_attribute
 from brel.qnames.qname_utils import (
     qname_from_str,
     to_namespace_localname_notation,
@@ -72,7 +72,7 @@ class PhysicalDefinitionNetworkFactory(IXMLNetworkFactory):
         elif get_str_attribute(xml_arc, "xlink:to", None) == label:
             # the node is an inner node
             arc_role = get_str_attribute(xml_arc, "xlink:arcrole")
-            order = float(xml_arc.attrib.get("order") or 1)
+            order = get_number_attribute(xml_arc, "order", 1)
             arc_qname = qname_from_str(xml_arc.tag, xml_arc)
         else:
             raise ValueError(
@@ -144,7 +144,7 @@ class LogicalDefinitionNetworkFactory(IXMLNetworkFactory):
             arc_qname = qname_from_str(xml_arc.tag, xml_arc)
         elif get_str_attribute(xml_arc, "xlink:to") == label:
             arc_role = get_str_attribute(xml_arc, "xlink:arcrole")
-            order = float(xml_arc.attrib.get("order") or 1)
+            order = get_number_attribute(xml_arc, "order", 1)
             arc_qname = qname_from_str(xml_arc.tag, xml_arc)
         else:
             raise ValueError(
diff --git a/brel/parsers/XML/networks/xml_extended_link_parser.py b/brel/parsers/XML/networks/xml_extended_link_parser.py
index 18ecaf6..423c78b 100644
--- a/brel/parsers/XML/networks/xml_extended_link_parser.py
+++ b/brel/parsers/XML/networks/xml_extended_link_parser.py
@@ -37,6 +37,7 @@ from brel.parsers.utils.lxml_utils import (
     get_str_attribute,
     get_clark_notation_tag,
     has_str_attribute,
+    is_number_attribute,
 )
 from brel.qnames.qname_utils import qname_from_str, to_clark_notation
 from brel.reportelements import *
@@ -101,6 +102,155 @@ def get_object_from_reference(
     return locator_target_element
 
 
+# What the locators and resources of a link stand for, and the elements that stand for it by their labels
+Targets = dict[int, tuple[IResource | IReportElement | Fact, dict[str, lxml.etree._Element]]]  # type: ignore
+
+
+def has_xlink_attributes(
+    context: FilingContext,
+    element: lxml.etree._Element,  # type: ignore
+    attributes: Iterable[str],
+) -> bool:
+    """
+    Check if an element has all of the attributes, and report the ones that it does not have.
+    """
+    missing = [name for name in attributes if not has_str_attribute(element, name)]
+    for attribute in missing:
+        context.get_error_repository().insert(
+            ErrorCode.MISSING_XLINK_ATTRIBUTE,
+            element,
+            tag=get_clark_notation_tag(element),
+            attribute=attribute,
+        )
+
+    return len(missing) == 0
+
+
+def parse_targets(
+    context: FilingContext,
+    xml_link_element: lxml.etree._Element,  # type: ignore
+    network_factory: IXMLNetworkFactory,
+) -> Targets:
+    """
+    Parse the locators and resources of a link. Reports and leaves out the ones that stand for nothing in the network.
+    """
+    # Locators that refer to the same thing stand for the same node, even if their labels differ.
+    targets: Targets = {}
+    for link_element in find_elements(
+        xml_link_element, ".//*[@xlink:type='resource' or @xlink:type='locator']"
+    ):
+        attributes = ["xlink:label"]
+        if get_str_attribute(link_element, "xlink:type") == "locator":
+            attributes.append("xlink:href")
+        if not has_xlink_attributes(context, link_element, attributes):
+            continue
+
+        label = get_str_attribute(link_element, "xlink:label")
+        to_object = get_object_from_reference(link_element, context)
+        if to_object is None:
+            continue
+
+        if not network_factory.can_point_to(to_object):
+            context.get_error_repository().insert(
+                ErrorCode.INVALID_LOCATOR_TARGET,
+                link_element,
+                label=label,
+                link_type=get_clark_notation_tag(xml_link_element),
+            )
+            continue
+
+        _, link_elements = targets.setdefault(id(to_object), (to_object, {}))
+        link_elements.setdefault(label, link_element)
+
+    return targets
+
+
+def parse_arcs(
+    context: FilingContext,
+    xml_link_element: lxml.etree._Element,  # type: ignore
+    targets: Targets,
+    network_factory: IXMLNetworkFactory,
+) -> dict[tuple[str, str, str], lxml.etree._Element]:  # type: ignore
+    """
+    Parse the arcs of a link. Reports and leaves out the ones that do not lead from one target of the link to another.
+    """
+    error_repository = context.get_error_repository()
+    labels = {
+        get_str_attribute(link_element, "xlink:label", "")
+        for link_element in find_elements(
+            xml_link_element, ".//*[@xlink:type='resource' or @xlink:type='locator']"
+        )
+    }
+    objects_by_label: dict[str, list[IResource | IReportElement | Fact]] = defaultdict(
+        list
+    )
+    for to_object, link_elements in targets.values():
+        for label in link_elements:
+            objects_by_label[label].append(to_object)
+
+    arcs: dict[tuple[str, str, str], lxml.etree._Element] = {}  # type: ignore
+    for arc_element in find_elements(xml_link_element, ".//*[@xlink:type='arc']"):
+        if not has_xlink_attributes(
+            context, arc_element, ["xlink:from", "xlink:to", "xlink:arcrole"]
+        ):
+            continue
+
+        arc_from = get_str_attribute(arc_element, "xlink:from")
+        arc_to = get_str_attribute(arc_element, "xlink:to")
+        arc_role = get_str_attribute(arc_element, "xlink:arcrole")
+        if (arc_from, arc_to, arc_role) in arcs:
+            error_repository.insert(
+                ErrorCode.DUPLICATE_LINKBASE_ARC,
+                arc_element,
+                arc_from=arc_from,
+                arc_to=arc_to,
+            )
+
+            continue
+
+        if arc_from not in labels or arc_to not in labels:
+            error_repository.insert(
+                ErrorCode.ARC_END_NOT_FOUND,
+                arc_element,
+                arc_from=arc_from,
+                arc_to=arc_to,
+            )
+
+            continue
+
+        if not all(
+            network_factory.can_connect(from_object, to_object)
+            for from_object in objects_by_label[arc_from]
+            for to_object in objects_by_label[arc_to]
+        ):
+            error_repository.insert(
+                ErrorCode.INVALID_ARC_ENDS,
+                arc_element,
+                arc_from=arc_from,
+                arc_to=arc_to,
+                link_type=get_clark_notation_tag(xml_link_element),
+            )
+
+            continue
+
+        for attribute in ("order", "weight"):
+            if has_str_attribute(arc_element, attribute) and not is_number_attribute(
+                arc_element, attribute
+            ):
+                error_repository.insert(
+                    ErrorCode.INVALID_ARC_ATTRIBUTE_VALUE,
+                    arc_element,
+                    attribute=attribute,
+                    value=get_str_attribute(arc_element, attribute),
+                )
+
+        # without one of its ends, which has been reported already, the arc leads nowhere
+        if objects_by_label[arc_from] and objects_by_label[arc_to]:
+            arcs[(arc_from, arc_to, arc_role)] = arc_element
+
+    return arcs
+
+
 def parse_xml_link(
     context: FilingContext,
     xml_link_element: lxml.etree._Element,  # type: ignore
@@ -130,44 +280,18 @@ def parse_xml_link(
             type=get_clark_notation_tag(xml_link_element),
         )
 
+    if len(network_factories) == 0:
+        return networks
+
+    # the factories of a link differ in the networks that they create, but not in what they can contain
+    targets = parse_targets(context, xml_link_element, network_factories[0])
+    edges = parse_arcs(context, xml_link_element, targets, network_factories[0])
+
     for network_factory in network_factories:
         nodes_lookup: dict[str, list[INetworkNode]] = defaultdict(list)
         arc_nodes: dict[lxml.etree._Element, list[INetworkNode]] = defaultdict(list)  # type: ignore
-        edges: dict[tuple[str, str, str], lxml.etree._Element] = {}  # type: ignore
         roots: list[INetworkNode] = []
 
-        for arc_element in find_elements(xml_link_element, ".//*[@xlink:type='arc']"):
-            arc_from = get_str_attribute(arc_element, "xlink:from")
-            arc_to = get_str_attribute(arc_element, "xlink:to")
-            arc_role = get_str_attribute(arc_element, "xlink:arcrole")
-            if (arc_from, arc_to, arc_role) in edges:
-                error_repository.insert(
-                    ErrorCode.DUPLICATE_LINKBASE_ARC,
-                    arc_element,
-                    arc_from=arc_from,
-                    arc_to=arc_to,
-                )
-
-                continue
-
-            edges[(arc_from, arc_to, arc_role)] = arc_element
-
-        # Locators that refer to the same thing stand for the same node, even if their labels differ.
-        targets: dict[int, tuple[IResource | IReportElement | Fact, dict[str, lxml.etree._Element]]] = {}  # type: ignore
-        for link_element in find_elements(
-            xml_link_element, ".//*[@xlink:type='resource' or @xlink:type='locator']"
-        ):
-            label = get_str_attribute(link_element, "xlink:label")
-            to_object: Optional[
-                IResource | IReportElement | Fact
-            ] = get_object_from_reference(link_element, context)
-
-            if to_object is None:
-                continue
-
-            _, link_elements = targets.setdefault(id(to_object), (to_object, {}))
-            link_elements.setdefault(label, link_element)
-
         for to_object, link_elements in targets.values():
             arcs_to = [arc for (_, to, _), arc in edges.items() if to in link_elements]
             arcs_from = [
diff --git a/brel/parsers/XML/networks/xml_footnote_network_factory.py b/brel/parsers/XML/networks/xml_footnote_network_factory.py
index 6fc2320..9d0b18a 100644
--- a/brel/parsers/XML/networks/xml_footnote_network_factory.py
+++ b/brel/parsers/XML/networks/xml_footnote_network_factory.py
@@ -27,7 +27,7 @@ from brel.networks import (
     INetworkNode,
 )
 from brel.parsers.XML.networks import IXMLNetworkFactory
-from brel.parsers.utils.lxml_utils import get_str_attribute
+from brel.parsers.utils.lxml_utils import get_number_attribute, get_str_attribute
 from brel.qnames.qname_utils import (
     qname_from_str,
     to_namespace_localname_notation,
@@ -93,7 +93,7 @@ class FootnoteNetworkFactory(IXMLNetworkFactory):
             arc_role = get_str_attribute(
                 xml_arc, to_namespace_localname_notation("xlink", "arcrole")
             )
-            order = float(xml_arc.attrib.get("order") or 1)
+            order = get_number_attribute(xml_arc, "order", 1)
             arc_qname = qname_from_str(xml_arc.tag, xml_arc)
         else:
             raise ValueError(
@@ -114,5 +114,8 @@ class FootnoteNetworkFactory(IXMLNetworkFactory):
             points_to, [], arc_role, arc_qname, link_role, link_name, order
         )
 
+    def can_point_to(self, target: IReportElement | IResource | Fact) -> bool:
+        return isinstance(target, (IReportElement, Fact, BrelFootnote))
+
     def is_physical(self) -> bool:
         return True
diff --git a/brel/parsers/XML/networks/xml_label_network_factory.py b/brel/parsers/XML/networks/xml_label_network_factory.py
index 545dc1b..9fa5391 100644
--- a/brel/parsers/XML/networks/xml_label_network_factory.py
+++ b/brel/parsers/XML/networks/xml_label_network_factory.py
@@ -119,5 +119,17 @@ class LabelNetworkFactory(IXMLNetworkFactory):
 
                 report_element._add_label(label)  # type: ignore
 
+    def can_point_to(self, target: IReportElement | IResource | Fact) -> bool:
+        return isinstance(target, (IReportElement, BrelLabel))
+
+    def can_connect(
+        self,
+        from_target: IReportElement | IResource | Fact,
+        to_target: IReportElement | IResource | Fact,
+    ) -> bool:
+        return isinstance(from_target, IReportElement) and isinstance(
+            to_target, BrelLabel
+        )
+
     def is_physical(self) -> bool:
         return True
diff --git a/brel/parsers/XML/networks/xml_presentation_network_factory.py b/brel/parsers/XML/networks/xml_presentation_network_factory.py
index 41de73f..a732ef6 100644
--- a/brel/parsers/XML/networks/xml_presentation_network_factory.py
+++ b/brel/parsers/XML/networks/xml_presentation_network_factory.py
@@ -25,7 +25,7 @@ from brel.networks import (
     PresentationNetwork,
     PresentationNetworkNode,
 )
-from brel.parsers.utils.lxml_utils import get_str_attribute
+from brel.parsers.utils.lxml_utils import get_number_attribute, get_str_attribute
 from brel.qnames.qname_utils import qname_from_str, to_namespace_localname_notation
 from brel.reportelements import IReportElement
 from brel.parsers.XML.networks import IXMLNetworkFactory
@@ -109,7 +109,7 @@ class PresentationNetworkFactory(IXMLNetworkFactory):
             arc_role = get_str_attribute(
                 xml_arc, to_namespace_localname_notation("xlink", "arcrole")
             )
-            order = float(get_str_attribute(xml_arc, "order", "1"))
+            order = get_number_attribute(xml_arc, "order", 1)
             arc_qname = qname_from_str(xml_arc.tag, xml_arc)
         else:
             raise ValueError(
diff --git a/brel/parsers/XML/networks/xml_reference_network_factory.py b/brel/parsers/XML/networks/xml_reference_network_factory.py
index acbf99f..e72dd56 100644
--- a/brel/parsers/XML/networks/xml_reference_network_factory.py
+++ b/brel/parsers/XML/networks/xml_reference_network_factory.py
@@ -25,7 +25,7 @@ from brel.networks import (
     ReferenceNetworkNode,
 )
 from brel.parsers.XML.networks import IXMLNetworkFactory
-from brel.parsers.utils.lxml_utils import get_str_attribute
+from brel.parsers.utils.lxml_utils import get_number_attribute, get_str_attribute
 from brel.qnames.qname_utils import qname_from_str, to_namespace_localname_notation
 from brel.reportelements import *
 from brel.resource import BrelReference, IResource
@@ -89,7 +89,7 @@ class ReferenceNetworkFactory(IXMLNetworkFactory):
             arc_role = get_str_attribute(
                 xml_arc, to_namespace_localname_notation("xlink", "arcrole")
             )
-            order = float(xml_arc.attrib.get("order") or 1)
+            order = get_number_attribute(xml_arc, "order", 1)
             arc_qname = qname_from_str(xml_arc.tag, xml_arc)
         else:
             raise ValueError(
@@ -112,5 +112,8 @@ class ReferenceNetworkFactory(IXMLNetworkFactory):
             points_to, [], arc_role, arc_qname, link_role, link_name, order
         )
 
+    def can_point_to(self, target: IReportElement | IResource | Fact) -> bool:
+        return isinstance(target, (IReportElement, BrelReference))
+
     def is_physical(self) -> bool:
         return True
diff --git a/brel/parsers/utils/lxml_utils.py b/brel/parsers/utils/lxml_utils.py
index 5214300..91639ab 100644
--- a/brel/parsers/utils/lxml_utils.py
+++ b/brel/parsers/utils/lxml_utils.py
@@ -9,6 +9,7 @@
 """
 
 from copy import deepcopy
+from math import isfinite
 from typing import Dict, List, Mapping, Optional, cast
 from brel.qnames.qname import QName
 import lxml.etree
@@ -107,6 +108,33 @@ def get_str_attribute_optional(element: _Element, attribute: str | QName) -> str
     return element.attrib.get(attribute)
 
 
+def get_number_attribute(element: _Element, attribute: str, default: float) -> float:
+    """
+    Helper function for getting a numeric attribute from an element.
+    :param element: lxml.etree.Element to get the attribute from
+    :param attribute: str containing the name of the attribute
+    :param default: float to return if the attribute is missing or is not a number
+    :return: float containing the value of the attribute
+    """
+    if not is_number_attribute(element, attribute):
+        return default
+
+    return float(get_str_attribute(element, attribute))
+
+
+def is_number_attribute(element: _Element, attribute: str) -> bool:
+    """
+    Helper function for checking if an element has a numeric attribute.
+    :param element: lxml.etree.Element to check
+    :param attribute: str containing the name of the attribute
+    :return: bool indicating if the attribute is present and is a finite number
+    """
+    try:
+        return isfinite(float(get_str_attribute(element, attribute)))
+    except ValueError:
+        return False
+
+
 def get_clark_notation_tag(element: _Element) -> str:  # type: ignore
     """
     Helper function for getting the tag of an element as a string in Clark Notation.
-- 
2.43.0


From 9ce838c206db7113dbb84d780e8bd36278d4f1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:52 +0000
Subject: [PATCH 61/93] fix: report a referenced document that cannot be read
 instead of failing on it

---
 brel/contexts/filing_context.py               |  1 +
 brel/errors/error_code.py                     |  3 +
 brel/errors/error_factory_registry.py         | 21 +++++
 brel/services/factory.py                      |  7 +-
 brel/services/xml/xml_file_parser_resolver.py |  3 +
 brel/services/xml/xml_service.py              | 83 ++++++++++++++-----
 6 files changed, 98 insertions(+), 20 deletions(-)

diff --git a/brel/contexts/filing_context.py b/brel/contexts/filing_context.py
index 3fa8d28..27c8028 100644
--- a/brel/contexts/filing_context.py
+++ b/brel/contexts/filing_context.py
@@ -124,6 +124,7 @@ class FilingContext:
                 self.get_file_service(),
                 self.get_xml_repository(),
                 self.get_uri_rewrite_repository(),
+                self.get_error_repository(),
             ),
         )
 
diff --git a/brel/errors/error_code.py b/brel/errors/error_code.py
index 05ad4a5..3089d05 100644
--- a/brel/errors/error_code.py
+++ b/brel/errors/error_code.py
@@ -140,5 +140,8 @@ class ErrorCode(Enum):
         QNAME_NAMESPACE_NOT_IN_ELEMENT_SCOPE,
         QNAME_MISSING_NAMESPACE,
         UNAVAILABLE_REMOTE_FILE,
+        UNREADABLE_FILE,
+        MALFORMED_XML_FILE,
+        UNSUPPORTED_REFERENCED_FILE,
         *rest,
     ) = range(1000)
diff --git a/brel/errors/error_factory_registry.py b/brel/errors/error_factory_registry.py
index 75c42ef..67c785b 100644
--- a/brel/errors/error_factory_registry.py
+++ b/brel/errors/error_factory_registry.py
@@ -929,4 +929,25 @@ error_factory_registry: Dict[ErrorCode, Callable[[], ErrorInstance]] = {
         "The remote file with '{uri}' could not be found. The web page returned status code {status_code}.",
         "Check the URI of the remote file.",
     ),
+    ErrorCode.UNREADABLE_FILE: lambda: ErrorInstance(
+        Severity.ERROR,
+        Area.MISC,
+        "101",
+        "The file '{uri}', to which another file of the filing refers, could not be read.",
+        "Check the reference, and whether the file is part of the filing.",
+    ),
+    ErrorCode.MALFORMED_XML_FILE: lambda: ErrorInstance(
+        Severity.ERROR,
+        Area.MISC,
+        "102",
+        "The file '{uri}', to which another file of the filing refers, is not a well-formed XML file: {reason}.",
+        "Check the contents of the file.",
+    ),
+    ErrorCode.UNSUPPORTED_REFERENCED_FILE: lambda: ErrorInstance(
+        Severity.WARNING,
+        Area.MISC,
+        "103",
+        "The file '{uri}', to which another file of the filing refers, has a format that is not supported.",
+        "Check the reference. Supported files end with .xml, .xsd, .xhtml, .htm or .html",
+    ),
 }
diff --git a/brel/services/factory.py b/brel/services/factory.py
index 4225c90..0bff295 100644
--- a/brel/services/factory.py
+++ b/brel/services/factory.py
@@ -42,10 +42,15 @@ def create_xml_service(
     file_service: FileService,
     xml_repository: XMLRepository,
     uri_rewrite_repository: URIRewriteRepository,
+    error_repository: ErrorRepository,
 ) -> XMLService:
     parser_resolver = create_xml_file_parser_resolver()
     return XMLService(
-        file_service, xml_repository, uri_rewrite_repository, parser_resolver
+        file_service,
+        xml_repository,
+        uri_rewrite_repository,
+        parser_resolver,
+        error_repository,
     )
 
 
diff --git a/brel/services/xml/xml_file_parser_resolver.py b/brel/services/xml/xml_file_parser_resolver.py
index 4240e0c..20a487b 100644
--- a/brel/services/xml/xml_file_parser_resolver.py
+++ b/brel/services/xml/xml_file_parser_resolver.py
@@ -26,6 +26,9 @@ class XMLFileParserResolver:
             ".html": xhtml_parser,
         }
 
+    def has_parser(self, file_name: str) -> bool:
+        return any(file_name.endswith(ext) for ext in self.__parsers)
+
     def get_parser(self, file_name: str) -> Callable[[IO[bytes]], _ElementTree]:
         for ext, parser in self.__parsers.items():
             if file_name.endswith(ext):
diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index 5f4b5c5..7ea9928 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -9,13 +9,15 @@
 """
 
 import os
-from typing import Dict, List, Optional, Set
+from typing import IO, Dict, List, Optional, Set
 import urllib.parse
-from lxml.etree import QName, _Element, _ElementTree  # type: ignore
+from lxml.etree import QName, XMLSyntaxError, _Element, _ElementTree  # type: ignore
 import urllib
 
+from brel.data.errors.error_repository import ErrorRepository
 from brel.data.uri_rewrite.uri_rewrite_repository import URIRewriteRepository
 from brel.data.xml.xml_repository import XMLRepository
+from brel.errors.error_code import ErrorCode
 from brel.parsers.utils.lxml_utils import get_str_attribute
 from brel.parsers.utils.url_utils import is_remote_uri
 from brel.services.file.file_service import FileService
@@ -31,11 +33,14 @@ class XMLService:
         xml_repository: XMLRepository,
         uri_rewrite_repository: URIRewriteRepository,
         parser_resolver: XMLFileParserResolver,
+        error_repository: ErrorRepository,
     ) -> None:
         self.__file_service = file_service
         self.__uri_rewrite_repository = uri_rewrite_repository
         self.__xml_repository = xml_repository
         self.__parser_resolver = parser_resolver
+        self.__error_repository = error_repository
+        self.__unreadable_uris: Set[str] = set()
         self.__available_filing_languages: Optional[List[str]] = None
         self.__elements_by_id: Dict[_Element, Dict[str, _Element]] = {}
 
@@ -49,32 +54,72 @@ class XMLService:
         the referencing_uri is useful if a remote file references local files (e.g. http://example.com/file.xml has a reference to other_file.xml)
         """
         uri = self.__resolve(uri, referencing_uri)
-        is_uri_remote = is_remote_uri(uri)
 
         if self.__xml_repository.has_etree(uri):
             return
 
+        if referencing_uri == ".":
+            etree = self.__load(uri)
+        else:
+            etree = self.__load_referenced(uri)
+
+        if etree is None:
+            return
+
+        self.__xml_repository.add_etree(uri, etree)
+
+        for reference_uri in self.__extract_references(etree):
+            self.add_etree_recursive(reference_uri, referencing_uri=uri)
+
+    def __load(self, uri: str) -> Optional[_ElementTree]:
+        """
+        :param uri: The URI of the document.
+        :returns: The document. None if it is remote and not available, which is reported as an error.
+        """
         parser = self.__parser_resolver.get_parser(uri)
 
-        if is_uri_remote and self.__file_service.has_file(uri):
-            with self.__file_service.get_file(uri) as file:
-                self.__xml_repository.add_etree(uri, parser(file))
-        elif is_uri_remote:
-            downloaded_file = self.__file_service.download_and_add_file(uri)
-            if downloaded_file is None:
-                return
+        opened_file: Optional[IO[bytes]]
+        if not is_remote_uri(uri):
+            # local files can change, or share their name with another file
+            opened_file = self.__file_service.copy_and_add_file(uri)
+        elif self.__file_service.has_file(uri):
+            opened_file = self.__file_service.get_file(uri)
+        else:
+            opened_file = self.__file_service.download_and_add_file(uri)
+
+        if opened_file is None:
+            return None
+
+        with opened_file as file:
+            return parser(file)
+
+    def __load_referenced(self, uri: str) -> Optional[_ElementTree]:
+        """
+        :param uri: The URI of a document to which another one refers.
+        :returns: The document. None if it cannot be read, which is reported once, since the rest of the filing can be.
+        """
+        if uri in self.__unreadable_uris:
+            return None
 
-            with downloaded_file as file:
-                self.__xml_repository.add_etree(uri, parser(file))
+        etree: Optional[_ElementTree] = None
+        if not self.__parser_resolver.has_parser(uri):
+            self.__error_repository.insert(
+                ErrorCode.UNSUPPORTED_REFERENCED_FILE, uri=uri
+            )
         else:
-            # local files can change, or share their name with another file
-            with self.__file_service.copy_and_add_file(uri) as file:
-                self.__xml_repository.add_etree(uri, parser(file))
+            try:
+                etree = self.__load(uri)
+            except OSError:
+                self.__error_repository.insert(ErrorCode.UNREADABLE_FILE, uri=uri)
+            except XMLSyntaxError as error:
+                self.__error_repository.insert(
+                    ErrorCode.MALFORMED_XML_FILE, uri=uri, reason=str(error)
+                )
 
-        for reference_uri in self.__extract_references(
-            self.__xml_repository.get_etree(uri)
-        ):
-            self.add_etree_recursive(reference_uri, referencing_uri=uri)
+        if etree is None:
+            self.__unreadable_uris.add(uri)
+
+        return etree
 
     def __resolve(self, uri: str, referencing_uri: str) -> str:
         """
-- 
2.43.0


From 3b558373fe82c7b707194c1762829174a270d3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:08 +0000
Subject: [PATCH 62/93] fix: report dimensions without a name and role types
 without a URI instead of failing on them

---
 brel/errors/error_code.py                           |  1 +
 brel/errors/error_factory_registry.py               |  7 +++++++
 .../characteristics/xml_parse_explicit_dimension.py |  3 ++-
 .../characteristics/xml_parse_typed_dimension.py    |  3 ++-
 brel/parsers/XML/xml_component_parser.py            | 13 ++++++++++++-
 5 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/brel/errors/error_code.py b/brel/errors/error_code.py
index 3089d05..a41f7c5 100644
--- a/brel/errors/error_code.py
+++ b/brel/errors/error_code.py
@@ -131,6 +131,7 @@ class ErrorCode(Enum):
         PRESENTATION_NETWORK_IN_COMPONENT_WITHOUT_USEDON_ELEMENT,
         CALCULATION_NETWORK_IN_COMPONENT_WITHOUT_USEDON_ELEMENT,
         DEFINITION_NETWORK_IN_COMPONENT_WITHOUT_USEDON_ELEMENT,
+        MISSING_ROLE_TYPE_URI,
         REFERENCED_SCHEMA_ELEMENT_NOT_FOUND,
         INVALID_CONCEPT_PERIOD_TYPE,
         INVALID_CONCEPT_BALANCE_TYPE,
diff --git a/brel/errors/error_factory_registry.py b/brel/errors/error_factory_registry.py
index 67c785b..4caf24d 100644
--- a/brel/errors/error_factory_registry.py
+++ b/brel/errors/error_factory_registry.py
@@ -872,6 +872,13 @@ error_factory_registry: Dict[ErrorCode, Callable[[], ErrorInstance]] = {
         "Component {linkrole_uri} has a definition network but without an appropriate usedOn element in its schema.",
         "Add a `<link:usedOn>link:definitionLink</link:usedOn>` element in the component.",
     ),
+    ErrorCode.MISSING_ROLE_TYPE_URI: lambda: ErrorInstance(
+        Severity.ERROR,
+        Area.SCHEMA_DEFINITION,
+        "003",
+        "A roleType element is missing the roleURI attribute.",
+        "Set the roleURI attribute.",
+    ),
     ErrorCode.REFERENCED_SCHEMA_ELEMENT_NOT_FOUND: lambda: ErrorInstance(
         Severity.ERROR,
         Area.SCHEMA_DEFINITION,
diff --git a/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py b/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
index 8937330..6302e31 100644
--- a/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
+++ b/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
@@ -44,7 +44,8 @@ def parse_explicit_dimension_from_xml(
     aspect_repository = filing_context.get_aspect_repository()
     error_repository = filing_context.get_error_repository()
 
-    aspect_id = get_str_attribute(xml_element, "dimension")
+    # without the attribute, there is no such dimension
+    aspect_id = get_str_attribute(xml_element, "dimension", "")
     dimension_qname = qname_from_str(aspect_id, xml_element)
     if not report_element_repository.has_typed_qname(dimension_qname, Dimension):
         error_repository.insert(
diff --git a/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py b/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
index 92ea450..e079c19 100644
--- a/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
+++ b/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
@@ -55,7 +55,8 @@ def parse_typed_dimension_from_xml(
     characteristic_repository = filing_context.get_characteristic_repository()
     error_repository = filing_context.get_error_repository()
 
-    dimension_axis = get_str_attribute(xml_element, "dimension")
+    # without the attribute, there is no such dimension
+    dimension_axis = get_str_attribute(xml_element, "dimension", "")
 
     dimension_qname = qname_from_str(dimension_axis, xml_element)
     if not report_element_repository.has_typed_qname(dimension_qname, Dimension):
diff --git a/brel/parsers/XML/xml_component_parser.py b/brel/parsers/XML/xml_component_parser.py
index 091015d..08f2697 100644
--- a/brel/parsers/XML/xml_component_parser.py
+++ b/brel/parsers/XML/xml_component_parser.py
@@ -28,7 +28,12 @@ from brel.contexts.filing_context import FilingContext
 from brel.data.errors.error_repository import ErrorRepository
 from brel.data.component.component_repository import ComponentRepository
 from brel.data.network.network_repository import NetworkRepository
-from brel.parsers.utils.lxml_utils import find_element, find_elements, get_str_attribute
+from brel.parsers.utils.lxml_utils import (
+    find_element,
+    find_elements,
+    get_str_attribute,
+    has_str_attribute,
+)
 from brel.qnames.qname_utils import qname_from_str, to_clark_notation
 
 LINK_NAMESPACE = "http://www.xbrl.org/2003/linkbase"
@@ -142,6 +147,12 @@ def parse_components_xml(
             ".//link:roleType",
             namespaces={"link": LINK_NAMESPACE},
         ):
+            if not has_str_attribute(roletype, "roleURI"):
+                context.get_error_repository().insert(
+                    ErrorCode.MISSING_ROLE_TYPE_URI, roletype
+                )
+                continue
+
             # several schemas may declare the same role
             role_uri = get_str_attribute(roletype, "roleURI")
             if role_uri in role_uris:
-- 
2.43.0


From 5e226b754ef97497608ee351ace59e7121e3f6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:00 +0000
Subject: [PATCH 63/93] fix: redirect a URI by the longest entry of the catalog
 that matches it, not by the first

---
 .../in_memory_uri_rewrite_repository.py           | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/brel/data/uri_rewrite/in_memory_uri_rewrite_repository.py b/brel/data/uri_rewrite/in_memory_uri_rewrite_repository.py
index f049936..02c10f8 100644
--- a/brel/data/uri_rewrite/in_memory_uri_rewrite_repository.py
+++ b/brel/data/uri_rewrite/in_memory_uri_rewrite_repository.py
@@ -22,8 +22,13 @@ class InMemoryURIRewriteRepository(URIRewriteRepository):
         del self.__catalog[original_string]
 
     def rewrite(self, uri: str) -> str:
-        for original_string, replacement_string in self.__catalog.items():
-            if uri.startswith(original_string):
-                return replacement_string + uri[len(original_string) :]
-
-        return uri
+        # the longest matching entry of the catalog is the most specific one
+        original_string = max(
+            (start for start in self.__catalog if uri.startswith(start)),
+            key=len,
+            default=None,
+        )
+        if original_string is None:
+            return uri
+
+        return self.__catalog[original_string] + uri[len(original_string) :]
-- 
2.43.0


From 2d17d7030e6ffd6d0b4e4370ad4f4ca4ca748c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:28 +0000
Subject: [PATCH 64/93] fix: a document that is only partly written to the
 cache is not read from it

---
 brel/data/file/pyfs_file_repository.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/brel/data/file/pyfs_file_repository.py b/brel/data/file/pyfs_file_repository.py
index 9b97d2d..7aa8366 100644
--- a/brel/data/file/pyfs_file_repository.py
+++ b/brel/data/file/pyfs_file_repository.py
@@ -15,6 +15,7 @@ import fs
 from brel.data.file.file_repository import FileRepository
 from brel.parsers.utils.file_utils import uri_to_filename
 from typing import IO
+from uuid import uuid4
 
 
 class PyFsFileRepository(FileRepository):
@@ -29,7 +30,17 @@ class PyFsFileRepository(FileRepository):
 
     def add_file(self, uri: str, file: IO[bytes]) -> None:
         # the XML declaration says how the bytes are encoded
-        self.fs.writebytes(uri_to_filename(uri), file.read())
+        file_name = uri_to_filename(uri)
+
+        # the file appears under its name once it is complete: whatever is there is read from then on
+        incomplete_name = f"{file_name[:100]}.{uuid4().hex}.part"
+        try:
+            self.fs.writebytes(incomplete_name, file.read())
+            self.fs.move(incomplete_name, file_name, overwrite=True)
+        except BaseException:
+            if self.fs.exists(incomplete_name):
+                self.fs.remove(incomplete_name)
+            raise
 
     def get_file(self, uri: str) -> IO[bytes]:
         file_name = uri_to_filename(uri)
-- 
2.43.0


From 8305058cac8d21a6f693df305d7f2b08dd71bfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:31 +0000
Subject: [PATCH 65/93] fix: allow_report_language and allow_system_language
 each allow what they name, not each other

---
 brel/brel_filing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/brel_filing.py b/brel/brel_filing.py
index 80ff7b5..65a72de 100644
--- a/brel/brel_filing.py
+++ b/brel/brel_filing.py
@@ -567,8 +567,8 @@ class Filing:
 
         languages = self.get_preferred_languages(
             kwargs.get("languages"),
-            allow_system_language,
             allow_report_language,
+            allow_system_language,
             allow_default,
         )
 
-- 
2.43.0


From c02507e8f29a0fb8589e1a9af10860afa70a910b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:31 +0000
Subject: [PATCH 66/93] fix: write the system language as languages are written
 in reports

---
 brel/config/brel_config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/brel/config/brel_config.py b/brel/config/brel_config.py
index 0b26753..f1a4298 100644
--- a/brel/config/brel_config.py
+++ b/brel/config/brel_config.py
@@ -40,7 +40,8 @@ class BrelConfig:
     @classmethod
     def get_system_language(cls) -> Optional[str]:
         locale, _ = getdefaultlocale()
-        return locale
+        # xml:lang and the translations separate the language and the country by a hyphen
+        return locale.replace("_", "-") if locale else locale
 
     @classmethod
     def get_translations_filepath(cls) -> str:
-- 
2.43.0


From c02ec2c49520c1e79768ceaf9b3ea08b441e7b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:31 +0000
Subject: [PATCH 67/93] fix: find the translations from any working directory

---
 brel/config/brel_config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/brel/config/brel_config.py b/brel/config/brel_config.py
index f1a4298..e8c7a22 100644
--- a/brel/config/brel_config.py
+++ b/brel/config/brel_config.py
@@ -1,3 +1,4 @@
+import os
 from locale import getdefaultlocale
 from typing import List, Optional, Unpack, cast
 
@@ -45,4 +46,4 @@ class BrelConfig:
 
     @classmethod
     def get_translations_filepath(cls) -> str:
-        return "./brel/config/translations.csv"
+        return os.path.join(os.path.dirname(__file__), "translations.csv")
-- 
2.43.0


From 0e891e9f7c4e154bf707712d5fa539c8ff09f97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:31 +0000
Subject: [PATCH 68/93] fix: without mixed languages, a table has its rows
 once, in the first language that has all of it

---
 brel/brel_filing.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/brel/brel_filing.py b/brel/brel_filing.py
index 65a72de..3f860a2 100644
--- a/brel/brel_filing.py
+++ b/brel/brel_filing.py
@@ -516,14 +516,16 @@ class Filing:
                 d = element.convert_to_dict(languages_list, translation_service)
                 data.append(d)
         else:
+            # the first language that everything is available in
             for language in output_params["languages"]:
-                for element in elements:
-                    try:
-                        d = element.convert_to_dict([language], translation_service)
-                        data.append(d)
-                    except:
-                        data = []
-                        break
+                try:
+                    data = [
+                        element.convert_to_dict([language], translation_service)
+                        for element in elements
+                    ]
+                    break
+                except (KeyError, ValueError):
+                    continue
 
         df = pd.DataFrame(data)
         return df
-- 
2.43.0


From 6714750414affc48009bf6fd1bac023191355a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:31 +0000
Subject: [PATCH 69/93] fix: name the definition network in the dictionary of a
 component

---
 brel/brel_component.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/brel_component.py b/brel/brel_component.py
index 6701391..c9e3c17 100644
--- a/brel/brel_component.py
+++ b/brel/brel_component.py
@@ -189,7 +189,7 @@ class Component:
                 "calculation-network": (
                     True if self.__calculation_network is not None else False
                 ),
-                "definintion-network": (
+                "definition-network": (
                     True if self.__definition_network is not None else False
                 ),
             }
-- 
2.43.0


From b3dbb2c35620c44e7cda07e2c56c6fc726f8d989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:31 +0000
Subject: [PATCH 70/93] fix: languages of the report are preferred in the order
 of the documents, not of a set

---
 brel/services/xml/xml_service.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index 7ea9928..61454f7 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -224,18 +224,17 @@ class XMLService:
 
     def get_available_filing_languages(self) -> List[str]:
         if self.__available_filing_languages is None:
-            all_languages: Set[str] = set()
+            # a dictionary keeps the order of the documents, which a set does not
+            all_languages: Dict[str, None] = {}
             for tree in self.get_all_etrees():
                 elements_with_lang = tree.findall(
                     "//*[@xml:lang]", {"xml": "http://www.w3.org/XML/1998/namespace"}
                 )
 
-                tree_languages = set(
-                    get_str_attribute(element_with_lang, "xml:lang")
-                    for element_with_lang in elements_with_lang
-                )
-
-                all_languages = all_languages.union(tree_languages)
+                for element_with_lang in elements_with_lang:
+                    all_languages[
+                        get_str_attribute(element_with_lang, "xml:lang")
+                    ] = None
 
             self.__available_filing_languages = list(all_languages)
 
-- 
2.43.0


From f42ae051e42381e90223ac87a37fe7e3a47ec75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:12 +0000
Subject: [PATCH 71/93] fix: leave out and report arcs that close a cycle,
 which no network can contain

---
 brel/errors/error_code.py                     |  1 +
 brel/errors/error_factory_registry.py         |  7 +++
 .../XML/networks/xml_extended_link_parser.py  | 53 ++++++++++++++++++-
 3 files changed, 60 insertions(+), 1 deletion(-)

diff --git a/brel/errors/error_code.py b/brel/errors/error_code.py
index a41f7c5..7c0232c 100644
--- a/brel/errors/error_code.py
+++ b/brel/errors/error_code.py
@@ -114,6 +114,7 @@ class ErrorCode(Enum):
         MISSING_LINK_ROLE,
         ARC_END_NOT_FOUND,
         INVALID_ARC_ENDS,
+        CYCLIC_ARC,
         INVALID_ARC_ATTRIBUTE_VALUE,
         # Label linkbase
         MISSING_LABEL_LANGUAGE,
diff --git a/brel/errors/error_factory_registry.py b/brel/errors/error_factory_registry.py
index 4caf24d..f6d0510 100644
--- a/brel/errors/error_factory_registry.py
+++ b/brel/errors/error_factory_registry.py
@@ -787,6 +787,13 @@ error_factory_registry: Dict[ErrorCode, Callable[[], ErrorInstance]] = {
         "The value '{value}' of the attribute {attribute} is not a number.",
         "Check the value of the attribute of the arc.",
     ),
+    ErrorCode.CYCLIC_ARC: lambda: ErrorInstance(
+        Severity.WARNING,
+        Area.GENERAL_LINKBASE,
+        "406",
+        "The arc going from '{arc_from}' to '{arc_to}' leads back to where it comes from. It is left out.",
+        "Remove one of the arcs of the cycle.",
+    ),
     # Label network
     ErrorCode.MISSING_LABEL_LANGUAGE: lambda: ErrorInstance(
         Severity.ERROR,
diff --git a/brel/parsers/XML/networks/xml_extended_link_parser.py b/brel/parsers/XML/networks/xml_extended_link_parser.py
index 423c78b..bdcc3e6 100644
--- a/brel/parsers/XML/networks/xml_extended_link_parser.py
+++ b/brel/parsers/XML/networks/xml_extended_link_parser.py
@@ -251,6 +251,53 @@ def parse_arcs(
     return arcs
 
 
+def leave_out_cycles(
+    context: FilingContext,
+    targets: Targets,
+    edges: dict[tuple[str, str, str], lxml.etree._Element],  # type: ignore
+    is_physical: bool,
+    cyclic_arcs: set[lxml.etree._Element],  # type: ignore
+) -> dict[tuple[str, str, str], lxml.etree._Element]:  # type: ignore
+    """
+    Leave out the arcs that lead back to where they come from, since networks are trees. Reports the ones that are not in cyclic_arcs yet.
+    """
+    ids_by_label: dict[str, set[int]] = defaultdict(set)
+    for target_id, (_, link_elements) in targets.items():
+        for label in link_elements:
+            ids_by_label[label].add(target_id)
+
+    acyclic_edges: dict[tuple[str, str, str], lxml.etree._Element] = {}  # type: ignore
+    # the networks that a link is split into, one per arc role if they are physical
+    children: dict[str, dict[int, set[int]]] = defaultdict(lambda: defaultdict(set))
+    for (arc_from, arc_to, arc_role), arc_element in edges.items():
+        network_children = children[arc_role if is_physical else ""]
+
+        reachable: set[int] = set()
+        worklist = list(ids_by_label[arc_to])
+        while len(worklist) > 0:
+            target_id = worklist.pop()
+            if target_id not in reachable:
+                reachable.add(target_id)
+                worklist.extend(network_children[target_id])
+
+        if not reachable.isdisjoint(ids_by_label[arc_from]):
+            if arc_element not in cyclic_arcs:
+                cyclic_arcs.add(arc_element)
+                context.get_error_repository().insert(
+                    ErrorCode.CYCLIC_ARC,
+                    arc_element,
+                    arc_from=arc_from,
+                    arc_to=arc_to,
+                )
+            continue
+
+        acyclic_edges[(arc_from, arc_to, arc_role)] = arc_element
+        for target_id in ids_by_label[arc_from]:
+            network_children[target_id] |= ids_by_label[arc_to]
+
+    return acyclic_edges
+
+
 def parse_xml_link(
     context: FilingContext,
     xml_link_element: lxml.etree._Element,  # type: ignore
@@ -285,9 +332,13 @@ def parse_xml_link(
 
     # the factories of a link differ in the networks that they create, but not in what they can contain
     targets = parse_targets(context, xml_link_element, network_factories[0])
-    edges = parse_arcs(context, xml_link_element, targets, network_factories[0])
+    all_edges = parse_arcs(context, xml_link_element, targets, network_factories[0])
+    cyclic_arcs: set[lxml.etree._Element] = set()  # type: ignore
 
     for network_factory in network_factories:
+        edges = leave_out_cycles(
+            context, targets, all_edges, network_factory.is_physical(), cyclic_arcs
+        )
         nodes_lookup: dict[str, list[INetworkNode]] = defaultdict(list)
         arc_nodes: dict[lxml.etree._Element, list[INetworkNode]] = defaultdict(list)  # type: ignore
         roots: list[INetworkNode] = []
-- 
2.43.0


From b67cd2c9b75aeb721753558f9726c9145a1f996f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:23 +0000
Subject: [PATCH 72/93] fix: list the nodes and arc roles of a network in their
 order, not in the order of a set

---
 brel/networks/i_network.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/brel/networks/i_network.py b/brel/networks/i_network.py
index 2baa6dd..5420b60 100644
--- a/brel/networks/i_network.py
+++ b/brel/networks/i_network.py
@@ -23,7 +23,7 @@ They are all implemented in the same way as the calculation network and can be i
 """
 
 from abc import ABC
-from typing import Any, Dict, Set
+from typing import Any, Dict
 
 from brel import QName
 from brel.networks import INetworkNode
@@ -86,8 +86,7 @@ class INetwork(ABC):
         Get all the arc roles that are used by nodes in the network
         :returns list[str]: list of all arc roles that are used by nodes in the network
         """
-        arc_role_set = set([node.get_arc_role() for node in self.get_all_nodes()])
-        return list(arc_role_set)
+        return list(dict.fromkeys(node.get_arc_role() for node in self.get_all_nodes()))
 
     def get_arc_name(self) -> QName | None:
         """
@@ -118,21 +117,21 @@ class INetwork(ABC):
         :returns list[NetworkNode]: containing all nodes in the network
         """
 
-        # create a set to store all nodes in
-        nodes: Set[INetworkNode] = set()
+        # create a dictionary to store all nodes in, since it keeps them in the order of the network
+        nodes: Dict[INetworkNode, None] = {}
 
-        # recursive function to add all children of a node to the nodes set
+        # recursive function to add all children of a node to the nodes
         def add_children(node: INetworkNode) -> None:
-            nodes.add(node)
+            nodes[node] = None
             for child in node.get_children():
                 add_children(child)
 
-        # add all children of the root node to the nodes set
+        # add all children of the root node to the nodes
         roots: list[INetworkNode] = self.get_roots()
         for root in roots:
             add_children(root)
 
-        # return the nodes set as a list
+        # return the nodes as a list
         return list(nodes)
 
     def convert_to_dict(self) -> Dict[str, Any]:
-- 
2.43.0


From b7852fb07f80554a7f6adfeb7ee85f5e262acf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:23 +0000
Subject: [PATCH 73/93] fix: the descendants of a node do not include the node
 itself, and are in the order of the tree

---
 brel/networks/i_network_node.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/brel/networks/i_network_node.py b/brel/networks/i_network_node.py
index cbd829f..adc50e1 100644
--- a/brel/networks/i_network_node.py
+++ b/brel/networks/i_network_node.py
@@ -126,12 +126,12 @@ class INetworkNode(ABC):
         Returns all descendants of the current node
         :returns list[NetworkNode]: list containing all descendants of this node
         """
-        descendants = set()
-        worklist: list["INetworkNode"] = [self]
+        descendants: dict["INetworkNode", None] = {}
+        worklist: list["INetworkNode"] = list(reversed(self.get_children()))
         while len(worklist) > 0:
             node = worklist.pop()
-            descendants.add(node)
-            worklist.extend(node.get_children())
+            descendants[node] = None
+            worklist.extend(reversed(node.get_children()))
 
         return list(descendants)
 
-- 
2.43.0


From 4977b2f0e5164d874b7dd950532d72494607a9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:38 +0000
Subject: [PATCH 74/93] fix: print the facts of a network, and the URI and info
 of a component as they are

---
 brel/utils/print_component.py | 6 ++++--
 brel/utils/print_networks.py  | 6 ++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/brel/utils/print_component.py b/brel/utils/print_component.py
index 024c490..8e7089b 100644
--- a/brel/utils/print_component.py
+++ b/brel/utils/print_component.py
@@ -11,6 +11,7 @@ Module for pretty printing a component and all its networks to the console.
 """
 
 import rich
+from rich.text import Text
 from brel import Component
 from brel.utils import pprint_network
 
@@ -22,8 +23,9 @@ def pprint_component(component: Component):
 
     # print(f"Component: {component.get_URI()}")
     # print(f"Info: {component.get_info()}")
-    rich.print(f"[bold]Component:[/bold] {component.get_URI()}")
-    rich.print(f"[italic]Info:[/italic] {component.get_info()}")
+    # the URI and the info are no markup, even if they contain square brackets or colons
+    rich.print(Text.assemble(("Component:", "bold"), f" {component.get_URI()}"))
+    rich.print(Text.assemble(("Info:", "italic"), f" {component.get_info()}"))
 
     networks = component.get_networks()
     for network in networks:
diff --git a/brel/utils/print_networks.py b/brel/utils/print_networks.py
index 8917aa8..71f7890 100644
--- a/brel/utils/print_networks.py
+++ b/brel/utils/print_networks.py
@@ -81,6 +81,12 @@ def __print_sub_network(node: INetworkNode, last=True, header="") -> None:
 
         output_string += type_str + " " + node_as_str
 
+    elif node_is_a == "fact":
+        fact = node.get_fact()
+        fact_id = fact.get_id()
+        fact_id_str = f"({fact_id}) " if fact_id is not None else ""
+        output_string += f"[FACT] {fact_id_str}{fact.get_concept()} {fact.get_value_as_str()}"
+
     if hasattr(node, "get_weight"):
         weight = getattr(node, "get_weight")()
         weight_str = f"[W={weight:4}] "
-- 
2.43.0


From fb300eb635f12ee8eed5b7381a3c4423c55022cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:40 +0000
Subject: [PATCH 75/93] fix: facts can also have the boolean values 1 and 0,
 and white space around them

---
 brel/brel_fact.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/brel/brel_fact.py b/brel/brel_fact.py
index 2d49a4d..75b545a 100644
--- a/brel/brel_fact.py
+++ b/brel/brel_fact.py
@@ -116,9 +116,11 @@ class Fact:
         :returns bool: The value of the fact as a bool
         :raises ValueError: If the value of the fact does not resolve to a bool
         """
-        if self.__value.upper() == "TRUE":
+        # "1" and "0" are booleans of XML schema as well, and white space around them does not count
+        value = self.__value.strip().upper()
+        if value in ("TRUE", "1"):
             return True
-        elif self.__value.upper() == "FALSE":
+        elif value in ("FALSE", "0"):
             return False
         else:
             raise ValueError(
-- 
2.43.0


From 4e83ce5058c8e63201f02c4ffe8a9fdbc7790ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:14 +0000
Subject: [PATCH 76/93] fix: download the list of filings again once it is
 older than a day, not two

---
 brel/utils/edgar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/utils/edgar.py b/brel/utils/edgar.py
index 21e90ec..250da70 100644
--- a/brel/utils/edgar.py
+++ b/brel/utils/edgar.py
@@ -114,7 +114,7 @@ def open_edgar(cik: str, filing_type: str, date: str | None = None) -> Filing:
             - datetime.datetime.fromtimestamp(
                 os.path.getmtime(os.path.join(edgar_cache_dir, f"{cik.zfill(10)}.json"))
             )
-        ).days > 1:
+        ) > datetime.timedelta(days=1):
             if not __download_metadata_for_cik(cik):
                 raise ValueError(f"Failed to download metadata for CIK {cik}")
 
-- 
2.43.0


From 4f0f52889f823b2d5019fa96e7c97dd88d72f665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:14 +0000
Subject: [PATCH 77/93] fix: only the extension of the primary document is
 exchanged for that of its instance

---
 brel/utils/edgar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/utils/edgar.py b/brel/utils/edgar.py
index 250da70..5ad80fb 100644
--- a/brel/utils/edgar.py
+++ b/brel/utils/edgar.py
@@ -150,7 +150,7 @@ def open_edgar(cik: str, filing_type: str, date: str | None = None) -> Filing:
 
         if uri.endswith(".htm"):
             uri_dir = uri[: uri.rfind("/")]
-            uri = uri.replace(".htm", "_htm.xml")
+            uri = uri[: -len(".htm")] + "_htm.xml"
             ping = session.get(
                 uri,
                 headers={
-- 
2.43.0


From 04a5226bba5ccd915f51b25cf1e56b621b4ae565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:14 +0000
Subject: [PATCH 78/93] fix: metadata that is only partly written to the cache
 is not read from it

---
 brel/utils/edgar.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/brel/utils/edgar.py b/brel/utils/edgar.py
index 5ad80fb..673d1c4 100644
--- a/brel/utils/edgar.py
+++ b/brel/utils/edgar.py
@@ -33,8 +33,12 @@ def __download_metadata_for_cik(cik: str) -> bool:
         return False
 
     response_json = response.json()
-    with open(os.path.join(edgar_cache_dir, f"{cik.zfill(10)}.json"), "w") as f:
+    # write to a temporary file first, so that the cache never holds only a part of the metadata
+    metadata_path = os.path.join(edgar_cache_dir, f"{cik.zfill(10)}.json")
+    temporary_path = f"{metadata_path}.{os.getpid()}.tmp"
+    with open(temporary_path, "w") as f:
         json.dump(response_json, f)
+    os.replace(temporary_path, metadata_path)
 
     return True
 
-- 
2.43.0


From 841d2927005c688be9fc85d56ef5a57af4b2021f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:54 +0000
Subject: [PATCH 79/93] fix: report inline contexts and units without id
 instead of failing on them

---
 brel/parsers/XHMTL/xhtml_parse_facts.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_facts.py b/brel/parsers/XHMTL/xhtml_parse_facts.py
index 60de3c1..3ffe7bc 100644
--- a/brel/parsers/XHMTL/xhtml_parse_facts.py
+++ b/brel/parsers/XHMTL/xhtml_parse_facts.py
@@ -92,7 +92,7 @@ def parse_contexts(
 
         if id is None:
             error_repository.insert(ErrorCode.IXBRL_CONTEXT_WITHOUT_ID, context_element)
-            id = str(id)
+            continue
 
         if id in taken_ids:
             error_repository.insert(
@@ -122,13 +122,14 @@ def parse_units(
 
         if id is None:
             error_repository.insert(ErrorCode.IXBRL_UNIT_WITHOUT_ID, unit_element)
+            continue
 
         if id in taken_ids:
             error_repository.insert(
                 ErrorCode.IXBRL_DUPLICATE_ELEMENT_ID, unit_element, id=id
             )
 
-        taken_ids.add(str(id))
+        taken_ids.add(id)
 
         unit = parse_unit_from_xml(filing_context, unit_element)
         if not unit:
-- 
2.43.0


From dcc89e42a01c20147176fd656d85638164a41dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:38 +0000
Subject: [PATCH 80/93] fix: catalogs may redirect to addresses on the web

---
 brel/parsers/XML/xml_parse_catalog.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/brel/parsers/XML/xml_parse_catalog.py b/brel/parsers/XML/xml_parse_catalog.py
index 1dab1ff..30f2250 100644
--- a/brel/parsers/XML/xml_parse_catalog.py
+++ b/brel/parsers/XML/xml_parse_catalog.py
@@ -3,6 +3,7 @@ from brel.contexts.filing_context import FilingContext
 from brel.errors.error_code import ErrorCode
 
 from brel.parsers.utils.lxml_utils import get_str_attribute_optional
+from brel.parsers.utils.url_utils import is_remote_uri
 
 OASIS_NAMESPACE = "urn:oasis:names:tc:entity:xmlns:xml:catalog"
 
@@ -40,9 +41,12 @@ def parse_catalog_xml(
 
         original_strings.add(original_string)
 
-        replacement_string_pieces = replacement_string.split("/")
+        if is_remote_uri(replacement_string):
+            complete_replacement_string = replacement_string
+        else:
+            # relative to the folder of the catalog
+            complete_replacement_string = "/".join(
+                catalog_filepath_pieces[:-1] + replacement_string.split("/")
+            )
 
-        complete_replacement_string = "/".join(
-            catalog_filepath_pieces[:-1] + replacement_string_pieces
-        )
         uri_rewrite_repository.upsert(original_string, complete_replacement_string)
-- 
2.43.0


From fe7e6221af5761879291b1caec872c2aaedd7183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:38 +0000
Subject: [PATCH 81/93] fix: report a malformed catalog instead of failing on
 it

---
 brel/contexts/factory.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/brel/contexts/factory.py b/brel/contexts/factory.py
index 6f48db1..c983ba9 100644
--- a/brel/contexts/factory.py
+++ b/brel/contexts/factory.py
@@ -9,8 +9,9 @@
 
 from typing import Optional
 
-from lxml.etree import parse
+from lxml.etree import XMLSyntaxError, parse
 from brel.contexts.filing_context import FilingContext
+from brel.errors.error_code import ErrorCode
 from brel.parsers.XML.xml_parse_catalog import parse_catalog_xml
 
 CATALOG_FILEPATH = "META-INF/catalog.xml"
@@ -42,7 +43,13 @@ def parse_catalog(filepaths: list[str], context: FilingContext) -> None:
         return
 
     filepaths.remove(catalog_filepath)
-    catalog_tree = parse(catalog_filepath)
+    try:
+        catalog_tree = parse(catalog_filepath)
+    except XMLSyntaxError:
+        # a filing can be read without its catalog
+        context.get_error_repository().insert(ErrorCode.INVALID_CATALOG_ROOT_NODE)
+        return
+
     parse_catalog_xml(catalog_filepath, catalog_tree, context)
 
 
-- 
2.43.0


From c999093c2ae06ef30bbd8f4f2bd9907c781eb20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:38 +0000
Subject: [PATCH 82/93] fix: report a malformed file among the files of a
 filing instead of failing on it

---
 brel/contexts/factory.py              | 4 +++-
 brel/errors/error_factory_registry.py | 2 +-
 brel/services/xml/xml_service.py      | 7 +++++--
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/brel/contexts/factory.py b/brel/contexts/factory.py
index c983ba9..720e390 100644
--- a/brel/contexts/factory.py
+++ b/brel/contexts/factory.py
@@ -59,5 +59,7 @@ def create_filing_context(entrypoint_filepaths: list[str]) -> FilingContext:
 
     xml_service = context.get_xml_service()
     for filepath in entrypoint_filepaths:
-        xml_service.add_etree_recursive(filepath)
+        xml_service.add_etree_recursive(
+            filepath, is_one_of_many=len(entrypoint_filepaths) > 1
+        )
     return context
diff --git a/brel/errors/error_factory_registry.py b/brel/errors/error_factory_registry.py
index f6d0510..6150a5a 100644
--- a/brel/errors/error_factory_registry.py
+++ b/brel/errors/error_factory_registry.py
@@ -954,7 +954,7 @@ error_factory_registry: Dict[ErrorCode, Callable[[], ErrorInstance]] = {
         Severity.ERROR,
         Area.MISC,
         "102",
-        "The file '{uri}', to which another file of the filing refers, is not a well-formed XML file: {reason}.",
+        "The file '{uri}', which is part of the filing, is not a well-formed XML file: {reason}.",
         "Check the contents of the file.",
     ),
     ErrorCode.UNSUPPORTED_REFERENCED_FILE: lambda: ErrorInstance(
diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index 61454f7..347e16f 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -44,7 +44,9 @@ class XMLService:
         self.__available_filing_languages: Optional[List[str]] = None
         self.__elements_by_id: Dict[_Element, Dict[str, _Element]] = {}
 
-    def add_etree_recursive(self, uri: str, referencing_uri: str = ".") -> None:
+    def add_etree_recursive(
+        self, uri: str, referencing_uri: str = ".", is_one_of_many: bool = False
+    ) -> None:
         """
         Recursively adds an XML file to the repository. the uri can be a local file path or a remote URL.
         If the file is remote, it will be downloaded and added to the repository.
@@ -52,13 +54,14 @@ class XMLService:
         :param uri: The URI of the XML file to add.
         :param referencing_uri: The URI of the file that references this XML file.
         the referencing_uri is useful if a remote file references local files (e.g. http://example.com/file.xml has a reference to other_file.xml)
+        :param is_one_of_many: True if the filing consists of further files, which can be read even if this one cannot.
         """
         uri = self.__resolve(uri, referencing_uri)
 
         if self.__xml_repository.has_etree(uri):
             return
 
-        if referencing_uri == ".":
+        if referencing_uri == "." and not is_one_of_many:
             etree = self.__load(uri)
         else:
             etree = self.__load_referenced(uri)
-- 
2.43.0


From dea628ec90d905140bd7d1fc40b1b374f5420f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:50 +0000
Subject: [PATCH 83/93] fix: read the boolean attributes of Inline XBRL facts
 written as 1 or 0

Both escape and xsi:nil are of type xs:boolean, so "1" and "0" mean "true" and
"false". An escape of "0" was reported as invalid and taken as "true", and facts
with an xsi:nil of "1" were read as if they were not nil.
---
 brel/parsers/XHMTL/elements/parse_non_fraction.py |  5 +++--
 brel/parsers/XHMTL/elements/parse_non_numeric.py  |  7 +++++--
 brel/parsers/utils/lxml_utils.py                  | 14 ++++++++++++++
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/brel/parsers/XHMTL/elements/parse_non_fraction.py b/brel/parsers/XHMTL/elements/parse_non_fraction.py
index 4514e77..2c30706 100644
--- a/brel/parsers/XHMTL/elements/parse_non_fraction.py
+++ b/brel/parsers/XHMTL/elements/parse_non_fraction.py
@@ -9,6 +9,7 @@ from brel.parsers.XHMTL.xhtml_parse_transformation_registry import (
 )
 from brel.parsers.utils.lxml_utils import (
     find_element,
+    get_boolean_attribute_optional,
     get_prefix_localname_tag,
     get_str_attribute_optional,
 )
@@ -49,7 +50,7 @@ def validate_descendant_non_fraction_rules(
     if not parent_is_non_fraction:
         return
 
-    xsi_nil = get_str_attribute_optional(element, "xsi:nil")
+    xsi_nil = get_boolean_attribute_optional(element, "xsi:nil")
     if xsi_nil == "true":
         error_repository.insert(
             ErrorCode.IXBRL_NIL_ATTRIBUTE_IN_NON_FRACTION_CHILD, element
@@ -170,7 +171,7 @@ def parse_non_fraction_fact_element(
             fact_element,
             precision=precision_str,
         )
-    xsi_nil = get_str_attribute_optional(fact_element, "xsi:nil")
+    xsi_nil = get_boolean_attribute_optional(fact_element, "xsi:nil")
 
     if (
         decimals != None
diff --git a/brel/parsers/XHMTL/elements/parse_non_numeric.py b/brel/parsers/XHMTL/elements/parse_non_numeric.py
index 51f4e94..4260b0c 100644
--- a/brel/parsers/XHMTL/elements/parse_non_numeric.py
+++ b/brel/parsers/XHMTL/elements/parse_non_numeric.py
@@ -15,7 +15,10 @@ from brel.parsers.XHMTL.elements.parse_continuation_chain import (
 from brel.parsers.XHMTL.xhtml_parse_transformation_registry import (
     parse_non_numerical_fact_value,
 )
-from brel.parsers.utils.lxml_utils import get_str_attribute_optional
+from brel.parsers.utils.lxml_utils import (
+    get_boolean_attribute_optional,
+    get_str_attribute_optional,
+)
 
 
 def escape_content(content: _Element) -> str:
@@ -62,7 +65,7 @@ def parse_non_numeric_fact_element(
 
         taken_ids.add(id)
 
-    escape = get_str_attribute_optional(fact_element, "escape")
+    escape = get_boolean_attribute_optional(fact_element, "escape")
 
     if escape and escape not in ["true", "false"]:
         error_repository.insert(
diff --git a/brel/parsers/utils/lxml_utils.py b/brel/parsers/utils/lxml_utils.py
index 91639ab..2e65a17 100644
--- a/brel/parsers/utils/lxml_utils.py
+++ b/brel/parsers/utils/lxml_utils.py
@@ -108,6 +108,20 @@ def get_str_attribute_optional(element: _Element, attribute: str | QName) -> str
     return element.attrib.get(attribute)
 
 
+def get_boolean_attribute_optional(element: _Element, attribute: str) -> str | None:
+    """
+    Helper function for getting an xs:boolean attribute from an element, whose value can also be written "1" or "0".
+    :param element: lxml.etree.Element to get the attribute from
+    :param attribute: str containing the name of the attribute
+    :return: "true" or "false". The value as it is if it is no boolean, and None if the attribute is not found.
+    """
+    value = get_str_attribute_optional(element, attribute)
+    if value is None:
+        return None
+
+    return {"1": "true", "0": "false"}.get(value.strip(), value.strip())
+
+
 def get_number_attribute(element: _Element, attribute: str, default: float) -> float:
     """
     Helper function for getting a numeric attribute from an element.
-- 
2.43.0


From 27aed7e7bd26f14b5c529390398decc69b8742bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:59 +0000
Subject: [PATCH 84/93] fix: report unit measures whose prefix is not declared

The measure was taken for one of a namespace named "None", without any error.
---
 brel/parsers/XML/characteristics/xml_parse_unit.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/brel/parsers/XML/characteristics/xml_parse_unit.py b/brel/parsers/XML/characteristics/xml_parse_unit.py
index 8c218c6..63fa1bb 100644
--- a/brel/parsers/XML/characteristics/xml_parse_unit.py
+++ b/brel/parsers/XML/characteristics/xml_parse_unit.py
@@ -34,6 +34,15 @@ def parse_unit_measure_from_xml(
         error_repository.insert(ErrorCode.XML_MISSING_UNIT_MEASURE, xml_element)
         return None
     else:
+        prefix = child_text.strip().rpartition(":")[0]
+        if prefix and prefix not in xml_element.nsmap:
+            error_repository.insert(
+                ErrorCode.QNAME_NAMESPACE_NOT_IN_ELEMENT_SCOPE,
+                xml_element,
+                namespace=prefix,
+            )
+            return None
+
         qname = qname_from_str(child_text, xml_element)
         return qname
 
-- 
2.43.0


From af1aa92dc0192d4c25cd59aecd91d4cf480c337d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:59 +0000
Subject: [PATCH 85/93] fix: white space around attribute values is no part of
 them

---
 brel/services/factory.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/brel/services/factory.py b/brel/services/factory.py
index 0bff295..69b8b26 100644
--- a/brel/services/factory.py
+++ b/brel/services/factory.py
@@ -8,7 +8,8 @@
 ====================
 """
 
-from lxml.etree import XMLParser, parse as parse_xml
+from typing import IO
+from lxml.etree import QName, XMLParser, _ElementTree, parse as parse_xml  # type: ignore
 from lxml.html import html5parser
 from requests import Session
 from brel.data.errors.error_repository import ErrorRepository
@@ -22,6 +23,8 @@ from brel.services.report_element.report_element_service import ReportElementSer
 from brel.services.xml.xml_file_parser_resolver import XMLFileParserResolver
 from brel.services.xml.xml_service import XMLService
 
+XHTML_NAMESPACE = "http://www.w3.org/1999/xhtml"
+
 
 def create_report_element_service(
     report_element_repository: ReportElementRepository,
@@ -55,12 +58,20 @@ def create_xml_service(
 
 
 def create_xml_file_parser_resolver() -> XMLFileParserResolver:
+    return XMLFileParserResolver(parse_document, parse_document)
+
+
+def parse_document(content: IO[bytes]) -> _ElementTree:
     # comments and processing instructions carry no meaning in XBRL
-    return XMLFileParserResolver(
-        lambda content: parse_xml(
-            content, XMLParser(remove_comments=True, remove_pis=True)
-        ),
-        lambda content: parse_xml(
-            content, XMLParser(remove_comments=True, remove_pis=True)
-        ),
-    )
+    etree = parse_xml(content, XMLParser(remove_comments=True, remove_pis=True))
+
+    # neither does white space around ids, references, names and numbers
+    for element in etree.iter("{*}*"):
+        if QName(element).namespace == XHTML_NAMESPACE:
+            continue
+        for name, value in element.items():
+            collapsed_value = value.strip(" \t\r\n")
+            if collapsed_value != value:
+                element.set(name, collapsed_value)
+
+    return etree
-- 
2.43.0


From 5190f1135b75eabc90462c087d2de8ee7d657023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:28 +0000
Subject: [PATCH 86/93] fix: ids with quotes or brackets made the opening fail
 instead of being reported as unknown

---
 brel/parsers/XML/xml_facts_parser.py          |  7 ++++---
 brel/parsers/XML/xml_report_element_parser.py |  3 ++-
 brel/parsers/utils/lxml_utils.py              | 15 +++++++++++++++
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/brel/parsers/XML/xml_facts_parser.py b/brel/parsers/XML/xml_facts_parser.py
index b281f4b..64d2739 100644
--- a/brel/parsers/XML/xml_facts_parser.py
+++ b/brel/parsers/XML/xml_facts_parser.py
@@ -29,6 +29,7 @@ from brel.qnames.qname_utils import qname_from_str
 from brel.reportelements import Concept
 from brel.contexts.filing_context import FilingContext
 from brel.parsers.utils.lxml_utils import (
+    find_element_by_id,
     find_elements,
     get_str_attribute,
     get_clark_notation_tag,
@@ -154,7 +155,7 @@ def parse_facts_xml(
             unit_id = xml_fact.get("unitRef")
 
             if unit_id:
-                unit_xml = xbrl_instance.find(f"{{*}}unit[@id='{unit_id}']")
+                unit_xml = find_element_by_id(xbrl_instance, "{*}unit", unit_id)
 
                 if unit_xml is None:
                     error_repository.insert(
@@ -185,8 +186,8 @@ def parse_facts_xml(
             # ======== PARSE THE CONTEXT ========
             context_id = get_str_attribute(xml_fact, "contextRef")
 
-            xml_context = xbrl_instance.find(
-                f"{{*}}context[@id='{context_id}']", namespaces=None
+            xml_context = find_element_by_id(
+                xbrl_instance, "{*}context", context_id
             )
 
             if xml_context is None:
diff --git a/brel/parsers/XML/xml_report_element_parser.py b/brel/parsers/XML/xml_report_element_parser.py
index 0310455..9c974e3 100644
--- a/brel/parsers/XML/xml_report_element_parser.py
+++ b/brel/parsers/XML/xml_report_element_parser.py
@@ -17,6 +17,7 @@ from brel.data.errors.error_repository import ErrorRepository
 from brel.errors.error_code import ErrorCode
 from brel.parsers.XML.xml_report_element_factory import XMLReportElementFactory
 from brel.parsers.utils.lxml_utils import (
+    find_element_by_id,
     find_elements,
     get_str_attribute,
     get_str_attribute_optional,
@@ -91,7 +92,7 @@ def parse_report_element(
                     ref_schema_name, current_etree
                 )
                 ref_xml = (
-                    refschema.find(f".//*[@id='{ref_id}']")
+                    find_element_by_id(refschema, ".//*[@id]", ref_id)
                     if refschema is not None
                     else None
                 )
diff --git a/brel/parsers/utils/lxml_utils.py b/brel/parsers/utils/lxml_utils.py
index 2e65a17..87ada88 100644
--- a/brel/parsers/utils/lxml_utils.py
+++ b/brel/parsers/utils/lxml_utils.py
@@ -207,6 +207,21 @@ def find_element(
     return element.find(xpath_query, namespaces=get_standard_nsmap(element))
 
 
+def find_element_by_id(
+    element: _ElementTree | _Element,  # type: ignore
+    path: str,
+    element_id: str,
+) -> _Element | None:
+    """
+    :param path: The path of the elements to search. It cannot contain the id, which may be any string.
+    :returns: The first element with the given id, None if there is none.
+    """
+    return next(
+        (found for found in element.iterfind(path) if found.get("id") == element_id),
+        None,
+    )
+
+
 def get_all_nsmaps(
     lxml_etrees: list[lxml.etree._ElementTree],  # type: ignore
 ) -> list[dict[str, str]]:
-- 
2.43.0


From df2197fa4d6692b647a017116c809469cb293db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:08 +0000
Subject: [PATCH 87/93] fix: a reference that is no URI made the opening fail
 instead of being reported

---
 brel/services/xml/xml_service.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index 347e16f..1375e75 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -140,7 +140,11 @@ class XMLService:
                 + uri.split(uri_splitting_char)
             )
         else:
-            uri = urllib.parse.urljoin(referencing_uri, uri)
+            try:
+                uri = urllib.parse.urljoin(referencing_uri, uri)
+            except ValueError:
+                # not a URI, so there is no such document. This is reported when it is loaded.
+                pass
 
         uri = self.__uri_rewrite_repository.rewrite(uri)
 
@@ -163,7 +167,7 @@ class XMLService:
                 local_name = QName(name).localname
 
                 if local_name == "href" and QName(name).namespace is not None:
-                    reference_uri, _ = urllib.parse.urldefrag(value.strip())
+                    reference_uri = value.strip().partition("#")[0]
                 elif name == f"{{{XSI_NAMESPACE}}}schemaLocation":
                     # a list of pairs, each of a namespace and the location of its schema
                     for schema_location in value.split()[1::2]:
@@ -208,7 +212,7 @@ class XMLService:
         :param referencing_element: The element that contains the reference.
         :returns: The element, None if there is no such element in the filing
         """
-        uri, element_id = urllib.parse.urldefrag(href.strip())
+        uri, _, element_id = href.strip().partition("#")
         etree = self.get_referenced_etree(uri, referencing_element.getroottree())
         if etree is None:
             return None
-- 
2.43.0


From 24c36c3f55dfeea81eb91fcb46625fe7c221acaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:50 +0000
Subject: [PATCH 88/93] fix: an empty Inline XBRL number with a malformed
 xsi:nil raised IndexError

---
 brel/parsers/XHMTL/elements/parse_non_fraction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/parsers/XHMTL/elements/parse_non_fraction.py b/brel/parsers/XHMTL/elements/parse_non_fraction.py
index 2c30706..c912b87 100644
--- a/brel/parsers/XHMTL/elements/parse_non_fraction.py
+++ b/brel/parsers/XHMTL/elements/parse_non_fraction.py
@@ -201,7 +201,7 @@ def parse_non_fraction_fact_element(
     if xsi_nil == "true" and (has_text or has_children):
         error_repository.insert(ErrorCode.IXBRL_TEXT_OR_CHILDREN_WITH_NIL, fact_element)
 
-    if (not xsi_nil or xsi_nil == "false") and not has_text and not has_children:
+    if xsi_nil != "true" and not has_text and not has_children:
         error_repository.insert(
             ErrorCode.IXBRL_NO_TEXT_OR_CHILDREN_WITH_ABSENT_NIL_ATTRIBUTE,
             fact_element,
-- 
2.43.0


From 4a98eca345bd30af24c8b4d0660585e611d6772b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:30 +0000
Subject: [PATCH 89/93] fix: a scale beyond all numbers raised OverflowError
 instead of being reported

---
 brel/parsers/XHMTL/xhtml_parse_transformation_registry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index f3cadc5..8f5fe08 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -1017,16 +1017,16 @@ def process_numerical_fact_value(
     if fact_format.startswith("ixt:num-unit-decimal"):
         decimal_part = decimal_part.rjust(2, "0")
 
-    # Parse the scale
-    scale = 0
+    # Parse the scale, which can also be too large for any number
     try:
-        scale = int(fact_scale)
+        whole_part, decimal_part = apply_scale(
+            whole_part, decimal_part, int(fact_scale)
+        )
     except Exception:
         error_repository.insert(
             ErrorCode.INVALID_SCALE_ATTRIBUTE_VALUE, element, scale=fact_scale
         )
 
-    whole_part, decimal_part = apply_scale(whole_part, decimal_part, scale)
     fact_value = whole_part + "." + decimal_part
 
     return fact_value
-- 
2.43.0


From 5e4fa282d3ae1392d9e9a8e6da32a4def1070c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:37 +0000
Subject: [PATCH 90/93] fix: white space around a nested inline number was
 taken for its text

---
 brel/parsers/XHMTL/elements/parse_non_fraction.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/brel/parsers/XHMTL/elements/parse_non_fraction.py b/brel/parsers/XHMTL/elements/parse_non_fraction.py
index c912b87..a335202 100644
--- a/brel/parsers/XHMTL/elements/parse_non_fraction.py
+++ b/brel/parsers/XHMTL/elements/parse_non_fraction.py
@@ -190,8 +190,14 @@ def parse_non_fraction_fact_element(
     element_text = fact_element.text
     element_children = [child for child in fact_element]
 
-    has_text = element_text != None or any([child.tail for child in element_children])
     has_children = len(element_children) > 0
+    has_text = element_text != None or any([child.tail for child in element_children])
+    if has_children:
+        # the whitespace around a nested fact is no text
+        has_text = any(
+            text and text.strip()
+            for text in [element_text] + [child.tail for child in element_children]
+        )
 
     if has_text and has_children:
         error_repository.insert(
-- 
2.43.0


From 13124a2b3bf1b8d1168016722edbf0109cf5bea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:37 +0000
Subject: [PATCH 91/93] fix: white space and separators alone were read as the
 number 0

---
 brel/parsers/XHMTL/xhtml_parse_transformation_registry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index 8f5fe08..79274c9 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -961,7 +961,8 @@ def match_regex_numerical_fact_value(
         return None
 
     match = re.match(number_format_regex, fact_value)
-    if not match:
+    # whitespace and separators alone are not a number
+    if not match or not re.search(r"\d", fact_value):
         error_repository.insert(
             ErrorCode.NUMBER_DOES_NOT_MATCH_EXPECTED_FORMAT,
             element,
-- 
2.43.0


From 45637c25bf77bb4da2fb6b66dd68ec283585b6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:57 +0000
Subject: [PATCH 92/93] fix: open_edgar failed for a company with a filing
 without report date

---
 brel/utils/edgar.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/brel/utils/edgar.py b/brel/utils/edgar.py
index 673d1c4..5f81921 100644
--- a/brel/utils/edgar.py
+++ b/brel/utils/edgar.py
@@ -136,9 +136,8 @@ def open_edgar(cik: str, filing_type: str, date: str | None = None) -> Filing:
 
         right_is = [i for i in range(len(recent["form"])) if report_fits(i)]
 
-        right_is.sort(
-            key=lambda i: int(recent["reportDate"][i].replace("-", "")), reverse=True
-        )
+        # the dates are in the format YYYY-MM-DD, or empty for the filings that have none
+        right_is.sort(key=lambda i: recent["reportDate"][i], reverse=True)
 
         right_i = right_is[0] if len(right_is) > 0 else None
 
-- 
2.43.0


From afb201b2392d356a9392e92d429b7a6f25ea80b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:55 +0000
Subject: [PATCH 93/93] fix: keep the arc role of a root that another part of
 the network only locates

When a network is split over several links, and one of them only has a
locator for a root of another one, the combined network took the root from
whichever link came first. If that was the one without arcs, the root had the
arc role and name 'unknown', and so had the network.
---
 brel/parsers/utils/network_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/brel/parsers/utils/network_utils.py b/brel/parsers/utils/network_utils.py
index 721680a..9a2d2f1 100644
--- a/brel/parsers/utils/network_utils.py
+++ b/brel/parsers/utils/network_utils.py
@@ -99,6 +99,9 @@ def combine_networks(networks: list[INetwork]) -> INetwork:
         agg_roots[:] = all_roots
         return agg_network
 
+    # Nodes without arcs do not know the arc role of the network
+    lone_roots = {id(root) for root in all_roots if root.is_leaf()}
+
     # Step 2. Add the children of the other networks to each node.
     for nodes, own_children_by_target in zip(nodes_by_network, children_by_network):
         for node in nodes:
@@ -118,8 +121,7 @@ def combine_networks(networks: list[INetwork]) -> INetwork:
         target = id(_get_target(root))
         if target in inner_targets:
             continue
-        # nodes without arcs do not know the arc role of the network
-        if target not in roots or roots[target].is_leaf():
+        if target not in roots or id(roots[target]) in lone_roots:
             roots[target] = root
 
     agg_roots[:] = roots.values()
-- 
2.43.0

