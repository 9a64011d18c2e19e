From 870ffc05a23e39a1e81725d4da65ea579c76c430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:20 +0000
Subject: [PATCH 01/53] fix: split classifier keys at unquoted spaces

---
 src/opyenxes/utils/XTokenHelper.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/opyenxes/utils/XTokenHelper.py b/src/opyenxes/utils/XTokenHelper.py
index 9559550..e217d59 100644
--- a/src/opyenxes/utils/XTokenHelper.py
+++ b/src/opyenxes/utils/XTokenHelper.py
@@ -2,8 +2,13 @@ class XTokenHelper:
 
     @staticmethod
     def extract_tokens(token_string):
-        keys = list(map(lambda elem: elem.strip(), token_string.split("'")))
-        return list(filter(lambda key: key != '', keys))
+        keys = list()
+        for index, part in enumerate(token_string.split("'")):
+            if index % 2 == 1:  # between quotes: one token
+                keys.append(part)
+            else:
+                keys.extend(part.split(" "))
+        return list(filter(lambda key: key.strip() != '', keys))
 
     @staticmethod
     def format_token(token):
-- 
2.43.0


From 047daf67ed55bf010de9c7f6fa5d5271a50102bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:20 +0000
Subject: [PATCH 02/53] fix: keep attributes nested in a global attribute below
 it

---
 src/opyenxes/data_in/XesXmlParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/data_in/XesXmlParser.py b/src/opyenxes/data_in/XesXmlParser.py
index df2fc6f..fb2d342 100644
--- a/src/opyenxes/data_in/XesXmlParser.py
+++ b/src/opyenxes/data_in/XesXmlParser.py
@@ -226,7 +226,7 @@ class XesXmlParser:
                 i = self.__attribute_stack.pop()
                 self.__attributable_stack.pop()
 
-                if self.__globals is not None:
+                if self.__globals is not None and len(self.__attribute_stack) == 0:
 
                     self.__globals.append(i)
                 else:
-- 
2.43.0


From ac83b960a481a44496222fbe3a6d67e668559b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:45 +0000
Subject: [PATCH 03/53] fix: build parsed logs with the factory given to the
 parser

---
 src/opyenxes/data_in/XMxmlParser.py  | 19 ++++++++++---------
 src/opyenxes/data_in/XesXmlParser.py | 27 ++++++++++++++-------------
 2 files changed, 24 insertions(+), 22 deletions(-)

diff --git a/src/opyenxes/data_in/XMxmlParser.py b/src/opyenxes/data_in/XMxmlParser.py
index cdb48e2..cc2b889 100644
--- a/src/opyenxes/data_in/XMxmlParser.py
+++ b/src/opyenxes/data_in/XMxmlParser.py
@@ -51,7 +51,7 @@ class XMxmlParser:
         :return: The parsed list of logs.
         :rtype: list[`XLog`]
         """
-        handler = XMxmlParser.MxmlHandler()
+        handler = XMxmlParser.MxmlHandler(self.factory)
 
         xml_parse(file, handler)
 
@@ -77,8 +77,9 @@ class XMxmlParser:
         """SAX handler class for XES in XML representation.
 
         """
-        def __init__(self):
+        def __init__(self, factory=None):
             super().__init__()
+            self.__factory = factory if factory else XFactoryRegistry().current_default()
             self.__buffer = list()
             self.__logs = list()
             self.__currentProcess = None
@@ -115,13 +116,13 @@ class XMxmlParser:
                 if tag_name == "Source":
                     self.__sourceOpen = True
                     description_string = attributes.get("program")
-                    self.__sourceAttribute = XMxmlParser().factory.create_attribute_literal("source", description_string, None)
+                    self.__sourceAttribute = self.__factory.create_attribute_literal("source", description_string, None)
                     self.__add_model_reference__(attributes, self.__sourceAttribute)
                 elif tag_name == "Process":
                     description_string = attributes.get("id")
                     description = attributes.get("description")
 
-                    self.__currentProcess = XMxmlParser().factory.create_log()
+                    self.__currentProcess = self.__factory.create_log()
                     self.__currentProcess.get_extensions().add(XConceptExtension())
                     self.__currentProcess.get_extensions().add(XOrganizationalExtension())
                     self.__currentProcess.get_extensions().add(XLifecycleExtension())
@@ -135,13 +136,13 @@ class XMxmlParser:
 
                     if description and len(description.lower()) > 0:
 
-                        description1 = XMxmlParser().factory.create_attribute_literal("description", description, None)
+                        description1 = self.__factory.create_attribute_literal("description", description, None)
                         self.__currentProcess.get_attributes()[description1.get_key()] = description1
 
                     self.__add_model_reference__(attributes, self.__currentProcess)
 
                 elif tag_name == "ProcessInstance":
-                    self.__currentInstance = XMxmlParser().factory.create_trace()
+                    self.__currentInstance = self.__factory.create_trace()
                     name = attributes.get("id")
                     if name is None:
                         name = "None"
@@ -150,16 +151,16 @@ class XMxmlParser:
                     description_string = attributes.get("description")
 
                     if description_string and len(description_string.strip()) > 0:
-                        description2 = XMxmlParser().factory.create_attribute_literal("description", description_string, None)
+                        description2 = self.__factory.create_attribute_literal("description", description_string, None)
                         self.__currentInstance.get_attributes()[description2.get_key()] = description2
 
                     self.__add_model_reference__(attributes, self.__currentInstance)
 
                 elif tag_name == "AuditTrailEntry":
-                    self.__entry = XMxmlParser().factory.create_event()
+                    self.__entry = self.__factory.create_event()
 
                 elif tag_name == "Attribute":
-                    self.__genericAttribute = XMxmlParser().factory.create_attribute_literal(attributes.get("name").strip(), "DEFAULT_VALUE", None)
+                    self.__genericAttribute = self.__factory.create_attribute_literal(attributes.get("name").strip(), "DEFAULT_VALUE", None)
                     self.__add_model_reference__(attributes, self.__genericAttribute)
 
                 elif tag_name == "EventType":
diff --git a/src/opyenxes/data_in/XesXmlParser.py b/src/opyenxes/data_in/XesXmlParser.py
index fb2d342..0b9801a 100644
--- a/src/opyenxes/data_in/XesXmlParser.py
+++ b/src/opyenxes/data_in/XesXmlParser.py
@@ -43,7 +43,7 @@ class XesXmlParser:
         :return: The parsed list of logs.
         :rtype: list[`XLog`]
         """
-        handler = XesXmlParser.XesXmlHandler()
+        handler = XesXmlParser.XesXmlHandler(self.factory)
 
         xml_parse(file, handler)
 
@@ -71,8 +71,9 @@ class XesXmlParser:
         """SAX handler class for XES in XML representation.
 
         """
-        def __init__(self):
+        def __init__(self, factory=None):
             super().__init__()
+            self.__factory = factory if factory else XFactoryRegistry().current_default()
             self.__log = None
             self.__trace = None
             self.__event = None
@@ -102,13 +103,13 @@ class XesXmlParser:
             tag_name = element_name.lower()
             if tag_name not in ["string", "date", "int", "float", "boolean", "id", "list", "container"]:
                 if tag_name == "event":
-                    self.__event = XesXmlParser().factory.create_event()
+                    self.__event = self.__factory.create_event()
                     self.__attributable_stack.append(self.__event)
                 elif tag_name == "trace":
-                    self.__trace = XesXmlParser().factory.create_trace()
+                    self.__trace = self.__factory.create_trace()
                     self.__attributable_stack.append(self.__trace)
                 elif tag_name == "log":
-                    self.__log = XesXmlParser().factory.create_log()
+                    self.__log = self.__factory.create_log()
                     for attr_name in attributes.getNames():
                         if attr_name.startswith('xes.') or \
                         attr_name.startswith('openxes.'):
@@ -165,32 +166,32 @@ class XesXmlParser:
                 attribute = None
 
                 if tag_name == "string":
-                    attribute = XesXmlParser().factory.create_attribute_literal(name, value, keys_list)
+                    attribute = self.__factory.create_attribute_literal(name, value, keys_list)
 
                 elif tag_name == "date":
                     var15 = parse_date_time(value)
                     if var15 is None:
                         return
-                    attribute = XesXmlParser().factory.create_attribute_timestamp(name, var15, keys_list)
+                    attribute = self.__factory.create_attribute_timestamp(name, var15, keys_list)
 
                 elif tag_name == "int":
-                    attribute = XesXmlParser().factory.create_attribute_discrete(name, int(value), keys_list)
+                    attribute = self.__factory.create_attribute_discrete(name, int(value), keys_list)
 
                 elif tag_name == "float":
-                    attribute = XesXmlParser().factory.create_attribute_continuous(name, float(value), keys_list)
+                    attribute = self.__factory.create_attribute_continuous(name, float(value), keys_list)
 
                 elif tag_name == "boolean":
                     var16 = True if value.lower() == "true" else False
-                    attribute = XesXmlParser().factory.create_attribute_boolean(name, var16, keys_list)
+                    attribute = self.__factory.create_attribute_boolean(name, var16, keys_list)
 
                 elif tag_name == "id":
-                    attribute = XesXmlParser().factory.create_attribute_id(name, XID.parse(value), keys_list)
+                    attribute = self.__factory.create_attribute_id(name, XID.parse(value), keys_list)
 
                 elif tag_name == "list":
-                    attribute = XesXmlParser().factory.create_attribute_list(name, keys_list)
+                    attribute = self.__factory.create_attribute_list(name, keys_list)
 
                 elif tag_name == "container":
-                    attribute = XesXmlParser().factory.create_attribute_container(name, keys_list)
+                    attribute = self.__factory.create_attribute_container(name, keys_list)
 
                 if attribute is not None:
                     self.__attribute_stack.append(attribute)
-- 
2.43.0


From 2e8476c0fd5709cf3dcf220a0fdee12edb0ea820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:45 +0000
Subject: [PATCH 04/53] fix: write the UTC offset of a timestamp, not its zone
 name

---
 src/opyenxes/model/XAttributeTimestamp.py | 40 ++++++++++++-----------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/opyenxes/model/XAttributeTimestamp.py b/src/opyenxes/model/XAttributeTimestamp.py
index c937480..b5f44ce 100644
--- a/src/opyenxes/model/XAttributeTimestamp.py
+++ b/src/opyenxes/model/XAttributeTimestamp.py
@@ -1,5 +1,5 @@
 from opyenxes.model.XAttribute import XAttribute
-from datetime import datetime
+from datetime import datetime, timedelta, timezone
 import platform
 import time
 
@@ -76,26 +76,28 @@ class XAttributeTimestamp(XAttribute):
         return super().__hash__()
 
     def __str__(self):
-        if self.__value.tzinfo is None:
-            return "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:03}{}".format(
-                self.__value.year,
-                self.__value.month,
-                self.__value.day,
-                self.__value.hour,
-                self.__value.minute,
-                self.__value.second,
-                self.__value.microsecond // 1000,
-                "Z")
+        value = self.__value
+        offset = value.utcoffset()
+        if offset is not None and offset % timedelta(minutes=1):
+            # XML Schema time zones have no seconds
+            value = value.astimezone(timezone.utc)
+            offset = None
+
+        zone = "Z"
+        if offset:
+            minutes = offset // timedelta(minutes=1)
+            zone = "{}{:02}:{:02}".format("-" if minutes < 0 else "+",
+                                          abs(minutes) // 60, abs(minutes) % 60)
 
         return "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:03}{}".format(
-            self.__value.year,
-            self.__value.month,
-            self.__value.day,
-            self.__value.hour,
-            self.__value.minute,
-            self.__value.second,
-            self.__value.microsecond // 1000,
-            self.__value.tzname().replace("UTC", "").replace("+00:00", "Z").replace("-00:00", "Z"))
+            value.year,
+            value.month,
+            value.day,
+            value.hour,
+            value.minute,
+            value.second,
+            value.microsecond // 1000,
+            zone)
 
     def __lt__(self, other):
         return True if self.compare_to(other) < 0 else False
-- 
2.43.0


From 033e27aff6af6886be616b8489b5f1a19d854093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:45 +0000
Subject: [PATCH 05/53] fix: timestamps keep their instant whatever the time
 zone of the host

---
 src/opyenxes/extension/std/XTimeExtension.py |  8 +++----
 src/opyenxes/model/XAttributeTimestamp.py    | 24 +++++++-------------
 2 files changed, 11 insertions(+), 21 deletions(-)

diff --git a/src/opyenxes/extension/std/XTimeExtension.py b/src/opyenxes/extension/std/XTimeExtension.py
index 302a635..b7679a0 100644
--- a/src/opyenxes/extension/std/XTimeExtension.py
+++ b/src/opyenxes/extension/std/XTimeExtension.py
@@ -3,7 +3,6 @@ from urllib.parse import urlparse
 from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
 from opyenxes.factory.XFactoryRegistry import XFactoryRegistry
 from opyenxes.utils.SingletonClassGenerator import XTimeExtensionMetaclass
-import time
 from datetime import datetime
 
 
@@ -52,11 +51,10 @@ class XTimeExtension(XExtension, metaclass=XTimeExtensionMetaclass):
             milliseconds in UNIX time..
         :type date: datetime or int
         """
+        attr = self.ATTR_TIMESTAMP.clone()
         if isinstance(date, datetime):
-            aux = time.mktime(date.timetuple()) * 1000
+            attr.set_value(date)
         else:
-            aux = date
+            attr.set_value_millis(date)
 
-        attr = self.ATTR_TIMESTAMP.clone()
-        attr.set_value_millis(aux)
         event.get_attributes()["time:timestamp"] = attr
diff --git a/src/opyenxes/model/XAttributeTimestamp.py b/src/opyenxes/model/XAttributeTimestamp.py
index b5f44ce..99ec305 100644
--- a/src/opyenxes/model/XAttributeTimestamp.py
+++ b/src/opyenxes/model/XAttributeTimestamp.py
@@ -1,7 +1,5 @@
 from opyenxes.model.XAttribute import XAttribute
 from datetime import datetime, timedelta, timezone
-import platform
-import time
 
 
 class XAttributeTimestamp(XAttribute):
@@ -15,6 +13,8 @@ class XAttributeTimestamp(XAttribute):
      the attribute is not associated to an extension)
     :type extension: `XExtension` or None
     """
+    EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
+
     def __init__(self, key, value, extension=None):
         super().__init__(key, extension)
         self.__relative_zone = ""
@@ -22,7 +22,7 @@ class XAttributeTimestamp(XAttribute):
         if isinstance(value, datetime):
             self.__value = value
         elif isinstance(value, int):
-            self.__value = datetime.fromtimestamp(self.__timestamp(value))
+            self.set_value_millis(value)
 
     def get_value(self):
         """Retrieves the datetime value of this attribute
@@ -33,7 +33,10 @@ class XAttributeTimestamp(XAttribute):
         return self.__value
 
     def get_value_millis(self):
-        return time.mktime(self.__value.timetuple()) * 1000
+        value = self.__value
+        if value.tzinfo is None:
+            value = value.replace(tzinfo=timezone.utc)
+        return (value - self.EPOCH) // timedelta(milliseconds=1)
 
     def set_value(self, value):
         """Assigns the string value or datetime value of this attribute.
@@ -44,7 +47,7 @@ class XAttributeTimestamp(XAttribute):
         self.__value = value
 
     def set_value_millis(self, value):
-        self.__value = datetime.fromtimestamp(value / 1000.0)
+        self.__value = self.EPOCH + timedelta(milliseconds=value)
 
     def clone(self):
         """Creates and returns a copy of this object.
@@ -121,14 +124,3 @@ class XAttributeTimestamp(XAttribute):
 
     def __ge__(self, other):
         return True if self.compare_to(other) >= 0 else False
-
-    def __timestamp(self, value):
-        """ Windows timestamp workaround
-
-        Creating the timestamp will fail if less than 86400 on Windows with
-        Python 3.6.
-        """
-        value = value / 1000.0
-        if (platform.system() == 'Windows') and (value < 86400):
-            return 86400
-        return value
-- 
2.43.0


From f3eb28385d9b425c95fe44a83e4e19d1da2e817e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:05 +0000
Subject: [PATCH 06/53] fix: write line breaks and tabs in attribute values as
 character references

---
 src/opyenxes/data_out/XMxmlSerializer.py  |  5 +++--
 src/opyenxes/data_out/XesXmlSerializer.py |  5 +++--
 src/opyenxes/utils/XXmlUtils.py           | 21 +++++++++++++++++++++
 3 files changed, 27 insertions(+), 4 deletions(-)
 create mode 100644 src/opyenxes/utils/XXmlUtils.py

diff --git a/src/opyenxes/data_out/XMxmlSerializer.py b/src/opyenxes/data_out/XMxmlSerializer.py
index 7e1a439..f192965 100644
--- a/src/opyenxes/data_out/XMxmlSerializer.py
+++ b/src/opyenxes/data_out/XMxmlSerializer.py
@@ -3,6 +3,7 @@ import time
 import xml.etree.ElementTree as Et
 from xml.dom import minidom
 from opyenxes.extension.std.XConceptExtension import XConceptExtension
+from opyenxes.utils.XXmlUtils import escape_whitespace
 
 
 class XMxmlSerializer:
@@ -128,9 +129,9 @@ class XMxmlSerializer:
         text.insertBefore(c2, text.childNodes[0])
         text.insertBefore(c1, text.childNodes[0])
         if in_bytes:
-            out.write(text.toprettyxml("\t").encode())
+            out.write(escape_whitespace(text.toprettyxml("\t")).encode())
         else:
-            out.write(text.toprettyxml("\t"))
+            out.write(escape_whitespace(text.toprettyxml("\t")))
 
         duration1 = " (" + str(time.time() * 1000 - start) + " msec.)"
         XLogging().log("finished serializing log" + duration1, XLogging.Importance.DEBUG)
diff --git a/src/opyenxes/data_out/XesXmlSerializer.py b/src/opyenxes/data_out/XesXmlSerializer.py
index 9e9f70f..c86a2bb 100644
--- a/src/opyenxes/data_out/XesXmlSerializer.py
+++ b/src/opyenxes/data_out/XesXmlSerializer.py
@@ -13,6 +13,7 @@ from opyenxes.model.XAttributeContainer import XAttributeContainer
 from opyenxes.model.XAttributeTimestamp import XAttributeTimestamp
 from opyenxes.model.XAttributeCollection import XAttributeCollection
 from opyenxes.utils.XTokenHelper import XTokenHelper
+from opyenxes.utils.XXmlUtils import escape_whitespace
 
 
 class XesXmlSerializer:
@@ -95,9 +96,9 @@ class XesXmlSerializer:
         text.insertBefore(c1, text.childNodes[0])
 
         if in_bytes:
-            out.write(text.toprettyxml("\t").encode())
+            out.write(escape_whitespace(text.toprettyxml("\t")).encode())
         else:
-            out.write(text.toprettyxml("\t"))
+            out.write(escape_whitespace(text.toprettyxml("\t")))
 
         duration1 = " (" + str(time.time() * 1000 - start) + " msec.)"
         XLogging().log("finished serializing log" + duration1, XLogging.Importance.DEBUG)
diff --git a/src/opyenxes/utils/XXmlUtils.py b/src/opyenxes/utils/XXmlUtils.py
new file mode 100644
index 0000000..eb46fe6
--- /dev/null
+++ b/src/opyenxes/utils/XXmlUtils.py
@@ -0,0 +1,21 @@
+import re
+
+
+def escape_whitespace(document):
+    """Replaces the line breaks and tabs inside the tags of a pretty-printed XML
+    document, i.e. those in attribute values, by character references. Without
+    them an XML parser reads such characters back as spaces.
+
+    :param document: The pretty-printed document.
+    :type document: str
+    :return: The document with escaped white space.
+    :rtype: str
+    """
+    return re.sub("<[^<>]*[\t\n\r][^<>]*>", __escape_tag, document)
+
+
+def __escape_tag(match):
+    tag = match.group()
+    for char in "\t\n\r":
+        tag = tag.replace(char, "&#{};".format(ord(char)))
+    return tag
-- 
2.43.0


From 6337dfe52de99a3fb945dce3e2a8ff19492e9002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:05 +0000
Subject: [PATCH 07/53] fix: ignore the case of file name suffixes, as
 documented

---
 src/opyenxes/data_in/XMxmlParser.py  | 2 +-
 src/opyenxes/data_in/XesXmlParser.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opyenxes/data_in/XMxmlParser.py b/src/opyenxes/data_in/XMxmlParser.py
index cc2b889..d2ba9c4 100644
--- a/src/opyenxes/data_in/XMxmlParser.py
+++ b/src/opyenxes/data_in/XMxmlParser.py
@@ -70,7 +70,7 @@ class XMxmlParser:
         """
         i = len(name) - len(suffix)
         if i > 0:
-            return suffix in name[i:]
+            return suffix.lower() == name[i:].lower()
         return False
 
     class MxmlHandler(ContentHandler):
diff --git a/src/opyenxes/data_in/XesXmlParser.py b/src/opyenxes/data_in/XesXmlParser.py
index 0b9801a..00e14e7 100644
--- a/src/opyenxes/data_in/XesXmlParser.py
+++ b/src/opyenxes/data_in/XesXmlParser.py
@@ -64,7 +64,7 @@ class XesXmlParser:
         i = len(name) - len(suffix)
 
         if i > 0:
-            return suffix in name[i:]
+            return suffix.lower() == name[i:].lower()
         return False
 
     class XesXmlHandler(ContentHandler):
-- 
2.43.0


From eb6698d7eca0c747d3f58b536e2f4a3fc8f6f130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:27 +0000
Subject: [PATCH 08/53] fix: attach MXML data to the element it stands in, also
 when that is still empty

---
 src/opyenxes/data_in/XMxmlParser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/opyenxes/data_in/XMxmlParser.py b/src/opyenxes/data_in/XMxmlParser.py
index d2ba9c4..cd81de8 100644
--- a/src/opyenxes/data_in/XMxmlParser.py
+++ b/src/opyenxes/data_in/XMxmlParser.py
@@ -201,7 +201,7 @@ class XMxmlParser:
                 self.__logs.append(self.__currentProcess)
                 self.__currentProcess = None
 
-            elif tag_name == "Process":
+            elif tag_name == "Source":
                 self.__sourceOpen = False
 
             elif tag_name == "ProcessInstance":
@@ -232,9 +232,9 @@ class XMxmlParser:
                         self.__genericAttribute.set_value("".join(self.__buffer).strip())
                         if self.__entry:
                             self.__entry.get_attributes()[self.__genericAttribute.get_key()] = self.__genericAttribute
-                        elif self.__currentInstance:
+                        elif self.__currentInstance is not None:
                             self.__currentInstance.get_attributes()[self.__genericAttribute.get_key()] = self.__genericAttribute
-                        elif self.__currentProcess:
+                        elif self.__currentProcess is not None:
                             self.__currentProcess.get_attributes()[self.__genericAttribute.get_key()] = self.__genericAttribute
                         elif self.__sourceOpen:
                             self.__sourceAttribute.get_attributes()[self.__genericAttribute.get_key()] = self.__genericAttribute
-- 
2.43.0


From b76f6d0c5aceabab54c4f83a4919b7019d274346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:27 +0000
Subject: [PATCH 09/53] fix: read MXML elements whatever the case of their
 names, as the serializer writes them

---
 src/opyenxes/data_in/XMxmlParser.py | 42 ++++++++++++++---------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/opyenxes/data_in/XMxmlParser.py b/src/opyenxes/data_in/XMxmlParser.py
index cd81de8..11e30da 100644
--- a/src/opyenxes/data_in/XMxmlParser.py
+++ b/src/opyenxes/data_in/XMxmlParser.py
@@ -111,14 +111,14 @@ class XMxmlParser:
               the attributes of the element
             :type attributes: xml.sax.xmlreader.AttributesImpl
             """
-            tag_name = element_name
-            if tag_name != "WorkflowLog":
-                if tag_name == "Source":
+            tag_name = element_name.lower()
+            if tag_name != "workflowlog":
+                if tag_name == "source":
                     self.__sourceOpen = True
                     description_string = attributes.get("program")
                     self.__sourceAttribute = self.__factory.create_attribute_literal("source", description_string, None)
                     self.__add_model_reference__(attributes, self.__sourceAttribute)
-                elif tag_name == "Process":
+                elif tag_name == "process":
                     description_string = attributes.get("id")
                     description = attributes.get("description")
 
@@ -141,7 +141,7 @@ class XMxmlParser:
 
                     self.__add_model_reference__(attributes, self.__currentProcess)
 
-                elif tag_name == "ProcessInstance":
+                elif tag_name == "processinstance":
                     self.__currentInstance = self.__factory.create_trace()
                     name = attributes.get("id")
                     if name is None:
@@ -156,14 +156,14 @@ class XMxmlParser:
 
                     self.__add_model_reference__(attributes, self.__currentInstance)
 
-                elif tag_name == "AuditTrailEntry":
+                elif tag_name == "audittrailentry":
                     self.__entry = self.__factory.create_event()
 
-                elif tag_name == "Attribute":
+                elif tag_name == "attribute":
                     self.__genericAttribute = self.__factory.create_attribute_literal(attributes.get("name").strip(), "DEFAULT_VALUE", None)
                     self.__add_model_reference__(attributes, self.__genericAttribute)
 
-                elif tag_name == "EventType":
+                elif tag_name == "eventtype":
                     self.__eventTypeAttribute = XLifecycleExtension().ATTR_TRANSITION.clone()
                     unknown_type = attributes.get("unknowntype")
                     if unknown_type:
@@ -173,10 +173,10 @@ class XMxmlParser:
 
                     self.__add_model_reference__(attributes, self.__eventTypeAttribute)
 
-                elif tag_name == "WorkflowModelElement":
+                elif tag_name == "workflowmodelelement":
                     self.__add_model_reference__(attributes, self.__entry)
 
-                elif tag_name == "Originator":
+                elif tag_name == "originator":
                     self.__originatorAttribute = XOrganizationalExtension().ATTR_RESOURCE.clone()
                     self.__add_model_reference__(attributes, self.__originatorAttribute)
 
@@ -186,14 +186,14 @@ class XMxmlParser:
             :param local_name: The name of the element type, just as with the startElement event
             :type local_name: str
             """
-            tag_name = local_name
+            tag_name = local_name.lower()
 
-            if tag_name == "WorkflowLog":
+            if tag_name == "workflowlog":
                 if self.__numUnorderedEntries > 0:
                     XLogging().log("LogData: Log contains " + str(self.__numUnorderedEntries) + " audit trail entries in non-natural order!", XLogging.Importance.ERROR)
                     XLogging().log("LogData: The log file you have loaded is not MXML compliant! (error compensated transparently)", XLogging.Importance.ERROR)
 
-            elif tag_name == "Process":
+            elif tag_name == "process":
                 self.__currentProcess.get_classifiers().extend(XMxmlParser.MXML_CLASSIFIERS)
                 self.__currentProcess.get_global_trace_attributes().append(XConceptExtension().ATTR_NAME.clone())
                 self.__currentProcess.get_global_event_attributes().append(XConceptExtension().ATTR_NAME.clone())
@@ -201,17 +201,17 @@ class XMxmlParser:
                 self.__logs.append(self.__currentProcess)
                 self.__currentProcess = None
 
-            elif tag_name == "Source":
+            elif tag_name == "source":
                 self.__sourceOpen = False
 
-            elif tag_name == "ProcessInstance":
+            elif tag_name == "processinstance":
                 if len(self.__currentInstance) > 0:
                     self.__currentProcess.append(self.__currentInstance)
 
                 self.__currentInstance = None
                 self.__lastTimestamp = None
 
-            elif tag_name == "AuditTrailEntry":
+            elif tag_name == "audittrailentry":
                 if self.__timestamp is None:
                     self.__currentInstance.append(self.__entry)
                 elif self.__lastTimestamp is None:
@@ -226,7 +226,7 @@ class XMxmlParser:
                 self.__entry = None
 
             else:
-                if tag_name == "Attribute":
+                if tag_name == "attribute":
                     originator = "".join(self.__buffer).strip()
                     if len(originator) > 0:
                         self.__genericAttribute.set_value("".join(self.__buffer).strip())
@@ -240,7 +240,7 @@ class XMxmlParser:
                             self.__sourceAttribute.get_attributes()[self.__genericAttribute.get_key()] = self.__genericAttribute
                     self.__genericAttribute = None
 
-                elif tag_name == "EventType":
+                elif tag_name == "eventtype":
                     if self.__eventTypeAttribute.get_value() == "UNKNOWN":
                         originator = "".join(self.__buffer).strip()
                         if len(originator) > 0:
@@ -250,10 +250,10 @@ class XMxmlParser:
                         self.__entry.get_attributes()[self.__eventTypeAttribute.get_key()] = self.__eventTypeAttribute
                     self.__eventTypeAttribute = None
 
-                elif tag_name == "WorkflowModelElement":
+                elif tag_name == "workflowmodelelement":
                     XConceptExtension().assign_name(self.__entry, "".join(self.__buffer).strip())
 
-                elif tag_name == "Timestamp":
+                elif tag_name == "timestamp":
                     originator = "".join(self.__buffer).strip()
                     self.__timestamp = parse_date_time(originator)
                     if self.__timestamp:
@@ -261,7 +261,7 @@ class XMxmlParser:
                         timestamp_attribute.set_value(self.__timestamp)
                         self.__entry.get_attributes()[timestamp_attribute.get_key()] = timestamp_attribute
 
-                elif tag_name == "Originator":
+                elif tag_name == "originator":
                     originator = "".join(self.__buffer).strip()
                     if len(originator) > 0:
                         self.__originatorAttribute.set_value(originator)
-- 
2.43.0


From af91f4b4a921f3d788209e8ee81e8a290da60ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:27 +0000
Subject: [PATCH 10/53] fix: write MXML event types and timestamps in the form
 the parser reads

---
 src/opyenxes/data_out/XMxmlSerializer.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/opyenxes/data_out/XMxmlSerializer.py b/src/opyenxes/data_out/XMxmlSerializer.py
index f192965..09d33fc 100644
--- a/src/opyenxes/data_out/XMxmlSerializer.py
+++ b/src/opyenxes/data_out/XMxmlSerializer.py
@@ -94,7 +94,7 @@ class XMxmlSerializer:
                     if originator_attr in self.__known_types:
                         type_.text = originator_attr
                     else:
-                        type_.set("unknownType", type_attr.get_value())
+                        type_.set("unknowntype", type_attr.get_value())
                         type_.text = "unknown"
 
                 else:
@@ -116,8 +116,7 @@ class XMxmlSerializer:
                 if timestamp_attr_1:
                     timestamp = Et.SubElement(ate, "timestamp")
                     self.add_model_reference(timestamp_attr_1, timestamp)
-                    date = timestamp_attr_1.get_value()
-                    timestamp.text = str(date)
+                    timestamp.text = str(timestamp_attr_1)
 
         text = minidom.parseString(Et.tostring(root, "utf-8"))
         c1 = text.createComment("This file has been generated with the OpenXES library. It conforms")
-- 
2.43.0


From be79724fe313ce077e84d09e96ae8f27bef1ae98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:27 +0000
Subject: [PATCH 11/53] fix: write the attributes of a log as MXML data

---
 src/opyenxes/data_out/XMxmlSerializer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opyenxes/data_out/XMxmlSerializer.py b/src/opyenxes/data_out/XMxmlSerializer.py
index 09d33fc..b87138d 100644
--- a/src/opyenxes/data_out/XMxmlSerializer.py
+++ b/src/opyenxes/data_out/XMxmlSerializer.py
@@ -152,7 +152,7 @@ class XMxmlSerializer:
             node = tag
 
         for attribute in attributes:
-            if attribute.get_key() == "semantic:modelReference":
+            if attribute.get_key() != "semantic:modelReference":
                 attribute_tag = Et.SubElement(node, "attribute")
                 attribute_tag.set("name", key_prefix + attribute.get_key())
                 self.add_model_reference(attribute, attribute_tag)
@@ -170,7 +170,7 @@ class XMxmlSerializer:
                     if len(sub_key_prefix) > 0:
                         sub_key_prefix = key_prefix + ":" + sub_key_prefix
 
-                    self.add_attribute(node, sub_key_prefix, sub_attributes)
+                    self.add_attribute(node, sub_attributes, sub_key_prefix)
 
     @staticmethod
     def add_model_reference(element, target):
-- 
2.43.0


From a008ac03dd4e984b6cfa46abaa8c5f6fd9b95c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:53 +0000
Subject: [PATCH 12/53] fix: clone attributes deeply

---
 src/opyenxes/model/XAttributeBoolean.py    |  1 +
 src/opyenxes/model/XAttributeCollection.py | 20 ++++++++++++++++++++
 src/opyenxes/model/XAttributeContinuous.py |  1 +
 src/opyenxes/model/XAttributeDiscrete.py   |  1 +
 src/opyenxes/model/XAttributeID.py         |  1 +
 src/opyenxes/model/XAttributeLiteral.py    |  1 +
 src/opyenxes/model/XAttributeMap.py        |  2 +-
 src/opyenxes/model/XAttributeTimestamp.py  |  1 +
 src/opyenxes/model/XLog.py                 |  4 ++--
 9 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/opyenxes/model/XAttributeBoolean.py b/src/opyenxes/model/XAttributeBoolean.py
index 395973a..4a5e0c3 100644
--- a/src/opyenxes/model/XAttributeBoolean.py
+++ b/src/opyenxes/model/XAttributeBoolean.py
@@ -41,6 +41,7 @@ class XAttributeBoolean(XAttribute):
         """
         clone = XAttributeBoolean(self.get_key(), self.__value,
                                   self.get_extension())
+        clone.set_attributes(self.get_attributes().clone())
         return clone
 
     def compare_to(self, obj):
diff --git a/src/opyenxes/model/XAttributeCollection.py b/src/opyenxes/model/XAttributeCollection.py
index 55c8661..1622f2f 100644
--- a/src/opyenxes/model/XAttributeCollection.py
+++ b/src/opyenxes/model/XAttributeCollection.py
@@ -34,6 +34,26 @@ class XAttributeCollection(XAttribute):
             return self.get_attributes().values()
         return self.__collection.copy()
 
+    def clone(self):
+        """Creates and returns a copy of this object.
+
+        :return: A clone of this instance.
+        :rtype: `XAttributeCollection`
+        """
+        clone = type(self)(self.get_key(), self.get_extension())
+        members = {id(member): member.clone() for member in self.__collection}
+        for member in self.__collection:
+            clone.add_to_collection(members[id(member)])
+
+        # an attribute may be a member and stand in the attribute map as well
+        for key, attribute in self.get_attributes().items():
+            if id(attribute) in members:
+                clone.get_attributes()[key] = members[id(attribute)]
+            else:
+                clone.get_attributes()[key] = attribute.clone()
+
+        return clone
+
     def __str__(self):
         text = []
         sep = "["
diff --git a/src/opyenxes/model/XAttributeContinuous.py b/src/opyenxes/model/XAttributeContinuous.py
index b255d68..20cde5f 100644
--- a/src/opyenxes/model/XAttributeContinuous.py
+++ b/src/opyenxes/model/XAttributeContinuous.py
@@ -41,6 +41,7 @@ class XAttributeContinuous(XAttribute):
         """
         clone = XAttributeContinuous(self.get_key(), self.__value,
                                      self.get_extension())
+        clone.set_attributes(self.get_attributes().clone())
         return clone
 
     def compare_to(self, obj):
diff --git a/src/opyenxes/model/XAttributeDiscrete.py b/src/opyenxes/model/XAttributeDiscrete.py
index 9c567af..7715fac 100644
--- a/src/opyenxes/model/XAttributeDiscrete.py
+++ b/src/opyenxes/model/XAttributeDiscrete.py
@@ -41,6 +41,7 @@ class XAttributeDiscrete(XAttribute):
         """
         clone = XAttributeDiscrete(self.get_key(), self.__value,
                                    self.get_extension())
+        clone.set_attributes(self.get_attributes().clone())
         return clone
 
     def compare_to(self, obj):
diff --git a/src/opyenxes/model/XAttributeID.py b/src/opyenxes/model/XAttributeID.py
index c84fc45..5d33825 100644
--- a/src/opyenxes/model/XAttributeID.py
+++ b/src/opyenxes/model/XAttributeID.py
@@ -40,6 +40,7 @@ class XAttributeID(XAttribute):
         """
         clone = XAttributeID(self.get_key(), self.__value.clone(),
                              self.get_extension())
+        clone.set_attributes(self.get_attributes().clone())
         return clone
 
     def compare_to(self, obj):
diff --git a/src/opyenxes/model/XAttributeLiteral.py b/src/opyenxes/model/XAttributeLiteral.py
index 1868c40..5f0fb55 100644
--- a/src/opyenxes/model/XAttributeLiteral.py
+++ b/src/opyenxes/model/XAttributeLiteral.py
@@ -41,6 +41,7 @@ class XAttributeLiteral(XAttribute):
         """
         clone = XAttributeLiteral(self.get_key(), self.__value,
                                   self.get_extension())
+        clone.set_attributes(self.get_attributes().clone())
         return clone
 
     def compare_to(self, obj):
diff --git a/src/opyenxes/model/XAttributeMap.py b/src/opyenxes/model/XAttributeMap.py
index fa1b9e6..3dd4851 100644
--- a/src/opyenxes/model/XAttributeMap.py
+++ b/src/opyenxes/model/XAttributeMap.py
@@ -18,7 +18,7 @@ class XAttributeMap(dict):
         """
         clone = XAttributeMap()
         for key in self.keys():
-            clone[key] = self[key]
+            clone[key] = self[key].clone()
 
         return clone
 
diff --git a/src/opyenxes/model/XAttributeTimestamp.py b/src/opyenxes/model/XAttributeTimestamp.py
index 99ec305..2750e05 100644
--- a/src/opyenxes/model/XAttributeTimestamp.py
+++ b/src/opyenxes/model/XAttributeTimestamp.py
@@ -57,6 +57,7 @@ class XAttributeTimestamp(XAttribute):
         """
         clone = XAttributeTimestamp(self.get_key(), self.__value,
                                     self.get_extension())
+        clone.set_attributes(self.get_attributes().clone())
         return clone
 
     def compare_to(self, obj):
diff --git a/src/opyenxes/model/XLog.py b/src/opyenxes/model/XLog.py
index e44a343..94f2277 100644
--- a/src/opyenxes/model/XLog.py
+++ b/src/opyenxes/model/XLog.py
@@ -31,8 +31,8 @@ class XLog(XElement, list):
             clone.get_extensions().add(elem)
 
         clone.__classifiers = self.__classifiers.copy()
-        clone.__globalTraceAttributes = self.__globalTraceAttributes.copy()
-        clone.__globalEventAttributes = self.__globalEventAttributes.copy()
+        clone.__globalTraceAttributes = [attribute.clone() for attribute in self.__globalTraceAttributes]
+        clone.__globalEventAttributes = [attribute.clone() for attribute in self.__globalEventAttributes]
         clone.__features = self.__features.copy()
 
         for trace in self:
-- 
2.43.0


From 1169f47382e0c8460272bafa517d49c8464276aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:53 +0000
Subject: [PATCH 13/53] fix: derive prototypes of timestamp attributes

---
 src/opyenxes/utils/XAttributeUtils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/utils/XAttributeUtils.py b/src/opyenxes/utils/XAttributeUtils.py
index 735630a..6eb42e1 100644
--- a/src/opyenxes/utils/XAttributeUtils.py
+++ b/src/opyenxes/utils/XAttributeUtils.py
@@ -107,7 +107,7 @@ class XAttributeUtils:
             elif isinstance(prototype, XAttributeDiscrete):
                 prototype.set_value(0)
             elif isinstance(prototype, XAttributeTimestamp):
-                prototype.set_value_millies(0)
+                prototype.set_value_millis(0)
             elif isinstance(prototype, XAttributeID):
                 prototype.set_value(XIDFactory().create_id())
             else:
-- 
2.43.0


From 55feda6a787c387c139f8b7c22bcfbbf59d6572a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:53 +0000
Subject: [PATCH 14/53] fix: register attribute prototypes by type and
 extension

---
 src/opyenxes/info/XAttributeInfo.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/opyenxes/info/XAttributeInfo.py b/src/opyenxes/info/XAttributeInfo.py
index 12d8c6c..ec62041 100644
--- a/src/opyenxes/info/XAttributeInfo.py
+++ b/src/opyenxes/info/XAttributeInfo.py
@@ -131,7 +131,7 @@ class XAttributeInfo:
         :return: A tuple of attribute prototypes registered for no extension.
         :rtype: tuple
         """
-        return self.__no_extension_set
+        return tuple(self.__no_extension_set)
 
     def get_keys_without_extension(self):
         """Returns keys of all registered attributes defined by no extension.
@@ -154,7 +154,13 @@ class XAttributeInfo:
             type_set = self.__type_map.get(XAttributeUtils.get_type(prototype))
             if type_set is None:
                 type_set = set()
+            type_set.add(prototype)
             self.__type_map[XAttributeUtils.get_type(prototype)] = type_set
+            if attribute.get_extension() is None:
+                self.__no_extension_set.add(prototype)
+            else:
+                extension_set = self.__extension_map.setdefault(attribute.get_extension(), set())
+                extension_set.add(prototype)
         else:
             self.__frequencies[attribute.get_key()] += 1
 
-- 
2.43.0


From b66d7bd8b3f89213038d52eb7a03366d32606348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:53 +0000
Subject: [PATCH 15/53] fix: give every trace a stable hash

---
 src/opyenxes/model/XTrace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/model/XTrace.py b/src/opyenxes/model/XTrace.py
index e7df86f..dcf7580 100644
--- a/src/opyenxes/model/XTrace.py
+++ b/src/opyenxes/model/XTrace.py
@@ -66,4 +66,4 @@ class XTrace(XElement, list):
         super(XTrace, self).append(p_object)
 
     def __hash__(self):
-        return hash(super(XTrace, self))
+        return object.__hash__(self)
-- 
2.43.0


From 1be0098ef03ba543943297a944a208bf187b2080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:53 +0000
Subject: [PATCH 16/53] fix: cache a log's classifier and summary as one value

---
 src/opyenxes/model/XLog.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/opyenxes/model/XLog.py b/src/opyenxes/model/XLog.py
index 94f2277..5941a4a 100644
--- a/src/opyenxes/model/XLog.py
+++ b/src/opyenxes/model/XLog.py
@@ -15,8 +15,7 @@ class XLog(XElement, list):
         self.__classifiers = []
         self.__globalTraceAttributes = []
         self.__globalEventAttributes = []
-        self.__cachedClassifier = None
-        self.__cachedInfo = None
+        self.__cachedInfo = (None, None)
         self.__features = {}
         self.__extension = set()
 
@@ -109,8 +108,7 @@ class XLog(XElement, list):
         :param info: The given info.
         :type info: `XLogInfo`
         """
-        self.__cachedClassifier = classifier
-        self.__cachedInfo = info
+        self.__cachedInfo = (classifier, info)
 
     def get_info(self, classifier):
         """Returns the cached info for the given classifier, null if not available.
@@ -120,8 +118,9 @@ class XLog(XElement, list):
         :return: The cached info for the given classifier, null if not available
         :rtype: `XLogInfo` or None
         """
-        if classifier == self.__cachedClassifier:
-            return self.__cachedInfo
+        cached_classifier, info = self.__cachedInfo
+        if classifier == cached_classifier:
+            return info
         return None
 
     def append(self, p_object):
-- 
2.43.0


From 21d67844085fb4c46bd9927f60bfad851acaa6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:20 +0000
Subject: [PATCH 17/53] fix: create each shared service once, also when several
 threads ask first

---
 src/opyenxes/utils/SingletonClassGenerator.py | 21 +++++++++++++++++++
 src/opyenxes/utils/Synchronized.py            | 21 +++++++++++++++++++
 2 files changed, 42 insertions(+)
 create mode 100644 src/opyenxes/utils/Synchronized.py

diff --git a/src/opyenxes/utils/SingletonClassGenerator.py b/src/opyenxes/utils/SingletonClassGenerator.py
index e60aa7e..de78f8a 100644
--- a/src/opyenxes/utils/SingletonClassGenerator.py
+++ b/src/opyenxes/utils/SingletonClassGenerator.py
@@ -1,9 +1,13 @@
+from opyenxes.utils.Synchronized import synchronized
+
+
 class XCostAmountMetaclass(type):
     """
     This Metaclass produce a singleton XCostAmount class
     """
     instance = None
 
+    @synchronized
     def __call__(cls, *args, **kw):
         if not XCostAmountMetaclass.instance:
             XCostAmountMetaclass.instance = super().__call__(*args, **kw)
@@ -16,6 +20,7 @@ class XCostDriverMetaclass(type):
     """
     instance = None
 
+    @synchronized
     def __call__(cls, *args, **kw):
         if not XCostDriverMetaclass.instance:
             XCostDriverMetaclass.instance = super().__call__(*args, **kw)
@@ -28,6 +33,7 @@ class XCostTypeMetaclass(type):
     """
     instance = None
 
+    @synchronized
     def __call__(cls, *args, **kw):
         if not XCostTypeMetaclass.instance:
             XCostTypeMetaclass.instance = super().__call__(*args, **kw)
@@ -40,6 +46,7 @@ class XCostExtensionMetaclass(type):
     """
     instance = None
 
+    @synchronized
     def __call__(cls, *args, **kw):
         if not XCostExtensionMetaclass.instance:
             XCostExtensionMetaclass.instance = super().__call__(*args, **kw)
@@ -52,6 +59,7 @@ class XConceptExtensionMetaclass(type):
     """
     instance = None
 
+    @synchronized
     def __call__(cls, *args, **kw):
         if not XConceptExtensionMetaclass.instance:
             XConceptExtensionMetaclass.instance = super().__call__(*args, **kw)
@@ -64,6 +72,7 @@ class XExtensionManagerMetaclass(type):
     """
     instance = None
 
+    @synchronized
     def __call__(cls, *args, **kw):
         if not XExtensionManagerMetaclass.instance:
             XExtensionManagerMetaclass.instance = super().__call__(*args, **kw)
@@ -76,6 +85,7 @@ class XExtensionMetaclass(type):
     """
     instance = None
 
+    @synchronized
     def __call__(cls, *args, **kw):
         if not XExtensionMetaclass.instance:
             XExtensionMetaclass.instance = super().__call__(*args, **kw)
@@ -88,6 +98,7 @@ class XLifecycleExtensionMetaclass(type):
     """
     instance = None
 
+    @synchronized
     def __call__(cls, *args, **kw):
         if not XLifecycleExtensionMetaclass.instance:
             XLifecycleExtensionMetaclass.instance = super().__call__(*args, **kw)
@@ -100,6 +111,7 @@ class XIdentityExtensionMetaclass(type):
     """
     instance = None
 
+    @synchronized
     def __call__(cls, *args, **kw):
         if not XIdentityExtensionMetaclass.instance:
             XIdentityExtensionMetaclass.instance = super().__call__(*args, **kw)
@@ -112,6 +124,7 @@ class XFactoryRegistryMetaclass(type):
     """
     instance = None
 
+    @synchronized
     def __call__(cls, *args, **kw):
         if not XFactoryRegistryMetaclass.instance:
             XFactoryRegistryMetaclass.instance = super().__call__(*args, **kw)
@@ -124,6 +137,7 @@ class XIDFactoryMetaclass(type):
     """
     instance = None
 
+    @synchronized
     def __call__(cls, *args, **kw):
         if not XIDFactoryMetaclass.instance:
             XIDFactoryMetaclass.instance = super().__call__(*args, **kw)
@@ -136,6 +150,7 @@ class XGlobalAttributeNameMapMetaclass(type):
     """
     instance = None
 
+    @synchronized
     def __call__(cls, *args, **kw):
         if not XGlobalAttributeNameMapMetaclass.instance:
             XGlobalAttributeNameMapMetaclass.instance = super().__call__(*args, **kw)
@@ -148,6 +163,7 @@ class XMicroExtensionMetaclass(type):
     """
     instance = None
 
+    @synchronized
     def __call__(cls, *args, **kw):
         if not XMicroExtensionMetaclass.instance:
             XMicroExtensionMetaclass.instance = super().__call__(*args, **kw)
@@ -160,6 +176,7 @@ class XTimeExtensionMetaclass(type):
     """
     instance = None
 
+    @synchronized
     def __call__(cls, *args, **kw):
         if not XTimeExtensionMetaclass.instance:
             XTimeExtensionMetaclass.instance = super().__call__(*args, **kw)
@@ -172,6 +189,7 @@ class XOrganizationalExtensionMetaclass(type):
     """
     instance = None
 
+    @synchronized
     def __call__(cls, *args, **kw):
         if not XOrganizationalExtensionMetaclass.instance:
             XOrganizationalExtensionMetaclass.instance = super().__call__(*args, **kw)
@@ -184,6 +202,7 @@ class XSemanticExtensionMetaclass(type):
     """
     instance = None
 
+    @synchronized
     def __call__(cls, *args, **kw):
         if not XSemanticExtensionMetaclass.instance:
             XSemanticExtensionMetaclass.instance = super().__call__(*args, **kw)
@@ -196,6 +215,7 @@ class XSerializerRegistryMetaclass(type):
     """
     instance = None
 
+    @synchronized
     def __call__(cls, *args, **kw):
         if not XSerializerRegistryMetaclass.instance:
             XSerializerRegistryMetaclass.instance = super().__call__(*args, **kw)
@@ -208,6 +228,7 @@ class XParserRegistryMetaclass(type):
     """
     instance = None
 
+    @synchronized
     def __call__(cls, *args, **kw):
         if not XParserRegistryMetaclass.instance:
             XParserRegistryMetaclass.instance = super().__call__(*args, **kw)
diff --git a/src/opyenxes/utils/Synchronized.py b/src/opyenxes/utils/Synchronized.py
new file mode 100644
index 0000000..4a3beb0
--- /dev/null
+++ b/src/opyenxes/utils/Synchronized.py
@@ -0,0 +1,21 @@
+import functools
+import threading
+
+# One lock for all shared services: they create each other on first use.
+lock = threading.RLock()
+
+
+def synchronized(method):
+    """Decorator for the methods of shared services that must not run at the
+    same time.
+
+    :param method: The method to decorate.
+    :type method: function
+    :return: The decorated method.
+    :rtype: function
+    """
+    @functools.wraps(method)
+    def wrapper(*args, **kw):
+        with lock:
+            return method(*args, **kw)
+    return wrapper
-- 
2.43.0


From cde4637fba808d832822f47c089850c2db876d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:20 +0000
Subject: [PATCH 18/53] fix: publish an extension's set of attributes only when
 it is complete

---
 src/opyenxes/extension/XExtension.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/opyenxes/extension/XExtension.py b/src/opyenxes/extension/XExtension.py
index 50fdeee..7fb3eed 100644
--- a/src/opyenxes/extension/XExtension.py
+++ b/src/opyenxes/extension/XExtension.py
@@ -60,11 +60,12 @@ class XExtension:
         :rtype: set
         """
         if self.__all_attributes is None:
-            self.__all_attributes = set()
-            self.__all_attributes.update(self.__log_attributes)
-            self.__all_attributes.update(self.__trace_attributes)
-            self.__all_attributes.update(self.__event_attributes)
-            self.__all_attributes.update(self.__meta_attributes)
+            all_attributes = set()
+            all_attributes.update(self.__log_attributes)
+            all_attributes.update(self.__trace_attributes)
+            all_attributes.update(self.__event_attributes)
+            all_attributes.update(self.__meta_attributes)
+            self.__all_attributes = all_attributes
 
         return self.__all_attributes
 
-- 
2.43.0


From 5cd5dbd593840f3845055957b47ce57543f228b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:20 +0000
Subject: [PATCH 19/53] fix: attribute name maps can be created and listed by
 several threads

---
 src/opyenxes/info/XAttributeNameMap.py       | 2 +-
 src/opyenxes/info/XGlobalAttributeNameMap.py | 7 +++----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/opyenxes/info/XAttributeNameMap.py b/src/opyenxes/info/XAttributeNameMap.py
index 59aa2aa..179d2f4 100644
--- a/src/opyenxes/info/XAttributeNameMap.py
+++ b/src/opyenxes/info/XAttributeNameMap.py
@@ -54,7 +54,7 @@ class XAttributeNameMap:
         sb = list()
         sb.append("Attribute name map: ")
         sb.append(self.__name)
-        for key in self.__mapping.keys():
+        for key in tuple(self.__mapping.keys()):
             sb.append("\n")
             sb.append(key)
             sb.append(" -> ")
diff --git a/src/opyenxes/info/XGlobalAttributeNameMap.py b/src/opyenxes/info/XGlobalAttributeNameMap.py
index bacd9b1..647a35b 100644
--- a/src/opyenxes/info/XGlobalAttributeNameMap.py
+++ b/src/opyenxes/info/XGlobalAttributeNameMap.py
@@ -39,7 +39,7 @@ class XGlobalAttributeNameMap(metaclass=XGlobalAttributeNameMapMetaclass):
         :rtype: tuple
         """
         result = set()
-        for values in self.__mappings.values():
+        for values in tuple(self.__mappings.values()):
             result.add(values)
 
         return tuple(result)
@@ -57,8 +57,7 @@ class XGlobalAttributeNameMap(metaclass=XGlobalAttributeNameMapMetaclass):
         """
         mapping = self.__mappings.get(name)
         if mapping is None:
-            mapping = XAttributeNameMap(name)
-            self.__mappings[name] = mapping
+            mapping = self.__mappings.setdefault(name, XAttributeNameMap(name))
 
         return mapping
 
@@ -150,7 +149,7 @@ class XGlobalAttributeNameMap(metaclass=XGlobalAttributeNameMapMetaclass):
     def __str__(self):
         sb = list()
         sb.append("Global attribute name map.\n\nContained maps:\n\n")
-        for values in self.__mappings.values():
+        for values in tuple(self.__mappings.values()):
             sb.append(str(values))
             sb.append("\n\n")
         return "".join(sb)
-- 
2.43.0


From ffe73ef0f4036ae7112db1601de1899aa44999d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:20 +0000
Subject: [PATCH 20/53] fix: map attributes safely when the requested mapping
 does not exist

---
 src/opyenxes/info/XGlobalAttributeNameMap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opyenxes/info/XGlobalAttributeNameMap.py b/src/opyenxes/info/XGlobalAttributeNameMap.py
index 647a35b..a78ca4c 100644
--- a/src/opyenxes/info/XGlobalAttributeNameMap.py
+++ b/src/opyenxes/info/XGlobalAttributeNameMap.py
@@ -103,10 +103,10 @@ class XGlobalAttributeNameMap(metaclass=XGlobalAttributeNameMapMetaclass):
             return alias
 
         elif isinstance(attribute, XAttribute) and isinstance(mapping, str):
-            return self.map_safely(attribute, self.__mappings.get(mapping))
+            return self.map_safely(attribute, self.__mappings.get(mapping, self.__standard_mapping))
 
         elif isinstance(attribute, str) and isinstance(mapping, str):
-            return self.map_safely(attribute, self.__mappings.get(mapping))
+            return self.map_safely(attribute, self.__mappings.get(mapping, self.__standard_mapping))
 
     def register_mapping(self, mapping_name, attribute_key, alias):
         """Registers a known attribute for mapping in a given attribute name
-- 
2.43.0


From ed92abd95eec17430006e06c8adab7f4e93f200f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:20 +0000
Subject: [PATCH 21/53] fix: registering an instance never overrides a default
 set by another thread

---
 src/opyenxes/utils/XRegistry.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/opyenxes/utils/XRegistry.py b/src/opyenxes/utils/XRegistry.py
index 8123b2e..5440adc 100644
--- a/src/opyenxes/utils/XRegistry.py
+++ b/src/opyenxes/utils/XRegistry.py
@@ -1,3 +1,6 @@
+from opyenxes.utils.Synchronized import synchronized
+
+
 class XRegistry:
     """Template implementation for a generic registry.
 
@@ -22,6 +25,7 @@ class XRegistry:
         """
         return self.__current
 
+    @synchronized
     def register(self, instance):
         """Registers a new instance with this registry.
 
@@ -33,6 +37,7 @@ class XRegistry:
             if self.__current is None:
                 self.__current = instance
 
+    @synchronized
     def set_current_default(self, instance):
         """Sets the current default instance of this registry.
 
-- 
2.43.0


From 80323d8a605c5bf7140d78f2e5541c8fce3d114b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:20 +0000
Subject: [PATCH 22/53] fix: all extension lookups agree after an extension was
 registered again or concurrently

---
 src/opyenxes/extension/XExtensionManager.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/opyenxes/extension/XExtensionManager.py b/src/opyenxes/extension/XExtensionManager.py
index 9dbe634..1781819 100644
--- a/src/opyenxes/extension/XExtensionManager.py
+++ b/src/opyenxes/extension/XExtensionManager.py
@@ -7,6 +7,7 @@ from opyenxes.extension.std.XOrganizationalExtension import XOrganizationalExten
 from opyenxes.extension.std.XSemanticExtension import XSemanticExtension
 from opyenxes.extension.std.XTimeExtension import XTimeExtension
 from opyenxes.extension.XExtensionParser import XExtensionParser
+from opyenxes.utils.Synchronized import synchronized
 from opyenxes.utils.SingletonClassGenerator import XExtensionManagerMetaclass
 from opyenxes.utils.XRuntimeUtils import XRuntimeUtils
 from opyenxes.log.XLogging import XLogging
@@ -34,6 +35,7 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
         self.__extension_list = list()
         self.register_standard_extensions()
 
+    @synchronized
     def register(self, extension):
         """Explicitly registers an extension instance with the extension manager.
 
@@ -43,7 +45,10 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
         self.__extension_map[extension.get_uri()] = extension
         if extension not in self.__extension_list:
             self.__extension_list.append(extension)
+        else:
+            self.__extension_list[self.__extension_list.index(extension)] = extension
 
+    @synchronized
     def get_by_uri(self, uri):
         """Retrieves an extension instance by its unique URI. If the extension
         has not been registered before, it is looked up in the local cache. If
@@ -57,6 +62,7 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
         """
         return self.__extension_map.get(uri)
 
+    @synchronized
     def get_by_name(self, name):
         """Retrieves an extension by its name. If no extension by that name can
         be found, this method returns null.
@@ -71,6 +77,7 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
                 return elem
         return None
 
+    @synchronized
     def get_by_prefix(self, prefix):
         """Retrieves an extension by its prefix. If no extension by that prefix
         can be found, this method returns null.
@@ -85,6 +92,7 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
                 return elem
         return None
 
+    @synchronized
     def get_by_index(self, index):
         """Retrieves an extension by ints index. If no extension with the given
         index is found, this method returns null.
@@ -98,6 +106,7 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
             return self.__extension_list[index]
         return None
 
+    @synchronized
     def get_index(self, extension):
         """Resolves the index of an extension, given that this extension has
         been previously registered with this manager instance. If the given
-- 
2.43.0


From 4c3bf5ca3e5b56640666445a84a9f0566f99ddda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:20 +0000
Subject: [PATCH 23/53] fix: keep the level at which an extension definition
 declares an attribute

---
 src/opyenxes/extension/XExtensionParser.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/opyenxes/extension/XExtensionParser.py b/src/opyenxes/extension/XExtensionParser.py
index b5530dc..24b617d 100644
--- a/src/opyenxes/extension/XExtensionParser.py
+++ b/src/opyenxes/extension/XExtensionParser.py
@@ -76,37 +76,31 @@ class XExtensionParser(metaclass=XExtensionMetaclass):
                 self.__xAttributes = self.__extension.get_meta_attributes()
 
             elif tag_name.lower() == "string":
-                self.__xAttributes = self.__extension.get_log_attributes()
                 mapping = self.__extension.get_prefix() + ':' + attributes.getValue("key")
                 self.__currentAttribute = self.__factory.create_attribute_literal(mapping, "DEFAULT", self.__extension)
                 self.__xAttributes.add(self.__currentAttribute)
 
             elif tag_name.lower() == "date":
-                self.__xAttributes = self.__extension.get_log_attributes()
                 mapping = self.__extension.get_prefix() + ':' + attributes.getValue("key")
                 self.__currentAttribute = self.__factory.create_attribute_timestamp(mapping, 0, self.__extension)
                 self.__xAttributes.add(self.__currentAttribute)
 
             elif tag_name.lower() == "int":
-                self.__xAttributes = self.__extension.get_log_attributes()
                 mapping = self.__extension.get_prefix() + ':' + attributes.getValue("key")
                 self.__currentAttribute = self.__factory.create_attribute_discrete(mapping, 0, self.__extension)
                 self.__xAttributes.add(self.__currentAttribute)
 
             elif tag_name.lower() == "float":
-                self.__xAttributes = self.__extension.get_log_attributes()
                 mapping = self.__extension.get_prefix() + ':' + attributes.getValue("key")
                 self.__currentAttribute = self.__factory.create_attribute_continuous(mapping, 0.0, self.__extension)
                 self.__xAttributes.add(self.__currentAttribute)
 
             elif tag_name.lower() == "boolean":
-                self.__xAttributes = self.__extension.get_log_attributes()
                 mapping = self.__extension.get_prefix() + ':' + attributes.getValue("key")
                 self.__currentAttribute = self.__factory.create_attribute_boolean(mapping, False, self.__extension)
                 self.__xAttributes.add(self.__currentAttribute)
 
             elif tag_name.lower() == "id":
-                self.__xAttributes = self.__extension.get_log_attributes()
                 mapping = self.__extension.get_prefix() + ':' + attributes.getValue("key")
                 self.__currentAttribute = self.__factory.create_attribute_id(mapping, XIDFactory.create_id(), self.__extension)
                 self.__xAttributes.add(self.__currentAttribute)
-- 
2.43.0


From ea64b0e606420073b6d23e383f02f64027476505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:20 +0000
Subject: [PATCH 24/53] fix: parse an extension definition without connecting
 to its URI

---
 src/opyenxes/extension/XExtensionParser.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/opyenxes/extension/XExtensionParser.py b/src/opyenxes/extension/XExtensionParser.py
index 24b617d..7b45f30 100644
--- a/src/opyenxes/extension/XExtensionParser.py
+++ b/src/opyenxes/extension/XExtensionParser.py
@@ -5,7 +5,7 @@ from xml.sax import parse as xml_parse, parseString
 from opyenxes.factory.XFactoryRegistry import XFactoryRegistry
 from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
 from opyenxes.id.XIDFactory import XIDFactory
-from urllib import request, parse, error
+from urllib import request, parse
 import os
 
 
@@ -59,10 +59,6 @@ class XExtensionParser(metaclass=XExtensionMetaclass):
                 mapping = attributes.getValue("name")
                 name = attributes.getValue("prefix")
                 x_uri = parse.urlparse(attributes.getValue("uri"))
-                try:
-                    request.urlopen(attributes.getValue("uri"))
-                except error.URLError:
-                    return
 
                 self.__extension = XExtension(mapping, name, x_uri)
 
-- 
2.43.0


From 17c1b85970d0222cc6a5bf3fb73de5882c718342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:02 +0000
Subject: [PATCH 25/53] fix: the support folder may exist already and is found
 on every platform

---
 src/opyenxes/utils/XRuntimeUtils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/opyenxes/utils/XRuntimeUtils.py b/src/opyenxes/utils/XRuntimeUtils.py
index dfb5440..9299438 100644
--- a/src/opyenxes/utils/XRuntimeUtils.py
+++ b/src/opyenxes/utils/XRuntimeUtils.py
@@ -63,16 +63,16 @@ class XRuntimeUtils:
         :return: The path of the platform-dependent OpenXES support folder.
         :rtype: str
         """
-        home_dir = os.path.expanduser(os.getenv('USERPROFILE'))
+        home_dir = os.path.expanduser('~')
         dir_name = "OpenXES"
         if self.is_running_windows():
-            os.makedirs(home_dir + "\\" + dir_name)
+            os.makedirs(home_dir + "\\" + dir_name, exist_ok=True)
             return home_dir + "\\" + dir_name + "\\"
         elif self.is_running_mac_os_x():
-            os.makedirs(home_dir + "/Library/Application Support/" + dir_name)
+            os.makedirs(home_dir + "/Library/Application Support/" + dir_name, exist_ok=True)
             return home_dir + "/Library/Application Support/" + dir_name + "/"
         else:
-            os.makedirs(home_dir + "/." + dir_name)
+            os.makedirs(home_dir + "/." + dir_name, exist_ok=True)
             return home_dir + "/." + dir_name + "/"
 
     def get_extension_cache_folder(self):
@@ -82,5 +82,5 @@ class XRuntimeUtils:
         :rtype: str
         """
         ext_folder = self.get_support_folder() + "ExtensionCache"
-        os.makedirs(ext_folder)
+        os.makedirs(ext_folder, exist_ok=True)
         return ext_folder
-- 
2.43.0


From d56c394b71a6b980ccca74ecf3146609bc791536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:02 +0000
Subject: [PATCH 26/53] fix: cache an extension definition only when it was
 downloaded and written completely

---
 src/opyenxes/extension/XExtensionManager.py | 33 ++++++++++++++-------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/opyenxes/extension/XExtensionManager.py b/src/opyenxes/extension/XExtensionManager.py
index 1781819..2484f7a 100644
--- a/src/opyenxes/extension/XExtensionManager.py
+++ b/src/opyenxes/extension/XExtensionManager.py
@@ -11,9 +11,13 @@ from opyenxes.utils.Synchronized import synchronized
 from opyenxes.utils.SingletonClassGenerator import XExtensionManagerMetaclass
 from opyenxes.utils.XRuntimeUtils import XRuntimeUtils
 from opyenxes.log.XLogging import XLogging
+from http.client import HTTPException
 from urllib import request
+from xml.sax import parseString, SAXException
+from xml.sax.handler import ContentHandler
 import os
 import time
+import uuid
 
 
 class XExtensionManager(metaclass=XExtensionManagerMetaclass):
@@ -147,27 +151,36 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
         """
         uri_str = uri.geturl()
         if uri_str[-1] == "/":
-            uri_str = uri_str[(0, len(uri_str) - 1)]
-        filename = uri_str[uri_str.rindex(chr(47)):]
+            uri_str = uri_str[:-1]
+        filename = uri_str[uri_str.rindex(chr(47)) + 1:]
         if not filename.endswith(".xesext"):
             filename += ".xesext"
 
         cache_file = XRuntimeUtils().get_extension_cache_folder() + os.path.sep + filename
 
+        # the definition is put in place only when it is complete
+        part_file = cache_file + "." + uuid.uuid4().hex + ".part"
+
         try:
-            bis = request.urlopen(uri.geturl())
-            bos = open(cache_file, "w")
-
-            file = bis.read(1024)
-            while file != b"":
-                bos.write(file)
-                file = bis.read(1024)
-            bos.close()
+            with request.urlopen(uri.geturl()) as bis:
+                file = bis.read()
+            parseString(file, ContentHandler())
+            try:
+                with open(part_file, "wb") as bos:
+                    bos.write(file)
+                    bos.flush()
+                    os.fsync(bos.fileno())
+                os.replace(part_file, cache_file)
+            finally:
+                if os.path.exists(part_file):
+                    os.remove(part_file)
             XLogging().log("Cached XES extension \\'" + uri.geturl() + "\\'",
                            XLogging.Importance.DEBUG)
 
         except IOError as e:
             print("I/O error({0}): {1}".format(e.errno, e.strerror))
+        except (HTTPException, SAXException) as e:
+            print("Incomplete extension definition: {}".format(e))
 
     def load_extension_cache(self):
         """Loads all extensions stored in the local cache. Cached extensions
-- 
2.43.0


From 2960a0ab1cca77409b468049f1440f33a603fe6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:02 +0000
Subject: [PATCH 27/53] fix: load the cached extension definitions, each one
 independently of the others

---
 src/opyenxes/extension/XExtensionManager.py | 31 +++++++++++++++------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/opyenxes/extension/XExtensionManager.py b/src/opyenxes/extension/XExtensionManager.py
index 2484f7a..df137c9 100644
--- a/src/opyenxes/extension/XExtensionManager.py
+++ b/src/opyenxes/extension/XExtensionManager.py
@@ -190,7 +190,8 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
         """
         min_modified = (lambda: int(round(time.time() * 1000)))() - 2592000000
         ext_folder = XRuntimeUtils().get_extension_cache_folder()
-        ext_files = list(filter(os.path.isfile, os.listdir(ext_folder)))
+        ext_files = list(filter(lambda name: os.path.isfile(ext_folder + os.path.sep + name),
+                                os.listdir(ext_folder)))
         if len(ext_files) == 0:
             XLogging().log("Extension caching disabled (Could not access cache"
                            " directory)!",
@@ -201,15 +202,13 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
             ext_file = ext_files[i]
             if ext_file.lower().endswith(".xesext"):
                 file_name = ext_folder + os.path.sep + ext_file
-                if os.path.getmtime(file_name) * 1000 < min_modified:
+                try:
+                    if os.path.getmtime(file_name) * 1000 < min_modified:
                         if os.path.exists(file_name):
                             os.remove(file_name)
-                else:
-                    try:
+                    else:
                         extension = XExtensionParser.parse(file_name)
-                        if extension.get_uri() not in self.__extension_map:
-                            self.__extension_map[extension.get_uri()] = extension
-                            self.__extension_list.append(extension)
+                        if self.__register_new(extension):
                             XLogging().log("Loaded XES extension \'" +
                                            extension.get_uri().geturl() +
                                            "\' from cache",
@@ -219,5 +218,19 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
                                            extension.get_uri().geturl() +
                                            "\' (already defined)",
                                            XLogging.Importance.DEBUG)
-                    except Exception as e:
-                        print("Exception error: {}".format(e))
+                except Exception as e:
+                    print("Exception error: {}".format(e))
+
+    @synchronized
+    def __register_new(self, extension):
+        """Registers an extension unless one with the same URI is registered.
+
+        :param extension: The extension to be registered.
+        :type extension: `XExtension`
+        :return: Whether the extension was registered.
+        :rtype: bool
+        """
+        if extension.get_uri() in self.__extension_map:
+            return False
+        self.register(extension)
+        return True
-- 
2.43.0


From f0cde101e8fa81a22cd1ecb6d3bef6c4a5f705c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:02 +0000
Subject: [PATCH 28/53] fix: a timer measures from its own start to its own
 stop, in milliseconds

---
 src/opyenxes/utils/XTimer.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/opyenxes/utils/XTimer.py b/src/opyenxes/utils/XTimer.py
index bfab16c..81bf58b 100644
--- a/src/opyenxes/utils/XTimer.py
+++ b/src/opyenxes/utils/XTimer.py
@@ -12,23 +12,22 @@ class XTimer:
     HOUR_MILLIS = 3600000
     MINUTE_MILLIS = 60000
     SECOND_MILLIS = 1000
-    __start = time.time() * 1000
 
     def __init__(self):
-        self.__stop = self.__start
+        self.start()
 
     def start(self):
         """Starts the timer.
 
         """
         self.__start = time.time() * 1000
-        self.__stop = self.__start
+        self.__stop = None
 
     def stop(self):
         """Stops the timer (takes time).
 
         """
-        self.__stop = time.time()
+        self.__stop = time.time() * 1000
 
     def get_duration(self):
         """Retrieve the runtime of the timer.
@@ -36,8 +35,8 @@ class XTimer:
         :return: Runtime between start (or creation of timer) and stop, in milliseconds.
         :rtype: int
         """
-        if self.__start == self.__stop:
-            return time.time() * 1000 - self.__stop
+        if self.__stop is None:
+            return time.time() * 1000 - self.__start
         return self.__stop - self.__start
 
     def get_duration_string(self):
-- 
2.43.0


From c4ae8ed549ca90b49e8c46da51e4c381424c22d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:02 +0000
Subject: [PATCH 29/53] fix: every parser tried by the universal parser reads
 the file from its start

---
 src/opyenxes/data_in/XUniversalParser.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/opyenxes/data_in/XUniversalParser.py b/src/opyenxes/data_in/XUniversalParser.py
index 35074d0..65966ac 100644
--- a/src/opyenxes/data_in/XUniversalParser.py
+++ b/src/opyenxes/data_in/XUniversalParser.py
@@ -32,12 +32,19 @@ class XUniversalParser:
         :return: The parsed list of logs.
         :rtype: list[`XLog`]
         """
+        stream = file
         for parse in XParserRegistry().get_available():
             if parse.can_parse(file.name):
                 try:
-                    result = parse.parse(file)
+                    if stream is None:
+                        # the parser tried before has consumed or closed it
+                        with open(file.name, "rb") as stream:
+                            result = parse.parse(stream)
+                    else:
+                        result = parse.parse(stream)
                     return result
                 except Exception as error:
                     print(error)
+                stream = None
 
         raise Exception("No suitable parser could be found!")
-- 
2.43.0


From 2fa1ed59a1c4f120552c1d2f747e696c9fe7d1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:37 +0000
Subject: [PATCH 30/53] fix: a class identity tells which of its attributes is
 missing

---
 src/opyenxes/classification/XEventAttributeClassifier.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/opyenxes/classification/XEventAttributeClassifier.py b/src/opyenxes/classification/XEventAttributeClassifier.py
index 03fe255..1da6a89 100644
--- a/src/opyenxes/classification/XEventAttributeClassifier.py
+++ b/src/opyenxes/classification/XEventAttributeClassifier.py
@@ -46,8 +46,7 @@ class XEventAttributeClassifier:
             identity = []
             for key in self.__keys:
                 attribute = event.get_attributes().get(key)
-                if attribute:
-                    identity.append(str(attribute))
+                identity.append(str(attribute) if attribute else "")
 
             return "&&".join(identity)
 
-- 
2.43.0


From ed3710e9b71d9d6eebd76d2e03be28b49b2640a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:31 +0000
Subject: [PATCH 31/53] fix: an interrupted registration of an extension can be
 repeated

---
 src/opyenxes/extension/XExtensionManager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/opyenxes/extension/XExtensionManager.py b/src/opyenxes/extension/XExtensionManager.py
index df137c9..4f72f95 100644
--- a/src/opyenxes/extension/XExtensionManager.py
+++ b/src/opyenxes/extension/XExtensionManager.py
@@ -46,11 +46,12 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
         :param extension: The extension to be registered.
         :type extension: `XExtension`
         """
-        self.__extension_map[extension.get_uri()] = extension
         if extension not in self.__extension_list:
             self.__extension_list.append(extension)
         else:
             self.__extension_list[self.__extension_list.index(extension)] = extension
+        # last, because an extension found by its URI counts as registered
+        self.__extension_map[extension.get_uri()] = extension
 
     @synchronized
     def get_by_uri(self, uri):
-- 
2.43.0


From 21b852f22f7ae3961b09ca60ceb9d5fbf9f376f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:10 +0000
Subject: [PATCH 32/53] fix: a repeated registration sets the default an
 interrupted one left unset

---
 src/opyenxes/utils/XRegistry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opyenxes/utils/XRegistry.py b/src/opyenxes/utils/XRegistry.py
index 5440adc..59e11a9 100644
--- a/src/opyenxes/utils/XRegistry.py
+++ b/src/opyenxes/utils/XRegistry.py
@@ -34,8 +34,8 @@ class XRegistry:
         """
         if instance not in self:
             self.__registry.add(instance)
-            if self.__current is None:
-                self.__current = instance
+        if self.__current is None:
+            self.__current = instance
 
     @synchronized
     def set_current_default(self, instance):
-- 
2.43.0


From 6e1bc2a4a62cea397e20065c64ab278226beee68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:34 +0000
Subject: [PATCH 33/53] fix: an event's activity instance is assigned to its
 own attribute

---
 src/opyenxes/extension/std/XConceptExtension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/extension/std/XConceptExtension.py b/src/opyenxes/extension/std/XConceptExtension.py
index 2213854..23508e7 100644
--- a/src/opyenxes/extension/std/XConceptExtension.py
+++ b/src/opyenxes/extension/std/XConceptExtension.py
@@ -89,4 +89,4 @@ class XConceptExtension(XExtension, metaclass=XConceptExtensionMetaclass):
         if instance is not None and len(instance.strip()) > 0:
             attr = self.ATTR_INSTANCE.clone()
             attr.set_value(instance)
-            event.get_attributes()["concept:name"] = attr
+            event.get_attributes()["concept:instance"] = attr
-- 
2.43.0


From 05fab165ddb676f62cbb0c9e634b79bd68bf5637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:34 +0000
Subject: [PATCH 34/53] fix: cost currencies and types are assigned to their
 own attributes with their own values

---
 src/opyenxes/extension/std/XCostExtension.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opyenxes/extension/std/XCostExtension.py b/src/opyenxes/extension/std/XCostExtension.py
index c20b93f..5b509e8 100644
--- a/src/opyenxes/extension/std/XCostExtension.py
+++ b/src/opyenxes/extension/std/XCostExtension.py
@@ -180,7 +180,7 @@ class XCostExtension(XExtension, metaclass=XCostExtensionMetaclass):
         if currency is not None and len(currency.strip()) > 0:
             attr = self.ATTR_CURRENCY.clone()
             attr.set_value(currency)
-            element.get_attributes()["concept:name"] = attr
+            element.get_attributes()["cost:currency"] = attr
 
     @staticmethod
     def extract_amount(attribute):
@@ -477,7 +477,7 @@ class XCostExtension(XExtension, metaclass=XCostExtensionMetaclass):
         """
         if type_ is not None and len(type_.strip()) > 0:
             attr = self.ATTR_TYPE.clone()
-            attr.set_value(type)
+            attr.set_value(type_)
             attribute.get_attributes()["cost:type"] = attr
 
     @staticmethod
-- 
2.43.0


From d16ad0d1f10eb0932057d02b0a64e74322ef1c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:34 +0000
Subject: [PATCH 35/53] fix: values of nested attributes can be assigned and
 extracted

---
 .../std/XAbstractNestedAttributeSupport.py         | 14 ++++----------
 src/opyenxes/extension/std/XCostExtension.py       |  4 ++--
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py b/src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py
index 49368ab..9eebab5 100644
--- a/src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py
+++ b/src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py
@@ -91,7 +91,7 @@ class XAbstractNestedAttributeSupport:
 
         should result into the following:::
 
-            {["key.1"]: val.1, ["key.1", "key.1.1"]: val.1.1, ["key.1", "key.1.2"]: val.1.2, ["key.2"]: val.2, ["key.3"]: val.3}
+            {("key.1",): val.1, ("key.1", "key.1.1"): val.1.1, ("key.1", "key.1.2"): val.1.2, ("key.2",): val.2, ("key.3",): val.3}
 
 
         :param element: Element to retrieve all values for.
@@ -101,9 +101,7 @@ class XAbstractNestedAttributeSupport:
         """
         nested_values = dict()
         for attr in element.get_attributes().values():
-            keys = list()
-            keys.append(attr.get_key())
-            self.__extract_nested_values_private__(attr, nested_values, keys)
+            self.__extract_nested_values_private__(attr, nested_values, (attr.get_key(),))
         return nested_values
 
     def __extract_nested_values_private__(self, element, nested_values, keys):
@@ -115,9 +113,7 @@ class XAbstractNestedAttributeSupport:
             nested_values[keys] = value
 
         for attr in element.get_attributes().values():
-            new_keys = list(keys)
-            new_keys.append(element.get_key())
-            self.__extract_nested_values_private__(attr, nested_values, new_keys)
+            self.__extract_nested_values_private__(attr, nested_values, keys + (attr.get_key(),))
 
     def assign_values(self, element, values):
         """Assigns (to the given element) multiple values given their keys. Note
@@ -147,9 +143,7 @@ class XAbstractNestedAttributeSupport:
         """
         nested_values = dict()
         for key in values.keys():
-            keys = list()
-            keys.append(key)
-            nested_values[keys] = values[key]
+            nested_values[(key,)] = values[key]
 
         self.assign_nested_values(element, nested_values)
 
diff --git a/src/opyenxes/extension/std/XCostExtension.py b/src/opyenxes/extension/std/XCostExtension.py
index 5b509e8..f2a87b6 100644
--- a/src/opyenxes/extension/std/XCostExtension.py
+++ b/src/opyenxes/extension/std/XCostExtension.py
@@ -489,9 +489,9 @@ class XCostExtension(XExtension, metaclass=XCostExtensionMetaclass):
         :param element: Event or Trace to assign the cost types to.
         :type element: `XTrace` or `XEvent`
         :param types: Dictionary with keys to cost types which are to be assigned.
-        :type types: dict(list[str]: str)
+        :type types: dict(str: str)
         """
-        XCostType().assign_nested_values(element, types)
+        XCostType().assign_values(element, types)
 
     @staticmethod
     def assign_nested_types(element, types):
-- 
2.43.0


From 0241f9b795ddc16449e220a711772bb9e59c6897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:34 +0000
Subject: [PATCH 36/53] fix: an event's parent can be assigned, and the parent
 and length of an event without them be asked for

---
 src/opyenxes/extension/std/XMicroExtension.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/opyenxes/extension/std/XMicroExtension.py b/src/opyenxes/extension/std/XMicroExtension.py
index b801389..f0fa250 100644
--- a/src/opyenxes/extension/std/XMicroExtension.py
+++ b/src/opyenxes/extension/std/XMicroExtension.py
@@ -77,7 +77,7 @@ class XMicroExtension(XExtension, metaclass=XMicroExtensionMetaclass):
         :return: The requested event parent Id, null if not set.
         :rtype: XID
         """
-        attribute = event.get_attributes()["micro:parentId"]
+        attribute = event.get_attributes().get("micro:parentId")
         if attribute:
             return attribute.get_value()
         return None
@@ -93,7 +93,7 @@ class XMicroExtension(XExtension, metaclass=XMicroExtensionMetaclass):
         """
         if parent_id is not None:
             attr = self.ATTR_PID.clone()
-            attr.setValue(parent_id)
+            attr.set_value(parent_id)
             event.get_attributes()["micro:parentId"] = attr
         else:
             if "micro:parentId" in event.get_attributes():
@@ -124,7 +124,7 @@ class XMicroExtension(XExtension, metaclass=XMicroExtensionMetaclass):
         attribute = event.get_attributes().get("micro:length")
         if attribute:
             return attribute.get_value()
-        return None
+        return -1
 
     def assign_length(self, event, length):
         """Assigns any event its state number of children, as defined by this
-- 
2.43.0


From b7007b09a426c7b8f1095a213f34bada071fa68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:34 +0000
Subject: [PATCH 37/53] fix: model references are extracted one by one, as they
 were assigned

---
 src/opyenxes/extension/std/XSemanticExtension.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/opyenxes/extension/std/XSemanticExtension.py b/src/opyenxes/extension/std/XSemanticExtension.py
index f652df3..053fc68 100644
--- a/src/opyenxes/extension/std/XSemanticExtension.py
+++ b/src/opyenxes/extension/std/XSemanticExtension.py
@@ -44,11 +44,7 @@ class XSemanticExtension(XExtension, metaclass=XSemanticExtensionMetaclass):
         model_references = list()
         model_reference_attribute = target.get_attributes().get("semantic:modelReference")
         if model_reference_attribute:
-            ref_string = model_reference_attribute.get_value().lower()
-            aux = ref_string.split("\\s")
-            for i in range(len(aux)):
-                reference = aux[i]
-                model_references.append(reference.lower())
+            model_references.extend(model_reference_attribute.get_value().split())
 
         return model_references
 
-- 
2.43.0


From dd090e4fae177ad04809828eec0960fbb396aeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:34 +0000
Subject: [PATCH 38/53] fix: a wrapped event keeps its resource, role and group
 as assigned

---
 src/opyenxes/extension/std/XExtendedEvent.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/opyenxes/extension/std/XExtendedEvent.py b/src/opyenxes/extension/std/XExtendedEvent.py
index 7217235..fa483fc 100644
--- a/src/opyenxes/extension/std/XExtendedEvent.py
+++ b/src/opyenxes/extension/std/XExtendedEvent.py
@@ -101,7 +101,7 @@ class XExtendedEvent:
         :param resource: Resource string.
         :type resource: str
         """
-        XOrganizationalExtension().assign_resource(self.__original, resource.lower())
+        XOrganizationalExtension().assign_resource(self.__original, resource.strip())
 
     def get_role(self):
         """Returns the role of the event, as defined by the Organizational
@@ -119,7 +119,7 @@ class XExtendedEvent:
         :param role: Role string.
         :type role: str
         """
-        XOrganizationalExtension().assign_role(self.__original, role.lower())
+        XOrganizationalExtension().assign_role(self.__original, role.strip())
 
     def get_group(self):
         """Returns the group of the event, as defined by the Organizational
@@ -137,7 +137,7 @@ class XExtendedEvent:
         :param group: Group string.
         :type group: str
         """
-        XOrganizationalExtension().assign_group(self.__original, group.lower())
+        XOrganizationalExtension().assign_group(self.__original, group.strip())
 
     def get_transition(self):
         """Returns the lifecycle transition of the event, as defined by the
-- 
2.43.0


From 25d8d9b5a46070e90a0cbe37b56088b2516300e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:34 +0000
Subject: [PATCH 39/53] fix: an event without a timestamp has none, instead of
 -1

---
 src/opyenxes/extension/std/XTimeExtension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/extension/std/XTimeExtension.py b/src/opyenxes/extension/std/XTimeExtension.py
index b7679a0..f203c43 100644
--- a/src/opyenxes/extension/std/XTimeExtension.py
+++ b/src/opyenxes/extension/std/XTimeExtension.py
@@ -40,7 +40,7 @@ class XTimeExtension(XExtension, metaclass=XTimeExtensionMetaclass):
         attribute = event.get_attributes().get("time:timestamp")
         if attribute:
             return attribute.get_value()
-        return -1
+        return None
 
     def assign_timestamp(self, event, date):
         """Assigns to a given event its timestamp.
-- 
2.43.0


From d2e698b73ee014414477d4b3e25493b62c04204a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:34 +0000
Subject: [PATCH 40/53] fix: the extensions used by an element are those of its
 attributes

---
 src/opyenxes/model/XAttributable.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/opyenxes/model/XAttributable.py b/src/opyenxes/model/XAttributable.py
index a269b6c..7f6f877 100644
--- a/src/opyenxes/model/XAttributable.py
+++ b/src/opyenxes/model/XAttributable.py
@@ -24,9 +24,9 @@ class XAttributable:
         """
         extensions = set()
         for attribute in self.__attributes.values():
-            extension = attribute.get_extensions()
-            if len(extension) != 0:
-                extensions.add(extension)
+            if attribute.get_extension() is not None:
+                extensions.add(attribute.get_extension())
+            extensions.update(attribute.get_extensions())
         return extensions
 
     def get_attributes(self):
-- 
2.43.0


From 38b698360dba926da709d71a81092bbdb2432581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:45 +0000
Subject: [PATCH 41/53] fix: do not discard a cached definition that has just
 been replaced

---
 src/opyenxes/extension/XExtensionManager.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/opyenxes/extension/XExtensionManager.py b/src/opyenxes/extension/XExtensionManager.py
index 4f72f95..81b678d 100644
--- a/src/opyenxes/extension/XExtensionManager.py
+++ b/src/opyenxes/extension/XExtensionManager.py
@@ -7,7 +7,7 @@ from opyenxes.extension.std.XOrganizationalExtension import XOrganizationalExten
 from opyenxes.extension.std.XSemanticExtension import XSemanticExtension
 from opyenxes.extension.std.XTimeExtension import XTimeExtension
 from opyenxes.extension.XExtensionParser import XExtensionParser
-from opyenxes.utils.Synchronized import synchronized
+from opyenxes.utils.Synchronized import lock, synchronized
 from opyenxes.utils.SingletonClassGenerator import XExtensionManagerMetaclass
 from opyenxes.utils.XRuntimeUtils import XRuntimeUtils
 from opyenxes.log.XLogging import XLogging
@@ -171,7 +171,8 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
                     bos.write(file)
                     bos.flush()
                     os.fsync(bos.fileno())
-                os.replace(part_file, cache_file)
+                with lock:
+                    os.replace(part_file, cache_file)
             finally:
                 if os.path.exists(part_file):
                     os.remove(part_file)
@@ -204,10 +205,12 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
             if ext_file.lower().endswith(".xesext"):
                 file_name = ext_folder + os.path.sep + ext_file
                 try:
-                    if os.path.getmtime(file_name) * 1000 < min_modified:
-                        if os.path.exists(file_name):
+                    # not to discard what replaces the file just now
+                    with lock:
+                        expired = os.path.getmtime(file_name) * 1000 < min_modified
+                        if expired:
                             os.remove(file_name)
-                    else:
+                    if not expired:
                         extension = XExtensionParser.parse(file_name)
                         if self.__register_new(extension):
                             XLogging().log("Loaded XES extension \'" +
-- 
2.43.0


From 5edbbaf57b5da0901b3ad03d270777d39dda8e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:53 +0000
Subject: [PATCH 42/53] fix: read fractions of a second with more than six
 digits

---
 src/opyenxes/utils/XsDateTimeConversion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/opyenxes/utils/XsDateTimeConversion.py b/src/opyenxes/utils/XsDateTimeConversion.py
index 8011840..6681781 100644
--- a/src/opyenxes/utils/XsDateTimeConversion.py
+++ b/src/opyenxes/utils/XsDateTimeConversion.py
@@ -35,7 +35,8 @@ def parse_date_time(date_time):
             minute = 0
 
         if '.' in value:
-            time = datetime.strptime(value, "%Y-%m-%dT%H:%M:%S.%f")
+            # digits beyond the microsecond cannot be held
+            time = datetime.strptime(value[:value.index('.') + 7], "%Y-%m-%dT%H:%M:%S.%f")
         else:
             time = datetime.strptime(value, "%Y-%m-%dT%H:%M:%S")
 
-- 
2.43.0


From 0cf47f25c096f4534288460f159b2b397e6d8b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:18 +0000
Subject: [PATCH 43/53] fix: read extension definitions in the encoding they
 are stored in

---
 src/opyenxes/extension/XExtensionParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/extension/XExtensionParser.py b/src/opyenxes/extension/XExtensionParser.py
index 7b45f30..0a5ea68 100644
--- a/src/opyenxes/extension/XExtensionParser.py
+++ b/src/opyenxes/extension/XExtensionParser.py
@@ -130,7 +130,7 @@ class XExtensionParser(metaclass=XExtensionMetaclass):
         """
         handler = XExtensionParser.XExtensionHandler()
         if os.path.isfile(file):
-            with open(file) as data:
+            with open(file, "rb") as data:
                 xml_parse(data, handler)
 
         elif not os.path.isdir(file):
-- 
2.43.0


From 7efc5d982f5af045166120a4caff9d2d9a5559a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:18 +0000
Subject: [PATCH 44/53] fix: accept files with the suffix xez, which the
 serializer names

---
 src/opyenxes/data_in/XesXmlGZIPParser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/opyenxes/data_in/XesXmlGZIPParser.py b/src/opyenxes/data_in/XesXmlGZIPParser.py
index 4a93e55..7b11af0 100644
--- a/src/opyenxes/data_in/XesXmlGZIPParser.py
+++ b/src/opyenxes/data_in/XesXmlGZIPParser.py
@@ -20,7 +20,8 @@ class XesXmlGZIPParser(XesXmlParser):
         :return: Whether this parser can handle the given file.
         :rtype: bool
         """
-        return super().ends_with_ignore_case(file, ".xes.gz")
+        return super().ends_with_ignore_case(file, ".xes.gz") or \
+            super().ends_with_ignore_case(file, ".xez")
 
     def parse(self, file):
         """Parses a log from the given input stream, which is supposed to
-- 
2.43.0


From 55b30210e8c939f4219c5582789a89d1373dc3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:07 +0000
Subject: [PATCH 45/53] fix: read truth values written as 1, and values with
 blanks around them

---
 src/opyenxes/data_in/XesXmlParser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/opyenxes/data_in/XesXmlParser.py b/src/opyenxes/data_in/XesXmlParser.py
index 00e14e7..f68d26b 100644
--- a/src/opyenxes/data_in/XesXmlParser.py
+++ b/src/opyenxes/data_in/XesXmlParser.py
@@ -169,7 +169,7 @@ class XesXmlParser:
                     attribute = self.__factory.create_attribute_literal(name, value, keys_list)
 
                 elif tag_name == "date":
-                    var15 = parse_date_time(value)
+                    var15 = parse_date_time(value.strip())
                     if var15 is None:
                         return
                     attribute = self.__factory.create_attribute_timestamp(name, var15, keys_list)
@@ -181,11 +181,11 @@ class XesXmlParser:
                     attribute = self.__factory.create_attribute_continuous(name, float(value), keys_list)
 
                 elif tag_name == "boolean":
-                    var16 = True if value.lower() == "true" else False
+                    var16 = True if value.strip().lower() in ("true", "1") else False
                     attribute = self.__factory.create_attribute_boolean(name, var16, keys_list)
 
                 elif tag_name == "id":
-                    attribute = self.__factory.create_attribute_id(name, XID.parse(value), keys_list)
+                    attribute = self.__factory.create_attribute_id(name, XID.parse(value.strip()), keys_list)
 
                 elif tag_name == "list":
                     attribute = self.__factory.create_attribute_list(name, keys_list)
-- 
2.43.0


From a4cc33f54fb5916e4cc8023cea4c8c5f3d7baabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:45 +0000
Subject: [PATCH 46/53] fix: use the attribute map and the identity an element
 is given, also when the map is empty

---
 src/opyenxes/factory/XFactory.py    | 12 +++---------
 src/opyenxes/model/XAttributable.py |  2 +-
 src/opyenxes/model/XElement.py      |  3 +--
 src/opyenxes/model/XEvent.py        |  3 ---
 4 files changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/opyenxes/factory/XFactory.py b/src/opyenxes/factory/XFactory.py
index 58a671e..0370cf6 100644
--- a/src/opyenxes/factory/XFactory.py
+++ b/src/opyenxes/factory/XFactory.py
@@ -26,7 +26,7 @@ class XFactory:
         :return: A new log instance.
         :rtype: `XLog`
         """
-        if attribute:
+        if attribute is not None:
             return XLog(attribute)
         return XLog(XAttributeMap())
 
@@ -39,7 +39,7 @@ class XFactory:
         :return: A new trace instance.
         :rtype: `XTrace`
         """
-        if attribute:
+        if attribute is not None:
             return XTrace(attribute)
         return XTrace(XAttributeMap())
 
@@ -55,13 +55,7 @@ class XFactory:
         :return: A new event instance.
         :rtype: `XEvent`
         """
-        if attribute and identity:
-            return XEvent(attribute, identity)
-
-        if attribute:
-            return XEvent(attribute)
-
-        return XEvent()
+        return XEvent(attribute, identity)
 
     @staticmethod
     def create_attribute_map():
diff --git a/src/opyenxes/model/XAttributable.py b/src/opyenxes/model/XAttributable.py
index 7f6f877..6f6567a 100644
--- a/src/opyenxes/model/XAttributable.py
+++ b/src/opyenxes/model/XAttributable.py
@@ -10,7 +10,7 @@ class XAttributable:
     :type attribute: `XAttributeMap`
     """
     def __init__(self, attribute=None):
-        if attribute:
+        if attribute is not None:
             self.__attributes = attribute
         else:
             self.__attributes = XAttributeMap()
diff --git a/src/opyenxes/model/XElement.py b/src/opyenxes/model/XElement.py
index 6affb71..7cb4241 100644
--- a/src/opyenxes/model/XElement.py
+++ b/src/opyenxes/model/XElement.py
@@ -1,5 +1,4 @@
 from opyenxes.model.XAttributable import XAttributable
-from opyenxes.model.XAttributeMap import XAttributeMap
 
 
 class XElement(XAttributable):
@@ -9,5 +8,5 @@ class XElement(XAttributable):
     :param attribute: A `XAttributeMap` with the attribute for this class.
     :type attribute: `XAttributeMap`
     """
-    def __init__(self, attribute=XAttributeMap()):
+    def __init__(self, attribute=None):
         super(XElement, self).__init__(attribute)
diff --git a/src/opyenxes/model/XEvent.py b/src/opyenxes/model/XEvent.py
index 5b291ec..1b8fa9b 100644
--- a/src/opyenxes/model/XEvent.py
+++ b/src/opyenxes/model/XEvent.py
@@ -1,5 +1,4 @@
 from opyenxes.model.XElement import XElement
-from opyenxes.model.XAttributeMap import XAttributeMap
 from opyenxes.id.XIDFactory import XIDFactory
 
 
@@ -16,8 +15,6 @@ class XEvent(XElement):
     :type identity: `XID`
     """
     def __init__(self, attributes=None, identity=None):
-        if not attributes:
-            attributes = XAttributeMap()
         if identity:
             self.__id = identity
         else:
-- 
2.43.0


From 4169d08a78c2af15d623aacb9294368a7841b3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:47 +0000
Subject: [PATCH 47/53] fix: a standard output that fails does not disturb the
 operation that prints

---
 src/opyenxes/data_in/XUniversalParser.py    |  3 ++-
 src/opyenxes/data_in/XesXmlParser.py        |  3 ++-
 src/opyenxes/extension/XExtensionManager.py |  7 ++++---
 src/opyenxes/log/XStdoutLoggingListener.py  |  5 ++++-
 src/opyenxes/utils/XConsole.py              | 15 +++++++++++++++
 src/opyenxes/utils/XsDateTimeConversion.py  |  3 ++-
 6 files changed, 29 insertions(+), 7 deletions(-)
 create mode 100644 src/opyenxes/utils/XConsole.py

diff --git a/src/opyenxes/data_in/XUniversalParser.py b/src/opyenxes/data_in/XUniversalParser.py
index 65966ac..afba93e 100644
--- a/src/opyenxes/data_in/XUniversalParser.py
+++ b/src/opyenxes/data_in/XUniversalParser.py
@@ -1,4 +1,5 @@
 from opyenxes.data_in.XParserRegistry import XParserRegistry
+from opyenxes.utils.XConsole import print_message
 
 
 class XUniversalParser:
@@ -44,7 +45,7 @@ class XUniversalParser:
                         result = parse.parse(stream)
                     return result
                 except Exception as error:
-                    print(error)
+                    print_message(error)
                 stream = None
 
         raise Exception("No suitable parser could be found!")
diff --git a/src/opyenxes/data_in/XesXmlParser.py b/src/opyenxes/data_in/XesXmlParser.py
index f68d26b..f21071d 100644
--- a/src/opyenxes/data_in/XesXmlParser.py
+++ b/src/opyenxes/data_in/XesXmlParser.py
@@ -6,6 +6,7 @@ from opyenxes.extension.XExtensionManager import XExtensionManager
 from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
 from opyenxes.utils.XsDateTimeConversion import parse_date_time
 from opyenxes.utils.XTokenHelper import XTokenHelper
+from opyenxes.utils.XConsole import print_message
 from opyenxes.id.XID import XID
 from opyenxes.model.XAttributeCollection import XAttributeCollection
 
@@ -131,7 +132,7 @@ class XesXmlParser:
                     if extension is not None:
                         self.__log.get_extensions().add(extension)
                     else:
-                        print("Unknown extension: " + keys)
+                        print_message("Unknown extension: {}".format(keys))
 
                 elif tag_name == "global":
 
diff --git a/src/opyenxes/extension/XExtensionManager.py b/src/opyenxes/extension/XExtensionManager.py
index 81b678d..ca52b67 100644
--- a/src/opyenxes/extension/XExtensionManager.py
+++ b/src/opyenxes/extension/XExtensionManager.py
@@ -10,6 +10,7 @@ from opyenxes.extension.XExtensionParser import XExtensionParser
 from opyenxes.utils.Synchronized import lock, synchronized
 from opyenxes.utils.SingletonClassGenerator import XExtensionManagerMetaclass
 from opyenxes.utils.XRuntimeUtils import XRuntimeUtils
+from opyenxes.utils.XConsole import print_message
 from opyenxes.log.XLogging import XLogging
 from http.client import HTTPException
 from urllib import request
@@ -180,9 +181,9 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
                            XLogging.Importance.DEBUG)
 
         except IOError as e:
-            print("I/O error({0}): {1}".format(e.errno, e.strerror))
+            print_message("I/O error({0}): {1}".format(e.errno, e.strerror))
         except (HTTPException, SAXException) as e:
-            print("Incomplete extension definition: {}".format(e))
+            print_message("Incomplete extension definition: {}".format(e))
 
     def load_extension_cache(self):
         """Loads all extensions stored in the local cache. Cached extensions
@@ -223,7 +224,7 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
                                            "\' (already defined)",
                                            XLogging.Importance.DEBUG)
                 except Exception as e:
-                    print("Exception error: {}".format(e))
+                    print_message("Exception error: {}".format(e))
 
     @synchronized
     def __register_new(self, extension):
diff --git a/src/opyenxes/log/XStdoutLoggingListener.py b/src/opyenxes/log/XStdoutLoggingListener.py
index c2482e9..8f6af89 100644
--- a/src/opyenxes/log/XStdoutLoggingListener.py
+++ b/src/opyenxes/log/XStdoutLoggingListener.py
@@ -1,3 +1,6 @@
+from opyenxes.utils.XConsole import print_message
+
+
 class XStdOutLoggingListener:
     """Default standard output logging listener.
 
@@ -12,4 +15,4 @@ class XStdOutLoggingListener:
         :param importance: Importance of the log message.
         :type importance: str
         """
-        print("Importance: {}\nMessage: {}\n".format(importance, message))
+        print_message("Importance: {}\nMessage: {}\n".format(importance, message))
diff --git a/src/opyenxes/utils/XConsole.py b/src/opyenxes/utils/XConsole.py
new file mode 100644
index 0000000..006dd67
--- /dev/null
+++ b/src/opyenxes/utils/XConsole.py
@@ -0,0 +1,15 @@
+def print_message(message):
+    """Prints a message for the user. A standard output that is closed or
+    broken, or that cannot show the message, does not disturb the operation
+    that reports it.
+
+    :param message: The message to be printed.
+    :type message: Any
+    """
+    text = str(message)
+    for form in (text, ascii(text)):
+        try:
+            print(form)
+            return
+        except (OSError, ValueError):
+            pass
diff --git a/src/opyenxes/utils/XsDateTimeConversion.py b/src/opyenxes/utils/XsDateTimeConversion.py
index 6681781..c7d7062 100644
--- a/src/opyenxes/utils/XsDateTimeConversion.py
+++ b/src/opyenxes/utils/XsDateTimeConversion.py
@@ -1,4 +1,5 @@
 from datetime import datetime, timedelta, timezone
+from opyenxes.utils.XConsole import print_message
 
 
 def parse_date_time(date_time):
@@ -44,5 +45,5 @@ def parse_date_time(date_time):
         return time
 
     except ValueError:
-        print("\"" + date_time + "\" is not a valid representation of a XES timestamp.")
+        print_message("\"" + date_time + "\" is not a valid representation of a XES timestamp.")
         return None
-- 
2.43.0


From cdc0c93d5bab48fbcd5859a6957b4c12dcd26b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:02 +0000
Subject: [PATCH 48/53] fix: write the float values that are no numbers in the
 notation of XES

---
 src/opyenxes/data_out/XesXmlSerializer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/opyenxes/data_out/XesXmlSerializer.py b/src/opyenxes/data_out/XesXmlSerializer.py
index c86a2bb..c3ac4f0 100644
--- a/src/opyenxes/data_out/XesXmlSerializer.py
+++ b/src/opyenxes/data_out/XesXmlSerializer.py
@@ -138,7 +138,10 @@ class XesXmlSerializer:
             elif isinstance(attribute, XAttributeContinuous):
                 attribute_tag = Et.SubElement(tag, "float")
                 attribute_tag.set("key", attribute.get_key())
-                attribute_tag.set("value", str(attribute))
+                # XML Schema spells the values that are no numbers differently
+                value = str(attribute)
+                special = {"inf": "INF", "-inf": "-INF", "nan": "NaN"}
+                attribute_tag.set("value", special.get(value, value))
             elif isinstance(attribute, XAttributeBoolean):
                 attribute_tag = Et.SubElement(tag, "boolean")
                 attribute_tag.set("key", attribute.get_key())
-- 
2.43.0


From 78c5022efde6d75b9a94e0963555da32b6d57f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:02 +0000
Subject: [PATCH 49/53] fix: write carriage returns in MXML text as character
 references

---
 src/opyenxes/data_out/XMxmlSerializer.py | 2 +-
 src/opyenxes/utils/XXmlUtils.py          | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/opyenxes/data_out/XMxmlSerializer.py b/src/opyenxes/data_out/XMxmlSerializer.py
index b87138d..30ab4e5 100644
--- a/src/opyenxes/data_out/XMxmlSerializer.py
+++ b/src/opyenxes/data_out/XMxmlSerializer.py
@@ -118,7 +118,7 @@ class XMxmlSerializer:
                     self.add_model_reference(timestamp_attr_1, timestamp)
                     timestamp.text = str(timestamp_attr_1)
 
-        text = minidom.parseString(Et.tostring(root, "utf-8"))
+        text = minidom.parseString(Et.tostring(root, "utf-8").replace(b"\r", b"&#13;"))
         c1 = text.createComment("This file has been generated with the OpenXES library. It conforms")
         c2 = text.createComment("to the legacy MXML standard for log storage and management.")
         c3 = text.createComment("OpenXES library version: 1.0RC7")
diff --git a/src/opyenxes/utils/XXmlUtils.py b/src/opyenxes/utils/XXmlUtils.py
index eb46fe6..5a757a0 100644
--- a/src/opyenxes/utils/XXmlUtils.py
+++ b/src/opyenxes/utils/XXmlUtils.py
@@ -3,15 +3,17 @@ import re
 
 def escape_whitespace(document):
     """Replaces the line breaks and tabs inside the tags of a pretty-printed XML
-    document, i.e. those in attribute values, by character references. Without
-    them an XML parser reads such characters back as spaces.
+    document, i.e. those in attribute values, and the carriage returns everywhere
+    by character references. Without them an XML parser reads such characters
+    back as spaces and line breaks.
 
     :param document: The pretty-printed document.
     :type document: str
     :return: The document with escaped white space.
     :rtype: str
     """
-    return re.sub("<[^<>]*[\t\n\r][^<>]*>", __escape_tag, document)
+    document = re.sub("<[^<>]*[\t\n\r][^<>]*>", __escape_tag, document)
+    return document.replace("\r", "&#13;")
 
 
 def __escape_tag(match):
-- 
2.43.0


From 1c9e05ee946c7b0a60090a20523f825fef8ee940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:56 +0000
Subject: [PATCH 50/53] fix: compare dates without a time zone, which are in
 UTC, with those that have one

---
 src/opyenxes/info/XTimeBounds.py          | 12 +++++++-----
 src/opyenxes/model/XAttributeTimestamp.py | 10 +++++++---
 src/opyenxes/model/XTrace.py              |  5 +++--
 src/opyenxes/utils/CompareUtils.py        | 16 ++++++++++++++++
 4 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/src/opyenxes/info/XTimeBounds.py b/src/opyenxes/info/XTimeBounds.py
index 0be263d..177d7e9 100644
--- a/src/opyenxes/info/XTimeBounds.py
+++ b/src/opyenxes/info/XTimeBounds.py
@@ -1,6 +1,7 @@
 from datetime import datetime
 from opyenxes.model.XEvent import XEvent
 from opyenxes.extension.std.XTimeExtension import XTimeExtension
+from opyenxes.utils.CompareUtils import comparable_date
 
 
 class XTimeBounds:
@@ -37,11 +38,12 @@ class XTimeBounds:
         :rtype: bool
         """
         if self.__first is not None:
-            if date == self.__first:
+            date = comparable_date(date)
+            if date == comparable_date(self.__first):
                 return True
-            if date == self.__last:
+            if date == comparable_date(self.__last):
                 return True
-            if self.__first < date < self.__last:
+            if comparable_date(self.__first) < date < comparable_date(self.__last):
                 return True
             return False
         return False
@@ -66,9 +68,9 @@ class XTimeBounds:
                 if self.__first is None:
                     self.__first = element
                     self.__last = element
-                elif element < self.__first:
+                elif comparable_date(element) < comparable_date(self.__first):
                     self.__first = element
-                elif element > self.__last:
+                elif comparable_date(element) > comparable_date(self.__last):
                     self.__last = element
 
     def __str__(self):
diff --git a/src/opyenxes/model/XAttributeTimestamp.py b/src/opyenxes/model/XAttributeTimestamp.py
index 2750e05..cd447d1 100644
--- a/src/opyenxes/model/XAttributeTimestamp.py
+++ b/src/opyenxes/model/XAttributeTimestamp.py
@@ -1,4 +1,5 @@
 from opyenxes.model.XAttribute import XAttribute
+from opyenxes.utils.CompareUtils import comparable_date
 from datetime import datetime, timedelta, timezone
 
 
@@ -71,9 +72,11 @@ class XAttributeTimestamp(XAttribute):
         """
         result = super().compare_to(obj)
         if result == 0:
-            if self.__value == obj.get_value():
+            mine = comparable_date(self.__value)
+            other = comparable_date(obj.get_value())
+            if mine == other:
                 return 0
-            return 1 if self.__value > obj.get_value() else -1
+            return 1 if mine > other else -1
         return result
 
     def __hash__(self):
@@ -115,7 +118,8 @@ class XAttributeTimestamp(XAttribute):
         elif not isinstance(other, XAttributeTimestamp):
             return False
         else:
-            return super().__eq__(other) and self.__value == other.get_value()
+            return super().__eq__(other) and \
+                comparable_date(self.__value) == comparable_date(other.get_value())
 
     def __ne__(self, other):
         return not self.__eq__(other)
diff --git a/src/opyenxes/model/XTrace.py b/src/opyenxes/model/XTrace.py
index dcf7580..a1c0230 100644
--- a/src/opyenxes/model/XTrace.py
+++ b/src/opyenxes/model/XTrace.py
@@ -1,4 +1,5 @@
 from opyenxes.model.XElement import XElement
+from opyenxes.utils.CompareUtils import comparable_date
 
 
 class XTrace(XElement, list):
@@ -41,14 +42,14 @@ class XTrace(XElement, list):
             self.append(event)
             return len(self) - 1
         else:
-            ins_ts = event.get_attributes()["time:timestamp"].get_value()
+            ins_ts = comparable_date(event.get_attributes()["time:timestamp"].get_value())
             for i in range(len(self) - 1, -1, -1):
                 my_event = self[i].get_attributes().get("time:timestamp")
                 if my_event is None:
                     self.append(event)
                     return len(self) - 1
 
-                ref_ts = my_event.get_value()
+                ref_ts = comparable_date(my_event.get_value())
                 if ins_ts >= ref_ts:
                     self.insert(i + 1, event)
                     return i + 1
diff --git a/src/opyenxes/utils/CompareUtils.py b/src/opyenxes/utils/CompareUtils.py
index 4f361b2..047fbf4 100644
--- a/src/opyenxes/utils/CompareUtils.py
+++ b/src/opyenxes/utils/CompareUtils.py
@@ -1,3 +1,19 @@
+from datetime import datetime, timezone
+
+
+def comparable_date(date):
+    """This function returns a date that can be compared with any other one
+
+    :param date: The date, which is taken as UTC when it has no time zone.
+    :type date: datetime
+    :return: The same instant with a time zone.
+    :rtype: datetime
+    """
+    if isinstance(date, datetime) and date.utcoffset() is None:
+        return date.replace(tzinfo=timezone.utc)
+    return date
+
+
 def compare_to_string(string_1, string_2):
     """This function compares two string
 
-- 
2.43.0


From c7cb07ba58c5be02e021c7fb0fb0caff045590f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:47 +0000
Subject: [PATCH 51/53] fix: an extension declared with an unknown prefix is
 found by its URI

---
 src/opyenxes/data_in/XesXmlParser.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/opyenxes/data_in/XesXmlParser.py b/src/opyenxes/data_in/XesXmlParser.py
index f21071d..24cd857 100644
--- a/src/opyenxes/data_in/XesXmlParser.py
+++ b/src/opyenxes/data_in/XesXmlParser.py
@@ -126,8 +126,12 @@ class XesXmlParser:
                     if prefix is not None:
                         extension = XExtensionManager().get_by_prefix(prefix)
 
-                    elif keys is not None:
-                        extension = XExtensionManager().get_by_uri(parse.urlparse(keys))
+                    if extension is None and keys is not None:
+                        try:
+                            extension = XExtensionManager().get_by_uri(parse.urlparse(keys))
+                        except ValueError:
+                            # not a URI, so not the one of any extension
+                            pass
 
                     if extension is not None:
                         self.__log.get_extensions().add(extension)
-- 
2.43.0


From 8946f3575d1a3849f9a66b6e131b87dc4a4881ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:29 +0000
Subject: [PATCH 52/53] fix: assigning no value leaves the element as it is for
 every accessor

---
 src/opyenxes/extension/std/XExtendedEvent.py      | 9 ++++++---
 src/opyenxes/extension/std/XLifecycleExtension.py | 3 ++-
 src/opyenxes/extension/std/XMicroExtension.py     | 4 ++--
 src/opyenxes/extension/std/XSemanticExtension.py  | 4 ++--
 src/opyenxes/extension/std/XTimeExtension.py      | 2 ++
 5 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/opyenxes/extension/std/XExtendedEvent.py b/src/opyenxes/extension/std/XExtendedEvent.py
index fa483fc..354f704 100644
--- a/src/opyenxes/extension/std/XExtendedEvent.py
+++ b/src/opyenxes/extension/std/XExtendedEvent.py
@@ -101,7 +101,8 @@ class XExtendedEvent:
         :param resource: Resource string.
         :type resource: str
         """
-        XOrganizationalExtension().assign_resource(self.__original, resource.strip())
+        if resource is not None:
+            XOrganizationalExtension().assign_resource(self.__original, resource.strip())
 
     def get_role(self):
         """Returns the role of the event, as defined by the Organizational
@@ -119,7 +120,8 @@ class XExtendedEvent:
         :param role: Role string.
         :type role: str
         """
-        XOrganizationalExtension().assign_role(self.__original, role.strip())
+        if role is not None:
+            XOrganizationalExtension().assign_role(self.__original, role.strip())
 
     def get_group(self):
         """Returns the group of the event, as defined by the Organizational
@@ -137,7 +139,8 @@ class XExtendedEvent:
         :param group: Group string.
         :type group: str
         """
-        XOrganizationalExtension().assign_group(self.__original, group.strip())
+        if group is not None:
+            XOrganizationalExtension().assign_group(self.__original, group.strip())
 
     def get_transition(self):
         """Returns the lifecycle transition of the event, as defined by the
diff --git a/src/opyenxes/extension/std/XLifecycleExtension.py b/src/opyenxes/extension/std/XLifecycleExtension.py
index b69e0a9..56b7a8a 100644
--- a/src/opyenxes/extension/std/XLifecycleExtension.py
+++ b/src/opyenxes/extension/std/XLifecycleExtension.py
@@ -170,4 +170,5 @@ class XLifecycleExtension(XExtension, metaclass=XLifecycleExtensionMetaclass):
         :param transition: Standard lifecycle transition to be assigned.
         :type transition: str
         """
-        self.assign_transition(event, XLifecycleExtension.StandardModel().decode(transition))
+        if transition is not None:
+            self.assign_transition(event, XLifecycleExtension.StandardModel().decode(transition))
diff --git a/src/opyenxes/extension/std/XMicroExtension.py b/src/opyenxes/extension/std/XMicroExtension.py
index f0fa250..a89c6e5 100644
--- a/src/opyenxes/extension/std/XMicroExtension.py
+++ b/src/opyenxes/extension/std/XMicroExtension.py
@@ -52,7 +52,7 @@ class XMicroExtension(XExtension, metaclass=XMicroExtensionMetaclass):
         :param level: The level to be assigned. Should be a positive integer.
         :type level: int
         """
-        if level > 0:
+        if level is not None and level > 0:
             attr = self.ATTR_LEVEL.clone()
             attr.set_value(level)
             event.get_attributes()["micro:level"] = attr
@@ -135,7 +135,7 @@ class XMicroExtension(XExtension, metaclass=XMicroExtensionMetaclass):
         :param length: The number to be assigned. Should be a non-negative integer.
         :type length: int
         """
-        if length >= 0:
+        if length is not None and length >= 0:
             attr = self.ATTR_LENGTH.clone()
             attr.set_value(length)
             event.get_attributes()["micro:length"] = attr
diff --git a/src/opyenxes/extension/std/XSemanticExtension.py b/src/opyenxes/extension/std/XSemanticExtension.py
index 053fc68..a19b83f 100644
--- a/src/opyenxes/extension/std/XSemanticExtension.py
+++ b/src/opyenxes/extension/std/XSemanticExtension.py
@@ -78,7 +78,7 @@ class XSemanticExtension(XExtension, metaclass=XSemanticExtensionMetaclass):
         :type model_reference: list[str]
         """
         sb = []
-        for ref in model_reference:
+        for ref in model_reference or ():
             sb.append(ref)
             sb.append(" ")
 
@@ -100,7 +100,7 @@ class XSemanticExtension(XExtension, metaclass=XSemanticExtensionMetaclass):
         :type model_reference: list[ParseResult or SplitResult]
         """
         sb = []
-        for ref in model_reference:
+        for ref in model_reference or ():
             sb.append(ref.geturl())
             sb.append(" ")
 
diff --git a/src/opyenxes/extension/std/XTimeExtension.py b/src/opyenxes/extension/std/XTimeExtension.py
index f203c43..f4ff4db 100644
--- a/src/opyenxes/extension/std/XTimeExtension.py
+++ b/src/opyenxes/extension/std/XTimeExtension.py
@@ -51,6 +51,8 @@ class XTimeExtension(XExtension, metaclass=XTimeExtensionMetaclass):
             milliseconds in UNIX time..
         :type date: datetime or int
         """
+        if date is None:
+            return
         attr = self.ATTR_TIMESTAMP.clone()
         if isinstance(date, datetime):
             attr.set_value(date)
-- 
2.43.0


From bbcf0b048b465613a8aed70c911d502b1dc9de74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:29 +0000
Subject: [PATCH 53/53] fix: nested values that are zero or empty are extracted
 too

---
 src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py b/src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py
index 9eebab5..452ecd0 100644
--- a/src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py
+++ b/src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py
@@ -109,7 +109,7 @@ class XAbstractNestedAttributeSupport:
 
         """
         value = self.extract_value(element)
-        if value:
+        if value is not None:
             nested_values[keys] = value
 
         for attr in element.get_attributes().values():
-- 
2.43.0

