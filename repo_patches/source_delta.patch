From 22ba3cbd75d5f5c3c18d7a4ac154fdd95ffb19e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 01/59] fix: write scene item references with the element name
 the reader expects

---
 src/pywriter/yw/yw7_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 1de5d10..687b291 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -529,7 +529,7 @@ class Yw7File(File):
             if prjScn.items:
                 xmlItems = ET.SubElement(xmlScene, 'Items')
                 for ItId in prjScn.items:
-                    ET.SubElement(xmlItems, 'ItmID').text = ItId
+                    ET.SubElement(xmlItems, 'ItemID').text = ItId
 
         def build_chapter_subtree(xmlChapter, prjChp):
             # This is how yWriter 7.1.3.0 writes the chapter type:
-- 
2.43.0


From b880d67c23919194211a84cf9a8a876f3f656fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 02/59] fix: unescape only the CDATA sections of written
 projects

Unescaping the whole file left raw '&' and '<' in elements that are not
written as CDATA (e.g. Conflict, Field1, ID lists, unknown elements), so the
project could not be read any more. ']]>' within a text ended its CDATA section.
---
 src/pywriter/yw/yw7_file.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 687b291..e7b3ea0 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -1125,7 +1125,7 @@ class Yw7File(File):
             filePath: str -- path to xml file.
         
         Read the xml file, put a header on top, insert the missing CDATA tags,
-        and replace xml entities by plain text (unescape). Overwrite the .yw7 xml file.
+        and replace xml entities by plain text within them (unescape). Overwrite the .yw7 xml file.
         Raise the "Error" exception in case of error. 
         
         Note: The path is given as an argument rather than using self.filePath. 
@@ -1146,7 +1146,10 @@ class Yw7File(File):
         if not self.novel.chapters:
             text = text.replace('<CHAPTERS />', '<CHAPTERS></CHAPTERS>')
             # otherwise, yWriter fails to parse the file if there are no chapters.
-        text = unescape(text)
+        text = re.sub(r'(?<=<!\[CDATA\[).*?(?=\]\]>)',
+                      lambda m: unescape(m.group()).replace(']]>', ']]]]><![CDATA[>'),
+                      text, flags=re.DOTALL)
+        # unescaping only the CDATA sections; other elements must keep their xml entities
         try:
             with open(filePath, 'w', encoding='utf-8') as f:
                 f.write(text)
-- 
2.43.0


From b4d00c816345c8f0f243b0f334337c2fa74e58ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 03/59] fix: do not escape custom field values twice

ElementTree escapes the text of the elements on its own.
---
 src/pywriter/yw/yw7_file.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index e7b3ea0..14061e2 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -321,7 +321,7 @@ class Yw7File(File):
                 if prjScn.kwVar.get(field, None):
                     if xmlSceneFields is None:
                         xmlSceneFields = ET.SubElement(xmlScene, 'Fields')
-                    fieldEntry = self._convert_from_yw(prjScn.kwVar[field])
+                    fieldEntry = prjScn.kwVar[field]
                     try:
                         xmlSceneFields.find(field).text = fieldEntry
                     except(AttributeError):
@@ -614,7 +614,7 @@ class Yw7File(File):
                     if xmlChapterFields is None:
                         xmlChapterFields = ET.Element('Fields')
                         xmlChapter.insert(i, xmlChapterFields)
-                    fieldEntry = self._convert_from_yw(prjChp.kwVar[field])
+                    fieldEntry = prjChp.kwVar[field]
                     try:
                         xmlChapterFields.find(field).text = fieldEntry
                     except(AttributeError):
@@ -673,7 +673,7 @@ class Yw7File(File):
                 if prjLoc.kwVar.get(field, None):
                     if xmlLocationFields is None:
                         xmlLocationFields = ET.SubElement(xmlLoc, 'Fields')
-                    fieldEntry = self._convert_from_yw(prjLoc.kwVar[field])
+                    fieldEntry = prjLoc.kwVar[field]
                     try:
                         xmlLocationFields.find(field).text = fieldEntry
                     except(AttributeError):
@@ -729,7 +729,7 @@ class Yw7File(File):
                 if prjItm.kwVar.get(field, None):
                     if xmlItemFields is None:
                         xmlItemFields = ET.SubElement(xmlItm, 'Fields')
-                    fieldEntry = self._convert_from_yw(prjItm.kwVar[field])
+                    fieldEntry = prjItm.kwVar[field]
                     try:
                         xmlItemFields.find(field).text = fieldEntry
                     except(AttributeError):
@@ -781,7 +781,7 @@ class Yw7File(File):
                 if prjCrt.kwVar.get(field, None):
                     if xmlCharacterFields is None:
                         xmlCharacterFields = ET.SubElement(xmlCrt, 'Fields')
-                    fieldEntry = self._convert_from_yw(prjCrt.kwVar[field])
+                    fieldEntry = prjCrt.kwVar[field]
                     try:
                         xmlCharacterFields.find(field).text = fieldEntry
                     except(AttributeError):
@@ -876,7 +876,7 @@ class Yw7File(File):
                 if setting:
                     if xmlProjectFields is None:
                         xmlProjectFields = ET.SubElement(xmlProject, 'Fields')
-                    fieldEntry = self._convert_from_yw(setting)
+                    fieldEntry = setting
                     try:
                         xmlProjectFields.find(field).text = fieldEntry
                     except(AttributeError):
-- 
2.43.0


From ada9f6d24440ea7f6982b24d6cde08914c80e414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 04/59] fix: do not delete vertical bars when reading a project

---
 src/pywriter/yw/yw7_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 14061e2..5a8d844 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -152,7 +152,7 @@ class Yw7File(File):
             except Exception as ex:
                 raise Error(f'{_("Can not process file")} - {str(ex)}')
 
-        xmlText = re.sub('[\x00-\x08|\x0b-\x0c|\x0e-\x1f]', '', xmlText)
+        xmlText = re.sub('[\x00-\x08\x0b-\x0c\x0e-\x1f]', '', xmlText)
         root = ET.fromstring(xmlText)
         xmlText = None
         # saving memory
-- 
2.43.0


From eea02964b56f63ff409ab88d795b1c3ec25316c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 05/59] fix: keep line breaks next to ']]' when writing a
 project

Each write removed a line break from the end of every text, and joined a line
beginning with ']]' to the preceding one. Only the outline import relied on it.
---
 src/pywriter/odt_r/odt_r_outline.py | 4 ++--
 src/pywriter/yw/yw7_file.py         | 2 --
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pywriter/odt_r/odt_r_outline.py b/src/pywriter/odt_r/odt_r_outline.py
index 1ef2e6f..a6c5d21 100644
--- a/src/pywriter/odt_r/odt_r_outline.py
+++ b/src/pywriter/odt_r/odt_r_outline.py
@@ -68,9 +68,9 @@ class OdtROutline(OdtReader):
             text = f'{text.strip()}\n'
             self._lines = [text]
             if self._scId is not None:
-                self.novel.scenes[self._scId].desc = text
+                self.novel.scenes[self._scId].desc = text.rstrip()
             elif self._chId is not None:
-                self.novel.chapters[self._chId].desc = text
+                self.novel.chapters[self._chId].desc = text.rstrip()
         elif tag in ('h1', 'h2'):
             self.novel.chapters[self._chId].title = text.strip()
             self._lines = []
diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 5a8d844..750b886 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -1141,8 +1141,6 @@ class Yw7File(File):
                 line = re.sub(fr'\<\/{tag}\>', f']]></{tag}>', line)
             newlines.append(line)
         text = '\n'.join(newlines)
-        text = text.replace('[CDATA[ \n', '[CDATA[')
-        text = text.replace('\n]]', ']]')
         if not self.novel.chapters:
             text = text.replace('<CHAPTERS />', '<CHAPTERS></CHAPTERS>')
             # otherwise, yWriter fails to parse the file if there are no chapters.
-- 
2.43.0


From f30cc01938d78336d643e536e35acc8c189452ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 06/59] fix: report unreadable projects with the Error
 exception

Projects with another encoding than UTF-8 and UTF-16 raised an UnboundLocalError,
malformed ones a ParseError, and incomplete ones an AttributeError. The GUI, which
only expects Error, was left with a project that is neither open nor closed.
---
 src/pywriter/yw/yw7_file.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 750b886..8f9a23a 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -146,25 +146,30 @@ class Yw7File(File):
                 # yw7 file may be UTF-16 encoded, with a wrong XML header (yWriter for iOS)
                 with open(self.filePath, 'r', encoding='utf-16') as f:
                     xmlText = f.read()
+            xmlText = re.sub('[\x00-\x08\x0b-\x0c\x0e-\x1f]', '', xmlText)
+            root = ET.fromstring(xmlText)
         except:
+            # The file may have another encoding, specified by the XML header.
             try:
-                self.tree = ET.parse(self.filePath)
+                root = ET.parse(self.filePath).getroot()
             except Exception as ex:
                 raise Error(f'{_("Can not process file")} - {str(ex)}')
 
-        xmlText = re.sub('[\x00-\x08\x0b-\x0c\x0e-\x1f]', '', xmlText)
-        root = ET.fromstring(xmlText)
         xmlText = None
         # saving memory
         self.tree = ET.ElementTree(root)
-        self._read_project(root)
-        self._read_locations(root)
-        self._read_items(root)
-        self._read_characters(root)
-        self._read_projectvars(root)
-        self._read_projectnotes(root)
-        self._read_scenes(root)
-        self._read_chapters(root)
+        try:
+            self._read_project(root)
+            self._read_locations(root)
+            self._read_items(root)
+            self._read_characters(root)
+            self._read_projectvars(root)
+            self._read_projectnotes(root)
+            self._read_scenes(root)
+            self._read_chapters(root)
+        except Exception as ex:
+            raise Error(f'{_("Can not process file")} - {str(ex)}')
+
         self.adjust_scene_types()
 
         #--- Set custom instance variables.
-- 
2.43.0


From ac6e7342dd3c2f0674168d1d81ab50e5d6ea05a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 07/59] fix: accept projects with an empty scene start hour or
 minute

---
 src/pywriter/yw/yw7_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 8f9a23a..19e0f7e 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -1513,12 +1513,12 @@ class Yw7File(File):
 
                 hasUnspecificTime = False
                 if xmlScene.find('Hour') is not None:
-                    hour = xmlScene.find('Hour').text.zfill(2)
+                    hour = (xmlScene.find('Hour').text or '').zfill(2)
                     hasUnspecificTime = True
                 else:
                     hour = '00'
                 if xmlScene.find('Minute') is not None:
-                    minute = xmlScene.find('Minute').text.zfill(2)
+                    minute = (xmlScene.find('Minute').text or '').zfill(2)
                     hasUnspecificTime = True
                 else:
                     minute = '00'
-- 
2.43.0


From 399753680442189611cd20612f13887579c56a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 08/59] fix: export projects containing scenes without a status

---
 src/pywriter/file/file_export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/file/file_export.py b/src/pywriter/file/file_export.py
index 9e5aded..7ed7a4d 100644
--- a/src/pywriter/file/file_export.py
+++ b/src/pywriter/file/file_export.py
@@ -511,7 +511,7 @@ class FileExport(File):
             WordsTotal=wordsTotal,
             LetterCount=str(self.novel.scenes[scId].letterCount),
             LettersTotal=lettersTotal,
-            Status=Scene.STATUS[self.novel.scenes[scId].status],
+            Status=Scene.STATUS[self.novel.scenes[scId].status] if self.novel.scenes[scId].status else '',
             SceneContent=self._convert_from_yw(self.novel.scenes[scId].sceneContent),
             FieldTitle1=self._convert_from_yw(self.novel.fieldTitle1, True),
             FieldTitle2=self._convert_from_yw(self.novel.fieldTitle2, True),
-- 
2.43.0


From 2ffe7533c677145dbc33e6fc96209a1ab201ac85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 09/59] fix: escape scene ratings, characters, locations, and
 items on export

---
 src/pywriter/file/file_export.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pywriter/file/file_export.py b/src/pywriter/file/file_export.py
index 7ed7a4d..4a7bb9a 100644
--- a/src/pywriter/file/file_export.py
+++ b/src/pywriter/file/file_export.py
@@ -517,10 +517,10 @@ class FileExport(File):
             FieldTitle2=self._convert_from_yw(self.novel.fieldTitle2, True),
             FieldTitle3=self._convert_from_yw(self.novel.fieldTitle3, True),
             FieldTitle4=self._convert_from_yw(self.novel.fieldTitle4, True),
-            Field1=self.novel.scenes[scId].field1,
-            Field2=self.novel.scenes[scId].field2,
-            Field3=self.novel.scenes[scId].field3,
-            Field4=self.novel.scenes[scId].field4,
+            Field1=self._convert_from_yw(self.novel.scenes[scId].field1, True),
+            Field2=self._convert_from_yw(self.novel.scenes[scId].field2, True),
+            Field3=self._convert_from_yw(self.novel.scenes[scId].field3, True),
+            Field4=self._convert_from_yw(self.novel.scenes[scId].field4, True),
             Date=scDate,
             Time=scTime,
             Day=scDay,
@@ -535,10 +535,10 @@ class FileExport(File):
             Outcome=self._convert_from_yw(self.novel.scenes[scId].outcome),
             Tags=self._convert_from_yw(tags, True),
             Image=self.novel.scenes[scId].image,
-            Characters=sceneChars,
-            Viewpoint=viewpointChar,
-            Locations=sceneLocs,
-            Items=sceneItems,
+            Characters=self._convert_from_yw(sceneChars, True),
+            Viewpoint=self._convert_from_yw(viewpointChar, True),
+            Locations=self._convert_from_yw(sceneLocs, True),
+            Items=self._convert_from_yw(sceneItems, True),
             Notes=self._convert_from_yw(self.novel.scenes[scId].notes),
             ProjectName=self._convert_from_yw(self.projectName, True),
             ProjectPath=self.projectPath,
-- 
2.43.0


From 188e857ee81b0fc4b051cc535c6d16899beb1cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 10/59] fix: escape alternate names, full names, and tags on
 export

---
 src/pywriter/odt_w/odt_w_characters.py | 4 ++--
 src/pywriter/odt_w/odt_w_items.py      | 2 +-
 src/pywriter/odt_w/odt_w_locations.py  | 2 +-
 src/pywriter/odt_w/odt_w_xref.py       | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pywriter/odt_w/odt_w_characters.py b/src/pywriter/odt_w/odt_w_characters.py
index 82209c0..aa1b33b 100644
--- a/src/pywriter/odt_w/odt_w_characters.py
+++ b/src/pywriter/odt_w/odt_w_characters.py
@@ -54,7 +54,7 @@ class OdtWCharacters(OdtWriter):
         """
         characterMapping = OdtWriter._get_characterMapping(self, crId)
         if self.novel.characters[crId].aka:
-            characterMapping['AKA'] = f' ("{self.novel.characters[crId].aka}")'
+            characterMapping['AKA'] = f' ("{self._convert_from_yw(self.novel.characters[crId].aka, True)}")'
         if self.novel.characters[crId].fullName:
-            characterMapping['FullName'] = f'/{self.novel.characters[crId].fullName}'
+            characterMapping['FullName'] = f'/{self._convert_from_yw(self.novel.characters[crId].fullName, True)}'
         return characterMapping
diff --git a/src/pywriter/odt_w/odt_w_items.py b/src/pywriter/odt_w/odt_w_items.py
index a05d86b..c7ad7f2 100644
--- a/src/pywriter/odt_w/odt_w_items.py
+++ b/src/pywriter/odt_w/odt_w_items.py
@@ -39,5 +39,5 @@ class OdtWItems(OdtWriter):
         """
         itemMapping = super()._get_itemMapping(itId)
         if self.novel.items[itId].aka:
-            itemMapping['AKA'] = f' ("{self.novel.items[itId].aka}")'
+            itemMapping['AKA'] = f' ("{self._convert_from_yw(self.novel.items[itId].aka, True)}")'
         return itemMapping
diff --git a/src/pywriter/odt_w/odt_w_locations.py b/src/pywriter/odt_w/odt_w_locations.py
index 33c8b19..9b366f0 100644
--- a/src/pywriter/odt_w/odt_w_locations.py
+++ b/src/pywriter/odt_w/odt_w_locations.py
@@ -39,5 +39,5 @@ class OdtWLocations(OdtWriter):
         """
         locationMapping = super()._get_locationMapping(lcId)
         if self.novel.locations[lcId].aka:
-            locationMapping['AKA'] = f' ("{self.novel.locations[lcId].aka}")'
+            locationMapping['AKA'] = f' ("{self._convert_from_yw(self.novel.locations[lcId].aka, True)}")'
         return locationMapping
diff --git a/src/pywriter/odt_w/odt_w_xref.py b/src/pywriter/odt_w/odt_w_xref.py
index 5a7bf14..b73c613 100644
--- a/src/pywriter/odt_w/odt_w_xref.py
+++ b/src/pywriter/odt_w/odt_w_xref.py
@@ -213,7 +213,7 @@ $SceneNumber (Ch $Chapter) $Title (ToDo)
             tag: str -- a single scene tag.
         """
         tagMapping = dict(
-            Tag=tag,
+            Tag=self._convert_from_yw(tag, True),
         )
         return tagMapping
 
-- 
2.43.0


From 90e979ab6bc868e7b2eee05eb61a45ba11e68ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:11 +0000
Subject: [PATCH 11/59] fix: escape the metadata of exported documents

---
 src/pywriter/odf/odf_file.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pywriter/odf/odf_file.py b/src/pywriter/odf/odf_file.py
index 85d1186..7657d37 100644
--- a/src/pywriter/odf/odf_file.py
+++ b/src/pywriter/odf/odf_file.py
@@ -12,6 +12,7 @@ import tempfile
 from shutil import rmtree
 from datetime import datetime
 from string import Template
+from xml.sax.saxutils import escape
 from pywriter.pywriter_globals import *
 from pywriter.file.file_export import FileExport
 
@@ -147,9 +148,9 @@ class OdfFile(FileExport):
 
         #--- Generate meta.xml with actual document metadata.
         metaMapping = dict(
-            Author=self.novel.authorName,
-            Title=self.novel.title,
-            Summary=f'<![CDATA[{self.novel.desc}]]>',
+            Author=escape(self.novel.authorName or ''),
+            Title=escape(self.novel.title or ''),
+            Summary=escape(self.novel.desc or ''),
             Datetime=datetime.today().replace(microsecond=0).isoformat(),
         )
         template = Template(self._META_XML)
-- 
2.43.0


From 8329044c2f695561439a0573d7108f2b4563169d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 12/59] fix: create well-formed annotations for any comment and
 author name

Unescaped author names, comment marks without a counterpart, and the missing
author's name ("None") made unreadable or wrong documents. The final export
replaced a literal '@n@' by a line break.
---
 src/pywriter/odt_w/odt_w_export.py    | 23 ++++++++++++++++++-----
 src/pywriter/odt_w/odt_w_formatted.py | 20 ++++++++++++++++++--
 src/pywriter/odt_w/odt_w_proof.py     |  4 ++--
 3 files changed, 38 insertions(+), 9 deletions(-)

diff --git a/src/pywriter/odt_w/odt_w_export.py b/src/pywriter/odt_w/odt_w_export.py
index 80efacd..7979dd1 100644
--- a/src/pywriter/odt_w/odt_w_export.py
+++ b/src/pywriter/odt_w/odt_w_export.py
@@ -5,6 +5,7 @@ For further information see https://github.com/peter88213/PyWriter
 Published under the MIT License (https://opensource.org/licenses/mit-license.php)
 """
 import re
+from xml.sax.saxutils import escape
 from pywriter.pywriter_globals import *
 from pywriter.odt_w.odt_w_formatted import OdtWFormatted
 
@@ -48,8 +49,21 @@ class OdtWExport(OdtWFormatted):
         if not quick:
             text = self._remove_inline_code(text)
         text = super()._convert_from_yw(text, quick)
+        if quick:
+            text = self._convert_comments(text)
         return(text)
 
+    def _convert_comments(self, text):
+        """Return text with the comment marks without a counterpart protected.
+        
+        Positional arguments:
+            text -- string to convert; already converted to the target format otherwise.
+        
+        The comments are converted later for the entire document. 
+        Overrides the superclass method.
+        """
+        return re.sub(r'\/\*(?!.*\*\/)', '/&#42;', text, flags=re.DOTALL)
+
     def _get_chapterMapping(self, chId, chapterNumber):
         """Return a mapping dictionary for a chapter section.
         
@@ -105,14 +119,13 @@ class OdtWExport(OdtWFormatted):
         #--- Convert comments, footnotes, and endnotes.
         # This is done once for the entire document because of the document-wide note numbering.
         if text.find('/*') > 0:
-            text = text.replace('\r', '@r@').replace('\n', '@n@')
             self._noteCounter = 0
             self._noteNumber = 0
-            simpleComment = (f'<office:annotation><dc:creator>{self.novel.authorName}'
+            author = escape(self.novel.authorName or '').replace('\\', '\\\\')
+            simpleComment = (f'<office:annotation><dc:creator>{author}'
                              '</dc:creator><text:p>\\1</text:p></office:annotation>'
                              )
-            text = re.sub(r'\/\* *@([ef]n\**) (.*?)\*\/', replace_note, text)
-            text = re.sub(r'\/\*(.*?)\*\/', simpleComment, text)
-            text = text.replace(r'@r@', '\r').replace('@n@', '\n')
+            text = re.sub(r'\/\* *@([ef]n\**) (.*?)\*\/', replace_note, text, flags=re.DOTALL)
+            text = re.sub(r'\/\*(.*?)\*\/', simpleComment, text, flags=re.DOTALL)
         return text
 
diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index eed9e54..7edfab6 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -6,6 +6,7 @@ Published under the MIT License (https://opensource.org/licenses/mit-license.php
 """
 import re
 from string import Template
+from xml.sax.saxutils import escape
 from pywriter.pywriter_globals import *
 from pywriter.odt_w.odt_writer import OdtWriter
 
@@ -104,10 +105,27 @@ class OdtWFormatted(OdtWriter):
             # Remove highlighting, alignment,
             # strikethrough, and underline tags.
             text = re.sub(r'\[\/*[h|c|r|s|u]\d*\]', '', text)
+
+            if not quick:
+                text = self._convert_comments(text)
         else:
             text = ''
         return text
 
+    def _convert_comments(self, text):
+        """Return text with the yWriter comments converted to annotations.
+        
+        Positional arguments:
+            text -- string to convert; already converted to the target format otherwise.
+        
+        Comment marks without a counterpart are left as they are.
+        """
+        author = escape(self.novel.authorName or '')
+        return re.sub(r'\/\*(.*?)\*\/',
+                      lambda m: (f'<office:annotation><dc:creator>{author}</dc:creator>'
+                                 f'<text:p>{m.group(1)}</text:p></office:annotation>'),
+                      text, flags=re.DOTALL)
+
     def _get_fileHeaderMapping(self):
         """Return a mapping dictionary for the project section.
         
@@ -148,8 +166,6 @@ class OdtWFormatted(OdtWriter):
                 ('[/i]', '</text:span>'),
                 ('[b]', '<text:span text:style-name="Strong_20_Emphasis">'),
                 ('[/b]', '</text:span>'),
-                ('/*', f'<office:annotation><dc:creator>{self.novel.authorName}</dc:creator><text:p>'),
-                ('*/', '</text:p></office:annotation>'),
                 ]
 
     def _get_text(self):
diff --git a/src/pywriter/odt_w/odt_w_proof.py b/src/pywriter/odt_w/odt_w_proof.py
index 9e95351..ddc453f 100644
--- a/src/pywriter/odt_w/odt_w_proof.py
+++ b/src/pywriter/odt_w/odt_w_proof.py
@@ -64,8 +64,6 @@ class OdtWProof(OdtWFormatted):
                 ('\r', '\n'),
                 ('[/i]', '</text:span>'),
                 ('[/b]', '</text:span>'),
-                ('/*', f'<office:annotation><dc:creator>{self.novel.authorName}</dc:creator><text:p>'),
-                ('*/', '</text:p></office:annotation>'),
             ])
             i = 0
             for i, language in enumerate(self.novel.languages, 1):
@@ -111,6 +109,8 @@ class OdtWProof(OdtWFormatted):
             # Remove highlighting, alignment,
             # strikethrough, and underline tags.
             text = re.sub(r'\[\/*[h|c|r|s|u]\d*\]', '', text)
+
+            text = self._convert_comments(text)
         else:
             text = ''
         return text
-- 
2.43.0


From 55af6e8172a3a37e31ce0c63c74dc53ccb487233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 13/59] fix: keep the text of scenes split by a chapter divider
 followed by a scene divider

A chapter or part divider directly followed by a scene divider overwrote
the previous scene with an empty text. Also accept scenes without status,
report part dividers as splits, and keep further separators in
descriptions.
---
 src/pywriter/model/splitter.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pywriter/model/splitter.py b/src/pywriter/model/splitter.py
index 755c319..4dbf26f 100644
--- a/src/pywriter/model/splitter.py
+++ b/src/pywriter/model/splitter.py
@@ -97,7 +97,7 @@ class Splitter:
                 parent.outcome = f'{WARNING}{parent.outcome}'
 
             # Reset the parent's status to Draft, if not Outline.
-            if parent.status > 2:
+            if parent.status is not None and parent.status > 2:
                 parent.status = 2
             newScene.status = parent.status
             newScene.scType = parent.scType
@@ -129,7 +129,7 @@ class Splitter:
 
                 # Search scene content for dividers.
                 for line in lines:
-                    heading = line.strip('# ').split(self.DESC_SEPARATOR)
+                    heading = line.strip('# ').split(self.DESC_SEPARATOR, maxsplit=1)
                     title = heading[0]
                     try:
                         desc = heading[1]
@@ -137,7 +137,8 @@ class Splitter:
                         desc = ''
                     if line.startswith(self.SCENE_SEPARATOR):
                         # Split the scene.
-                        file.novel.scenes[sceneId].sceneContent = '\n'.join(newLines)
+                        if inScene:
+                            file.novel.scenes[sceneId].sceneContent = '\n'.join(newLines)
                         newLines = []
                         sceneSplitCount += 1
                         sceneId = create_id(file.novel.scenes)
@@ -174,6 +175,7 @@ class Splitter:
                             title = _('New Part')
                         create_chapter(chapterId, title, desc, 1)
                         srtChapters.append(chapterId)
+                        scenesSplit = True
                     elif not inScene:
                         # Append a scene without heading to a new chapter or part.
                         newLines.append(line)
-- 
2.43.0


From 60a4b0815e1cc896f77c40cea8f65bf153b4eaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 14/59] fix: read complete text runs, spans, comments, and
 spaces from ODT documents

The SAX parser delivers text in chunks of arbitrary size; markers and
words spanning chunks were damaged. A span that is bold and italic, or
that has no formatting, closed the wrong tag. Comments lost all but the
first paragraph, and repeated spaces were reduced to one.
---
 src/pywriter/odt_r/odt_parser.py | 85 ++++++++++++++++++++++----------
 1 file changed, 58 insertions(+), 27 deletions(-)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index bd4bead..0453aea 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -36,6 +36,10 @@ class OdtParser(sax.ContentHandler):
         self._blockquote = False
         self._list = False
         self._span = []
+        self._spanCounts = []
+        # Number of tags opened by each of the nested spans.
+        self._text = []
+        # Buffer for character data that may come in chunks.
         self._style = None
         self._client = client
 
@@ -107,23 +111,21 @@ class OdtParser(sax.ContentHandler):
         
         Overrides the xml.sax.ContentHandler method             
         """
-        if self._commentParagraphCount is not None:
-            if self._commentParagraphCount == 1:
-                self._comment = f'{self._comment}{content}'
-        elif self._paragraph:
-            self._client.handle_data(content)
-        elif self._heading is not None:
-            self._client.handle_data(content)
+        self._text.append(content)
 
     def endElement(self, name):
         """Signals the end of an element in non-namespace mode.
         
         Overrides the xml.sax.ContentHandler method     
         """
+        self._flush_text()
         if name == 'text:p':
-            if self._commentParagraphCount is None:
+            if self._commentParagraphCount is not None:
+                self._commentText = False
+            else:
                 while self._span:
                     self._client.handle_endtag(self._span.pop())
+                self._spanCounts = []
                 if self._blockquote:
                     self._client.handle_endtag('blockquote')
                     self._blockquote = False
@@ -134,8 +136,9 @@ class OdtParser(sax.ContentHandler):
                     self._client.handle_endtag('p')
                 self._paragraph = False
         elif name == 'text:span':
-            if self._span:
-                self._client.handle_endtag(self._span.pop())
+            if self._commentParagraphCount is None and self._spanCounts:
+                for __ in range(self._spanCounts.pop()):
+                    self._client.handle_endtag(self._span.pop())
         elif name == 'text:section':
             self._client.handle_endtag('div')
         elif name == 'office:annotation':
@@ -154,6 +157,7 @@ class OdtParser(sax.ContentHandler):
         
         Overrides the xml.sax.ContentHandler method             
         """
+        self._flush_text()
         xmlAttributes = {}
         for attribute in attrs.items():
             attrKey, attrValue = attribute
@@ -165,6 +169,9 @@ class OdtParser(sax.ContentHandler):
                 param = [('lang', self._languageTags[style])]
             if self._commentParagraphCount is not None:
                 self._commentParagraphCount += 1
+                self._commentText = True
+                if self._commentParagraphCount > 1:
+                    self._comment = f'{self._comment}\n'
             elif style in self._blockquoteTags:
                 self._client.handle_starttag('blockquote', param)
                 self._paragraph = True
@@ -181,27 +188,32 @@ class OdtParser(sax.ContentHandler):
             else:
                 self._client.handle_starttag('p', param)
                 self._paragraph = True
-            if style in self._emTags:
-                self._span.append('em')
-                self._client.handle_starttag('em', [()])
-            if style in self._strongTags:
-                self._span.append('strong')
-                self._client.handle_starttag('strong', [()])
+            if self._commentParagraphCount is None:
+                if style in self._emTags:
+                    self._span.append('em')
+                    self._client.handle_starttag('em', [()])
+                if style in self._strongTags:
+                    self._span.append('strong')
+                    self._client.handle_starttag('strong', [()])
         elif name == 'text:span':
-            if style in self._emTags:
-                self._span.append('em')
-                self._client.handle_starttag('em', [()])
-            if style in self._strongTags:
-                self._span.append('strong')
-                self._client.handle_starttag('strong', [()])
-            if style in self._languageTags:
-                self._span.append('lang')
-                self._client.handle_starttag('lang', [('lang', self._languageTags[style])])
+            if self._commentParagraphCount is None:
+                spanCount = len(self._span)
+                if style in self._emTags:
+                    self._span.append('em')
+                    self._client.handle_starttag('em', [()])
+                if style in self._strongTags:
+                    self._span.append('strong')
+                    self._client.handle_starttag('strong', [()])
+                if style in self._languageTags:
+                    self._span.append('lang')
+                    self._client.handle_starttag('lang', [('lang', self._languageTags[style])])
+                self._spanCounts.append(len(self._span) - spanCount)
         elif name == 'text:section':
             sectionId = xmlAttributes['text:name']
             self._client.handle_starttag('div', [('id', sectionId)])
         elif name == 'office:annotation':
             self._commentParagraphCount = 0
+            self._commentText = False
             self._comment = ''
         elif name == 'text:h':
             try:
@@ -225,12 +237,31 @@ class OdtParser(sax.ContentHandler):
                 self._strongTags.append(self._style)
             if xmlAttributes.get('fo:language', False):
                 lngCode = xmlAttributes['fo:language']
-                ctrCode = xmlAttributes['fo:country']
+                ctrCode = xmlAttributes.get('fo:country', 'none')
                 if ctrCode != 'none':
                     locale = f'{lngCode}-{ctrCode}'
                 else:
                     locale = lngCode
                 self._languageTags[self._style] = locale
         elif name == 'text:s':
-            self._client.handle_starttag('s', [()])
+            for __ in range(int(xmlAttributes.get('text:c', 1))):
+                if self._commentParagraphCount is not None:
+                    self._comment = f'{self._comment} '
+                else:
+                    self._client.handle_starttag('s', [()])
+
+    def _flush_text(self):
+        """Pass the buffered character data on."""
+        content = ''.join(self._text)
+        self._text = []
+        if not content:
+            return
+
+        if self._commentParagraphCount is not None:
+            if self._commentParagraphCount > 0 and self._commentText:
+                self._comment = f'{self._comment}{content}'
+        elif self._paragraph:
+            self._client.handle_data(content)
+        elif self._heading is not None:
+            self._client.handle_data(content)
 
-- 
2.43.0


From 921b8695329a5c42672bb04da191cfd41b601dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 15/59] fix: keep spaces between differently formatted words
 when importing documents

Whitespace next to formatted text was dropped, and repeated spaces in
headings were put into the text of the following section.
---
 src/pywriter/odt_r/odt_r_chapterdesc.py | 4 ++--
 src/pywriter/odt_r/odt_r_characters.py  | 3 ++-
 src/pywriter/odt_r/odt_r_items.py       | 3 ++-
 src/pywriter/odt_r/odt_r_locations.py   | 3 ++-
 src/pywriter/odt_r/odt_r_manuscript.py  | 2 +-
 src/pywriter/odt_r/odt_reader.py        | 2 ++
 6 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/pywriter/odt_r/odt_r_chapterdesc.py b/src/pywriter/odt_r/odt_r_chapterdesc.py
index c9e5133..d565276 100644
--- a/src/pywriter/odt_r/odt_r_chapterdesc.py
+++ b/src/pywriter/odt_r/odt_r_chapterdesc.py
@@ -37,7 +37,7 @@ class OdtRChapterDesc(OdtReader):
                 self._lines.append('\n')
             elif tag == 'h1' or tag == 'h2':
                 if not self.novel.chapters[self._chId].title:
-                    self.novel.chapters[self._chId].title = ''.join(self._lines)
+                    self.novel.chapters[self._chId].title = ''.join(self._lines).strip()
                 self._lines = []
 
     def handle_data(self, data):
@@ -49,4 +49,4 @@ class OdtRChapterDesc(OdtReader):
         Overrides the superclass method.
         """
         if self._chId is not None:
-            self._lines.append(data.strip())
+            self._lines.append(data)
diff --git a/src/pywriter/odt_r/odt_r_characters.py b/src/pywriter/odt_r/odt_r_characters.py
index 93106cd..f486bb5 100644
--- a/src/pywriter/odt_r/odt_r_characters.py
+++ b/src/pywriter/odt_r/odt_r_characters.py
@@ -46,7 +46,7 @@ class OdtRCharacters(OdtReader):
         Overrides the superclass method.
         """
         if self._section is not None:
-            self._lines.append(data.strip())
+            self._lines.append(data)
 
     def handle_endtag(self, tag):
         """Recognize the end of the character section and save data.
@@ -88,6 +88,7 @@ class OdtRCharacters(OdtReader):
         """
         if tag == 'div':
             if attrs[0][0] == 'id':
+                self._lines = []
                 if attrs[0][1].startswith('CrID_desc'):
                     self._crId = re.search(r'[0-9]+', attrs[0][1]).group()
                     if not self._crId in self.novel.characters:
diff --git a/src/pywriter/odt_r/odt_r_items.py b/src/pywriter/odt_r/odt_r_items.py
index d927bef..bf4ef44 100644
--- a/src/pywriter/odt_r/odt_r_items.py
+++ b/src/pywriter/odt_r/odt_r_items.py
@@ -45,7 +45,7 @@ class OdtRItems(OdtReader):
         Overrides the superclass method.
         """
         if self._itId is not None:
-            self._lines.append(data.strip())
+            self._lines.append(data)
 
     def handle_endtag(self, tag):
         """Recognize the end of the item section and save data.
@@ -74,6 +74,7 @@ class OdtRItems(OdtReader):
         """
         if tag == 'div':
             if attrs[0][0] == 'id':
+                self._lines = []
                 if attrs[0][1].startswith('ItID'):
                     self._itId = re.search(r'[0-9]+', attrs[0][1]).group()
                     if not self._itId in self.novel.items:
diff --git a/src/pywriter/odt_r/odt_r_locations.py b/src/pywriter/odt_r/odt_r_locations.py
index e365407..3f7f2f4 100644
--- a/src/pywriter/odt_r/odt_r_locations.py
+++ b/src/pywriter/odt_r/odt_r_locations.py
@@ -45,7 +45,7 @@ class OdtRLocations(OdtReader):
         Overrides the superclass method.
         """
         if self._lcId is not None:
-            self._lines.append(data.strip())
+            self._lines.append(data)
 
     def handle_endtag(self, tag):
         """Recognize the end of the location section and save data.
@@ -74,6 +74,7 @@ class OdtRLocations(OdtReader):
         """
         if tag == 'div':
             if attrs[0][0] == 'id':
+                self._lines = []
                 if attrs[0][1].startswith('LcID'):
                     self._lcId = re.search(r'[0-9]+', attrs[0][1]).group()
                     if not self._lcId in self.novel.locations:
diff --git a/src/pywriter/odt_r/odt_r_manuscript.py b/src/pywriter/odt_r/odt_r_manuscript.py
index 6fb8089..99c9e14 100644
--- a/src/pywriter/odt_r/odt_r_manuscript.py
+++ b/src/pywriter/odt_r/odt_r_manuscript.py
@@ -57,7 +57,7 @@ class OdtRManuscript(OdtRFormatted):
         if self._skip_data:
             self._skip_data = False
         elif self._scId is not None:
-            if not data.isspace():
+            if not (data.isspace() and '\n' in data):
                 self._lines.append(data)
         elif self._chId is not None:
             if self.novel.chapters[self._chId].title is None:
diff --git a/src/pywriter/odt_r/odt_reader.py b/src/pywriter/odt_r/odt_reader.py
index 154c34e..4d64524 100644
--- a/src/pywriter/odt_r/odt_reader.py
+++ b/src/pywriter/odt_r/odt_reader.py
@@ -99,12 +99,14 @@ class OdtReader(File, ABC):
         if tag == 'div':
             if attrs[0][0] == 'id':
                 if attrs[0][1].startswith('ScID'):
+                    self._lines = []
                     self._scId = re.search(r'[0-9]+', attrs[0][1]).group()
                     if not self._scId in self.novel.scenes:
                         self.novel.scenes[self._scId] = Scene()
                         self.novel.chapters[self._chId].srtScenes.append(self._scId)
                     self.novel.scenes[self._scId].scType = self._TYPE
                 elif attrs[0][1].startswith('ChID'):
+                    self._lines = []
                     self._chId = re.search(r'[0-9]+', attrs[0][1]).group()
                     if not self._chId in self.novel.chapters:
                         self.novel.chapters[self._chId] = Chapter()
-- 
2.43.0


From 034a8ad019b985608345306c6e637f6cccd4de47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 16/59] fix: keep comments at the beginning of imported scene
 descriptions

---
 src/pywriter/odt_r/odt_r_scenedesc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/odt_r/odt_r_scenedesc.py b/src/pywriter/odt_r/odt_r_scenedesc.py
index 888c565..66190b2 100644
--- a/src/pywriter/odt_r/odt_r_scenedesc.py
+++ b/src/pywriter/odt_r/odt_r_scenedesc.py
@@ -52,7 +52,7 @@ class OdtRSceneDesc(OdtReader):
                         if self._SC_TITLE_BRACKET in scTitle:
                             self.novel.scenes[self._scId].title = scTitle.split(
                                 self._SC_TITLE_BRACKET)[1].strip()
-                        text = scContent
+                            text = scContent
                     except:
                         pass
                 self.novel.scenes[self._scId].desc = text.rstrip()
-- 
2.43.0


From b1c80c1f8abb999dfed42903c69dd08289acd22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 17/59] fix: keep quotations formatted beyond a line break when
 exporting

---
 src/pywriter/odt_w/odt_w_formatted.py | 4 ++--
 src/pywriter/odt_w/odt_w_proof.py     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index 7edfab6..3269ab1 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -84,8 +84,8 @@ class OdtWFormatted(OdtWriter):
                 for line in lines:
                     for tag in tags:
                         if isOpen[tag]:
-                            if line.startswith('&gt; '):
-                                line = f"&gt; {opening[tag]}{line.lstrip('&gt; ')}"
+                            if line.startswith('> '):
+                                line = f'> {opening[tag]}{line[2:]}'
                             else:
                                 line = f'{opening[tag]}{line}'
                             isOpen[tag] = False
diff --git a/src/pywriter/odt_w/odt_w_proof.py b/src/pywriter/odt_w/odt_w_proof.py
index ddc453f..435ed5a 100644
--- a/src/pywriter/odt_w/odt_w_proof.py
+++ b/src/pywriter/odt_w/odt_w_proof.py
@@ -88,8 +88,8 @@ class OdtWProof(OdtWFormatted):
             for line in lines:
                 for tag in tags:
                     if isOpen[tag]:
-                        if line.startswith('&gt; '):
-                            line = f"&gt; {opening[tag]}{line.lstrip('&gt; ')}"
+                        if line.startswith('> '):
+                            line = f'> {opening[tag]}{line[2:]}'
                         else:
                             line = f'{opening[tag]}{line}'
                         isOpen[tag] = False
-- 
2.43.0


From 0b9615e29cb5c8524238d815b1a09e62f9879ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 18/59] fix: remove only the trailing suffix to find the
 project to rewrite

Suffixes in the project or directory name made the import fail or
address another project.
---
 src/pywriter/converter/import_target_factory.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pywriter/converter/import_target_factory.py b/src/pywriter/converter/import_target_factory.py
index 55e7c35..b1a136b 100644
--- a/src/pywriter/converter/import_target_factory.py
+++ b/src/pywriter/converter/import_target_factory.py
@@ -37,10 +37,10 @@ class ImportTargetFactory(FileFactory):
             # Remove the suffix from the source file name.
             # This should also work if the file name already contains the suffix,
             # e.g. "test_notes_notes.odt".
-            e = fileName.split(sourceSuffix)
-            if len(e) > 1:
-                e.pop()
-            ywPathBasis = ''.join(e)
+            if fileName.endswith(sourceSuffix):
+                ywPathBasis = fileName[:-len(sourceSuffix)]
+            else:
+                ywPathBasis = fileName
         else:
             ywPathBasis = fileName
 
-- 
2.43.0


From 14a4c73e42acb83a46da41e97882c0adc1e89f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 19/59] fix: read and write configuration values containing a
 percent sign

---
 src/pywriter/config/configuration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/config/configuration.py b/src/pywriter/config/configuration.py
index 9d62a3b..9f2b668 100644
--- a/src/pywriter/config/configuration.py
+++ b/src/pywriter/config/configuration.py
@@ -45,7 +45,7 @@ class Configuration:
             
         Settings and options that can not be read in, remain unchanged.
         """
-        config = ConfigParser()
+        config = ConfigParser(interpolation=None)
         config.read(iniFile, encoding='utf-8')
         if config.has_section(self._sLabel):
             section = config[self._sLabel]
@@ -76,7 +76,7 @@ class Configuration:
         Positional arguments:
             iniFile: str -- path configuration file path.
         """
-        config = ConfigParser()
+        config = ConfigParser(interpolation=None)
         if self.settings:
             config.add_section(self._sLabel)
             for settingId in self.settings:
-- 
2.43.0


From 1dfec1e17b0c1b1c874205b76ad76121935a0cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:40 +0000
Subject: [PATCH 20/59] fix: recognize text markup languages missing from the
 project variables

---
 src/pywriter/model/novel.py           | 5 +++--
 src/pywriter/odt_w/odt_w_formatted.py | 3 +--
 src/pywriter/yw/yw7_file.py           | 3 +--
 3 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/pywriter/model/novel.py b/src/pywriter/model/novel.py
index 5753468..06cab36 100644
--- a/src/pywriter/model/novel.py
+++ b/src/pywriter/model/novel.py
@@ -138,7 +138,7 @@ class Novel(BasicElement):
     def get_languages(self):
         """Determine the languages used in the document.
         
-        Populate the self.languages list with all language codes found in the scene contents.        
+        Extend the self.languages list with all language codes found in the scene contents.        
         Example:
         - language markup: 'Standard text [lang=en-AU]Australian text[/lang=en-AU].'
         - language code: 'en-AU'
@@ -158,7 +158,8 @@ class Novel(BasicElement):
                     yield m.group(1)
                     m = LANGUAGE_TAG.search(text)
 
-        self.languages = []
+        if self.languages is None:
+            self.languages = []
         for scId in self.scenes:
             text = self.scenes[scId].sceneContent
             if text:
diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index 3269ab1..db73862 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -39,8 +39,7 @@ class OdtWFormatted(OdtWriter):
         
         Extends the superclass method.
         """
-        if self.novel.languages is None:
-            self.novel.get_languages()
+        self.novel.get_languages()
         return super().write()
 
     def _convert_from_yw(self, text, quick=False):
diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 19e0f7e..3a8ad24 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -192,8 +192,7 @@ class Yw7File(File):
         if self.is_locked():
             raise Error(f'{_("yWriter seems to be open. Please close first")}.')
 
-        if self.novel.languages is None:
-            self.novel.get_languages()
+        self.novel.get_languages()
 
         #--- Get custom instance variables.
         for scId in self.novel.scenes:
-- 
2.43.0


From 19467535c88c9cd37b7e27f415b078518fa1aaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:25 +0000
Subject: [PATCH 21/59] fix: restore the previous version if a file cannot be
 written completely

A failure while postprocessing a project left a truncated file, and failed
writes of new files left incomplete ones. A failing document export lost
its target path.
---
 src/pywriter/file/file_export.py |  2 ++
 src/pywriter/odf/odf_file.py     |  8 ++++++--
 src/pywriter/yw/yw7_file.py      | 14 +++++++++++++-
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/pywriter/file/file_export.py b/src/pywriter/file/file_export.py
index 4a7bb9a..b40d54f 100644
--- a/src/pywriter/file/file_export.py
+++ b/src/pywriter/file/file_export.py
@@ -98,6 +98,8 @@ class FileExport(File):
         except:
             if backedUp:
                 os.replace(f'{self.filePath}.bak', self.filePath)
+            elif os.path.isfile(self.filePath):
+                os.remove(self.filePath)
             raise Error(f'{_("Cannot write file")}: "{norm_path(self.filePath)}".')
 
     def _get_fileHeaderMapping(self):
diff --git a/src/pywriter/odf/odf_file.py b/src/pywriter/odf/odf_file.py
index 7657d37..60e1553 100644
--- a/src/pywriter/odf/odf_file.py
+++ b/src/pywriter/odf/odf_file.py
@@ -67,8 +67,10 @@ class OdfFile(FileExport):
         #--- Add "content.xml" to the temporary directory.
         self._originalPath = self._filePath
         self._filePath = f'{self._tempDir}/content.xml'
-        self.write_content_xml()
-        self._filePath = self._originalPath
+        try:
+            self.write_content_xml()
+        finally:
+            self._filePath = self._originalPath
 
         #--- Pack the contents of the temporary directory into the ODF file.
         workdir = os.getcwd()
@@ -89,6 +91,8 @@ class OdfFile(FileExport):
             os.chdir(workdir)
             if backedUp:
                 os.replace(f'{self.filePath}.bak', self.filePath)
+            elif os.path.isfile(self.filePath):
+                os.remove(self.filePath)
             raise Error(f'{_("Cannot create file")}: "{norm_path(self.filePath)}".')
 
         #--- Remove temporary data.
diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 3a8ad24..9ba02ed 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -205,8 +205,18 @@ class Yw7File(File):
                     self.novel.scenes[scId].kwVar['Field_SceneMode'] = str(self.novel.scenes[scId].scnMode)
             self.novel.scenes[scId].kwVar['Field_SceneStyle'] = None
         self._build_element_tree()
+        hasPrevious = os.path.isfile(self.filePath)
         self._write_element_tree(self)
-        self._postprocess_xml_file(self.filePath)
+        try:
+            self._postprocess_xml_file(self.filePath)
+        except:
+            # Do not leave an incomplete file behind.
+            if not hasPrevious:
+                if os.path.isfile(self.filePath):
+                    os.remove(self.filePath)
+            elif os.path.isfile(f'{self.filePath}.bak'):
+                os.replace(f'{self.filePath}.bak', self.filePath)
+            raise Error(f'{_("Cannot write file")}: "{norm_path(self.filePath)}".')
 
     def _build_element_tree(self):
         """Modify the yWriter project attributes of an existing xml element tree."""
@@ -1704,5 +1714,7 @@ class Yw7File(File):
         except:
             if backedUp:
                 os.replace(f'{ywProject.filePath}.bak', ywProject.filePath)
+            elif os.path.isfile(ywProject.filePath):
+                os.remove(ywProject.filePath)
             raise Error(f'{_("Cannot write file")}: "{norm_path(ywProject.filePath)}".')
 
-- 
2.43.0


From 44f27c530034777c3e8fb51e4108e775066593ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 22/59] fix: purge custom variables of project notes

---
 src/pywriter/yw/yw7_purge.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/yw/yw7_purge.py b/src/pywriter/yw/yw7_purge.py
index 68119f5..c983e21 100644
--- a/src/pywriter/yw/yw7_purge.py
+++ b/src/pywriter/yw/yw7_purge.py
@@ -52,8 +52,8 @@ def reset_custom_variables(prjFile):
                 hasChanged = True
     for pnId in prjFile.novel.projectNotes:
         for field in prjFile.PNT_KWVAR:
-            if prjFile.novel.projectnotes[pnId].kwVar.get(field, None):
-                prjFile.novel.projectnotes[pnId].kwVar[field] = ''
+            if prjFile.novel.projectNotes[pnId].kwVar.get(field, None):
+                prjFile.novel.projectNotes[pnId].kwVar[field] = ''
                 hasChanged = True
     return hasChanged
 
-- 
2.43.0


From 087413fbc89722a70bd4a8cd7fa159d8140f0ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 23/59] fix: do not mix message catalogs compiled in one run

---
 src/msgfmt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/msgfmt.py b/src/msgfmt.py
index 3f731e9..8ec061c 100644
--- a/src/msgfmt.py
+++ b/src/msgfmt.py
@@ -101,6 +101,9 @@ def make(filename, outfile):
     STR = 2
     CTXT = 3
 
+    MESSAGES.clear()
+    # Do not mix in the messages of a catalog processed before.
+
     # Compute .mo name from .po name and arguments
     if filename.endswith('.po'):
         infile = filename
-- 
2.43.0


From 066278848edefd19da2b3467f3c203535dc98812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 24/59] fix: do not escape quotes twice in message templates

---
 src/pgettext.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pgettext.py b/src/pgettext.py
index fb7201b..0c746e4 100644
--- a/src/pgettext.py
+++ b/src/pgettext.py
@@ -61,7 +61,8 @@ class PotFile:
         self.msgList = list(set(self.msgList))
         self.msgList.sort()
         for message in self.msgList:
-            message = message.replace('"', '\\"')
+            message = re.sub(r'(?<!\\)"', r'\\"', message)
+            # quotes may already be escaped in the source code
             entry = f'\nmsgid "{message}"\nmsgstr ""\n'
             potText += entry
         with open(self.filePath, 'w', encoding='utf-8') as f:
-- 
2.43.0


From 5c3f393bb8f0e47092e7217607370040b00b442a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 25/59] fix: begin new scenes with list items and quotations,
 too

List items and quotations right after a heading or scene divider were
lost when importing a work in progress.
---
 src/pywriter/odt_r/odt_r_import.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/odt_r/odt_r_import.py b/src/pywriter/odt_r/odt_r_import.py
index bd2f7a0..57bc9a4 100644
--- a/src/pywriter/odt_r/odt_r_import.py
+++ b/src/pywriter/odt_r/odt_r_import.py
@@ -131,7 +131,8 @@ class OdtRImport(OdtRFormatted):
         
         Overrides the superclass method.
         """
-        if tag == 'p':
+        if tag in ('p', 'li', 'blockquote'):
+            # Begin a new scene, if necessary.
             if self._scId is None and self._chId is not None:
                 self._lines = []
                 self._scCount += 1
@@ -141,6 +142,7 @@ class OdtRImport(OdtRFormatted):
                 self.novel.scenes[self._scId].status = 1
                 self.novel.scenes[self._scId].scType = 0
                 self.novel.scenes[self._scId].title = f'{_("Scene")} {self._scCount}'
+        if tag == 'p':
             try:
                 if attrs[0][0] == 'lang':
                     self._language = attrs[0][1]
-- 
2.43.0


From 7d3212f33b6fb6559082f1e114c9fcd3d9bc04c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:17 +0000
Subject: [PATCH 26/59] fix: do not join words separated by tabulators or line
 breaks on import

---
 src/pywriter/odt_r/odt_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index 0453aea..44b7ea8 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -243,7 +243,7 @@ class OdtParser(sax.ContentHandler):
                 else:
                     locale = lngCode
                 self._languageTags[self._style] = locale
-        elif name == 'text:s':
+        elif name in ('text:s', 'text:tab', 'text:line-break'):
             for __ in range(int(xmlAttributes.get('text:c', 1))):
                 if self._commentParagraphCount is not None:
                     self._comment = f'{self._comment} '
-- 
2.43.0


From 1c66496bea44d42fe6d831434975b7317d7852fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 27/59] fix: export languages without a country code

---
 src/pywriter/odt_w/odt_w_formatted.py | 6 ++----
 src/pywriter/odt_w/odt_w_proof.py     | 7 +++----
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index db73862..4cfe5be 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -136,10 +136,8 @@ class OdtWFormatted(OdtWriter):
         if self.novel.languages:
             lines = ['<office:automatic-styles>']
             for i, language in enumerate(self.novel.languages, 1):
-                try:
-                    lngCode, ctrCode = language.split('-')
-                except:
-                    lngCode = 'zxx'
+                lngCode, __, ctrCode = escape(language, {'"': '&quot;'}).partition('-')
+                if not ctrCode:
                     ctrCode = 'none'
                 lines.append((f'  <style:style style:name="T{i}" style:family="text">\n'
                               f'   <style:text-properties fo:language="{lngCode}" fo:country="{ctrCode}" '
diff --git a/src/pywriter/odt_w/odt_w_proof.py b/src/pywriter/odt_w/odt_w_proof.py
index 435ed5a..aad530e 100644
--- a/src/pywriter/odt_w/odt_w_proof.py
+++ b/src/pywriter/odt_w/odt_w_proof.py
@@ -6,6 +6,7 @@ Published under the MIT License (https://opensource.org/licenses/mit-license.php
 """
 import re
 from string import Template
+from xml.sax.saxutils import escape
 from pywriter.pywriter_globals import *
 from pywriter.odt_w.odt_w_formatted import OdtWFormatted
 
@@ -126,10 +127,8 @@ class OdtWProof(OdtWFormatted):
         i = 0
         lines = ['<office:automatic-styles>']
         for i, language in enumerate(self.novel.languages, 1):
-            try:
-                lngCode, ctrCode = language.split('-')
-            except:
-                lngCode = 'zxx'
+            lngCode, __, ctrCode = escape(language, {'"': '&quot;'}).partition('-')
+            if not ctrCode:
                 ctrCode = 'none'
             lines.append(f'''  <style:style style:name="T{i}" style:family="text">
    <style:text-properties fo:language="{lngCode}" fo:country="{ctrCode}" style:language-asian="{lngCode}" style:country-asian="{ctrCode}" style:language-complex="{lngCode}" style:country-complex="{ctrCode}"/>
-- 
2.43.0


From 0484286cd7408e80d0d9bf897cbb5cdc0f87ccbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 28/59] fix: accept projects with an empty scene start day

---
 src/pywriter/yw/yw7_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 9ba02ed..7526f98 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -1516,7 +1516,7 @@ class Yw7File(File):
                     # Check if Day represents an integer.
                     try:
                         int(day)
-                    except ValueError:
+                    except (TypeError, ValueError):
                         day = ''
                     self.novel.scenes[scId].day = day
 
-- 
2.43.0


From a798333f092461f8bfde4b57d0fbecf82249fa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:38 +0000
Subject: [PATCH 29/59] fix: keep documents well-formed if a formatted comment
 text has line breaks

---
 src/pywriter/odt_w/odt_w_formatted.py | 4 +++-
 src/pywriter/odt_w/odt_w_proof.py     | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index 4cfe5be..896a3c5 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -72,6 +72,8 @@ class OdtWFormatted(OdtWriter):
 
                 #--- Process markup reaching across linebreaks.
                 newlines = []
+                # Line breaks inside comments do not end the paragraph.
+                text = re.sub(r'\/\*.*?\*\/', lambda m: m.group(0).replace('\n', '\v'), text, flags=re.DOTALL)
                 lines = text.split('\n')
                 isOpen = {}
                 opening = {}
@@ -95,7 +97,7 @@ class OdtWFormatted(OdtWriter):
                             line = f'{opening[tag]}{line}'
                         line = line.replace(f'{opening[tag]}{closing[tag]}', '')
                     newlines.append(line)
-                text = '\n'.join(newlines).rstrip()
+                text = '\n'.join(newlines).rstrip().replace('\v', '\n')
 
             #--- Apply odt formating.
             for yw, od in odtReplacements:
diff --git a/src/pywriter/odt_w/odt_w_proof.py b/src/pywriter/odt_w/odt_w_proof.py
index aad530e..efca420 100644
--- a/src/pywriter/odt_w/odt_w_proof.py
+++ b/src/pywriter/odt_w/odt_w_proof.py
@@ -78,6 +78,8 @@ class OdtWProof(OdtWFormatted):
 
             #--- Process markup reaching across linebreaks.
             newlines = []
+            # Line breaks inside comments do not end the paragraph.
+            text = re.sub(r'\/\*.*?\*\/', lambda m: m.group(0).replace('\n', '\v'), text, flags=re.DOTALL)
             lines = text.split('\n')
             isOpen = {}
             opening = {}
@@ -101,7 +103,7 @@ class OdtWProof(OdtWFormatted):
                         line = f'{opening[tag]}{line}'
                     line = line.replace(f'{opening[tag]}{closing[tag]}', '')
                 newlines.append(line)
-            text = '\n'.join(newlines).rstrip()
+            text = '\n'.join(newlines).rstrip().replace('\v', '\n')
 
             #--- Apply odt formating.
             for yw, od in odtReplacements:
-- 
2.43.0


From a62186b40ec81177a950b60a2b76ff05585c66cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:44 +0000
Subject: [PATCH 30/59] fix: keep nested formatting when it reaches across line
 breaks

---
 src/pywriter/odt_w/odt_w_formatted.py | 3 +++
 src/pywriter/odt_w/odt_w_proof.py     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index 896a3c5..4c78085 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -83,6 +83,7 @@ class OdtWFormatted(OdtWriter):
                     opening[tag] = f'[{tag}]'
                     closing[tag] = f'[/{tag}]'
                 for line in lines:
+                    positions = {tag: line.rfind(opening[tag]) for tag in tags}
                     for tag in tags:
                         if isOpen[tag]:
                             if line.startswith('> '):
@@ -97,6 +98,8 @@ class OdtWFormatted(OdtWriter):
                             line = f'{opening[tag]}{line}'
                         line = line.replace(f'{opening[tag]}{closing[tag]}', '')
                     newlines.append(line)
+                    # Reopen the innermost tag first.
+                    tags.sort(key=positions.get, reverse=True)
                 text = '\n'.join(newlines).rstrip().replace('\v', '\n')
 
             #--- Apply odt formating.
diff --git a/src/pywriter/odt_w/odt_w_proof.py b/src/pywriter/odt_w/odt_w_proof.py
index efca420..21ebb19 100644
--- a/src/pywriter/odt_w/odt_w_proof.py
+++ b/src/pywriter/odt_w/odt_w_proof.py
@@ -89,6 +89,7 @@ class OdtWProof(OdtWFormatted):
                 opening[tag] = f'[{tag}]'
                 closing[tag] = f'[/{tag}]'
             for line in lines:
+                positions = {tag: line.rfind(opening[tag]) for tag in tags}
                 for tag in tags:
                     if isOpen[tag]:
                         if line.startswith('> '):
@@ -103,6 +104,8 @@ class OdtWProof(OdtWFormatted):
                         line = f'{opening[tag]}{line}'
                     line = line.replace(f'{opening[tag]}{closing[tag]}', '')
                 newlines.append(line)
+                # Reopen the innermost tag first.
+                tags.sort(key=positions.get, reverse=True)
             text = '\n'.join(newlines).rstrip().replace('\v', '\n')
 
             #--- Apply odt formating.
-- 
2.43.0


From 7b60733729bdc4b37edae91a4c988910550d5793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:40 +0000
Subject: [PATCH 31/59] fix: import footnotes and endnotes as comments and keep
 the text behind them

---
 src/pywriter/odt_r/odt_parser.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index 44b7ea8..cb69501 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -33,6 +33,8 @@ class OdtParser(sax.ContentHandler):
         self._heading = None
         self._paragraph = False
         self._commentParagraphCount = None
+        self._commentLevel = 0
+        # Comments may be nested in footnotes or endnotes.
         self._blockquote = False
         self._list = False
         self._span = []
@@ -141,9 +143,11 @@ class OdtParser(sax.ContentHandler):
                     self._client.handle_endtag(self._span.pop())
         elif name == 'text:section':
             self._client.handle_endtag('div')
-        elif name == 'office:annotation':
-            self._client.handle_comment(self._comment)
-            self._commentParagraphCount = None
+        elif name in ('office:annotation', 'text:note'):
+            self._commentLevel -= 1
+            if self._commentLevel == 0:
+                self._client.handle_comment(self._comment)
+                self._commentParagraphCount = None
         elif name == 'text:h':
             self._client.handle_endtag(self._heading)
             self._heading = None
@@ -211,10 +215,17 @@ class OdtParser(sax.ContentHandler):
         elif name == 'text:section':
             sectionId = xmlAttributes['text:name']
             self._client.handle_starttag('div', [('id', sectionId)])
-        elif name == 'office:annotation':
-            self._commentParagraphCount = 0
-            self._commentText = False
-            self._comment = ''
+        elif name in ('office:annotation', 'text:note'):
+            self._commentLevel += 1
+            if self._commentLevel == 1:
+                self._commentParagraphCount = 0
+                self._commentText = False
+                self._comment = ''
+                if name == 'text:note':
+                    if xmlAttributes.get('text:note-class', None) == 'endnote':
+                        self._comment = '@en '
+                    else:
+                        self._comment = '@fn '
         elif name == 'text:h':
             try:
                 self._heading = f'h{xmlAttributes["text:outline-level"]}'
-- 
2.43.0


From 5278428ffc4debc6a946e70394d1c80b812abc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:50 +0000
Subject: [PATCH 32/59] fix: assign imported character texts to the right
 character if a section is missing

---
 src/pywriter/odt_r/odt_r_characters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/odt_r/odt_r_characters.py b/src/pywriter/odt_r/odt_r_characters.py
index f486bb5..39fbd88 100644
--- a/src/pywriter/odt_r/odt_r_characters.py
+++ b/src/pywriter/odt_r/odt_r_characters.py
@@ -89,11 +89,12 @@ class OdtRCharacters(OdtReader):
         if tag == 'div':
             if attrs[0][0] == 'id':
                 self._lines = []
-                if attrs[0][1].startswith('CrID_desc'):
+                if attrs[0][1].startswith('CrID_'):
                     self._crId = re.search(r'[0-9]+', attrs[0][1]).group()
                     if not self._crId in self.novel.characters:
                         self.novel.srtCharacters.append(self._crId)
                         self.novel.characters[self._crId] = Character()
+                if attrs[0][1].startswith('CrID_desc'):
                     self._section = 'desc'
                 elif attrs[0][1].startswith('CrID_bio'):
                     self._section = 'bio'
-- 
2.43.0


From e8cba664d71a22fd9704e1993f35647985229866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:18 +0000
Subject: [PATCH 33/59] fix: refuse files no new project can be created from

A converter without a new project factory, such as the exporter, crashed
if the source file was not a yWriter project.
---
 src/pywriter/converter/yw_cnv_ff.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pywriter/converter/yw_cnv_ff.py b/src/pywriter/converter/yw_cnv_ff.py
index 13b0418..b3ec362 100644
--- a/src/pywriter/converter/yw_cnv_ff.py
+++ b/src/pywriter/converter/yw_cnv_ff.py
@@ -76,6 +76,9 @@ class YwCnvFf(YwCnvUi):
             except Error:
                 # A new yWriter project might be required.
                 try:
+                    if self.newProjectFactory is None:
+                        raise Error(f'{_("File type is not supported")}: "{norm_path(sourcePath)}".')
+
                     source, target = self.newProjectFactory.make_file_objects(sourcePath, **kwargs)
                 except Error as ex:
                     self.ui.set_info_how(f'!{str(ex)}')
-- 
2.43.0


From 20c2d462094e3cc258892b43d1841f15fdab443c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 34/59] fix: report a missing temporary directory with the
 Error exception

The exporter crashed if no temporary directory could be created.
---
 src/pywriter/odf/odf_file.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/odf/odf_file.py b/src/pywriter/odf/odf_file.py
index 60e1553..751da92 100644
--- a/src/pywriter/odf/odf_file.py
+++ b/src/pywriter/odf/odf_file.py
@@ -42,7 +42,11 @@ class OdfFile(FileExport):
         Extends the superclass constructor,        
         """
         super().__init__(filePath, **kwargs)
-        self._tempDir = tempfile.mkdtemp(suffix='.tmp', prefix='odf_')
+        try:
+            self._tempDir = tempfile.mkdtemp(suffix='.tmp', prefix='odf_')
+        except OSError:
+            raise Error(f'{_("Cannot create directory")}: "odf_*.tmp".')
+
         self._originalPath = self._filePath
 
     def __del__(self):
-- 
2.43.0


From 1e84cc7ed436b575dae5874d5625d96b2f5784ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:11 +0000
Subject: [PATCH 35/59] fix: save projects with incomplete project variables

Saving a project crashed if a project variable had no ID, title, or
content. A variable with an empty title hid the languages behind it.
---
 src/pywriter/yw/yw7_file.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 7526f98..96884a2 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -709,6 +709,12 @@ class Yw7File(File):
             if projectNote.desc is not None:
                 ET.SubElement(xmlProjectnote, 'Desc').text = projectNote.desc
 
+        def set_projectvariable(xmlProjectvar, desc):
+            xmlDesc = xmlProjectvar.find('Desc')
+            if xmlDesc is None:
+                xmlDesc = ET.SubElement(xmlProjectvar, 'Desc')
+            xmlDesc.text = desc
+
         def add_projectvariable(title, desc, tags):
             # Note:
             # prjVars, xmlProjectvars are caller's variables
@@ -1006,8 +1012,8 @@ class Yw7File(File):
             hasLanguageCode = False
             hasCountryCode = False
             for xmlProjectvar in xmlProjectvars.findall('PROJECTVAR'):
-                prjVars.append(xmlProjectvar.find('ID').text)
-                title = xmlProjectvar.find('Title').text
+                prjVars.append(xmlProjectvar.findtext('ID'))
+                title = xmlProjectvar.findtext('Title', '')
 
                 # Collect language codes.
                 if title.startswith('lang='):
@@ -1019,11 +1025,11 @@ class Yw7File(File):
 
                 # Get the document's locale.
                 elif title == 'Language':
-                    xmlProjectvar.find('Desc').text = self.novel.languageCode
+                    set_projectvariable(xmlProjectvar, self.novel.languageCode)
                     hasLanguageCode = True
 
                 elif title == 'Country':
-                    xmlProjectvar.find('Desc').text = self.novel.countryCode
+                    set_projectvariable(xmlProjectvar, self.novel.countryCode)
                     hasCountryCode = True
 
             # Define project variables for the missing locale.
@@ -1395,7 +1401,7 @@ class Yw7File(File):
                         if xmlProjectvar.find('Desc') is not None:
                             self.novel.countryCode = xmlProjectvar.find('Desc').text
 
-                    elif title.startswith('lang='):
+                    elif title is not None and title.startswith('lang='):
                         try:
                             __, langCode = title.split('=')
                             if self.novel.languages is None:
-- 
2.43.0


From 03e2779fc45cfe16dc0fd01263ad13dc2725fef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:12 +0000
Subject: [PATCH 36/59] fix: keep project notes with custom fields and write
 the fields back

---
 src/pywriter/yw/yw7_file.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 96884a2..83bca0c 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -709,6 +709,14 @@ class Yw7File(File):
             if projectNote.desc is not None:
                 ET.SubElement(xmlProjectnote, 'Desc').text = projectNote.desc
 
+            #--- Write project note custom fields.
+            for field in self.PNT_KWVAR:
+                if projectNote.kwVar.get(field, None):
+                    xmlProjectnoteFields = xmlProjectnote.find('Fields')
+                    if xmlProjectnoteFields is None:
+                        xmlProjectnoteFields = ET.SubElement(xmlProjectnote, 'Fields')
+                    ET.SubElement(xmlProjectnoteFields, field).text = projectNote.kwVar[field]
+
         def set_projectvariable(xmlProjectvar, desc):
             xmlDesc = xmlProjectvar.find('Desc')
             if xmlDesc is None:
@@ -1375,15 +1383,16 @@ class Yw7File(File):
                     if xmlProjectnote.find('Desc') is not None:
                         self.novel.projectNotes[pnId].desc = xmlProjectnote.find('Desc').text
 
-                #--- Initialize project note custom fields.
-                for fieldName in self.PNT_KWVAR:
-                    self.novel.projectNotes[pnId].kwVar[fieldName] = None
+                    #--- Initialize project note custom fields.
+                    for fieldName in self.PNT_KWVAR:
+                        self.novel.projectNotes[pnId].kwVar[fieldName] = None
 
-                #--- Read project note custom fields.
-                for pnFields in xmlProjectnote.findall('Fields'):
-                    field = pnFields.find(fieldName)
-                    if field is not None:
-                        self.novel.projectNotes[pnId].kwVar[fieldName] = field.text
+                    #--- Read project note custom fields.
+                    for pnFields in xmlProjectnote.findall('Fields'):
+                        for fieldName in self.PNT_KWVAR:
+                            field = pnFields.find(fieldName)
+                            if field is not None:
+                                self.novel.projectNotes[pnId].kwVar[fieldName] = field.text
         except:
             pass
 
-- 
2.43.0


From f68a29bf534c84dca4fe4803b8cd79f8c3586cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:54 +0000
Subject: [PATCH 37/59] fix: make the purge of custom fields include scene arcs
 and modes

---
 src/pywriter/yw/yw7_purge.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pywriter/yw/yw7_purge.py b/src/pywriter/yw/yw7_purge.py
index c983e21..0a983b1 100644
--- a/src/pywriter/yw/yw7_purge.py
+++ b/src/pywriter/yw/yw7_purge.py
@@ -35,6 +35,13 @@ def reset_custom_variables(prjFile):
             if prjFile.novel.scenes[scId].kwVar.get(field, None):
                 prjFile.novel.scenes[scId].kwVar[field] = ''
                 hasChanged = True
+        # Yw7File.write() would restore the custom fields from these:
+        if prjFile.novel.scenes[scId].scnArcs:
+            prjFile.novel.scenes[scId].scnArcs = ''
+            hasChanged = True
+        if prjFile.novel.scenes[scId].scnMode:
+            prjFile.novel.scenes[scId].scnMode = 0
+            hasChanged = True
     for crId in prjFile.novel.characters:
         for field in prjFile.CRT_KWVAR:
             if prjFile.novel.characters[crId].kwVar.get(field, None):
-- 
2.43.0


From cce7c617ef78d3e91db2f4e5c2c3dd06465339fc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:08:54 +0000
Subject: [PATCH 38/59] fix: keep the defaults when a configuration file is
 damaged

---
 src/pywriter/config/configuration.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/config/configuration.py b/src/pywriter/config/configuration.py
index 9f2b668..20ed9d5 100644
--- a/src/pywriter/config/configuration.py
+++ b/src/pywriter/config/configuration.py
@@ -4,6 +4,7 @@ Copyright (c) 2023 Peter Triesberger
 For further information see https://github.com/peter88213/PyWriter
 Published under the MIT License (https://opensource.org/licenses/mit-license.php)
 """
+import configparser
 from configparser import ConfigParser
 
 
@@ -46,7 +47,12 @@ class Configuration:
         Settings and options that can not be read in, remain unchanged.
         """
         config = ConfigParser(interpolation=None)
-        config.read(iniFile, encoding='utf-8')
+        try:
+            config.read(iniFile, encoding='utf-8')
+        except (configparser.Error, UnicodeDecodeError):
+            # the file is damaged
+            return
+
         if config.has_section(self._sLabel):
             section = config[self._sLabel]
             for setting in self.settings:
@@ -56,7 +62,11 @@ class Configuration:
             section = config[self._oLabel]
             for option in self.options:
                 fallback = self.options[option]
-                self.options[option] = section.getboolean(option, fallback)
+                try:
+                    self.options[option] = section.getboolean(option, fallback)
+                except ValueError:
+                    # not a boolean value
+                    pass
 
     def set(self, settings=None, options=None):
         """Set the entire configuration without writing the INI file.
-- 
2.43.0


From e5b49ced82630f3525863d0ccf9ba2f07f91aa0c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:09:27 +0000
Subject: [PATCH 39/59] fix: find the end of messages with escaped quotes

---
 src/pgettext.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/pgettext.py b/src/pgettext.py
index 0c746e4..bf21482 100644
--- a/src/pgettext.py
+++ b/src/pgettext.py
@@ -12,9 +12,8 @@ import re
 from string import Template
 from datetime import datetime
 
-msgPatterns = [re.compile(r'_\(\"(.+?)\"\)'),
-              re.compile(r'_\(\'(.+?)\'\)'),
-              ]
+msgPattern = re.compile(r'''_\((?:"((?:\\.|[^"\\\n])+)"|'((?:\\.|[^'\\\n])+)')\)''')
+# an escaped quote does not end the message
 
 potHeader = '''\
 # ${app} Dictionary
@@ -61,7 +60,7 @@ class PotFile:
         self.msgList = list(set(self.msgList))
         self.msgList.sort()
         for message in self.msgList:
-            message = re.sub(r'(?<!\\)"', r'\\"', message)
+            message = re.sub(r'(\\.)|"', lambda m: m.group(1) or '\\"', message)
             # quotes may already be escaped in the source code
             entry = f'\nmsgid "{message}"\nmsgstr ""\n'
             potText += entry
@@ -71,8 +70,8 @@ class PotFile:
 
     def get_messages(self, text):
         result = []
-        for msgPattern in msgPatterns:
-            result.extend(msgPattern.findall(text))
+        for inDoubleQuotes, inSingleQuotes in msgPattern.findall(text):
+            result.append(inDoubleQuotes or inSingleQuotes)
         return result
 
     def scan_file(self, filename):
-- 
2.43.0


From 244bce8cf06527a386596363bb1567704338c042 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:10:26 +0000
Subject: [PATCH 40/59] fix: decode the first message of a catalog like the
 others

---
 src/msgfmt.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/msgfmt.py b/src/msgfmt.py
index 8ec061c..76d068a 100644
--- a/src/msgfmt.py
+++ b/src/msgfmt.py
@@ -128,8 +128,8 @@ def make(filename, outfile):
 
     # Parse the catalog
     lno = 0
-    for l in lines:
-        l = l.decode(encoding)
+    for rawLine in lines:
+        l = rawLine.decode(encoding)
         lno += 1
         # If we get a comment line after a msgstr, this is a new entry
         if l[0] == '#' and section == STR:
@@ -158,6 +158,8 @@ def make(filename, outfile):
                     charset = p.parsestr(msgstr.decode(encoding)).get_content_charset()
                     if charset:
                         encoding = charset
+                        # this line is not part of the header
+                        l = rawLine.decode(encoding)
             section = ID
             l = l[5:]
             msgid = msgstr = b''
-- 
2.43.0


From ada8d5f6d7fe0e4059bc78c1c8cb01cfe6004680 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:11:12 +0000
Subject: [PATCH 41/59] fix: take only the marked message of a catalog as fuzzy

---
 src/msgfmt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/msgfmt.py b/src/msgfmt.py
index 76d068a..042abd8 100644
--- a/src/msgfmt.py
+++ b/src/msgfmt.py
@@ -146,12 +146,14 @@ def make(filename, outfile):
         if l.startswith('msgctxt'):
             if section == STR:
                 add(msgctxt, msgid, msgstr, fuzzy)
+                fuzzy = 0
             section = CTXT
             l = l[7:]
             msgctxt = b''
         elif l.startswith('msgid') and not l.startswith('msgid_plural'):
             if section == STR:
                 add(msgctxt, msgid, msgstr, fuzzy)
+                fuzzy = 0
                 if not msgid:
                     # See whether there is an encoding declaration
                     p = HeaderParser()
-- 
2.43.0


From 039636435288c24be1959d3e59190e9b02a8fef5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:19:28 +0000
Subject: [PATCH 42/59] fix: find the modules to inline on any operating system

---
 src/inliner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/inliner.py b/src/inliner.py
index 1caa6fb..74897dd 100644
--- a/src/inliner.py
+++ b/src/inliner.py
@@ -62,7 +62,7 @@ def inline_module(file, package, packagePath, text, processedModules, copyPyWrit
                 if 'import' in line:
                     importModule = re.match(r'from (.+?) import.+', line)
                     if (importModule is not None) and (package in importModule.group(1)):
-                        packageName = re.sub(r'\.', r'\/', importModule.group(1))
+                        packageName = importModule.group(1).replace('.', '/')
                         moduleName = f'{packagePath}{packageName}'
                         if not (moduleName in processedModules):
                             processedModules.append(moduleName)
-- 
2.43.0


From 7aad9e86ac396e8454b82fffdc6ec473b72ed6ab Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:19:53 +0000
Subject: [PATCH 43/59] fix: drop only repeated imports from inlined scripts

---
 src/inliner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/inliner.py b/src/inliner.py
index 74897dd..565fd79 100644
--- a/src/inliner.py
+++ b/src/inliner.py
@@ -68,7 +68,7 @@ def inline_module(file, package, packagePath, text, processedModules, copyPyWrit
                             processedModules.append(moduleName)
                             text = inline_module(
                                 f'{moduleName}.py', package, packagePath, text, processedModules, copyPyWriter)
-                    elif line.lstrip().startswith('import'):
+                    elif line.startswith('import '):
                         moduleName = line.replace('import ', '').rstrip()
                         if not (moduleName in processedModules):
                             processedModules.append(moduleName)
-- 
2.43.0


From 237914db24c70d1cd12cb6cc48a2d6c15657876d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:22:55 +0000
Subject: [PATCH 44/59] fix: open documents whatever characters their paths
 contain

---
 src/pywriter/file/doc_open.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/file/doc_open.py b/src/pywriter/file/doc_open.py
index 031b0d3..97a814e 100644
--- a/src/pywriter/file/doc_open.py
+++ b/src/pywriter/file/doc_open.py
@@ -5,6 +5,7 @@ For further information see https://github.com/peter88213/PyWriter
 Published under the MIT License (https://opensource.org/licenses/mit-license.php)
 """
 import os
+import subprocess
 from pywriter.pywriter_globals import *
 
 
@@ -15,11 +16,11 @@ def open_document(document):
         # Windows
     except:
         try:
-            os.system('xdg-open "%s"' % norm_path(document))
+            subprocess.call(['xdg-open', norm_path(document)])
             # Linux
         except:
             try:
-                os.system('open "%s"' % norm_path(document))
+                subprocess.call(['open', norm_path(document)])
                 # Mac
             except:
                 pass
-- 
2.43.0


From 90859c8b883c6a0584f2c6925766f636c00d33a5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:39:12 +0000
Subject: [PATCH 45/59] fix: nest overlapping formatting in exported documents

---
 src/pywriter/odt_w/odt_w_formatted.py | 80 +++++++++++++++++----------
 src/pywriter/odt_w/odt_w_proof.py     | 31 +----------
 2 files changed, 51 insertions(+), 60 deletions(-)

diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index 4c78085..20a5452 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -71,36 +71,7 @@ class OdtWFormatted(OdtWriter):
                     odtReplacements.append((f'[/lang={language}]', '</text:span>'))
 
                 #--- Process markup reaching across linebreaks.
-                newlines = []
-                # Line breaks inside comments do not end the paragraph.
-                text = re.sub(r'\/\*.*?\*\/', lambda m: m.group(0).replace('\n', '\v'), text, flags=re.DOTALL)
-                lines = text.split('\n')
-                isOpen = {}
-                opening = {}
-                closing = {}
-                for tag in tags:
-                    isOpen[tag] = False
-                    opening[tag] = f'[{tag}]'
-                    closing[tag] = f'[/{tag}]'
-                for line in lines:
-                    positions = {tag: line.rfind(opening[tag]) for tag in tags}
-                    for tag in tags:
-                        if isOpen[tag]:
-                            if line.startswith('> '):
-                                line = f'> {opening[tag]}{line[2:]}'
-                            else:
-                                line = f'{opening[tag]}{line}'
-                            isOpen[tag] = False
-                        while line.count(opening[tag]) > line.count(closing[tag]):
-                            line = f'{line}{closing[tag]}'
-                            isOpen[tag] = True
-                        while line.count(closing[tag]) > line.count(opening[tag]):
-                            line = f'{opening[tag]}{line}'
-                        line = line.replace(f'{opening[tag]}{closing[tag]}', '')
-                    newlines.append(line)
-                    # Reopen the innermost tag first.
-                    tags.sort(key=positions.get, reverse=True)
-                text = '\n'.join(newlines).rstrip().replace('\v', '\n')
+                text = self._nest_tags(text, tags).rstrip()
 
             #--- Apply odt formating.
             for yw, od in odtReplacements:
@@ -193,3 +164,52 @@ class OdtWFormatted(OdtWriter):
                           '"Quotations">\\1', text)
         return text
 
+    def _nest_tags(self, text, tags):
+        """Return text with the markup tags properly nested inside each line.
+        
+        Positional arguments:
+            text -- string to convert.
+            tags -- list of the tags to process.
+        
+        Tags reaching across linebreaks or overlapping each other are closed and reopened.
+        Tags that have no effect are discarded. 
+        The contents of a comment are processed separately.
+        """
+        tagNames = '|'.join(re.escape(tag) for tag in tags)
+        parts = []
+        active = []
+        # tags in effect
+        isOpen = []
+        # tags actually opened in the current line
+        isLineStart = True
+        for part in re.split(rf'(\/\*.*?\*\/|\[\/?(?:{tagNames})\]|\n)', text, flags=re.DOTALL):
+            tag = re.fullmatch(rf'\[(\/?)({tagNames})\]', part)
+            if tag is not None:
+                if not tag.group(1):
+                    if not tag.group(2) in active:
+                        active.append(tag.group(2))
+                elif tag.group(2) in active:
+                    active.remove(tag.group(2))
+            elif part == '\n':
+                while isOpen:
+                    parts.append(f'[/{isOpen.pop()}]')
+                parts.append(part)
+                isLineStart = True
+            elif part:
+                if isLineStart and part.startswith('> '):
+                    parts.append('> ')
+                    part = part[2:]
+                isLineStart = False
+                if part:
+                    while isOpen != active[:len(isOpen)]:
+                        parts.append(f'[/{isOpen.pop()}]')
+                    for activeTag in active[len(isOpen):]:
+                        parts.append(f'[{activeTag}]')
+                        isOpen.append(activeTag)
+                    if re.fullmatch(r'\/\*.*\*\/', part, flags=re.DOTALL):
+                        part = f'/*{self._nest_tags(part[2:-2], tags)}*/'
+                    parts.append(part)
+        while isOpen:
+            parts.append(f'[/{isOpen.pop()}]')
+        return ''.join(parts)
+
diff --git a/src/pywriter/odt_w/odt_w_proof.py b/src/pywriter/odt_w/odt_w_proof.py
index 21ebb19..9ebed1e 100644
--- a/src/pywriter/odt_w/odt_w_proof.py
+++ b/src/pywriter/odt_w/odt_w_proof.py
@@ -77,36 +77,7 @@ class OdtWProof(OdtWFormatted):
             ])
 
             #--- Process markup reaching across linebreaks.
-            newlines = []
-            # Line breaks inside comments do not end the paragraph.
-            text = re.sub(r'\/\*.*?\*\/', lambda m: m.group(0).replace('\n', '\v'), text, flags=re.DOTALL)
-            lines = text.split('\n')
-            isOpen = {}
-            opening = {}
-            closing = {}
-            for tag in tags:
-                isOpen[tag] = False
-                opening[tag] = f'[{tag}]'
-                closing[tag] = f'[/{tag}]'
-            for line in lines:
-                positions = {tag: line.rfind(opening[tag]) for tag in tags}
-                for tag in tags:
-                    if isOpen[tag]:
-                        if line.startswith('> '):
-                            line = f'> {opening[tag]}{line[2:]}'
-                        else:
-                            line = f'{opening[tag]}{line}'
-                        isOpen[tag] = False
-                    while line.count(opening[tag]) > line.count(closing[tag]):
-                        line = f'{line}{closing[tag]}'
-                        isOpen[tag] = True
-                    while line.count(closing[tag]) > line.count(opening[tag]):
-                        line = f'{opening[tag]}{line}'
-                    line = line.replace(f'{opening[tag]}{closing[tag]}', '')
-                newlines.append(line)
-                # Reopen the innermost tag first.
-                tags.sort(key=positions.get, reverse=True)
-            text = '\n'.join(newlines).rstrip().replace('\v', '\n')
+            text = self._nest_tags(text, tags).rstrip()
 
             #--- Apply odt formating.
             for yw, od in odtReplacements:
-- 
2.43.0


From a2b9963bf2be8a78d22b2602f365ac24d3532737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:47 +0000
Subject: [PATCH 46/59] fix: keep project names that contain a suffix and
 extension

---
 src/pywriter/file/file.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/file/file.py b/src/pywriter/file/file.py
index 31d763c..bcaf9be 100644
--- a/src/pywriter/file/file.py
+++ b/src/pywriter/file/file.py
@@ -102,7 +102,10 @@ class File(ABC):
             except:
                 head, tail = os.path.split(filePath)
             self.projectPath = quote(head.replace('\\', '/'), '/:')
-            self.projectName = quote(tail.replace(f'{suffix}{self.EXTENSION}', ''))
+            if tail.lower().endswith(f'{suffix}{self.EXTENSION}'.lower()):
+                # only the ending; the name itself may contain the same
+                tail = tail[:-len(f'{suffix}{self.EXTENSION}')]
+            self.projectName = quote(tail)
 
     def read(self):
         """Parse the file and get the instance variables.
-- 
2.43.0


From 8d355bf9ae9a2a2cd32d3c8544d00b94888e4de7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:06:59 +0000
Subject: [PATCH 47/59] fix: leave template placeholders without data empty

---
 src/pywriter/file/file_export.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/pywriter/file/file_export.py b/src/pywriter/file/file_export.py
index b40d54f..0ff53bf 100644
--- a/src/pywriter/file/file_export.py
+++ b/src/pywriter/file/file_export.py
@@ -116,8 +116,8 @@ class FileExport(File):
             FieldTitle2=self._convert_from_yw(self.novel.fieldTitle2, True),
             FieldTitle3=self._convert_from_yw(self.novel.fieldTitle3, True),
             FieldTitle4=self._convert_from_yw(self.novel.fieldTitle4, True),
-            Language=self.novel.languageCode,
-            Country=self.novel.countryCode,
+            Language=self.novel.languageCode or '',
+            Country=self.novel.countryCode or '',
         )
         return projectTemplateMapping
 
@@ -155,8 +155,8 @@ class FileExport(File):
             Desc=self._convert_from_yw(self.novel.chapters[chId].desc),
             ProjectName=self._convert_from_yw(self.projectName, True),
             ProjectPath=self.projectPath,
-            Language=self.novel.languageCode,
-            Country=self.novel.countryCode,
+            Language=self.novel.languageCode or '',
+            Country=self.novel.countryCode or '',
         )
         return chapterMapping
 
@@ -272,7 +272,7 @@ class FileExport(File):
             Title=self._convert_from_yw(self.novel.characters[crId].title, True),
             Desc=self._convert_from_yw(self.novel.characters[crId].desc),
             Tags=self._convert_from_yw(tags),
-            Image=self.novel.characters[crId].image,
+            Image=self.novel.characters[crId].image or '',
             AKA=self._convert_from_yw(self.novel.characters[crId].aka, True),
             Notes=self._convert_from_yw(self.novel.characters[crId].notes),
             Bio=self._convert_from_yw(self.novel.characters[crId].bio),
@@ -335,7 +335,7 @@ class FileExport(File):
             Title=self._convert_from_yw(self.novel.items[itId].title, True),
             Desc=self._convert_from_yw(self.novel.items[itId].desc),
             Tags=self._convert_from_yw(tags, True),
-            Image=self.novel.items[itId].image,
+            Image=self.novel.items[itId].image or '',
             AKA=self._convert_from_yw(self.novel.items[itId].aka, True),
             ProjectName=self._convert_from_yw(self.projectName, True),
             ProjectPath=self.projectPath,
@@ -379,7 +379,7 @@ class FileExport(File):
             Title=self._convert_from_yw(self.novel.locations[lcId].title, True),
             Desc=self._convert_from_yw(self.novel.locations[lcId].desc),
             Tags=self._convert_from_yw(tags, True),
-            Image=self.novel.locations[lcId].image,
+            Image=self.novel.locations[lcId].image or '',
             AKA=self._convert_from_yw(self.novel.locations[lcId].aka, True),
             ProjectName=self._convert_from_yw(self.projectName, True),
             ProjectPath=self.projectPath,
@@ -536,7 +536,7 @@ class FileExport(File):
             Conflict=self._convert_from_yw(self.novel.scenes[scId].conflict),
             Outcome=self._convert_from_yw(self.novel.scenes[scId].outcome),
             Tags=self._convert_from_yw(tags, True),
-            Image=self.novel.scenes[scId].image,
+            Image=self.novel.scenes[scId].image or '',
             Characters=self._convert_from_yw(sceneChars, True),
             Viewpoint=self._convert_from_yw(viewpointChar, True),
             Locations=self._convert_from_yw(sceneLocs, True),
@@ -544,8 +544,8 @@ class FileExport(File):
             Notes=self._convert_from_yw(self.novel.scenes[scId].notes),
             ProjectName=self._convert_from_yw(self.projectName, True),
             ProjectPath=self.projectPath,
-            Language=self.novel.languageCode,
-            Country=self.novel.countryCode,
+            Language=self.novel.languageCode or '',
+            Country=self.novel.countryCode or '',
         )
         return sceneMapping
 
-- 
2.43.0


From 72cc00da0abe4e84452f7da7512628a84aaa6f8c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:13:08 +0000
Subject: [PATCH 48/59] fix: find the translations when a program is started
 from its own directory

---
 src/pywriter/pywriter_globals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/pywriter_globals.py b/src/pywriter/pywriter_globals.py
index 5e4eea7..5bf2534 100644
--- a/src/pywriter/pywriter_globals.py
+++ b/src/pywriter/pywriter_globals.py
@@ -25,7 +25,7 @@ class Error(Exception):
 
 
 #--- Initialize localization.
-LOCALE_PATH = f'{os.path.dirname(sys.argv[0])}/locale/'
+LOCALE_PATH = f'{os.path.dirname(sys.argv[0]) or "."}/locale/'
 try:
     CURRENT_LANGUAGE = locale.getlocale()[0][:2]
 except:
-- 
2.43.0


From 50a2f92b72eaa87393fe34ea7aa8d8680d047df8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:06:26 +0000
Subject: [PATCH 49/59] fix: forget deleted elements when a project is read
 again

---
 src/pywriter/yw/yw7_file.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 83bca0c..20d200d 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -1185,6 +1185,20 @@ class Yw7File(File):
     def _read_project(self, root):
         """Read attributes at project level from the xml element tree."""
         xmlProject = root.find('PROJECT')
+        self.novel.title = None
+        self.novel.authorName = None
+        self.novel.authorBio = None
+        self.novel.desc = None
+        self.novel.fieldTitle1 = None
+        self.novel.fieldTitle2 = None
+        self.novel.fieldTitle3 = None
+        self.novel.fieldTitle4 = None
+        self.novel.wordCountStart = None
+        self.novel.wordTarget = None
+        self.novel.languageCode = None
+        self.novel.countryCode = None
+        self.novel.languages = None
+        # This is necessary for re-reading.
 
         if xmlProject.find('Title') is not None:
             self.novel.title = xmlProject.find('Title').text
@@ -1242,6 +1256,7 @@ class Yw7File(File):
     def _read_locations(self, root):
         """Read locations from the xml element tree."""
         self.novel.srtLocations = []
+        self.novel.locations = {}
         # This is necessary for re-reading.
         for xmlLocation in root.find('LOCATIONS'):
             lcId = xmlLocation.find('ID').text
@@ -1279,6 +1294,7 @@ class Yw7File(File):
     def _read_items(self, root):
         """Read items from the xml element tree."""
         self.novel.srtItems = []
+        self.novel.items = {}
         # This is necessary for re-reading.
         for xmlItem in root.find('ITEMS'):
             itId = xmlItem.find('ID').text
@@ -1316,6 +1332,7 @@ class Yw7File(File):
     def _read_characters(self, root):
         """Read characters from the xml element tree."""
         self.novel.srtCharacters = []
+        self.novel.characters = {}
         # This is necessary for re-reading.
         for xmlCharacter in root.find('CHARACTERS'):
             crId = xmlCharacter.find('ID').text
@@ -1370,6 +1387,7 @@ class Yw7File(File):
     def _read_projectnotes(self, root):
         """Read project notes from the xml element tree."""
         self.novel.srtPrjNotes = []
+        self.novel.projectNotes = {}
         # This is necessary for re-reading.
 
         try:
@@ -1423,6 +1441,8 @@ class Yw7File(File):
 
     def _read_scenes(self, root):
         """ Read attributes at scene level from the xml element tree."""
+        self.novel.scenes = {}
+        # This is necessary for re-reading.
         for xmlScene in root.find('SCENES'):
             scId = xmlScene.find('ID').text
             self.novel.scenes[scId] = Scene()
@@ -1608,6 +1628,7 @@ class Yw7File(File):
     def _read_chapters(self, root):
         """Read attributes at chapter level from the xml element tree."""
         self.novel.srtChapters = []
+        self.novel.chapters = {}
         # This is necessary for re-reading.
         for xmlChapter in root.find('CHAPTERS'):
             chId = xmlChapter.find('ID').text
-- 
2.43.0


From 1b6605cf8e3bb1d3dc086c01fd55dd8075db66ab Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:26:48 +0000
Subject: [PATCH 50/59] fix: run on systems without a locale

---
 src/pywriter/model/novel.py      | 8 ++++++--
 src/pywriter/pywriter_globals.py | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/pywriter/model/novel.py b/src/pywriter/model/novel.py
index 06cab36..73b0a2c 100644
--- a/src/pywriter/model/novel.py
+++ b/src/pywriter/model/novel.py
@@ -178,8 +178,12 @@ class Novel(BasicElement):
             try:
                 sysLng, sysCtr = locale.getlocale()[0].split('_')
             except:
-                # Fallback for old Windows versions.
-                sysLng, sysCtr = locale.getdefaultlocale()[0].split('_')
+                try:
+                    # Fallback for old Windows versions.
+                    sysLng, sysCtr = locale.getdefaultlocale()[0].split('_')
+                except:
+                    # The system locale is "C" or "POSIX".
+                    sysLng, sysCtr = 'zxx', 'none'
             self.languageCode = sysLng
             self.countryCode = sysCtr
             return
diff --git a/src/pywriter/pywriter_globals.py b/src/pywriter/pywriter_globals.py
index 5bf2534..4ac7573 100644
--- a/src/pywriter/pywriter_globals.py
+++ b/src/pywriter/pywriter_globals.py
@@ -29,8 +29,12 @@ LOCALE_PATH = f'{os.path.dirname(sys.argv[0]) or "."}/locale/'
 try:
     CURRENT_LANGUAGE = locale.getlocale()[0][:2]
 except:
-    # Fallback for old Windows versions.
-    CURRENT_LANGUAGE = locale.getdefaultlocale()[0][:2]
+    try:
+        # Fallback for old Windows versions.
+        CURRENT_LANGUAGE = locale.getdefaultlocale()[0][:2]
+    except:
+        # The system locale is "C" or "POSIX".
+        CURRENT_LANGUAGE = 'en'
 try:
     t = gettext.translation('pywriter', LOCALE_PATH, languages=[CURRENT_LANGUAGE])
     _ = t.gettext
-- 
2.43.0


From 64f61fc567a3c9f93940c9c5bcf3edccc872ead9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:18:17 +0000
Subject: [PATCH 51/59] fix: keep the text after a comment nested in a footnote

---
 src/pywriter/odt_r/odt_parser.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index cb69501..6be7e6b 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -35,6 +35,8 @@ class OdtParser(sax.ContentHandler):
         self._commentParagraphCount = None
         self._commentLevel = 0
         # Comments may be nested in footnotes or endnotes.
+        self._commentBreak = False
+        # Indicates that the text after a nested comment begins a new line.
         self._blockquote = False
         self._list = False
         self._span = []
@@ -148,6 +150,10 @@ class OdtParser(sax.ContentHandler):
             if self._commentLevel == 0:
                 self._client.handle_comment(self._comment)
                 self._commentParagraphCount = None
+            else:
+                # Continue the paragraph the nested comment belongs to.
+                self._commentText = True
+                self._commentBreak = True
         elif name == 'text:h':
             self._client.handle_endtag(self._heading)
             self._heading = None
@@ -174,6 +180,7 @@ class OdtParser(sax.ContentHandler):
             if self._commentParagraphCount is not None:
                 self._commentParagraphCount += 1
                 self._commentText = True
+                self._commentBreak = False
                 if self._commentParagraphCount > 1:
                     self._comment = f'{self._comment}\n'
             elif style in self._blockquoteTags:
@@ -217,9 +224,10 @@ class OdtParser(sax.ContentHandler):
             self._client.handle_starttag('div', [('id', sectionId)])
         elif name in ('office:annotation', 'text:note'):
             self._commentLevel += 1
+            self._commentText = False
+            self._commentBreak = False
             if self._commentLevel == 1:
                 self._commentParagraphCount = 0
-                self._commentText = False
                 self._comment = ''
                 if name == 'text:note':
                     if xmlAttributes.get('text:note-class', None) == 'endnote':
@@ -270,6 +278,9 @@ class OdtParser(sax.ContentHandler):
 
         if self._commentParagraphCount is not None:
             if self._commentParagraphCount > 0 and self._commentText:
+                if self._commentBreak:
+                    self._comment = f'{self._comment}\n'
+                    self._commentBreak = False
                 self._comment = f'{self._comment}{content}'
         elif self._paragraph:
             self._client.handle_data(content)
-- 
2.43.0


From 5fc77ca4c44af7298264b19e8c800e428e6ff0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:18:17 +0000
Subject: [PATCH 52/59] fix: import lists with grouped rows or merged cells
 completely

---
 src/pywriter/ods_r/ods_parser.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/ods_r/ods_parser.py b/src/pywriter/ods_r/ods_parser.py
index 61786a7..b8ce9c2 100644
--- a/src/pywriter/ods_r/ods_parser.py
+++ b/src/pywriter/ods_r/ods_parser.py
@@ -52,11 +52,17 @@ class OdsParser:
         body = root.find('office:body', namespaces)
         spreadsheet = body.find('office:spreadsheet', namespaces)
         table = spreadsheet.find('table:table', namespaces)
+        cellTags = [f'{{{namespaces["table"]}}}{name}' for name in ('table-cell', 'covered-table-cell')]
+        # A merged cell covers other cells that keep their place in the row.
         rows = []
-        for row in table.findall('table:table-row', namespaces):
+        # Rows may be grouped, or be part of the page header.
+        for row in table.iterfind('.//table:table-row', namespaces):
             cells = []
             i = 0
-            for cell in row.findall('table:table-cell', namespaces):
+            for cell in row:
+                if not cell.tag in cellTags:
+                    continue
+
                 content = ''
                 if cell.find('text:p', namespaces) is not None:
                     paragraphs = []
-- 
2.43.0


From b0381b2047ddc34c5f8b84c87c7cae4addb89291 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:24:12 +0000
Subject: [PATCH 53/59] fix: keep the text that follows a text box in its
 paragraph

---
 src/pywriter/odt_r/odt_parser.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index 6be7e6b..fa015d5 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -38,6 +38,8 @@ class OdtParser(sax.ContentHandler):
         self._commentBreak = False
         # Indicates that the text after a nested comment begins a new line.
         self._blockquote = False
+        self._interrupted = []
+        # States of the paragraphs interrupted by paragraphs in text boxes.
         self._list = False
         self._span = []
         self._spanCounts = []
@@ -138,7 +140,8 @@ class OdtParser(sax.ContentHandler):
                     self._heading = None
                 else:
                     self._client.handle_endtag('p')
-                self._paragraph = False
+                (self._paragraph, self._heading, self._blockquote,
+                 self._span, self._spanCounts) = self._interrupted.pop()
         elif name == 'text:span':
             if self._commentParagraphCount is None and self._spanCounts:
                 for __ in range(self._spanCounts.pop()):
@@ -177,6 +180,14 @@ class OdtParser(sax.ContentHandler):
             param = [()]
             if style in self._languageTags:
                 param = [('lang', self._languageTags[style])]
+            if self._commentParagraphCount is None:
+                self._interrupted.append((self._paragraph, self._heading, self._blockquote,
+                                          self._span, self._spanCounts))
+                self._paragraph = False
+                self._heading = None
+                self._blockquote = False
+                self._span = []
+                self._spanCounts = []
             if self._commentParagraphCount is not None:
                 self._commentParagraphCount += 1
                 self._commentText = True
-- 
2.43.0


From b68c8c1eb7869208129e6a7b60f9e48548c4679d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:24:12 +0000
Subject: [PATCH 54/59] fix: do not import deleted text and descriptions of
 images

---
 src/pywriter/odt_r/odt_parser.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index fa015d5..cd76533 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -22,6 +22,8 @@ class OdtParser(sax.ContentHandler):
         startElement -- Signals the start of an element in non-namespace mode.
       
     """
+    _SKIPPED = ('text:tracked-changes', 'svg:title', 'svg:desc')
+    # Deleted text, and alternative texts of images.
 
     def __init__(self, client):
         super().__init__()
@@ -40,6 +42,8 @@ class OdtParser(sax.ContentHandler):
         self._blockquote = False
         self._interrupted = []
         # States of the paragraphs interrupted by paragraphs in text boxes.
+        self._skipLevel = 0
+        # Depth of the elements that do not belong to the text.
         self._list = False
         self._span = []
         self._spanCounts = []
@@ -125,6 +129,11 @@ class OdtParser(sax.ContentHandler):
         Overrides the xml.sax.ContentHandler method     
         """
         self._flush_text()
+        if name in self._SKIPPED:
+            self._skipLevel -= 1
+        elif self._skipLevel > 0:
+            return
+
         if name == 'text:p':
             if self._commentParagraphCount is not None:
                 self._commentText = False
@@ -171,6 +180,11 @@ class OdtParser(sax.ContentHandler):
         Overrides the xml.sax.ContentHandler method             
         """
         self._flush_text()
+        if name in self._SKIPPED:
+            self._skipLevel += 1
+        if self._skipLevel > 0:
+            return
+
         xmlAttributes = {}
         for attribute in attrs.items():
             attrKey, attrValue = attribute
@@ -284,7 +298,7 @@ class OdtParser(sax.ContentHandler):
         """Pass the buffered character data on."""
         content = ''.join(self._text)
         self._text = []
-        if not content:
+        if not content or self._skipLevel > 0:
             return
 
         if self._commentParagraphCount is not None:
-- 
2.43.0


From a8f96e120f96b263c0129ab1d4bbe42336aaa2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:56:14 +0000
Subject: [PATCH 55/59] fix: sections of the user's own ended the imported text

---
 src/pywriter/odt_r/odt_parser.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index cd76533..5d34332 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -24,6 +24,8 @@ class OdtParser(sax.ContentHandler):
     """
     _SKIPPED = ('text:tracked-changes', 'svg:title', 'svg:desc')
     # Deleted text, and alternative texts of images.
+    _SECTIONS = ('ChID', 'ScID', 'CrID', 'LcID', 'ItID')
+    # Prefixes of the names of the sections PyWriter knows; other sections are just text.
 
     def __init__(self, client):
         super().__init__()
@@ -44,6 +46,8 @@ class OdtParser(sax.ContentHandler):
         # States of the paragraphs interrupted by paragraphs in text boxes.
         self._skipLevel = 0
         # Depth of the elements that do not belong to the text.
+        self._sections = []
+        # Whether PyWriter knows each of the nested sections.
         self._list = False
         self._span = []
         self._spanCounts = []
@@ -156,7 +160,8 @@ class OdtParser(sax.ContentHandler):
                 for __ in range(self._spanCounts.pop()):
                     self._client.handle_endtag(self._span.pop())
         elif name == 'text:section':
-            self._client.handle_endtag('div')
+            if self._sections.pop():
+                self._client.handle_endtag('div')
         elif name in ('office:annotation', 'text:note'):
             self._commentLevel -= 1
             if self._commentLevel == 0:
@@ -246,7 +251,9 @@ class OdtParser(sax.ContentHandler):
                 self._spanCounts.append(len(self._span) - spanCount)
         elif name == 'text:section':
             sectionId = xmlAttributes['text:name']
-            self._client.handle_starttag('div', [('id', sectionId)])
+            self._sections.append(sectionId.startswith(self._SECTIONS))
+            if self._sections[-1]:
+                self._client.handle_starttag('div', [('id', sectionId)])
         elif name in ('office:annotation', 'text:note'):
             self._commentLevel += 1
             self._commentText = False
-- 
2.43.0


From 5ab50fc1d1e823929c6bb7345314d320b91acb4f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 05:01:48 +0000
Subject: [PATCH 56/59] fix: subheadings and quotations ran into the following
 line when imported

---
 src/pywriter/odt_r/odt_parser.py        | 21 +++++++++++++++----
 src/pywriter/odt_r/odt_r_chapterdesc.py |  4 ++--
 src/pywriter/odt_r/odt_r_characters.py  |  2 +-
 src/pywriter/odt_r/odt_r_import.py      | 27 +++++++++++++++++--------
 src/pywriter/odt_r/odt_r_items.py       |  2 +-
 src/pywriter/odt_r/odt_r_locations.py   |  2 +-
 src/pywriter/odt_r/odt_r_manuscript.py  |  7 ++++++-
 src/pywriter/odt_r/odt_r_outline.py     |  2 +-
 src/pywriter/odt_r/odt_r_proof.py       |  2 +-
 src/pywriter/odt_r/odt_r_scenedesc.py   |  2 +-
 src/pywriter/odt_r/odt_reader.py        |  2 ++
 11 files changed, 52 insertions(+), 21 deletions(-)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index 5d34332..81fec3d 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -218,7 +218,7 @@ class OdtParser(sax.ContentHandler):
                 self._paragraph = True
                 self._blockquote = True
             elif style.startswith('Heading'):
-                self._heading = f'h{style[-1]}'
+                self._heading = self._get_heading(style[-1])
                 self._client.handle_starttag(self._heading, [()])
             elif style in self._headingTags:
                 self._heading = self._headingTags[style]
@@ -268,9 +268,9 @@ class OdtParser(sax.ContentHandler):
                         self._comment = '@fn '
         elif name == 'text:h':
             try:
-                self._heading = f'h{xmlAttributes["text:outline-level"]}'
+                self._heading = self._get_heading(xmlAttributes["text:outline-level"])
             except:
-                self._heading = f'h{style[-1]}'
+                self._heading = self._get_heading(style[-1])
             self._client.handle_starttag(self._heading, [()])
         elif name == 'text:list-item':
             self._list = True
@@ -278,7 +278,7 @@ class OdtParser(sax.ContentHandler):
             self._style = xmlAttributes.get('style:name', None)
             styleName = xmlAttributes.get('style:parent-style-name', '')
             if styleName.startswith('Heading'):
-                self._headingTags[self._style] = f'h{styleName[-1]}'
+                self._headingTags[self._style] = self._get_heading(styleName[-1])
             elif styleName == 'Quotations':
                 self._blockquoteTags.append(self._style)
         elif name == 'style:text-properties':
@@ -301,6 +301,19 @@ class OdtParser(sax.ContentHandler):
                 else:
                     self._client.handle_starttag('s', [()])
 
+    def _get_heading(self, level):
+        """Return the tag of a heading.
+        
+        Positional arguments:
+            level: str -- outline level.
+        
+        All headings without a meaning for the document structure have the same tag.
+        """
+        if level in ('1', '2', '3'):
+            return f'h{level}'
+        else:
+            return 'h4'
+
     def _flush_text(self):
         """Pass the buffered character data on."""
         content = ''.join(self._text)
diff --git a/src/pywriter/odt_r/odt_r_chapterdesc.py b/src/pywriter/odt_r/odt_r_chapterdesc.py
index d565276..c0b9201 100644
--- a/src/pywriter/odt_r/odt_r_chapterdesc.py
+++ b/src/pywriter/odt_r/odt_r_chapterdesc.py
@@ -33,12 +33,12 @@ class OdtRChapterDesc(OdtReader):
                 self.novel.chapters[self._chId].desc = ''.join(self._lines).rstrip()
                 self._lines = []
                 self._chId = None
-            elif tag == 'p':
-                self._lines.append('\n')
             elif tag == 'h1' or tag == 'h2':
                 if not self.novel.chapters[self._chId].title:
                     self.novel.chapters[self._chId].title = ''.join(self._lines).strip()
                 self._lines = []
+            elif tag in self._PARAGRAPH_TAGS:
+                self._lines.append('\n')
 
     def handle_data(self, data):
         """Collect data within chapter sections.
diff --git a/src/pywriter/odt_r/odt_r_characters.py b/src/pywriter/odt_r/odt_r_characters.py
index 39fbd88..6931917 100644
--- a/src/pywriter/odt_r/odt_r_characters.py
+++ b/src/pywriter/odt_r/odt_r_characters.py
@@ -74,7 +74,7 @@ class OdtRCharacters(OdtReader):
                     self.novel.characters[self._crId].notes = ''.join(self._lines).rstrip()
                     self._lines = []
                     self._section = None
-            elif tag == 'p':
+            elif tag in self._PARAGRAPH_TAGS:
                 self._lines.append('\n')
 
     def handle_starttag(self, tag, attrs):
diff --git a/src/pywriter/odt_r/odt_r_import.py b/src/pywriter/odt_r/odt_r_import.py
index 57bc9a4..08c0fed 100644
--- a/src/pywriter/odt_r/odt_r_import.py
+++ b/src/pywriter/odt_r/odt_r_import.py
@@ -81,6 +81,7 @@ class OdtRImport(OdtRFormatted):
         """
         if self._scId is not None and self._SCENE_DIVIDER in data:
             self._scId = None
+            self._lines = []
         else:
             self._lines.append(data)
 
@@ -92,7 +93,11 @@ class OdtRImport(OdtRFormatted):
 
         Overrides the superclass method.
         """
-        if tag in ('p', 'blockquote'):
+        if tag == 'h4' and self._scId is None and self._chId is not None:
+            # Begin a new scene with a heading of a lower level.
+            if ''.join(self._lines).strip() not in ('', self._SCENE_DIVIDER):
+                self._add_scene()
+        if tag in ('p', 'blockquote', 'h4'):
             if self._language:
                 self._lines.append(f'[/lang={self._language}]')
                 self._language = ''
@@ -135,13 +140,9 @@ class OdtRImport(OdtRFormatted):
             # Begin a new scene, if necessary.
             if self._scId is None and self._chId is not None:
                 self._lines = []
-                self._scCount += 1
-                self._scId = str(self._scCount)
-                self.novel.scenes[self._scId] = Scene()
-                self.novel.chapters[self._chId].srtScenes.append(self._scId)
-                self.novel.scenes[self._scId].status = 1
-                self.novel.scenes[self._scId].scType = 0
-                self.novel.scenes[self._scId].title = f'{_("Scene")} {self._scCount}'
+                self._add_scene()
+        elif tag == 'h4' and self._scId is None:
+            self._lines = []
         if tag == 'p':
             try:
                 if attrs[0][0] == 'lang':
@@ -208,6 +209,16 @@ class OdtRImport(OdtRFormatted):
         elif tag == 's':
             self._lines.append(' ')
 
+    def _add_scene(self):
+        """Append a new scene to the current chapter."""
+        self._scCount += 1
+        self._scId = str(self._scCount)
+        self.novel.scenes[self._scId] = Scene()
+        self.novel.chapters[self._chId].srtScenes.append(self._scId)
+        self.novel.scenes[self._scId].status = 1
+        self.novel.scenes[self._scId].scType = 0
+        self.novel.scenes[self._scId].title = f'{_("Scene")} {self._scCount}'
+
     def read(self):
         """Parse the file and get the instance variables.
         
diff --git a/src/pywriter/odt_r/odt_r_items.py b/src/pywriter/odt_r/odt_r_items.py
index bf4ef44..7e6b478 100644
--- a/src/pywriter/odt_r/odt_r_items.py
+++ b/src/pywriter/odt_r/odt_r_items.py
@@ -60,7 +60,7 @@ class OdtRItems(OdtReader):
                 self.novel.items[self._itId].desc = ''.join(self._lines).rstrip()
                 self._lines = []
                 self._itId = None
-            elif tag == 'p':
+            elif tag in self._PARAGRAPH_TAGS:
                 self._lines.append('\n')
 
     def handle_starttag(self, tag, attrs):
diff --git a/src/pywriter/odt_r/odt_r_locations.py b/src/pywriter/odt_r/odt_r_locations.py
index 3f7f2f4..1a032a2 100644
--- a/src/pywriter/odt_r/odt_r_locations.py
+++ b/src/pywriter/odt_r/odt_r_locations.py
@@ -60,7 +60,7 @@ class OdtRLocations(OdtReader):
                 self.novel.locations[self._lcId].desc = ''.join(self._lines).rstrip()
                 self._lines = []
                 self._lcId = None
-            elif tag == 'p':
+            elif tag in self._PARAGRAPH_TAGS:
                 self._lines.append('\n')
 
     def handle_starttag(self, tag, attrs):
diff --git a/src/pywriter/odt_r/odt_r_manuscript.py b/src/pywriter/odt_r/odt_r_manuscript.py
index 99c9e14..16cfd0f 100644
--- a/src/pywriter/odt_r/odt_r_manuscript.py
+++ b/src/pywriter/odt_r/odt_r_manuscript.py
@@ -55,7 +55,8 @@ class OdtRManuscript(OdtRFormatted):
         Overrides the superclass method.
         """
         if self._skip_data:
-            self._skip_data = False
+            # Scene title
+            pass
         elif self._scId is not None:
             if not (data.isspace() and '\n' in data):
                 self._lines.append(data)
@@ -94,6 +95,10 @@ class OdtRManuscript(OdtRFormatted):
                 self._lines.append('\n')
             elif tag == 'h2':
                 self._lines.append('\n')
+            elif tag == 'h3':
+                self._skip_data = False
+            elif tag == 'h4':
+                self._lines.append('\n')
         elif self._chId is not None:
             if tag == 'div':
                 self._chId = None
diff --git a/src/pywriter/odt_r/odt_r_outline.py b/src/pywriter/odt_r/odt_r_outline.py
index a6c5d21..1f7a78a 100644
--- a/src/pywriter/odt_r/odt_r_outline.py
+++ b/src/pywriter/odt_r/odt_r_outline.py
@@ -64,7 +64,7 @@ class OdtROutline(OdtReader):
         Overrides the superclass method.
         """
         text = ''.join(self._lines)
-        if tag == 'p':
+        if tag in ('p', 'blockquote', 'h4'):
             text = f'{text.strip()}\n'
             self._lines = [text]
             if self._scId is not None:
diff --git a/src/pywriter/odt_r/odt_r_proof.py b/src/pywriter/odt_r/odt_r_proof.py
index 97b05b6..d7827ad 100644
--- a/src/pywriter/odt_r/odt_r_proof.py
+++ b/src/pywriter/odt_r/odt_r_proof.py
@@ -56,7 +56,7 @@ class OdtRProof(OdtRFormatted):
 
         Overrides the superclass method.
         """
-        if tag in ['p', 'h2', 'h1', 'blockquote']:
+        if tag in self._PARAGRAPH_TAGS:
             self._lines.append('\n')
             if self._language:
                 self._lines.append(f'[/lang={self._language}]')
diff --git a/src/pywriter/odt_r/odt_r_scenedesc.py b/src/pywriter/odt_r/odt_r_scenedesc.py
index 66190b2..3bb8f2a 100644
--- a/src/pywriter/odt_r/odt_r_scenedesc.py
+++ b/src/pywriter/odt_r/odt_r_scenedesc.py
@@ -58,7 +58,7 @@ class OdtRSceneDesc(OdtReader):
                 self.novel.scenes[self._scId].desc = text.rstrip()
                 self._lines = []
                 self._scId = None
-            elif tag == 'p':
+            elif tag in self._PARAGRAPH_TAGS:
                 self._lines.append('\n')
         elif self._chId is not None:
             if tag == 'div':
diff --git a/src/pywriter/odt_r/odt_reader.py b/src/pywriter/odt_r/odt_reader.py
index 4d64524..4874dca 100644
--- a/src/pywriter/odt_r/odt_reader.py
+++ b/src/pywriter/odt_r/odt_reader.py
@@ -36,6 +36,8 @@ class OdtReader(File, ABC):
     _SC_TITLE_BRACKET = '~'
     _BULLET = '-'
     _INDENT = '>'
+    _PARAGRAPH_TAGS = ('p', 'blockquote', 'h1', 'h2', 'h3', 'h4')
+    # All of them end a line.
 
     def __init__(self, filePath, **kwargs):
         """Initialize the ODT parser and local instance variables for parsing.
-- 
2.43.0


From cc34604b2381a5fab0e6f2794f88cda7d18095e5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 07:11:18 +0000
Subject: [PATCH 57/59] fix: do not count the words of comments that go over
 several lines

---
 src/pywriter/model/scene.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/model/scene.py b/src/pywriter/model/scene.py
index 132252a..ff07850 100644
--- a/src/pywriter/model/scene.py
+++ b/src/pywriter/model/scene.py
@@ -14,11 +14,11 @@ from pywriter.pywriter_globals import *
 ADDITIONAL_WORD_LIMITS = re.compile(r'--|—|–')
 # this is to be replaced by spaces, thus making dashes and dash replacements word limits
 
-NO_WORD_LIMITS = re.compile(r'\[.+?\]|\/\*.+?\*\/|-|^\>', re.MULTILINE)
+NO_WORD_LIMITS = re.compile(r'\[.+?\]|\/\*(?s:.+?)\*\/|-|^\>', re.MULTILINE)
 # this is to be replaced by empty strings, thus excluding markup and comments from
 # word counting, and making hyphens join words
 
-NON_LETTERS = re.compile(r'\[.+?\]|\/\*.+?\*\/|\n|\r')
+NON_LETTERS = re.compile(r'\[.+?\]|\/\*(?s:.+?)\*\/|\n|\r')
 # this is to be replaced by empty strings, thus excluding markup, comments, and linefeeds
 # from letter counting
 
-- 
2.43.0


From cf7b9149b2c8d5d44f717b4d43e6be0f12aeb04b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 08:14:17 +0000
Subject: [PATCH 58/59] fix: do not save references to deleted characters,
 locations, and items

---
 src/pywriter/yw/yw7_file.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 20d200d..ee8921a 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -523,27 +523,33 @@ class Yw7File(File):
             except:
                 pass
             if prjScn.characters:
-                xmlCharacters = ET.SubElement(xmlScene, 'Characters')
-                for crId in prjScn.characters:
-                    ET.SubElement(xmlCharacters, 'CharID').text = crId
+                scCharacters = [crId for crId in prjScn.characters if crId in self.novel.srtCharacters]
+                if scCharacters:
+                    xmlCharacters = ET.SubElement(xmlScene, 'Characters')
+                    for crId in scCharacters:
+                        ET.SubElement(xmlCharacters, 'CharID').text = crId
 
             try:
                 xmlScene.remove(xmlScene.find('Locations'))
             except:
                 pass
             if prjScn.locations:
-                xmlLocations = ET.SubElement(xmlScene, 'Locations')
-                for lcId in prjScn.locations:
-                    ET.SubElement(xmlLocations, 'LocID').text = lcId
+                scLocations = [lcId for lcId in prjScn.locations if lcId in self.novel.srtLocations]
+                if scLocations:
+                    xmlLocations = ET.SubElement(xmlScene, 'Locations')
+                    for lcId in scLocations:
+                        ET.SubElement(xmlLocations, 'LocID').text = lcId
 
             try:
                 xmlScene.remove(xmlScene.find('Items'))
             except:
                 pass
             if prjScn.items:
-                xmlItems = ET.SubElement(xmlScene, 'Items')
-                for ItId in prjScn.items:
-                    ET.SubElement(xmlItems, 'ItemID').text = ItId
+                scItems = [ItId for ItId in prjScn.items if ItId in self.novel.srtItems]
+                if scItems:
+                    xmlItems = ET.SubElement(xmlScene, 'Items')
+                    for ItId in scItems:
+                        ET.SubElement(xmlItems, 'ItemID').text = ItId
 
         def build_chapter_subtree(xmlChapter, prjChp):
             # This is how yWriter 7.1.3.0 writes the chapter type:
-- 
2.43.0


From 35d9cf6eaa442d4fe555e8611746a0c0e732f5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 08:38:55 +0000
Subject: [PATCH 59/59] fix: do not import an element twice if its row is
 copied in a list

---
 src/pywriter/ods_r/ods_r_charlist.py | 3 ++-
 src/pywriter/ods_r/ods_r_itemlist.py | 3 ++-
 src/pywriter/ods_r/ods_r_loclist.py  | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pywriter/ods_r/ods_r_charlist.py b/src/pywriter/ods_r/ods_r_charlist.py
index 22a35d2..6d32db8 100644
--- a/src/pywriter/ods_r/ods_r_charlist.py
+++ b/src/pywriter/ods_r/ods_r_charlist.py
@@ -32,7 +32,8 @@ class OdsRCharList(OdsReader):
         for cells in self._rows:
             if 'CrID:' in cells[0]:
                 crId = re.search(r'CrID\:([0-9]+)', cells[0]).group(1)
-                self.novel.srtCharacters.append(crId)
+                if not crId in self.novel.srtCharacters:
+                    self.novel.srtCharacters.append(crId)
                 if not crId in self.novel.characters:
                     self.novel.characters[crId] = Character()
                 if self.novel.characters[crId].title or cells[1]:
diff --git a/src/pywriter/ods_r/ods_r_itemlist.py b/src/pywriter/ods_r/ods_r_itemlist.py
index 19fa282..4a01997 100644
--- a/src/pywriter/ods_r/ods_r_itemlist.py
+++ b/src/pywriter/ods_r/ods_r_itemlist.py
@@ -32,7 +32,8 @@ class OdsRItemList(OdsReader):
         for cells in self._rows:
             if 'ItID:' in cells[0]:
                 itId = re.search(r'ItID\:([0-9]+)', cells[0]).group(1)
-                self.novel.srtItems.append(itId)
+                if not itId in self.novel.srtItems:
+                    self.novel.srtItems.append(itId)
                 if not itId in self.novel.items:
                     self.novel.items[itId] = WorldElement()
                 if self.novel.items[itId].title or cells[1]:
diff --git a/src/pywriter/ods_r/ods_r_loclist.py b/src/pywriter/ods_r/ods_r_loclist.py
index 1854250..8ca8ace 100644
--- a/src/pywriter/ods_r/ods_r_loclist.py
+++ b/src/pywriter/ods_r/ods_r_loclist.py
@@ -32,7 +32,8 @@ class OdsRLocList(OdsReader):
         for cells in self._rows:
             if 'LcID:' in cells[0]:
                 lcId = re.search(r'LcID\:([0-9]+)', cells[0]).group(1)
-                self.novel.srtLocations.append(lcId)
+                if not lcId in self.novel.srtLocations:
+                    self.novel.srtLocations.append(lcId)
                 if not lcId in self.novel.locations:
                     self.novel.locations[lcId] = WorldElement()
                 if self.novel.locations[lcId].title or cells[1]:
-- 
2.43.0

