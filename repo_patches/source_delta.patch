From e00d68379ffc0c78fa36bca5e9d69b6b7c01fbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:04:52 +0000
Subject: [PATCH 01/42] fix: do not change the compiled program when inserting
 structure

tal:replace="structure ..." combined with tal:attributes deleted the
replaced attributes from the dictionary kept in the compiled program.  The
attributes were only replaced the first time the element was rendered, not
in later iterations of a tal:repeat or later renderings.
---
 src/zope/tal/talgenerator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index e3d29bb..b9fa4a7 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -464,6 +464,8 @@ class TALGenerator:
         # (name, value, action, expr, xlat, msgid)
         if not repldict:
             return attrlist
+        # The dictionary may be part of a compiled program: leave it alone.
+        repldict = repldict.copy()
         newlist = []
         for item in attrlist:
             key = item[0]
-- 
2.43.0


From f65122f19917a9655c3d7817d6003affb07c3123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:04:54 +0000
Subject: [PATCH 02/42] fix: compile empty XML elements of the TAL namespaces
 without attributes

The start tag of such an element had already been optimized to plain text
when it was turned into an empty-element tag, and rendering the result
raised a TypeError.
---
 src/zope/tal/talgenerator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index b9fa4a7..d412401 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -255,11 +255,11 @@ class TALGenerator:
 
     def emitOptTag(self, name, optTag, isend):
         program = self.popProgram()  # block
-        start = self.popProgram()  # start tag
         if (isend or not program) and self.xml:
             # Minimize empty element
-            start[-1] = ("startEndTag",) + start[-1][1:]
+            self.program[-1] = ("startEndTag",) + self.program[-1][1:]
             isend = 1
+        start = self.popProgram()  # start tag
         cexpr = optTag[0]
         if cexpr:
             cexpr = self.compileExpression(optTag[0])
-- 
2.43.0


From 2a0bc371c9584c69df782318f669c0774748d7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:04:56 +0000
Subject: [PATCH 03/42] fix: leave the translation unit when i18n:translate
 meets tal:content

The nesting level of translation units was only decremented for elements
without tal:content or tal:replace.  A later i18n:name outside of any
translation unit was then accepted, and failed with an IndexError while
rendering.
---
 src/zope/tal/talgenerator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index d412401..6b5674b 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -792,6 +792,7 @@ class TALGenerator:
         # in case tal:content, i18n:translate and i18n:name in the same tag
         if not content and msgid is not None:
             self.emitTranslation(msgid, i18ndata)
+        if msgid is not None:
             self.i18nLevel -= 1
         if optTag:
             self.emitOptTag(name, optTag, isend)
-- 
2.43.0


From 23b70b177f54aeef585a65f19077f12540c08b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:04:58 +0000
Subject: [PATCH 04/42] fix: forget a translation unit when its content raises
 an error

With tal:on-error inside of an outer translation unit, names given with
i18n:name after the caught error were recorded for the failed inner unit
instead of the outer one.
---
 src/zope/tal/talinterpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 33187f8..6070fc4 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -731,6 +731,7 @@ class TALInterpreter:
             self.interpret(stuff[1])
         finally:
             self.popStream()
+            self.i18nStack.pop()
         # We only care about the evaluated contents if we need an implicit
         # message id.  All other useful information will be in the i18ndict on
         # the top of the i18nStack.
@@ -740,7 +741,6 @@ class TALInterpreter:
                 msgid = default
             else:
                 msgid = normalize(default)
-        self.i18nStack.pop()
         # See if there is was an i18n:data for msgid
         if len(stuff) > 2:
             obj = self.engine.evaluate(stuff[2])
-- 
2.43.0


From 8e5dab89b497b170e11d1a10ccc2e72d6e14dcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:00 +0000
Subject: [PATCH 05/42] fix: leave a macro when it raises an error

An error inside of a macro that was handled by tal:on-error left the macro
on the stack of active macros.  Slots of enclosing macros were then filled
from the failed use, and repeated errors exceeded the nesting limit.
---
 src/zope/tal/talinterpreter.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 6070fc4..3d3c3f9 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -884,8 +884,10 @@ class TALInterpreter:
         (macroName, macro) = stuff
         wasInUse = self.inUseDirective
         self.inUseDirective = False
-        self.interpret(macro)
-        self.inUseDirective = wasInUse
+        try:
+            self.interpret(macro)
+        finally:
+            self.inUseDirective = wasInUse
     bytecode_handlers["defineMacro"] = do_defineMacro
 
     def do_useMacro(self, stuff,
@@ -916,13 +918,15 @@ class TALInterpreter:
         prev_source = self.sourceFile
         wasInUse = self.inUseDirective
         self.inUseDirective = True
-        self.interpret(macro)
-        self.inUseDirective = wasInUse
+        try:
+            self.interpret(macro)
+        finally:
+            self.inUseDirective = wasInUse
+            self.popMacro()
 
         if self.sourceFile != prev_source:
             self.engine.setSourceFile(prev_source)
             self.sourceFile = prev_source
-        self.popMacro()
         # Push the outer macroname again.
         self.engine.setLocal('macroname', outer)
     bytecode_handlers["useMacro"] = do_useMacro
-- 
2.43.0


From 26caed4983cf88ea0d6c45dddbbdb875580dc0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:02 +0000
Subject: [PATCH 06/42] fix: stay in XML mode after inserting structure in an
 XML template

The inserted fragment was compiled in HTML mode.  Interpreting it switched
the interpreter to HTML for the rest of the template, so that the next
inserted structure was parsed as HTML, lower-casing its tags.
---
 src/zope/tal/talinterpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 3d3c3f9..c6aef54 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -809,7 +809,7 @@ class TALInterpreter:
 
     def insertXMLStructure(self, text, repldict):
         from zope.tal.talparser import TALParser
-        gen = AltTALGenerator(repldict, self.engine, 0)
+        gen = AltTALGenerator(repldict, self.engine, 1)
         p = TALParser(gen)
         gen.enable(0)
         p.parseFragment('<!DOCTYPE foo PUBLIC "foo" "bar"><foo>')
-- 
2.43.0


From 7ae6135730898bdb9aa925fc9cc703c9004b72d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:04 +0000
Subject: [PATCH 07/42] fix: report differing defaults when one of them is the
 message id

A message whose default equals its message id has no separate default.
Extracting the same message id with another default raised an
AttributeError instead of the warning.
---
 src/zope/tal/talgettext.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/zope/tal/talgettext.py b/src/zope/tal/talgettext.py
index 08f621b..c7483c0 100644
--- a/src/zope/tal/talgettext.py
+++ b/src/zope/tal/talgettext.py
@@ -123,8 +123,9 @@ class POEngine(DummyEngine):
                     (msgid.encode('utf-8'),
                      self.file.encode('utf-8') + b':'
                      + str(position).encode('utf-8'),
-                     msgid.default.encode('utf-8'),
-                     existing_msgid.default.encode('utf-8'),
+                     (msgid.default or msgid).encode('utf-8'),
+                     (existing_msgid.default
+                      or existing_msgid).encode('utf-8'),
                      references.encode('utf-8')))
         domain[msgid].append((self.file, position))
         return 'x'
-- 
2.43.0


From 67aba2a575e249de593253accf0b0ae6852a150e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:06 +0000
Subject: [PATCH 08/42] fix: keep marked sections of HTML templates in the
 output

Sections such as <![if IE]> and <![CDATA[...]]> were silently dropped.
---
 src/zope/tal/htmltalparser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/zope/tal/htmltalparser.py b/src/zope/tal/htmltalparser.py
index 1dd632a..b1734ba 100644
--- a/src/zope/tal/htmltalparser.py
+++ b/src/zope/tal/htmltalparser.py
@@ -300,6 +300,11 @@ class HTMLTALParser(HTMLParser):
     def handle_pi(self, data):
         self.gen.emitRawText("<?%s>" % data)
 
+    def unknown_decl(self, data):
+        # Marked sections: <![CDATA[...]]>, <![if ...]>, <![endif]>
+        end = "]]>" if "[" in data else "]>"
+        self.gen.emitRawText(f"<![{data}{end}")
+
     # Internal thingies
 
     def scan_xmlns(self, attrs):
-- 
2.43.0


From 4b7e8d3cba9796f07c31a4c3f61e7840c400434d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:19:20 +0000
Subject: [PATCH 09/42] fix: escape the ampersand of a hexadecimal reference
 without digits

The attribute value &#x; was written unchanged although it is not a
character reference, which made the output of XML templates malformed.
---
 src/zope/tal/taldefs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/taldefs.py b/src/zope/tal/taldefs.py
index 1a7331d..22f5901 100644
--- a/src/zope/tal/taldefs.py
+++ b/src/zope/tal/taldefs.py
@@ -208,7 +208,7 @@ def getProgramVersion(program):
 
 _ent1_re = re.compile('&(?![A-Z#])', re.I)
 _entch_re = re.compile('&([A-Z][A-Z0-9]*)(?![A-Z0-9;])', re.I)
-_entn1_re = re.compile('&#(?![0-9X])', re.I)
+_entn1_re = re.compile('&#(?![0-9]|X[A-F0-9])', re.I)
 _entnx_re = re.compile('&(#X[A-F0-9]*)(?![A-F0-9;])', re.I)
 _entnd_re = re.compile('&(#[0-9][0-9]*)(?![0-9;])')
 
-- 
2.43.0


From fef81feebb72a0bef7d782befa3a94959096ef94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:47:35 +0000
Subject: [PATCH 10/42] fix: report the repeated element's position in every
 iteration

In the second and later iterations of tal:repeat the expressions on the
repeated element itself were evaluated with the position of the last element
inside it.
---
 src/zope/tal/talinterpreter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index c6aef54..ad2ea9d 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -841,9 +841,13 @@ class TALInterpreter:
 
     def do_loop_tal(self, stuff):
         (name, expr, block) = stuff
+        position = self.position
         iterator = self.engine.setRepeat(name, expr)
         while next(iterator):
             self.interpret(block)
+            # The block may have moved on to an element inside.
+            if self.position != position:
+                self.do_setPosition(position)
     bytecode_handlers["loop"] = do_loop
 
     def translate(self, msgid, default=None, i18ndict=None,
-- 
2.43.0


From d790eb5e6c50f5ab7fd3a335a5cb6e8b686c1141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:47:37 +0000
Subject: [PATCH 11/42] fix: count the columns of a translation, not of its
 source text

After a translation unit the output column was that of the untranslated
content, so that attributes of the following tags were wrapped too early or
too late.
---
 src/zope/tal/talinterpreter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index ad2ea9d..4a6d607 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -725,6 +725,7 @@ class TALInterpreter:
         # Use a temporary stream to capture the interpretation of the
         # subnodes, which should /not/ go to the output stream.
         currentTag = self._currentTag
+        col = self.col
         tmpstream = self.StringIO()
         self.pushStream(tmpstream)
         try:
@@ -732,6 +733,7 @@ class TALInterpreter:
         finally:
             self.popStream()
             self.i18nStack.pop()
+            self.col = col
         # We only care about the evaluated contents if we need an implicit
         # message id.  All other useful information will be in the i18ndict on
         # the top of the i18nStack.
@@ -751,7 +753,7 @@ class TALInterpreter:
         # translations.  OTOH, for implicit interpolation values, we don't
         # want to escape stuff like ${name} <= "<b>Timmy</b>".
         assert xlated_msgid is not None
-        self._stream_write(xlated_msgid)
+        self.stream_write(xlated_msgid)
     bytecode_handlers['insertTranslation'] = do_insertTranslation
 
     def do_insertStructure(self, stuff):
-- 
2.43.0


From b28b2de11b7ff30da41e1ac385458d7088c5da08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:54:06 +0000
Subject: [PATCH 12/42] fix: count the columns of the placeholder of a named
 part

Attributes of tags following an i18n:name element in a translation unit were
wrapped as if nothing stood in its place.
---
 src/zope/tal/talinterpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 4a6d607..d630e92 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -707,7 +707,7 @@ class TALInterpreter:
         i18ndict[varname] = value
         placeholder = '${%s}' % varname
         srepr.append(placeholder)
-        self._stream_write(placeholder)
+        self.stream_write(placeholder)
     bytecode_handlers['i18nVariable'] = do_i18nVariable
 
     def do_insertTranslation(self, stuff):
-- 
2.43.0


From 5908487403b6a09c6db32474e4992d660518c7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:54:08 +0000
Subject: [PATCH 13/42] fix: count the columns of the output of code, not of
 the code

After a server-side script or tal:script the output column was that of the
code, so that attributes of the following tags were wrapped at the wrong
place.
---
 src/zope/tal/talinterpreter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index d630e92..416677b 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -826,15 +826,17 @@ class TALInterpreter:
         lang, program = stuff
         # Use a temporary stream to capture the interpretation of the
         # subnodes, which should /not/ go to the output stream.
+        col = self.col
         tmpstream = self.StringIO()
         self.pushStream(tmpstream)
         try:
             self.interpret(program)
         finally:
             self.popStream()
+            self.col = col
         code = tmpstream.getvalue()
         output = self.engine.evaluateCode(lang, code)
-        self._stream_write(output)
+        self.stream_write(output)
     bytecode_handlers["evaluateCode"] = do_evaluateCode
 
     def do_loop(self, stuff):
-- 
2.43.0


From 74e74f4edc720848801d4c5b49025e4ed67bfb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:56:27 +0000
Subject: [PATCH 14/42] fix: report the position of errors in tal:attributes

Bad syntax and duplicate names in tal:attributes were reported without line
and column, unlike errors in all other statements.
---
 src/zope/tal/taldefs.py      | 7 ++++---
 src/zope/tal/talgenerator.py | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/zope/tal/taldefs.py b/src/zope/tal/taldefs.py
index 22f5901..d1e5ce1 100644
--- a/src/zope/tal/taldefs.py
+++ b/src/zope/tal/taldefs.py
@@ -138,17 +138,18 @@ _attr_re = re.compile(r"\s*([^\s]+)\s+([^\s].*)\Z", re.S)
 _subst_re = re.compile(r"\s*(?:(text|structure)\s+)?(.*)\Z", re.S)
 
 
-def parseAttributeReplacements(arg, xml):
+def parseAttributeReplacements(arg, xml, position=(None, None)):
     attr_dict = {}
     for part in splitParts(arg):
         m = _attr_re.match(part)
         if not m:
-            raise TALError("Bad syntax in attributes: %r" % part)
+            raise TALError("Bad syntax in attributes: %r" % part, position)
         name, expr = m.groups()
         if not xml:
             name = name.lower()
         if name in attr_dict:
-            raise TALError("Duplicate attribute name in attributes: %r" % part)
+            raise TALError("Duplicate attribute name in attributes: %r" % part,
+                           position)
         attr_dict[name] = expr
     return attr_dict
 
diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index 6b5674b..5be6d34 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -691,7 +691,8 @@ class TALGenerator:
         if attrsubst or i18nattrs:
             if attrsubst:
                 repldict = taldefs.parseAttributeReplacements(attrsubst,
-                                                              self.xml)
+                                                              self.xml,
+                                                              position)
             else:
                 repldict = {}
             if i18nattrs:
-- 
2.43.0


From fb1fa22e2a6bd7ceb074ad10f1fe0bb316de381c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:06:13 +0000
Subject: [PATCH 15/42] fix: an element that declares the default translation
 domain gets it

Inside an element with another domain, i18n:domain="default" had no
effect: messages of the element were translated in the outer domain.
---
 src/zope/tal/talgenerator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index 5be6d34..c0d142f 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -629,7 +629,8 @@ class TALGenerator:
             domain = i18ndict.get("domain") or self.i18nContext.domain
             source = i18ndict.get("source") or self.i18nContext.source
             target = i18ndict.get("target") or self.i18nContext.target
-            if (domain != DEFAULT_DOMAIN
+            if (i18ndict.get("domain")
+                or domain != DEFAULT_DOMAIN
                 or source is not None
                     or target is not None):
                 self.i18nContext = TranslationContext(self.i18nContext,
-- 
2.43.0


From 8333e792b7f06f11356ffa0c2be7ab09baeb34eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:10:12 +0000
Subject: [PATCH 16/42] fix: write xmlns="" of XML templates with its value

The declaration came out as a bare xmlns, which is not XML.
---
 src/zope/tal/talparser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talparser.py b/src/zope/tal/talparser.py
index 38c740b..a8db3b7 100644
--- a/src/zope/tal/talparser.py
+++ b/src/zope/tal/talparser.py
@@ -117,7 +117,8 @@ class TALParser(XMLParser):
             if uri in self._namespaces:
                 item = (key, uri, "xmlns")
             else:
-                item = (key, uri)
+                # No URI: the declaration takes back the default namespace
+                item = (key, uri or "")
             newlist.append(item)
         self.nsNew = []
         return newlist
-- 
2.43.0


From 507dc6aa88122c3391f521fc98843472a0ae000a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:11:44 +0000
Subject: [PATCH 17/42] fix: keep the prefixes of names in XML templates

With two prefixes bound to one namespace all names came out with the last
one, or without a prefix.  An attribute without a prefix is in no namespace.
---
 src/zope/tal/talparser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/zope/tal/talparser.py b/src/zope/tal/talparser.py
index a8db3b7..8ffac5e 100644
--- a/src/zope/tal/talparser.py
+++ b/src/zope/tal/talparser.py
@@ -41,6 +41,8 @@ class TALParser(XMLParser):
             code generator to use. If one is not given, a default will be used.
         """
         XMLParser.__init__(self, encoding)
+        # Names are given as "uri name prefix"
+        self.parser.namespace_prefixes = 1
         if gen is None:
             gen = TALGenerator()
         self.gen = gen
@@ -125,8 +127,9 @@ class TALParser(XMLParser):
 
     def fixname(self, name):
         if ' ' in name:
-            uri, name = name.split(' ', 1)
-            prefix = self.nsDict[uri]
+            # The prefix is the one used in the source: several may be bound
+            # to the same URI.
+            uri, name, prefix = (name + '  ').split(' ')[:3]
             prefixed = name
             if prefix:
                 prefixed = f"{prefix}:{name}"
-- 
2.43.0


From 875251e137b8aa896706e210350025bfe5842266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:15:00 +0000
Subject: [PATCH 18/42] fix: keep a bracket at the end of an inserted XML
 structure

The parser holds back a closing bracket or a carriage return until it sees
the next character.  That came when output was already switched off.
---
 src/zope/tal/talinterpreter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 416677b..19d846e 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -816,9 +816,11 @@ class TALInterpreter:
         gen.enable(0)
         p.parseFragment('<!DOCTYPE foo PUBLIC "foo" "bar"><foo>')
         gen.enable(1)
-        p.parseFragment(text)  # Raises an exception if text is invalid
+        # The parser keeps back a "]" or a carriage return at the end until it
+        # sees what follows.
+        p.parseFragment(text + '<')  # Raises an exception if text is invalid
         gen.enable(0)
-        p.parseFragment('</foo>', 1)
+        p.parseFragment('/foo>', 1)
         program, macros = gen.getCode()
         self.interpret(program)
 
-- 
2.43.0


From 321fe86315d16c571e7ab47f5c676030fa8167ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:19:31 +0000
Subject: [PATCH 19/42] fix: reject structure in i18n:data with a template
 error

It failed with an AssertionError.
---
 src/zope/tal/talgenerator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index c0d142f..65a4cdd 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -356,8 +356,10 @@ class TALGenerator:
             self.emit('insertTranslation', msgid, program)
         else:
             key, expr = parseSubstitution(i18ndata)
+            if key != 'text':
+                raise I18NError("i18n:data cannot use structure",
+                                self.position)
             cexpr = self.compileExpression(expr)
-            assert key == 'text'
             self.emit('insertTranslation', msgid, program, cexpr)
 
     def emitDefineMacro(self, macroName):
-- 
2.43.0


From 12b33205c887cb0bd03df9f39e15aad8fe808c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:43:07 +0000
Subject: [PATCH 20/42] fix: extract messages from elements with i18n:data

The value of i18n:data is a dummy string during extraction.  It was used
like a dictionary, so extraction failed with a ValueError.
---
 src/zope/tal/talgettext.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/zope/tal/talgettext.py b/src/zope/tal/talgettext.py
index c7483c0..3439db7 100644
--- a/src/zope/tal/talgettext.py
+++ b/src/zope/tal/talgettext.py
@@ -57,8 +57,7 @@ class POTALInterpreter(TALInterpreter):
         # If no i18n dict exists yet, create one.
         if i18ndict is None:
             i18ndict = {}
-        if obj:
-            i18ndict.update(obj)
+        # The value of i18n:data is not known here, ``obj`` is a dummy.
         # Mmmh, it seems that sometimes the msgid is None; is that really
         # possible?
         if msgid is None:
-- 
2.43.0


From 36d469ae07ae239fe9db5eae453e1c630234b5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:43:08 +0000
Subject: [PATCH 21/42] fix: report messages and i18n:data errors at the
 translated element

Elements inside a translated element moved the current position.  The
message was then extracted with the position of the last of them, and
errors in i18n:data were reported there.
---
 src/zope/tal/talinterpreter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 19d846e..1f4a485 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -726,6 +726,7 @@ class TALInterpreter:
         # subnodes, which should /not/ go to the output stream.
         currentTag = self._currentTag
         col = self.col
+        position = self.position
         tmpstream = self.StringIO()
         self.pushStream(tmpstream)
         try:
@@ -734,6 +735,9 @@ class TALInterpreter:
             self.popStream()
             self.i18nStack.pop()
             self.col = col
+        # The content may have moved on to an element inside.
+        if self.position != position:
+            self.do_setPosition(position)
         # We only care about the evaluated contents if we need an implicit
         # message id.  All other useful information will be in the i18ndict on
         # the top of the i18nStack.
-- 
2.43.0


From 87d77929386bee5167213cbe3a54a1f085a22a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:47:31 +0000
Subject: [PATCH 22/42] fix: global variables set inside a scope take effect in
 the dummy engine

Setting a local variable copied all global variables into the local ones.
A global variable set later in that scope was then hidden by its old value.
---
 src/zope/tal/dummyengine.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/zope/tal/dummyengine.py b/src/zope/tal/dummyengine.py
index 593e8b4..816e7d2 100644
--- a/src/zope/tal/dummyengine.py
+++ b/src/zope/tal/dummyengine.py
@@ -46,8 +46,9 @@ class DummyEngine:
             macros = {}
         self.macros = macros
         dict = {'nothing': None, 'default': Default}
-        self.locals = self.globals = dict
-        self.stack = [dict]
+        self.globals = dict
+        self.locals = {}
+        self.stack = [self.locals]
         self.translationDomain = DummyTranslationDomain()
         self.useEngineAttrDicts = False
 
-- 
2.43.0


From 63104d56f087ec8998c13b4156b9f6f0505ee70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:47:33 +0000
Subject: [PATCH 23/42] fix: evaluate not: expressions in the dummy engine

The operand was passed on without compiling it, so every not: expression
failed with an AssertionError.
---
 src/zope/tal/dummyengine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/dummyengine.py b/src/zope/tal/dummyengine.py
index 816e7d2..16787ad 100644
--- a/src/zope/tal/dummyengine.py
+++ b/src/zope/tal/dummyengine.py
@@ -106,7 +106,7 @@ class DummyEngine:
         if type in ("path", "var", "global", "local"):
             return self.evaluatePathOrVar(expr)
         if type == "not":
-            return not self.evaluate(expr)
+            return not self.evaluate(self.compile(expr))
         if type == "exists":
             return expr in self.locals or expr in self.globals
         if type == "python":
-- 
2.43.0


From a549547a2a7ec7927f0231c38e4067426dac3a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:34 +0000
Subject: [PATCH 24/42] fix: ignore the declared encoding of XML templates
 given as text

Text was encoded as UTF-8 and then decoded by the encoding the XML
declaration names, which garbled characters or failed.
---
 src/zope/tal/xmlparser.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/zope/tal/xmlparser.py b/src/zope/tal/xmlparser.py
index f4891f9..3deb714 100644
--- a/src/zope/tal/xmlparser.py
+++ b/src/zope/tal/xmlparser.py
@@ -79,11 +79,8 @@ class XMLParser:
 
     def parseString(self, s):
         """Parse the given string."""
-        if isinstance(s, str):
-            # Expat cannot deal with str, only with
-            # bytes.  Also, its range of encodings is rather
-            # limited, UTF-8 is the safest bet here.
-            s = s.encode('utf-8')
+        # A str is passed to expat as UTF-8, whatever encoding its XML
+        # declaration names.
         self.parser.Parse(s, 1)
 
     def parseURL(self, url):
-- 
2.43.0


From 450c4d7f6324df0a592d1ae19df2a700ffc780a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:59:08 +0000
Subject: [PATCH 25/42] fix: accept script elements whose type attribute has no
 value

Compiling <script type> failed with an AttributeError.
---
 src/zope/tal/htmltalparser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/htmltalparser.py b/src/zope/tal/htmltalparser.py
index b1734ba..3266b44 100644
--- a/src/zope/tal/htmltalparser.py
+++ b/src/zope/tal/htmltalparser.py
@@ -194,7 +194,8 @@ class HTMLTALParser(HTMLParser):
         # Support for inline Python code.
         if tag == 'script':
             type_attr = [a for a in attrlist if a[0] == "type"]
-            if type_attr and type_attr[0][1].startswith('text/server-'):
+            if type_attr and (type_attr[0][1] or '').startswith(
+                    'text/server-'):
                 attrlist.remove(type_attr[0])
                 taldict = {'script': type_attr[0][1], 'omit-tag': ''}
         self.tagstack.append(tag)
-- 
2.43.0


From 542cbe9815135292c256ff464dad07526c149447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:59:09 +0000
Subject: [PATCH 26/42] fix: carry out the statements of server-side script
 elements

A condition, loop or definition on a script element of a text/server- type
was silently ignored.
---
 src/zope/tal/htmltalparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/htmltalparser.py b/src/zope/tal/htmltalparser.py
index 3266b44..5ddf14a 100644
--- a/src/zope/tal/htmltalparser.py
+++ b/src/zope/tal/htmltalparser.py
@@ -197,7 +197,7 @@ class HTMLTALParser(HTMLParser):
             if type_attr and (type_attr[0][1] or '').startswith(
                     'text/server-'):
                 attrlist.remove(type_attr[0])
-                taldict = {'script': type_attr[0][1], 'omit-tag': ''}
+                taldict.update({'script': type_attr[0][1], 'omit-tag': ''})
         self.tagstack.append(tag)
         self.gen.emitStartElement(tag, attrlist, taldict, metaldict, i18ndict,
                                   self.getpos())
-- 
2.43.0


From fd3d6bf820309ffb1b75bbbcb11714ccff1c7db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:00:38 +0000
Subject: [PATCH 27/42] fix: do not run server-side code when statements are
 not carried out

Rendering with tal switched off, as macro expansion does, still ran the code
of tal:script elements and wrote its output in place of the code.
---
 src/zope/tal/talinterpreter.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 1f4a485..cceb308 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -829,6 +829,11 @@ class TALInterpreter:
         self.interpret(program)
 
     def do_evaluateCode(self, stuff):
+        lang, program = stuff
+        self.interpret(program)
+    bytecode_handlers["evaluateCode"] = do_evaluateCode
+
+    def do_evaluateCode_tal(self, stuff):
         lang, program = stuff
         # Use a temporary stream to capture the interpretation of the
         # subnodes, which should /not/ go to the output stream.
@@ -843,7 +848,6 @@ class TALInterpreter:
         code = tmpstream.getvalue()
         output = self.engine.evaluateCode(lang, code)
         self.stream_write(output)
-    bytecode_handlers["evaluateCode"] = do_evaluateCode
 
     def do_loop(self, stuff):
         (name, expr, block) = stuff
@@ -1050,6 +1054,7 @@ class TALInterpreter:
     bytecode_handlers_tal["insertI18nStructure"] = do_insertI18nStructure_tal
     bytecode_handlers_tal["insertText"] = do_insertText_tal
     bytecode_handlers_tal["insertI18nText"] = do_insertI18nText_tal
+    bytecode_handlers_tal["evaluateCode"] = do_evaluateCode_tal
     bytecode_handlers_tal["loop"] = do_loop_tal
     bytecode_handlers_tal["onError"] = do_onError_tal
     bytecode_handlers_tal["<attrAction>"] = attrAction_tal
-- 
2.43.0


From e5f315b2b49849ac9debafcf5298d5b1d7883075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:14:53 +0000
Subject: [PATCH 28/42] fix: restore the source file name after a handled error

When an error in a macro of another template was handled, the engine kept
being told that template's file name for the handler and what follows.
---
 src/zope/tal/talinterpreter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index cceb308..7a2c5c2 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -1016,6 +1016,7 @@ class TALInterpreter:
     def do_onError_tal(self, stuff):
         (block, handler) = stuff
         state = self.saveState()
+        prev_source = self.sourceFile
         self.stream = stream = self.StringIO()
         self._stream_write = stream.write
         try:
@@ -1029,6 +1030,10 @@ class TALInterpreter:
             try:
                 self.restoreState(state)
                 engine = self.engine
+                if self.sourceFile != prev_source:
+                    # The error left a macro of another template.
+                    engine.setSourceFile(prev_source)
+                    self.sourceFile = prev_source
                 engine.beginScope()
                 error = engine.createErrorInfo(exc, self.position)
             finally:
-- 
2.43.0


From 847db1475534fcba370ddba090b23bd62ed96720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:15:47 +0000
Subject: [PATCH 29/42] fix: reject statements given twice on TAL elements of
 XML templates

<tal:block content="a" tal:content="b"> silently used the last of them;
HTML templates already report an error.
---
 src/zope/tal/talparser.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/zope/tal/talparser.py b/src/zope/tal/talparser.py
index 8ffac5e..22ec4d2 100644
--- a/src/zope/tal/talparser.py
+++ b/src/zope/tal/talparser.py
@@ -16,6 +16,9 @@ Parse XML and compile to :class:`~.TALInterpreter` intermediate code,
 using a :class:`~.TALGenerator`.
 """
 from zope.tal.taldefs import XML_NS
+from zope.tal.taldefs import I18NError
+from zope.tal.taldefs import METALError
+from zope.tal.taldefs import TALError
 from zope.tal.taldefs import ZOPE_I18N_NS
 from zope.tal.taldefs import ZOPE_METAL_NS
 from zope.tal.taldefs import ZOPE_TAL_NS
@@ -90,12 +93,21 @@ class TALParser(XMLParser):
             ns = keyns or namens  # default to tag namespace
             item = key, value
             if ns == 'metal':
+                if keybase in metaldict:
+                    raise METALError("duplicate METAL attribute " +
+                                     repr(keybase), self.getpos())
                 metaldict[keybase] = value
                 item = item + ("metal",)
             elif ns == 'tal':
+                if keybase in taldict:
+                    raise TALError("duplicate TAL attribute " +
+                                   repr(keybase), self.getpos())
                 taldict[keybase] = value
                 item = item + ("tal",)
             elif ns == 'i18n':
+                if keybase in i18ndict:
+                    raise I18NError("duplicate i18n attribute " +
+                                    repr(keybase), self.getpos())
                 i18ndict[keybase] = value
                 item = item + ('i18n',)
             fixedattrlist.append(item)
-- 
2.43.0


From af2b0a07cf592287893093b0d4f5551ecbd1d30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:02:12 +0000
Subject: [PATCH 30/42] fix: attributes of other namespaces on HTML elements of
 a statement namespace

---
 src/zope/tal/htmltalparser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/htmltalparser.py b/src/zope/tal/htmltalparser.py
index 5ddf14a..e36af39 100644
--- a/src/zope/tal/htmltalparser.py
+++ b/src/zope/tal/htmltalparser.py
@@ -349,7 +349,9 @@ class HTMLTALParser(HTMLParser):
         for item in attrs:
             key, value = item
             key, keybase, keyns = self.fixname(key)
-            ns = keyns or namens  # default to tag namespace
+            ns = keyns
+            if ':' not in key:
+                ns = namens  # default to tag namespace
             if ns and ns != 'unknown':
                 item = (key, value, ns)
             if ns == 'tal':
-- 
2.43.0


From 1dec3f8085344d976932a2e51017371cec1ff3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:35:19 +0000
Subject: [PATCH 31/42] fix: source annotations before text that contains
 '<?xml'

Only an XML declaration at the beginning of the text is kept in front of
the comment.  A later processing instruction such as '<?xml-stylesheet?>'
moved the comment behind the text it belongs to.
---
 src/zope/tal/talinterpreter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 7a2c5c2..e2c0b6a 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -306,6 +306,9 @@ class TALInterpreter:
 
     def _annotated_stream_write(self, s):
         idx = s.find('<?xml')
+        if idx >= 0 and (s[:idx].strip() or not s[idx + 5:idx + 6].isspace()):
+            # Not a declaration: text before it or "<?xml-stylesheet"
+            idx = -1
         if idx >= 0 or s.isspace():
             # Do not preprend comments in front of the <?xml?> declaration.
             end_of_doctype = s.find('?>', idx)
-- 
2.43.0


From cc66cc85c89c94ac39e772c33204e7a8bdc794a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:35:20 +0000
Subject: [PATCH 32/42] fix: error information for exceptions outside the
 Exception hierarchy

tal:on-error also handles exceptions such as KeyboardInterrupt.  For an
instance of one, the type was the instance and the value was missing.
---
 src/zope/tal/taldefs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/taldefs.py b/src/zope/tal/taldefs.py
index d1e5ce1..e531479 100644
--- a/src/zope/tal/taldefs.py
+++ b/src/zope/tal/taldefs.py
@@ -124,7 +124,7 @@ class ErrorInfo:
     """
 
     def __init__(self, err, position=(None, None)):
-        if isinstance(err, Exception):
+        if isinstance(err, BaseException):
             self.type = err.__class__
             self.value = err
         else:
-- 
2.43.0


From 85f97c4dd0f0ab66628a9a78853b7157343b1f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:03:49 +0000
Subject: [PATCH 33/42] fix: macros of files rendered with a special engine
 from the command line

The engine was given the macro-only option in place of the macros.
---
 src/zope/tal/driver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/driver.py b/src/zope/tal/driver.py
index 2abadea..a8db6c5 100644
--- a/src/zope/tal/driver.py
+++ b/src/zope/tal/driver.py
@@ -129,7 +129,7 @@ def main(values=None):
         engine = None
         engineClass = ENGINES.get(os.path.basename(file))
         if engineClass is not None:
-            engine = engineClass(opts.macro_only)
+            engine = engineClass(it[1])
         interpretit(it, engine=engine,
                     tal=not opts.macro_only,
                     showtal=1 if opts.show_tal else -1,
-- 
2.43.0


From fa71cecb8c5d445c205524356a82c510021b509c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:31 +0000
Subject: [PATCH 34/42] fix: translation of literal boolean attributes

The missing expression was evaluated.
---
 src/zope/tal/talinterpreter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index e2c0b6a..0bbadc0 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -489,7 +489,8 @@ class TALInterpreter:
         name, value, action = item[:3]
         ok = 1
         expr, xlat, msgid = item[3:]
-        if self.html and name.lower() in BOOLEAN_HTML_ATTRS:
+        if (self.html and expr is not None
+                and name.lower() in BOOLEAN_HTML_ATTRS):
             evalue = self.engine.evaluateBoolean(item[3])
             if evalue is self.Default:
                 if action == 'insert':  # Cancelled insert
-- 
2.43.0


From dcec265b9d7a51a7c388df277e3380f01844f59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:32 +0000
Subject: [PATCH 35/42] fix: translation of attributes without a value

None was sent to the translation service as message id.
---
 src/zope/tal/talinterpreter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 0bbadc0..9810ea0 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -508,9 +508,11 @@ class TALInterpreter:
                 if evalue is None:
                     ok = 0
                 value = evalue
+        elif action == 'insert' and not msgid:
+            ok = 0
 
         if ok:
-            if xlat:
+            if xlat and (msgid or value is not None):
                 translated = self.translate(msgid or value, value)
                 if translated is not None:
                     value = translated
-- 
2.43.0


From 2444104e43dfd6c723eed93f83906a77bc80cac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:23:35 +0000
Subject: [PATCH 36/42] fix: position and scope of attributes computed for
 inserted markup

The attributes an element computes are set on the first element inserted in
its place. Their expressions were evaluated with the position within the
inserted markup and with the inserted element's attributes as attrs.
---
 src/zope/tal/talinterpreter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 9810ea0..1f59b2c 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -66,7 +66,10 @@ class AltTALGenerator(TALGenerator):
         self.enabled = enabled
 
     def emit(self, *args):
-        if self.enabled:
+        # Computed attributes belong to the template's element: leave its
+        # position and scope in force.
+        if self.enabled and args[0] not in ("setPosition", "beginScope",
+                                            "endScope"):
             TALGenerator.emit(self, *args)
 
     def emitStartElement(self, name, attrlist, taldict, metaldict, i18ndict,
-- 
2.43.0


From a390bd7fcb803faeb53c632c1c1068d63bed9475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:23:37 +0000
Subject: [PATCH 37/42] fix: inserted markup without end tags and with computed
 attributes

Missing end tags of inserted HTML are supplied, but if the replaced element
had computed attributes the first element was required to have one.
---
 src/zope/tal/talinterpreter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 1f59b2c..f5c4b8f 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -83,6 +83,11 @@ class AltTALGenerator(TALGenerator):
                                       taldict, metaldict, i18ndict,
                                       position, isend)
 
+    def emitEndElement(self, name, isend=0, implied=0, position=(None, None)):
+        # Inserted markup may lack end tags, whatever attributes it gets.
+        TALGenerator.emitEndElement(self, name, isend, min(implied, 0),
+                                    position)
+
     def replaceAttrs(self, attrlist, repldict):
         if self.enabled and self.repldict:
             repldict = self.repldict
-- 
2.43.0


From 236509443104ed63685a15d353ec7744d3c675fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:39:59 +0000
Subject: [PATCH 38/42] fix: translation and code of HTML elements written with
 a slash

<div i18n:translate="id"/> wrote the translation behind the tag, and lost it
if the element had an omit-tag statement as well. The same held for the result
of a script statement.
---
 src/zope/tal/htmltalparser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/htmltalparser.py b/src/zope/tal/htmltalparser.py
index e36af39..e887082 100644
--- a/src/zope/tal/htmltalparser.py
+++ b/src/zope/tal/htmltalparser.py
@@ -209,7 +209,9 @@ class HTMLTALParser(HTMLParser):
         self.scan_xmlns(attrs)
         tag, attrlist, taldict, metaldict, i18ndict \
             = self.process_ns(tag, attrs)
-        if "content" in taldict:
+        if "content" in taldict or (
+                tag not in EMPTY_HTML_TAGS
+                and ("script" in taldict or "translate" in i18ndict)):
             if tag in EMPTY_HTML_TAGS:
                 raise TALError(
                     "empty HTML tags cannot use tal:content: %s" % repr(tag),
-- 
2.43.0


From c1d550f3b6bbee8ee618e4926dec08c0429e714a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:40:00 +0000
Subject: [PATCH 39/42] fix: error handlers of TAL elements written with a
 slash

With statements shown, the value of the handler of a failing <tal:block/> and
the end tag were lost.
---
 src/zope/tal/talgenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index 65a4cdd..cc617cf 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -296,7 +296,7 @@ class TALGenerator:
             assert key == "structure"
             self.emit("insertStructure", cexpr, {}, [])
         if TALtag:
-            self.emitOptTag(name, (None, 1), isend)
+            self.emitOptTag(name, (None, 1), 0)
         else:
             self.emitEndTag(name)
         handler = self.popProgram()
-- 
2.43.0


From 8a12a8ebe52082df114924d0bcbd228179419c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:51:38 +0000
Subject: [PATCH 40/42] fix: macroname in the handler of an error raised inside
 a macro

---
 src/zope/tal/talinterpreter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index f5c4b8f..861c33b 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -945,6 +945,7 @@ class TALInterpreter:
 
         # We want 'macroname' name to be always available as a variable
         outer = self.engine.getValue('macroname')
+        self.do_beginScope(None)
         self.engine.setLocal('macroname', macroName.rsplit('/', 1)[-1])
 
         prev_source = self.sourceFile
@@ -959,6 +960,7 @@ class TALInterpreter:
         if self.sourceFile != prev_source:
             self.engine.setSourceFile(prev_source)
             self.sourceFile = prev_source
+        self.do_endScope()
         # Push the outer macroname again.
         self.engine.setLocal('macroname', outer)
     bytecode_handlers["useMacro"] = do_useMacro
-- 
2.43.0


From 174319cddcc9e8e2a92506b8d91182389f0e36b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:02:03 +0000
Subject: [PATCH 41/42] fix: statements written without value in HTML

<b tal:omit-tag> and <b i18n:translate> were ignored, unlike the same
statements with an empty value.
---
 src/zope/tal/htmltalparser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/zope/tal/htmltalparser.py b/src/zope/tal/htmltalparser.py
index e887082..969b729 100644
--- a/src/zope/tal/htmltalparser.py
+++ b/src/zope/tal/htmltalparser.py
@@ -356,6 +356,9 @@ class HTMLTALParser(HTMLParser):
                 ns = namens  # default to tag namespace
             if ns and ns != 'unknown':
                 item = (key, value, ns)
+                if value is None:
+                    # A statement without value has an empty one.
+                    value = ''
             if ns == 'tal':
                 if keybase in taldict:
                     raise TALError("duplicate TAL attribute " +
-- 
2.43.0


From 1e71d853815fa47610f9d33b6a14fa025baff597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:43:07 +0000
Subject: [PATCH 42/42] fix: timing program starts on Python 3

It imported cStringIO and called time.clock, which Python 3 does not have.
---
 src/zope/tal/timer.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/zope/tal/timer.py b/src/zope/tal/timer.py
index 1395515..db64a35 100644
--- a/src/zope/tal/timer.py
+++ b/src/zope/tal/timer.py
@@ -17,8 +17,7 @@
 import getopt
 import sys
 import time
-
-from cStringIO import StringIO
+from io import StringIO
 
 from zope.tal.driver import compilefile
 from zope.tal.driver import interpretit
@@ -46,10 +45,10 @@ def main():
 def timefunc(count, func, *args):
     sys.stderr.write("%-14s: " % func.__name__)
     sys.stderr.flush()
-    t0 = time.clock()
+    t0 = time.perf_counter()
     for i in range(count):
         result = func(*args)
-    t1 = time.clock()
+    t1 = time.perf_counter()
     sys.stderr.write("%6.3f secs for %d calls, i.e. %4.0f msecs per call\n"
                      % ((t1 - t0), count, 1000 * (t1 - t0) / count))
     return result
-- 
2.43.0

