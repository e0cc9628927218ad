From 643ce7c0212f665fe07935a19529083c3ba1e4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:14 +0000
Subject: [PATCH 01/61] fix: MicroXML name characters include '-' and '.', and
 #xC0-#xD6 again

---
 pylib/uxml/lex.py    | 2 +-
 pylib/uxml/parser.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/lex.py b/pylib/uxml/lex.py
index ffabf2f..d2ee559 100644
--- a/pylib/uxml/lex.py
+++ b/pylib/uxml/lex.py
@@ -43,7 +43,7 @@ NAMESTARTCHAR = '[A-Za-z_\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u02FF\u0370-\u037D' \
             '\u037F-\u1FFF\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF' \
             '\uF900-\uFDCF\uFDF0-\uFFFD\U00010000-\U000EFFFF]'
 
-NAMECHAR =  '[0-9A-Za-z_\u00B7-\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u037D' \
+NAMECHAR =  '[-.0-9A-Za-z_\u00B7\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u037D' \
             '\u037F-\u1FFF\u200C-\u200D\u203F-\u2040\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF' \
             '\uF900-\uFDCF\uFDF0-\uFFFD\U00010000-\U000EFFFF]'
 
diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index d9f38ba..7a97c2b 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -46,7 +46,7 @@ NAMESTARTCHAR = re.compile('[A-Za-z_\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u02FF\u037
             '\u037F-\u1FFF\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF' \
             '\uF900-\uFDCF\uFDF0-\uFFFD\U00010000-\U000EFFFF]')
 
-NAMECHAR =  re.compile('[0-9A-Za-z_\u00B7-\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u037D' \
+NAMECHAR =  re.compile('[-.0-9A-Za-z_\u00B7\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u037D' \
             '\u037F-\u1FFF\u200C-\u200D\u203F-\u2040\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF' \
             '\uF900-\uFDCF\uFDF0-\uFFFD\U00010000-\U000EFFFF]')
 
-- 
2.43.0


From 772dfe44b95e8ccf8d48c81c8b1214593607ddbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:14 +0000
Subject: [PATCH 02/61] fix: HTML5 tree builder gives html5lib back the name
 and namespace of each element

---
 pylib/uxml/html5.py | 33 +++++++++++----------------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/pylib/uxml/html5.py b/pylib/uxml/html5.py
index 1b65eff..470be9d 100644
--- a/pylib/uxml/html5.py
+++ b/pylib/uxml/html5.py
@@ -155,7 +155,11 @@ class element(tree.element, node):
         name and attributes but with no parent or child nodes
         """
         attrs = self.xml_attributes.copy()
-        return element(self.xml_name, attrs=attrs)
+        clone = element(self.xml_name, attrs=attrs)
+        # html5lib relies on these for the clone as well
+        clone.xml_html5lib_namespace = self.namespace
+        clone.xml_html5lib_name = self.name
+        return clone
 
 
 # class comment(tree.comment):
@@ -263,28 +267,13 @@ class treebuilder(TreeBuilder):
         #We'll take care of that ourselves with the if not use_xhtml_ns... below
         TreeBuilder.__init__(self, True)
         def eclass(name, namespace):
-            xml_html5lib_name, xml_html5lib_namespace = MARKER, MARKER
-            if not use_xhtml_ns and namespace == XHTML_NAMESPACE:
-                #html5lib feints support for HTML5 elements kept in the null namespace
-                #But in reality this support is broken.  We have to in effect keep
-                #Two namespaces for each element, the real one from an amara perspective
-                #And another that is always XHTML for HTML5 elements, so html5lib doesn't break
-                xml_html5lib_namespace = namespace
-                namespace = None
+            #MicroXML has no namespaces, and element names are local names, but html5lib
+            #needs back the exact name & namespace it provided in order to process the
+            #open elements correctly, so keep these on the side
             #For some reason html5lib sometimes sends None as name
-            if not name:
-                xml_html5lib_name = name
-                name = NAME_FOR_ELEMENTS_UNNAMED_BY_HTML5LIB
-            #import sys; print >> sys.stderr, (namespace, name, use_xhtml_ns)
-            #Deal with some broken HTML that uses bogus colons in tag names
-            if (u":" in name and not namespace):
-                xml_html5lib_namespace = namespace
-                namespace = BOGUS_NAMESPACE
-            elem = element(qname_to_local(name))
-            if xml_html5lib_namespace != MARKER:
-                elem.xml_html5lib_namespace = xml_html5lib_namespace
-            if xml_html5lib_name != MARKER:
-                elem.xml_html5lib_name = xml_html5lib_name
+            elem = element(qname_to_local(name or NAME_FOR_ELEMENTS_UNNAMED_BY_HTML5LIB))
+            elem.xml_html5lib_namespace = namespace
+            elem.xml_html5lib_name = name
             return elem
         self.elementClass = eclass
         self.fragmentClass = eclass
-- 
2.43.0


From 0fdf8b054d8a97d478093a91ec32dd5ed7d8a45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:46 +0000
Subject: [PATCH 03/61] fix: attribute values split across fragments are
 parsed, with whitespace allowed after '='

---
 pylib/uxml/parser.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index 7a97c2b..ec3dc6a 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -274,8 +274,13 @@ def parser(handler, strict=True):
                             pos += 1
                         else:
                             raise RuntimeError('Expected \'=\', found {0} (around {1})'.format(window[pos], error_context(window, pos, pos)))
-                        if not done and pos == wlen:
-                            need_input = True
+
+                        #Eat up any whitespace
+                        try:
+                            while window[pos] in ' \r\n\t':
+                                pos += 1
+                        except IndexError:
+                            if not done: need_input = True #Do not advance until we have enough input
                             pos = backtrackpos
                             continue
 
@@ -288,12 +293,15 @@ def parser(handler, strict=True):
                             if aval == None:
                                 if not done: need_input = True
                                 #Don't advance to newpos, so effectively backtrack
+                                pos = backtrackpos
                                 continue
                                 #if window[pos] != openattr:
                                 #    raise RuntimeError('Mismatch in attribute quotes')
                             pos = newpos + 1 #Skip the closing quote
                             attribs[aname] = aval
                             curr_state = state.complete_tag
+                        else:
+                            raise RuntimeError('Expected a quoted attribute value, found {0} (around {1})'.format(window[pos], error_context(window, pos, pos)))
                     if curr_state == state.in_element:
                         chars, newpos = handle_cdata(pos, window, DATACHAR, '<')
                         if chars == None:
-- 
2.43.0


From 5cad41c6fcdb03b19ca11d9a0759e3ea354d0143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:17 +0000
Subject: [PATCH 04/61] fix: MicroXML parser reports junk before, and
 truncation of, the document element

---
 pylib/uxml/parser.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index ec3dc6a..bc1df6b 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -168,7 +168,7 @@ def parser(handler, strict=True):
                             while window[pos] in ' \r\n\t':
                                 pos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             continue
                         #if not done and pos == wlen:
                         #    need_input = True
@@ -176,6 +176,8 @@ def parser(handler, strict=True):
                         if window[pos] == '<':
                             pos += 1
                             curr_state = state.pre_tag_gi
+                        else:
+                            raise RuntimeError('Expected \'<\', found {0}'.format(window[pos]))
                         #if not done and pos == wlen:
                         #    need_input = True
                         #    continue
@@ -186,7 +188,7 @@ def parser(handler, strict=True):
                             while window[pos] in ' \r\n\t':
                                 pos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             continue
                         if curr_state == state.pre_tag_gi and window[pos] == '/':
                             pos += 1
@@ -203,7 +205,7 @@ def parser(handler, strict=True):
                                 while NAMECHAR.match(window[advpos]):
                                     advpos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             continue
                         else:
                             gi = window[pos:advpos]
@@ -215,7 +217,7 @@ def parser(handler, strict=True):
                             while window[pos] in ' \r\n\t':
                                 pos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             continue
                         #Check for attributes
                         if pending_event == event.start_element and NAMESTARTCHAR.match(window[pos]):
@@ -254,7 +256,7 @@ def parser(handler, strict=True):
                             while NAMECHAR.match(window[advpos]):
                                 advpos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             pos = backtrackpos
                             continue
                         else:
@@ -266,7 +268,7 @@ def parser(handler, strict=True):
                             while window[pos] in ' \r\n\t':
                                 pos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             pos = backtrackpos
                             continue
 
@@ -280,7 +282,7 @@ def parser(handler, strict=True):
                             while window[pos] in ' \r\n\t':
                                 pos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             pos = backtrackpos
                             continue
 
@@ -291,7 +293,7 @@ def parser(handler, strict=True):
                             #pos + 1 to skip the opening quote
                             aval, newpos = handle_cdata(pos+1, window, attrpat, openattr)
                             if aval == None:
-                                if not done: need_input = True
+                                need_input = True
                                 #Don't advance to newpos, so effectively backtrack
                                 pos = backtrackpos
                                 continue
@@ -305,7 +307,7 @@ def parser(handler, strict=True):
                     if curr_state == state.in_element:
                         chars, newpos = handle_cdata(pos, window, DATACHAR, '<')
                         if chars == None:
-                            if not done: need_input = True
+                            need_input = True
                             #Don't advance to newpos, so effectively backtrack
                             continue
                         pos = newpos
@@ -325,7 +327,7 @@ def parser(handler, strict=True):
                             while window[pos] in ' \r\n\t':
                                 pos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             continue
                         #if not done and pos == wlen:
                         #    need_input = True
@@ -336,6 +338,8 @@ def parser(handler, strict=True):
                             raise RuntimeError('Junk after document element')
                     #print('END1')
                 #print('END2')
+            if curr_state not in (state.pre_element, state.complete_doc):
+                raise RuntimeError('Unexpected end of document')
             sentinel = yield #Avoid StopIteration in parent from running off enf of coroutine?
         except GeneratorExit:
             #close() called
-- 
2.43.0


From cd9cb7d2851f5ef2dd0050c266629fa950c18109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:19 +0000
Subject: [PATCH 05/61] fix: MicroXML parser rejects malformed character
 references

---
 pylib/uxml/parser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index bc1df6b..8972469 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -102,7 +102,10 @@ def handle_cdata(pos, window, charpat, stopchars):
                         if HEXCHARENTOK.match(window[cursor]):
                             cursor += 1
                         elif window[cursor] == ';':
-                            c = chr(int(window[start:cursor], 16))
+                            try:
+                                c = chr(int(window[start:cursor], 16))
+                            except (ValueError, OverflowError):
+                                c = ''
                             if not CHARACTER.match(c):
                                 raise RuntimeError('Character reference gives an illegal character: {0}'.format('&' + window[start:cursor] + ';'))
                             cdata += c
@@ -124,7 +127,7 @@ def handle_cdata(pos, window, charpat, stopchars):
                                 raise RuntimeError('Unknown named character reference: {0}'.format(repr(window[start:cursor])))
                             break
                         else:
-                            raise RuntimeError('Illegal in character reference: {0} (around {1})'.format(window[cursor]), error_context(window, start, cursor))
+                            raise RuntimeError('Illegal in character reference: {0} (around {1})'.format(window[cursor], error_context(window, start, cursor)))
             #print(start, cursor, cdata, window[cursor])
             cursor += 1
             start = cursor
-- 
2.43.0


From 31f41fcc18ea2a8eb2242d0585008e14ab95572d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:32 +0000
Subject: [PATCH 06/61] fix: MicroXML parser no longer silently drops
 characters from text and attribute values

---
 pylib/uxml/parser.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index 8972469..5a986f0 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -128,6 +128,13 @@ def handle_cdata(pos, window, charpat, stopchars):
                             break
                         else:
                             raise RuntimeError('Illegal in character reference: {0} (around {1})'.format(window[cursor], error_context(window, start, cursor)))
+            #Normalize line ends in content (stopchars is the quote in an attribute value, where these are not allowed)
+            elif window[cursor] == '\r' and stopchars == '<':
+                if window[cursor + 1] == '\n':
+                    cursor += 1
+                cdata += '\n'
+            else:
+                raise RuntimeError('Illegal character: {0} (around {1})'.format(repr(window[cursor]), error_context(window, start, cursor)))
             #print(start, cursor, cdata, window[cursor])
             cursor += 1
             start = cursor
-- 
2.43.0


From 93f8bc9e3e216cbbf99b2a12810d49f002e61f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:34 +0000
Subject: [PATCH 07/61] fix: MicroXML parser rejects empty element names,
 unmatched end tags and duplicate attributes

---
 pylib/uxml/parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index 5a986f0..475d757 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -214,6 +214,8 @@ def parser(handler, strict=True):
                                 advpos += 1
                                 while NAMECHAR.match(window[advpos]):
                                     advpos += 1
+                            else:
+                                raise RuntimeError('Expected element name, found {0}'.format(window[advpos]))
                         except IndexError:
                             need_input = True #Do not advance until we have enough input
                             continue
@@ -244,7 +246,7 @@ def parser(handler, strict=True):
                                 handler.send((pending_event, gi, attribs_out, element_stack.copy()))
                                 element_stack.append(gi)
                             else:
-                                opened = element_stack.pop()
+                                opened = element_stack.pop() if element_stack else None
                                 if opened != gi:
                                     raise RuntimeError('Expected close element {0}, found {1}'.format(opened, gi))
                                 handler.send((pending_event, gi, element_stack.copy()))
@@ -310,6 +312,8 @@ def parser(handler, strict=True):
                                 #if window[pos] != openattr:
                                 #    raise RuntimeError('Mismatch in attribute quotes')
                             pos = newpos + 1 #Skip the closing quote
+                            if aname in attribs:
+                                raise RuntimeError('Duplicate attribute {0}'.format(aname))
                             attribs[aname] = aval
                             curr_state = state.complete_tag
                         else:
-- 
2.43.0


From 1f68d198c2c5d5bff25d30f221ca797d30bdd694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:40 +0000
Subject: [PATCH 08/61] fix: attribute values are serialised with character
 references MicroXML allows

---
 pylib/uxml/tree.py   | 14 +++++++++++++-
 pylib/uxml/writer.py |  3 ++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/tree.py b/pylib/uxml/tree.py
index 2f3a5d8..94db970 100644
--- a/pylib/uxml/tree.py
+++ b/pylib/uxml/tree.py
@@ -9,13 +9,25 @@
 
 import sys
 import weakref
-from xml.sax.saxutils import escape, quoteattr
+from xml.sax import saxutils
+from xml.sax.saxutils import escape
 
 from amara3.uxml.parser import parser, event  # parse, parsefrags
 
 # NO_PARENT = object()
 
 
+def quoteattr(data):
+    '''
+    Escape and quote an attribute value, as in xml.sax.saxutils, but using only
+    hexadecimal character references, because MicroXML has no decimal ones
+    '''
+    quoted = saxutils.quoteattr(data)
+    for decimal, hexadecimal in (('&#9;', '&#x9;'), ('&#10;', '&#xA;'), ('&#13;', '&#xD;')):
+        quoted = quoted.replace(decimal, hexadecimal)
+    return quoted
+
+
 class node:
     def __init__(self, parent=None):
         self._xml_parent = weakref.ref(parent) if parent is not None else None
diff --git a/pylib/uxml/writer.py b/pylib/uxml/writer.py
index f1ac03f..804a059 100644
--- a/pylib/uxml/writer.py
+++ b/pylib/uxml/writer.py
@@ -4,9 +4,10 @@ Raw XML writer
 '''
 
 from enum import Enum #https://docs.python.org/3.4/library/enum.html
-from xml.sax.saxutils import escape, quoteattr
+from xml.sax.saxutils import escape
 
 from amara3.uxml import tree, xml
+from amara3.uxml.tree import quoteattr
 
 class token(Enum):
     start_open = 1
-- 
2.43.0


From 7d58f048dfd82e74652ce462e818c5e2dc0f5469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:41 +0000
Subject: [PATCH 09/61] fix: xml_remove removes the given node, rather than the
 first equal text node

---
 pylib/uxml/tree.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pylib/uxml/tree.py b/pylib/uxml/tree.py
index 94db970..f8561d7 100644
--- a/pylib/uxml/tree.py
+++ b/pylib/uxml/tree.py
@@ -158,9 +158,12 @@ class element(node):
 
         child - the child to remove
         '''
-        if child in self.xml_children:
-            child._xml_parent = None
-            self.xml_children.remove(child)
+        #Look for the node itself. Text nodes are equal if they have the same value
+        for index, candidate in enumerate(self.xml_children):
+            if candidate is child:
+                child._xml_parent = None
+                del self.xml_children[index]
+                break
         else:
             raise ValueError(f'Element {self} has no child {child}')
         return
-- 
2.43.0


From 8790b7c5a62b319daa58189eab359760edade29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:42 +0000
Subject: [PATCH 10/61] fix: XML tree builder can be reused, and reports
 truncated documents

---
 pylib/uxml/xml.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/xml.py b/pylib/uxml/xml.py
index afcbd2c..517278a 100644
--- a/pylib/uxml/xml.py
+++ b/pylib/uxml/xml.py
@@ -102,7 +102,7 @@ def parse(source, handler):
     p.CharacterDataHandler = h.char_data
     p.StartNamespaceDeclHandler = h.start_namespace
     p.EndNamespaceDeclHandler = h.end_namespace
-    p.Parse(source)
+    p.Parse(source, True)
     return p
 
 
@@ -117,6 +117,9 @@ class treebuilder(tree.treebuilder):
     root
     '''
     def parse(self, source):
+        #reset
+        self._root = None
+        self._parent = None
         self.handler = expat_callbacks(self._handler())
         self.expat_parser = xml.parsers.expat.ParserCreate(namespace_separator=' ')
 
@@ -125,6 +128,6 @@ class treebuilder(tree.treebuilder):
         self.expat_parser.CharacterDataHandler = self.handler.char_data
         self.expat_parser.StartNamespaceDeclHandler = self.handler.start_namespace
         self.expat_parser.EndNamespaceDeclHandler = self.handler.end_namespace
-        self.expat_parser.Parse(source)
+        self.expat_parser.Parse(source, True)
         return self._root
 
-- 
2.43.0


From d1818a7efdb34e32d0baa03b94aa3c8b417609b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:43 +0000
Subject: [PATCH 11/61] fix: XML element end events have the local name even if
 the namespace has a space

---
 pylib/uxml/xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/xml.py b/pylib/uxml/xml.py
index 517278a..351e1c9 100644
--- a/pylib/uxml/xml.py
+++ b/pylib/uxml/xml.py
@@ -33,7 +33,7 @@ class expat_callbacks(object):
 
     def end_element(self, name):
         #print('End element:', name)
-        local = name.split()[1] if ' ' in name else name
+        local = name.split()[-1]
         self._elem_stack.pop()
         self._handler.send((event.end_element, local, self._elem_stack.copy()))
 
-- 
2.43.0


From 26803047b16fb52f44988cb82f1edd083e6ba445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:18 +0000
Subject: [PATCH 12/61] fix: senders with several patterns match each of them
 separately

---
 pylib/uxml/treeiter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pylib/uxml/treeiter.py b/pylib/uxml/treeiter.py
index 9a047fa..2dc05e8 100644
--- a/pylib/uxml/treeiter.py
+++ b/pylib/uxml/treeiter.py
@@ -53,7 +53,7 @@ class sender:
         self._roots = [None] * self._pattern_count
         self._parents = [None] * self._pattern_count
         self._stateses = [None] * self._pattern_count
-        self._evstacks = [[]] * self._pattern_count
+        self._evstacks = [ [] for i in range(self._pattern_count) ]
         self._building_depths = [0] * self._pattern_count
         # if asyncio.iscoroutine(sink):
         if prime_sinks:
@@ -91,8 +91,8 @@ class sender:
         return _any_func
 
     def _prep_patterns(self):
-        next_state = MATCHED_STATE
         for ix, pattern in enumerate(self._patterns):
+            next_state = MATCHED_STATE
             for i in range(len(pattern)):
                 stage = pattern[-i-1]
                 if isinstance(stage, str):
@@ -135,7 +135,7 @@ class sender:
                     elif self._match_state(ix):
                         building_depth = self._building_depths[ix] = 1
                     if building_depth:
-                        new_element = element(ev[1], ev[2], parent)
+                        new_element = element(ev[1], ev[2].copy(), parent)
                         #if parent: parent().xml_children.append(weakref.ref(new_element))
                         #Note: not using weakrefs here because these refs are not circular
                         if parent: parent.xml_children.append(new_element)
-- 
2.43.0


From c231cb367e8588f7b8dfd305b1ebc3a69c0f81e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:19 +0000
Subject: [PATCH 13/61] fix: sender patterns with '**' match at any depth,
 including below a partial match

---
 pylib/uxml/treeiter.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/pylib/uxml/treeiter.py b/pylib/uxml/treeiter.py
index 2dc05e8..12d9d6e 100644
--- a/pylib/uxml/treeiter.py
+++ b/pylib/uxml/treeiter.py
@@ -14,6 +14,18 @@ from .tree import element, text, name_test
 MATCHED_STATE = object()
 
 
+def _add_state(states, new_state):
+    '''
+    Add to a list of alternative states the outcome of a state function, which is
+    None (no match), a state, or a list of such outcomes
+    '''
+    if isinstance(new_state, list):
+        for state in new_state:
+            _add_state(states, state)
+    elif new_state is not None and new_state not in states:
+        states.append(new_state)
+
+
 class sender:
     '''
     Parser object that feeds a coroutine with tree fragments based on an element pattern
@@ -80,7 +92,8 @@ class sender:
             if ev[0] == event.start_element:
                 next_next = next(ev)
                 if next_next is not None:
-                    return next_next
+                    #Could be only a partial match, so also keep skipping
+                    return [next_next, _any_until_func]
             return _any_until_func
         return _any_until_func
 
@@ -111,13 +124,14 @@ class sender:
         return
 
     def _match_state(self, ix):
-        new_state = self._stateses[ix]
+        states = [self._stateses[ix]]
         for depth, ev in enumerate(self._evstacks[ix]):
-            new_state = new_state(ev)
-            if new_state == MATCHED_STATE:
+            new_states = []
+            for state in states:
+                _add_state(new_states, state(ev))
+            if MATCHED_STATE in new_states:
                 return True
-            elif new_state is None:
-                return False
+            states = new_states
         return False
 
     def _handler(self):
-- 
2.43.0


From b17e03c53eb557f4edea4e65e1224ad4d938ed46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:20 +0000
Subject: [PATCH 14/61] fix: select_pattern tuple steps match any of the given
 names

---
 pylib/uxml/treeutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/treeutil.py b/pylib/uxml/treeutil.py
index fe63f9d..9797d46 100644
--- a/pylib/uxml/treeutil.py
+++ b/pylib/uxml/treeutil.py
@@ -131,7 +131,7 @@ def _prep_pattern(pattern):
             else:
                 next_state = name_test(next_state, stage)
         elif isinstance(stage, tuple):
-            new_tuple = tuple(( name_test(substage) if isinstance(substage, str) else substage for substage in stage ))
+            new_tuple = tuple(( name_test(MATCHED_STATE, substage) if isinstance(substage, str) else substage for substage in stage ))
             next_state = any_(next_state, new_tuple)
         else:
             raise ValueError('Cannot interpret pattern component {0}'.format(repr(stage)))
-- 
2.43.0


From 9c02f14abebf6aa83349e459436c687eb8d737ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:21 +0000
Subject: [PATCH 15/61] fix: select_pattern with '**' finds all matching
 descendants

---
 pylib/uxml/treeutil.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/pylib/uxml/treeutil.py b/pylib/uxml/treeutil.py
index 9797d46..fa6e198 100644
--- a/pylib/uxml/treeutil.py
+++ b/pylib/uxml/treeutil.py
@@ -108,7 +108,8 @@ def any_until(next):
         if isinstance(node, element):
             next_next = next(node)
             if next_next is not None:
-                return next_next
+                #Could be only a partial match, so also keep skipping
+                return [next_next, _any_until]
         return _any_until #Return this same state until we can match the next
     return _any_until
 
@@ -118,6 +119,14 @@ def any_(next, funcs):
             return next
     return _any
 
+def _add_state(states, new_state):
+    #A state function returns None (no match), a state, or a list of alternatives
+    if isinstance(new_state, list):
+        for state in new_state:
+            _add_state(states, state)
+    elif new_state is not None and new_state not in states:
+        states.append(new_state)
+
 def _prep_pattern(pattern):
     next_state = MATCHED_STATE
     #Work from the end of the pattern back to the beginning
@@ -162,16 +171,18 @@ def select_pattern(node, pattern, state=None):
     >>> results
     ['1', '2', '3', '4']
     '''
-    if state is None:
-        state = _prep_pattern(pattern)
+    states = [_prep_pattern(pattern)] if state is None else state
     #for child in select_elements(elem):
     if isinstance(node, element):
         for child in node.xml_children:
-            new_state = state(child)
-            if new_state == MATCHED_STATE:
+            new_states = []
+            for state in states:
+                _add_state(new_states, state(child))
+            if MATCHED_STATE in new_states:
+                new_states.remove(MATCHED_STATE)
                 yield child
-            elif new_state is not None:
-                yield from select_pattern(child, None, state=new_state)
+            if new_states:
+                yield from select_pattern(child, None, state=new_states)
     return
 
 def make_pretty(elem, depth=0, indent='  '):
-- 
2.43.0


From aa1957e17e1b7c5e563631bdc34a5c51690b1aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:22 +0000
Subject: [PATCH 16/61] fix: make_pretty uses the given indent at all levels

---
 pylib/uxml/treeutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/treeutil.py b/pylib/uxml/treeutil.py
index fa6e198..3a297e8 100644
--- a/pylib/uxml/treeutil.py
+++ b/pylib/uxml/treeutil.py
@@ -228,7 +228,7 @@ def make_pretty(elem, depth=0, indent='  '):
                 updated_child_list.append(new_text)
                 updated_child_list.append(child)
                 updated_child_ix += 2
-            make_pretty(child, depth)
+            make_pretty(child, depth, indent)
         else:
             if child.xml_value.strip():
                 #More to it than whitespace, so leave alone
-- 
2.43.0


From ba23130bd96b984cf8ced019ac89f04655d8577a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:23 +0000
Subject: [PATCH 17/61] fix: following_siblings starts from the given node, not
 an equal text node

---
 pylib/uxml/treeutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/treeutil.py b/pylib/uxml/treeutil.py
index 3a297e8..b69d62d 100644
--- a/pylib/uxml/treeutil.py
+++ b/pylib/uxml/treeutil.py
@@ -77,7 +77,7 @@ def following_siblings(elem):
     '''
     Yields elements and text which have the same parent as elem, but come afterward in document order
     '''
-    it = itertools.dropwhile(lambda x: x != elem, elem.xml_parent.xml_children)
+    it = itertools.dropwhile(lambda x: x is not elem, elem.xml_parent.xml_children)
     next(it, None) #Skip the element itself, if any
     return it
 
-- 
2.43.0


From 60749fcfe396f0c5e9af880fc94fbb814dc4aba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:25 +0000
Subject: [PATCH 18/61] fix: html5iter sender parses HTML again

---
 pylib/uxml/html5iter.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pylib/uxml/html5iter.py b/pylib/uxml/html5iter.py
index b1b9ea1..c91a911 100644
--- a/pylib/uxml/html5iter.py
+++ b/pylib/uxml/html5iter.py
@@ -6,6 +6,7 @@
 
 from . import tree
 from . import treeiter
+from .parser import event
 from .treeutil import *
 from . import html5
 
@@ -26,8 +27,17 @@ class sender(treeiter.sender):
     '''
     def parse(self, doc):
         h = self._handler()
-        p = html5.parser(h)
-        p.send((doc, False))
-        p.send(('', True))  # Wrap it up
+        next(h)  # Prime the coroutine
+        # HTML elements can't be completed until the parse is done
+        self._send_tree(html5.parse(doc), h, [])
         return
 
+    def _send_tree(self, elem, h, ancestors):
+        h.send((event.start_element, elem.xml_name, elem.xml_attributes, ancestors))
+        for child in elem.xml_children:
+            if isinstance(child, tree.element):
+                self._send_tree(child, h, ancestors + [elem.xml_name])
+            elif child.xml_value:
+                h.send((event.characters, child.xml_value))
+        h.send((event.end_element, elem.xml_name, ancestors))
+
-- 
2.43.0


From ac2220d473a2ec70680af4112bed140d68656f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:45 +0000
Subject: [PATCH 19/61] fix: namespacer writer supports empty elements

---
 pylib/uxml/writer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pylib/uxml/writer.py b/pylib/uxml/writer.py
index 804a059..033d23a 100644
--- a/pylib/uxml/writer.py
+++ b/pylib/uxml/writer.py
@@ -146,9 +146,9 @@ class namespacer(raw):
         self._first_element = True
         return
 
-    def start_element(self, name, attribs=None):
+    def start_element(self, name, attribs=None, empty=False):
         self._ns_handled = False
-        raw.start_element(self, name, attribs=attribs)
+        raw.start_element(self, name, attribs=attribs, empty=empty)
         self._first_element = False
 
     def write(self, ctx, text):
@@ -157,7 +157,7 @@ class namespacer(raw):
         if ctx in (context.text,):
             text = escape(text)
         if ctx == context.start_element:
-            if self._first_element and text in (token.pre_attr, token.start_close) and not self._ns_handled:
+            if self._first_element and text in (token.pre_attr, token.start_close, token.empty_close) and not self._ns_handled:
                 #Namespace declarations here
                 for k, v in self._prefixes.items():
                     self._fp.write(TOKENS[token.pre_attr])
-- 
2.43.0


From d86ff1dc10be1ba6ed0f3aefbf47adacbb17ea85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:31 +0000
Subject: [PATCH 20/61] fix: XPath context copies keep falsy items such as 0,
 False and empty text

---
 pylib/uxml/uxpath/__init__.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pylib/uxml/uxpath/__init__.py b/pylib/uxml/uxpath/__init__.py
index 781dd43..9ab6a08 100644
--- a/pylib/uxml/uxpath/__init__.py
+++ b/pylib/uxml/uxpath/__init__.py
@@ -89,13 +89,13 @@ class context(object):
         self.lookuptables = lookuptables or {}
 
     def copy(self, item=None, pos=None, variables=None, functions=None, lookuptables=None, extras=None, parent=None):
-        item = item if item else self.item
-        pos = pos if pos else self.pos
-        variables = variables if variables else self.variables
-        functions = functions if functions else self.functions
-        lookuptables = lookuptables if lookuptables else self.lookuptables
-        extras = extras if extras else self.extras
-        parent = parent if parent else self.parent
+        item = self.item if item is None else item
+        pos = self.pos if pos is None else pos
+        variables = self.variables if variables is None else variables
+        functions = self.functions if functions is None else functions
+        lookuptables = self.lookuptables if lookuptables is None else lookuptables
+        extras = self.extras if extras is None else extras
+        parent = self.parent if parent is None else parent
         return context(item, pos=pos, variables=variables, functions=functions, lookuptables=lookuptables, extras=extras, parent=parent, force_root=False)
 
 
-- 
2.43.0


From 1e56611c735029e29f2a0a1d98d8eabe2cfff872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:32 +0000
Subject: [PATCH 21/61] fix: qquery accepts a parsed XPath expression

---
 pylib/uxml/uxpath/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pylib/uxml/uxpath/__init__.py b/pylib/uxml/uxpath/__init__.py
index 9ab6a08..6759e2a 100644
--- a/pylib/uxml/uxpath/__init__.py
+++ b/pylib/uxml/uxpath/__init__.py
@@ -130,8 +130,7 @@ def qquery(xml_thing, xpath_thing, vars=None, funcs=None, force_root=None):
         root = tb.parse(xml_thing.decode('utf-8'))
         force_root = True
     if not root: return
-    if isinstance(xpath_thing, str):
-        parsed_expr = parse(xpath_thing)
+    parsed_expr = parse(xpath_thing) if isinstance(xpath_thing, str) else xpath_thing
     ctx = context(root, variables=vars, functions=funcs, force_root=force_root)
     result = parsed_expr.compute(ctx)
     yield from result
-- 
2.43.0


From fc03433b589003ebac84ac105d9c9e908a3ee01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:49 +0000
Subject: [PATCH 22/61] fix: XPath root nodes follow restructuring of the tree,
 and do not keep documents alive

---
 pylib/uxml/uxpath/xast.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index d76d65a..65dbc90 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -25,6 +25,7 @@ __all__ = [
 
 
 import operator
+import weakref
 # import functools
 from collections.abc import Iterable
 from amara3.uxml.tree import node, element, strval
@@ -36,30 +37,32 @@ class root_node(node):
     The core uxml object model does not have a root node, but
     we need something to conform as closely as we can to XPath
     '''
-    _cache = {}
+    # From top element to root node. Entries only last for as long as the root nodes are in use
+    _cache = weakref.WeakValueDictionary()
 
     def __init__(self, docelem):
-        self.xml_name = ''
-        self.xml_value = ''
         self.xml_children = [docelem]
         node.__init__(self)
 
+    @property
+    def xml_value(self):
+        return self.xml_children[0].xml_value
+
     def __repr__(self):
         return u'{uxpath.rootnode}'
 
     @staticmethod
     #@functools.lru_cache()
     def get(elem):
-        if elem in root_node._cache: return root_node._cache[elem]
         if isinstance(elem, root_node): return elem
-        assert isinstance(elem, element), 'Cannot get root node from object {} of type {}'.format(elem, type(elem))
+        assert isinstance(elem, node), 'Cannot get root node from object {} of type {}'.format(elem, type(elem))
         curr_elem = elem
         parent = curr_elem.xml_parent
         while parent:
             curr_elem = parent
             parent = curr_elem.xml_parent
-            if parent in root_node._cache: return root_node._cache[parent]
-        return root_node._cache.setdefault(elem, root_node(curr_elem))
+        assert isinstance(curr_elem, element), 'No root node above object {} of type {}'.format(curr_elem, type(curr_elem))
+        return root_node._cache.setdefault(curr_elem, root_node(curr_elem))
 
 
 class attribute_node(node):
-- 
2.43.0


From 96cc707b16cb3bfc5f72a3d6a99b2d0eef4c3d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:20 +0000
Subject: [PATCH 23/61] fix: XPath attribute nodes have their name, and no
 children

---
 pylib/uxml/uxpath/xast.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 65dbc90..bf5bf37 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -67,9 +67,10 @@ class root_node(node):
 
 class attribute_node(node):
     def __init__(self, name, value, parent):
+        node.__init__(self, parent)
         self.xml_name = name
         self.xml_value = value
-        node.__init__(self, parent)
+        self.xml_children = []
 
     def __repr__(self):
         return '{{uxpath.attribute {0}="{1}"}}'.format(self.xml_name, self.xml_value)
-- 
2.43.0


From ee1bcc3b0e28036973219c5ab109ab929df8978f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:21 +0000
Subject: [PATCH 24/61] fix: XPath name tests only select elements (or
 attributes), in all axes

---
 pylib/uxml/uxpath/xast.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index bf5bf37..7977ed9 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -429,7 +429,11 @@ class step:
         elif self.axis == 'attribute':
             if isinstance(ctx.item, element):
                 for k, v in ctx.item.xml_attributes.items():
-                    if self.node_test.name in ('*', k):
+                    if isinstance(self.node_test, node_type_test):
+                        selected = self.node_test.name == 'node'
+                    else:
+                        selected = self.node_test.name in ('*', k)
+                    if selected:
                         yield attribute_node(k, v, ctx.item)
         elif self.axis == 'ancestor':
             parent = ctx.item.xml_parent
@@ -586,7 +590,8 @@ class name_test:
     def compute(self, ctx):
         # print('NAMETEST', (self.name, ctx.item))
         if self.name == '*':
-            yield ctx.item
+            if isinstance(ctx.item, element):
+                yield ctx.item
         else:
             # yield from (n for n in nodeseq if n.xml_name == self.name)
             if isinstance(ctx.item, element) and ctx.item.xml_name == self.name:
-- 
2.43.0


From 3a28db7ede95f0fbf685f0cfdb39c20b889e7dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:23 +0000
Subject: [PATCH 25/61] fix: XPath parent and ancestor axes apply the node test
 to the root, and end there

---
 pylib/uxml/uxpath/xast.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 7977ed9..6b8370a 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -387,6 +387,15 @@ class absolute_path:
                 yield from self.relative.compute(new_ctx)
 
 
+def _get_parent(item):
+    '''
+    Parent of a node, in the XPath sense, so the root node in the case of the top element
+    '''
+    if isinstance(item, root_node):
+        return None
+    return item.xml_parent or root_node.get(item)
+
+
 def _step_is_just_node(r):
     return isinstance(r, step) \
         and isinstance(r.node_test, node_type_test) \
@@ -436,19 +445,18 @@ class step:
                     if selected:
                         yield attribute_node(k, v, ctx.item)
         elif self.axis == 'ancestor':
-            parent = ctx.item.xml_parent
+            parent = _get_parent(ctx.item)
             while parent:
                 new_ctx = ctx.copy(item=parent)
                 yield from self.node_test.compute(new_ctx)
-                parent = parent.xml_parent
-            yield root_node.get(ctx.item)
+                parent = _get_parent(parent)
         elif self.axis == 'ancestor-or-self':
             yield from self.node_test.compute(ctx)
-            parent = ctx.item.xml_parent
+            parent = _get_parent(ctx.item)
             while parent:
                 new_ctx = ctx.copy(item=parent)
                 yield from self.node_test.compute(new_ctx)
-            yield root_node.get(parent)
+                parent = _get_parent(parent)
         elif self.axis == 'descendant':
             to_process = list(ctx.item.xml_children)
             while to_process:
@@ -480,11 +488,10 @@ class step:
                 new_ctx = ctx.copy(item=ff)
                 yield from self.node_test.compute(new_ctx)
         elif self.axis == 'parent':
-            if ctx.item.xml_parent:
-                new_ctx = ctx.copy(item=ctx.item.xml_parent)
+            parent = _get_parent(ctx.item)
+            if parent:
+                new_ctx = ctx.copy(item=parent)
                 yield from self.node_test.compute(new_ctx)
-            else:
-                yield root_node.get(ctx.item)
         elif self.axis == 'preceding':
             if not ctx.item.xml_parent: return
             start = ctx.item.xml_parent.xml_children.index(ctx.item)
@@ -650,10 +657,9 @@ class abbreviated_step:
         elif self.abbr == '..':
             # parent axis
             # assert isinstance(ctx.item, node)
-            if ctx.item.xml_parent:
-                yield ctx.item.xml_parent
-            else:
-                yield root_node.get(ctx.item)
+            parent = _get_parent(ctx.item)
+            if parent:
+                yield parent
 
     def __call__(self, ctx):
         '''
-- 
2.43.0


From 1fbae70ba15fa81ba81a8dee1c9166c31e0e5304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:50 +0000
Subject: [PATCH 26/61] fix: XPath sibling axes start from the context node
 itself, not from an equal text node

---
 pylib/uxml/uxpath/xast.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 6b8370a..9a6252c 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -396,6 +396,18 @@ def _get_parent(item):
     return item.xml_parent or root_node.get(item)
 
 
+def _siblings(item):
+    '''
+    Lists of the siblings before and after a node
+    '''
+    siblings = list(item.xml_parent.xml_children) if item.xml_parent else []
+    for ix, sibling in enumerate(siblings):
+        # Text nodes are equal if they have the same value
+        if sibling is item:
+            return siblings[:ix], siblings[ix+1:]
+    return [], []
+
+
 def _step_is_just_node(r):
     return isinstance(r, step) \
         and isinstance(r.node_test, node_type_test) \
@@ -483,8 +495,7 @@ class step:
                 yield from self.node_test.compute(new_ctx)
         elif self.axis == 'following-sibling':
             if not ctx.item.xml_parent: return
-            start = ctx.item.xml_parent.xml_children.index(ctx.item) + 1
-            for ff in list(ctx.item.xml_parent.xml_children)[start:]:
+            for ff in _siblings(ctx.item)[1]:
                 new_ctx = ctx.copy(item=ff)
                 yield from self.node_test.compute(new_ctx)
         elif self.axis == 'parent':
@@ -504,9 +515,7 @@ class step:
                 yield from self.node_test.compute(new_ctx)
         elif self.axis == 'preceding-sibling':
             if not ctx.item.xml_parent: return
-            start = ctx.item.xml_parent.xml_children.index(ctx.item)
-            if start == -1: return
-            to_process = list(ctx.item.xml_parent.xml_children)[:start]
+            to_process = _siblings(ctx.item)[0]
             to_process.reverse()
             for prev in to_process:
                 new_ctx = ctx.copy(item=prev)
-- 
2.43.0


From 93716a8b8f9253b2988fd3b332d6ee85b3fd24cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:51 +0000
Subject: [PATCH 27/61] fix: XPath following and preceding axes are not limited
 to the same parent

---
 pylib/uxml/uxpath/xast.py | 48 +++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 9a6252c..6822544 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -408,6 +408,15 @@ def _siblings(item):
     return [], []
 
 
+def _descendant_nodes(item):
+    '''
+    Descendants of a node, including text, in document order
+    '''
+    for child in item.xml_children:
+        yield child
+        yield from _descendant_nodes(child)
+
+
 def _step_is_just_node(r):
     return isinstance(r, step) \
         and isinstance(r.node_test, node_type_test) \
@@ -485,14 +494,15 @@ class step:
                 new_ctx = ctx.copy(item=child)
                 yield from self.node_test.compute(new_ctx)
         elif self.axis == 'following':
-            if not ctx.item.xml_parent: return
-            start = ctx.item.xml_parent.xml_children.index(ctx.item) + 1
-            to_process = list(ctx.item.xml_parent.xml_children)[start:]
-            while to_process:
-                ff = to_process[0]
-                to_process = list(ff.xml_children) + to_process[1:]
-                new_ctx = ctx.copy(item=ff)
-                yield from self.node_test.compute(new_ctx)
+            origin = ctx.item
+            while origin is not None:
+                to_process = _siblings(origin)[1]
+                while to_process:
+                    ff = to_process[0]
+                    to_process = list(ff.xml_children) + to_process[1:]
+                    new_ctx = ctx.copy(item=ff)
+                    yield from self.node_test.compute(new_ctx)
+                origin = origin.xml_parent
         elif self.axis == 'following-sibling':
             if not ctx.item.xml_parent: return
             for ff in _siblings(ctx.item)[1]:
@@ -504,15 +514,19 @@ class step:
                 new_ctx = ctx.copy(item=parent)
                 yield from self.node_test.compute(new_ctx)
         elif self.axis == 'preceding':
-            if not ctx.item.xml_parent: return
-            start = ctx.item.xml_parent.xml_children.index(ctx.item)
-            if start == -1: return
-            to_process = list(ctx.item.xml_parent.xml_children)[start:].reverse()
-            while to_process:
-                prev = to_process[0]
-                to_process = to_process[1:] + list(prev.xml_children).reverse()
-                new_ctx = ctx.copy(item=prev)
-                yield from self.node_test.compute(new_ctx)
+            # Reverse document order, so each node comes after its descendants
+            origin = ctx.item
+            while origin is not None:
+                to_process = _siblings(origin)[0]
+                while to_process:
+                    prev = to_process.pop()
+                    subtree = [prev]
+                    if isinstance(prev, element):
+                        subtree.extend(_descendant_nodes(prev))
+                    for prev in reversed(subtree):
+                        new_ctx = ctx.copy(item=prev)
+                        yield from self.node_test.compute(new_ctx)
+                origin = origin.xml_parent
         elif self.axis == 'preceding-sibling':
             if not ctx.item.xml_parent: return
             to_process = _siblings(ctx.item)[0]
-- 
2.43.0


From 601df1c6dcf5ba65921e9e9f8645eb02dd3c1a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:10 +0000
Subject: [PATCH 28/61] fix: // in an XPath relative path keeps the axis of the
 step that follows

---
 pylib/uxml/uxpath/xast.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 6822544..c12ebad 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -265,14 +265,23 @@ class binary_expression:
                 new_ctx = ctx.copy(item=item)
                 yield from self.right.compute(new_ctx)
         elif self.op == '//':
-            # left & right are steps
-            # Rewrite the axis to expand the abbreviation
-            # Really only needed the first time.
-            self.right.axis = 'descendant-or-self'
-            selected = self.left.compute(ctx)
+            # left & right are steps, or right is a path starting with a step, e.g. b/c in a[1]//b/c
+            right = self.right
+            if isinstance(right, binary_expression):
+                start = binary_expression(self.left, self.op, right.left)
+                yield from binary_expression(start, right.op, right.right).compute(ctx)
+                return
+            # Expand the abbreviation
+            if isinstance(right, step) and right.axis == 'child':
+                # Same as any child of any descendant or self, but in document order
+                start = self.left
+                right = step('descendant', right.node_test)
+            else:
+                start = binary_expression(self.left, '/', step('descendant-or-self', node_type_test('node')))
+            selected = start.compute(ctx)
             for item in selected:
                 new_ctx = ctx.copy(item=item)
-                yield from self.right.compute(new_ctx)
+                yield from right.compute(new_ctx)
         elif self.op == '|':
             # Union expressions require an indexing by doc order
             if not hasattr(ctx.item, '_docorder'):
-- 
2.43.0


From 064fb33cd2764284cfa0fa5cecb6ce52e1b6fb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:11 +0000
Subject: [PATCH 29/61] fix: only child::node() is special in an XPath absolute
 path

---
 pylib/uxml/uxpath/xast.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index c12ebad..31d3f80 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -428,6 +428,7 @@ def _descendant_nodes(item):
 
 def _step_is_just_node(r):
     return isinstance(r, step) \
+        and r.axis == 'child' \
         and isinstance(r.node_test, node_type_test) \
         and r.node_test.name == 'node'
 
-- 
2.43.0


From 782453c1f1e36ba4cab469812cba857a352f5a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:12 +0000
Subject: [PATCH 30/61] fix: text() or node() on its own in XPath is a child
 step

---
 pylib/uxml/uxpath/parserules.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/parserules.py b/pylib/uxml/uxpath/parserules.py
index 0415d58..1922872 100644
--- a/pylib/uxml/uxpath/parserules.py
+++ b/pylib/uxml/uxpath/parserules.py
@@ -95,7 +95,8 @@ def p_expr_paths_etc(p):
          | FunctionCall
          | VariableReference
     """
-    p[0] = p[1]
+    # Again the ambiguity between node type test & function call
+    p[0] = xast.step('child', p[1]) if isinstance(p[1], xast.node_type_test) else p[1]
 
 def p_expr_literal(p):
     """
-- 
2.43.0


From 1ac3a8ac969825cff16df6a70fba4ca9c793307b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:31 +0000
Subject: [PATCH 31/61] fix: XPath casts follow the documented rules for
 numbers, booleans and NaN

---
 pylib/uxml/uxpath/xast.py | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 31d3f80..5bc5df1 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -24,8 +24,11 @@ __all__ = [
     ]
 
 
+import math
 import operator
+import re
 import weakref
+from decimal import Decimal
 # import functools
 from collections.abc import Iterable
 from amara3.uxml.tree import node, element, strval
@@ -93,6 +96,24 @@ def index_docorder(node):
         node._docorder = index
 
 
+def _number_to_string(val):
+    if math.isnan(val):
+        return 'NaN'
+    elif math.isinf(val):
+        return 'Infinity' if val > 0 else '-Infinity'
+    elif val == int(val):
+        return str(int(val))
+    # No exponents
+    return format(Decimal(repr(val)), 'f')
+
+
+NUMBER_PAT = re.compile(r'[ \t\r\n]*-?([0-9]+(\.[0-9]*)?|\.[0-9]+)[ \t\r\n]*')
+
+
+def _string_to_number(val):
+    return float(val) if NUMBER_PAT.fullmatch(val) else float('nan')
+
+
 # Casts
 def to_string(obj):
     '''
@@ -110,10 +131,10 @@ def to_string(obj):
         yield val
     elif isinstance(val, node):
         yield strval(val)
-    elif isinstance(val, int) or isinstance(val, float):
-        yield str(val)
     elif isinstance(val, bool):
         yield 'true' if val else 'false'
+    elif isinstance(val, int) or isinstance(val, float):
+        yield _number_to_string(val)
     else:
         raise RuntimeError('Unknown type for string conversion: {}'.format(val))
 
@@ -129,12 +150,11 @@ def to_number(obj):
     else:
         val = obj
     if val is None:
-        # FIXME: Should be NaN, not 0
-        yield 0
+        yield float('nan')
     elif isinstance(val, str):
-        yield float(val)
+        yield _string_to_number(val)
     elif isinstance(val, node):
-        yield float(strval(val))
+        yield _string_to_number(strval(val))
     elif isinstance(val, int) or isinstance(val, float):
         yield val
     else:
@@ -161,7 +181,8 @@ def to_boolean(obj):
     elif isinstance(val, node):
         yield True
     elif isinstance(val, float) or isinstance(val, int):
-        yield bool(val)
+        # NaN is the only value not equal to itself
+        yield bool(val) and val == val
     else:
         raise RuntimeError('Unknown type for boolean conversion: {}'.format(val))
 
-- 
2.43.0


From 6c3198da6aab673c41a3d4308e9da7c6de6f8bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:32 +0000
Subject: [PATCH 32/61] fix: XPath unary minus negates its operand

---
 pylib/uxml/uxpath/xast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 5bc5df1..782ecc1 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -237,7 +237,7 @@ class unary_expression:
 
     def compute(self, ctx):
         # self.op is always '-'
-        yield -(to_number(next(self.right.compute(ctx), None)))
+        yield -next(to_number(next(self.right.compute(ctx), None)))
 
 
 BE_KEYWORDS = set(['or', 'and', 'div', 'mod'])
-- 
2.43.0


From a68310977a7bf6006e475a0f901672b022dc1a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:34 +0000
Subject: [PATCH 33/61] fix: XPath 'and' & 'or' yield the boolean outcome, also
 with empty sequences

---
 pylib/uxml/uxpath/xast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 782ecc1..76a9daa 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -350,7 +350,7 @@ class binary_expression:
         elif self.op == 'or':
             lhs = self.left.compute(ctx)
             rhs = self.right.compute(ctx)
-            yield next(lhs) or next(rhs)
+            yield next(to_boolean(lhs)) or next(to_boolean(rhs))
         elif self.op == 'and':
             lhs = self.left.compute(ctx)
             rhs = self.right.compute(ctx)
@@ -358,7 +358,7 @@ class binary_expression:
             # rhs_val = next(rhs, None)
             # print((self.left, lhs_val, self.right, rhs_val))
             # yield lhs_val and rhs_val
-            yield next(lhs) and next(rhs)
+            yield next(to_boolean(lhs)) and next(to_boolean(rhs))
         else:
             raise NotImplementedError('Oops! Operator "{}" not yet implemented'.format(self.op))
         return
-- 
2.43.0


From 57b265d49373b595d5bb52c54d02e5fd9fbe1922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:04 +0000
Subject: [PATCH 34/61] fix: XPath comparisons work with any items, and with
 sequences of any length

---
 pylib/uxml/uxpath/xast.py | 42 ++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 76a9daa..a7a8f37 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -243,6 +243,28 @@ class unary_expression:
 BE_KEYWORDS = set(['or', 'and', 'div', 'mod'])
 
 
+def _compare(op, lhs, rhs):
+    '''
+    XPath comparison. True if it holds for any item in lhs with any item in rhs
+    '''
+    rhs = list(rhs)
+    for left in lhs:
+        for right in rhs:
+            i = left.xml_value if isinstance(left, node) else left
+            j = right.xml_value if isinstance(right, node) else right
+            if op not in (operator.eq, operator.ne):
+                cast = to_number
+            elif isinstance(i, bool) or isinstance(j, bool):
+                cast = to_boolean
+            elif isinstance(i, str) and isinstance(j, str):
+                cast = to_string
+            else:
+                cast = to_number
+            if op(next(cast(i)), next(cast(j))):
+                return True
+    return False
+
+
 class binary_expression:
     '''Binary XPath expression, e.g. a/b; a and b; a | b.'''
 
@@ -318,35 +340,27 @@ class binary_expression:
             lhs = self.left.compute(ctx)
             rhs = self.right.compute(ctx)
             # print(ctx.item, list(self.left.compute(ctx)), list(self.right.compute(ctx)))
-            # If LHS is a node sequence, check comparison on each item
-            for i in lhs:
-                for j in rhs:
-                    i = i.xml_value if isinstance(i, node) else i
-                    j = i.xml_value if isinstance(j, node) else j
-                    if i == j:
-                        yield True
-                        return
-            yield False
+            yield _compare(operator.eq, lhs, rhs)
         elif self.op == '!=':
             lhs = self.left.compute(ctx)
             rhs = self.right.compute(ctx)
-            yield next(lhs) != next(rhs)
+            yield _compare(operator.ne, lhs, rhs)
         elif self.op == '>':
             lhs = self.left.compute(ctx)
             rhs = self.right.compute(ctx)
-            yield next(lhs) > next(rhs)
+            yield _compare(operator.gt, lhs, rhs)
         elif self.op == '<':
             lhs = self.left.compute(ctx)
             rhs = self.right.compute(ctx)
-            yield next(lhs) < next(rhs)
+            yield _compare(operator.lt, lhs, rhs)
         elif self.op == '>=':
             lhs = self.left.compute(ctx)
             rhs = self.right.compute(ctx)
-            yield next(lhs) >= next(rhs)
+            yield _compare(operator.ge, lhs, rhs)
         elif self.op == '<=':
             lhs = self.left.compute(ctx)
             rhs = self.right.compute(ctx)
-            yield next(lhs) <= next(rhs)
+            yield _compare(operator.le, lhs, rhs)
         elif self.op == 'or':
             lhs = self.left.compute(ctx)
             rhs = self.right.compute(ctx)
-- 
2.43.0


From fc9e782c4c5877b61bd8dc7c57f106ef9453d228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:05 +0000
Subject: [PATCH 35/61] fix: XPath unions support all kinds of nodes, in
 current document order, without duplicates

---
 pylib/uxml/uxpath/xast.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index a7a8f37..060017f 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -114,6 +114,21 @@ def _string_to_number(val):
     return float(val) if NUMBER_PAT.fullmatch(val) else float('nan')
 
 
+def _docorder_key(item):
+    '''
+    Position of a node in its tree, for sorting in document order. Attributes come
+    right after the element they belong to
+    '''
+    if isinstance(item, root_node):
+        return ()
+    parent = item.xml_parent
+    if isinstance(item, attribute_node):
+        return _docorder_key(parent) + (-1, list(parent.xml_attributes).index(item.xml_name))
+    siblings = parent.xml_children if parent else [item]
+    return _docorder_key(parent or root_node.get(item)) + \
+        tuple(ix for ix, sibling in enumerate(siblings) if sibling is item)
+
+
 # Casts
 def to_string(obj):
     '''
@@ -326,14 +341,12 @@ class binary_expression:
                 new_ctx = ctx.copy(item=item)
                 yield from right.compute(new_ctx)
         elif self.op == '|':
-            # Union expressions require an indexing by doc order
-            if not hasattr(ctx.item, '_docorder'):
-                index_docorder(ctx.item)
             # XXX Might be more efficient to maintain a list in doc order as left & right are added
             selected = list(self.left.compute(ctx))
             selected.extend(list(self.right.compute(ctx)))
-            selected.sort(key=operator.attrgetter('_docorder'))
-            yield from selected
+            # The same node has only one position, even if selected more than once
+            selected = { _docorder_key(item): item for item in selected }
+            yield from (selected[key] for key in sorted(selected))
 
         # FIXME: A lot of work to do on comparisons
         elif self.op == '=':
-- 
2.43.0


From 1187d43fddef12a189281f2ae07a54534a4e6c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:43 +0000
Subject: [PATCH 36/61] fix: each XPath predicate filters, and counts positions
 in, the outcome of the one before

---
 pylib/uxml/uxpath/xast.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 060017f..71004d5 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -631,25 +631,29 @@ class predicated_expression:
 
     def compute(self, ctx):
         # print('predicated_expression', (self.lhs, self.predicates))
-        for pos, item in enumerate(self.lhs.compute(ctx)):
+        selected = self.lhs.compute(ctx)
+        for pred in self.predicates:
+            selected = self._filter(selected, pred, ctx)
+        yield from selected
+
+    def _filter(self, selected, pred, ctx):
+        for pos, item in enumerate(selected):
             # XPath is 1-indexed
             new_ctx = ctx.copy(item=item, pos=pos+1)
-            for pred in self.predicates:
-                if hasattr(pred, 'compute'):
-                    predval = next(pred.compute(new_ctx), False)
-                else:
-                    predval = pred
-                # bools are ints in Python
-                if (isinstance(predval, float) or isinstance(predval, int)) and not isinstance(predval, bool):
-                    if pos + 1 != int(predval):
-                        break
-                else:
-                    if not next(to_boolean(predval)):
-                    # if not next(to_boolean(predval, scalar=True)):
-                        break
+            if hasattr(pred, 'compute'):
+                predval = next(pred.compute(new_ctx), False)
             else:
-                # All predicates true
-                yield item
+                predval = pred
+            # bools are ints in Python
+            if (isinstance(predval, float) or isinstance(predval, int)) and not isinstance(predval, bool):
+                if pos + 1 != predval:
+                    continue
+            else:
+                if not next(to_boolean(predval)):
+                # if not next(to_boolean(predval, scalar=True)):
+                    continue
+            # Predicate true
+            yield item
 
 
 class name_test:
-- 
2.43.0


From 48befc1d7ac088bf93dc0e9771bc591451afde78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:44 +0000
Subject: [PATCH 37/61] fix: serialized XPath expressions can be parsed again,
 with the same meaning

---
 pylib/uxml/uxpath/xast.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 71004d5..99c7c63 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -213,7 +213,11 @@ class literal_wrapper:
         return f'{self.__class__.__name__}: {self.obj}'
 
     def _serialize(self):
-        yield str(self.obj)
+        if isinstance(self.obj, str):
+            quote = "'" if '"' in self.obj else '"'
+            yield quote + self.obj + quote
+        else:
+            yield _number_to_string(self.obj)
 
     def __call__(self, ctx):
         '''
@@ -255,7 +259,8 @@ class unary_expression:
         yield -next(to_number(next(self.right.compute(ctx), None)))
 
 
-BE_KEYWORDS = set(['or', 'and', 'div', 'mod'])
+# Operators which need to be kept apart from names
+BE_KEYWORDS = set(['or', 'and', 'div', 'mod', '-'])
 
 
 def _compare(op, lhs, rhs):
-- 
2.43.0


From 2a3e2770daa91af948fa50b09ae8f1dd0e28975d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:45 +0000
Subject: [PATCH 38/61] fix: XPath string & number functions work with nodes,
 computed arguments and empty sequences

---
 pylib/uxml/uxpath/functions.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/pylib/uxml/uxpath/functions.py b/pylib/uxml/uxpath/functions.py
index 31f60e4..fd9e734 100644
--- a/pylib/uxml/uxpath/functions.py
+++ b/pylib/uxml/uxpath/functions.py
@@ -9,6 +9,7 @@ __all__ = [
 
 
 #import operator
+import math
 from functools import wraps
 from amara3.uxml.tree import node, element, strval
 from amara3.uxml.uxpath.xast import root_node, attribute_node, index_docorder, to_string, to_number, to_boolean
@@ -27,7 +28,7 @@ def number_arg(ctx, obj):
     Handles LiteralObjects as well as computable arguments
     '''
     if hasattr(obj, 'compute'):
-        obj = next(obj.compute(ctx), False)
+        obj = next(obj.compute(ctx), None)
     return to_number(obj)
 
 
@@ -36,7 +37,7 @@ def string_arg(ctx, obj):
     Handles LiteralObjects as well as computable arguments
     '''
     if hasattr(obj, 'compute'):
-        obj = next(obj.compute(ctx), False)
+        obj = next(obj.compute(ctx), None)
     return to_string(obj)
 
 
@@ -154,7 +155,7 @@ def substring_before(ctx, full, part):
     '''
     full = next(string_arg(ctx, full), '')
     part = next(string_arg(ctx, part), '')
-    yield full.partition(part)[0]
+    yield full[:full.find(part)] if part in full else ''
 
 
 @microxpath_function('substring-after')
@@ -164,18 +165,23 @@ def substring_after(ctx, full, part):
     '''
     full = next(string_arg(ctx, full), '')
     part = next(string_arg(ctx, part), '')
-    yield full.partition(part)[-1]
+    yield full[full.find(part)+len(part):] if part in full else ''
+
+
+def _round_number(num):
+    return math.floor(num + 0.5) if math.isfinite(num) else num
 
 
 @microxpath_function('substring')
-def substring(ctx, full, start, length):
+def substring(ctx, full, start, length=None):
     '''
-    Yields one string
+    Yields one string, the characters of the first argument from the given, 1-based
+    position, as many as the given length, or up to the end if this is omitted
     '''
     full = next(string_arg(ctx, full), '')
-    start = int(next(to_number(start)))
-    length = int(next(to_number(length)))
-    yield full[start-1:start-1+length]
+    start = _round_number(next(number_arg(ctx, start)))
+    end = float('inf') if length is None else start + _round_number(next(number_arg(ctx, length)))
+    yield ''.join( c for pos, c in enumerate(full, 1) if start <= pos < end )
 
 
 @microxpath_function('string-length')
@@ -183,11 +189,7 @@ def string_length(ctx, s=None):
     '''
     Yields one number
     '''
-    if s is None:
-        s = ctx.node
-    elif callable(s):
-        s = next(s.compute(ctx), '')
-    yield len(s)
+    yield len(next(string_arg(ctx, ctx.item if s is None else s), ''))
 
 
 @microxpath_function('normalize-space')
@@ -271,7 +273,9 @@ def number(ctx, seq=None):
     * If boolean true yield 1; if boolean false yield 0
     * If a node convert to string as if by a call to string(); yield the same value as if passed that string argument to number()
     '''
-    if hasattr(seq, 'compute'):
+    if seq is None:
+        obj = ctx.item
+    elif hasattr(seq, 'compute'):
         obj = next(seq.compute(ctx), '')
     else:
         obj = seq
-- 
2.43.0


From 195749e7e70379550ab9034079d8dcf81e4f4f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:47 +0000
Subject: [PATCH 39/61] fix: XPath lookup function uses the lookup tables of
 the context

---
 pylib/uxml/uxpath/functions.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pylib/uxml/uxpath/functions.py b/pylib/uxml/uxpath/functions.py
index fd9e734..d8d5bdb 100644
--- a/pylib/uxml/uxpath/functions.py
+++ b/pylib/uxml/uxpath/functions.py
@@ -313,10 +313,9 @@ def lookup_(ctx, tableid, key):
     '''
     tableid = next(string_arg(ctx, tableid), '')
     key = next(string_arg(ctx, key), '')
-    #value = ctx.
-    for item in seq:
-        innerctx = ctx.copy(item=item)
-        yield from pexpr.compute(innerctx)
+    table = ctx.lookuptables.get(tableid, {})
+    if key in table:
+        yield table[key]
 
 
 @microxpath_function('sum')
-- 
2.43.0


From 67f9a0d04c452c3f6bc80676534273127f76b091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:48 +0000
Subject: [PATCH 40/61] fix: XPath names can start with any of #xC0-#xD6

---
 pylib/uxml/uxpath/lexrules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/lexrules.py b/pylib/uxml/uxpath/lexrules.py
index 199a655..317f03c 100644
--- a/pylib/uxml/uxpath/lexrules.py
+++ b/pylib/uxml/uxpath/lexrules.py
@@ -65,7 +65,7 @@ t_STAR_OP = r'\*'
 
 t_ignore = ' \t\r\n'
 
-NameStartChar = r'(' + r'[A-Z]|_|[a-z]|\xc0-\xd6]|[\xd8-\xf6]|[\xf8-\u02ff]|' + \
+NameStartChar = r'(' + r'[A-Z]|_|[a-z]|[\xc0-\xd6]|[\xd8-\xf6]|[\xf8-\u02ff]|' + \
     r'[\u0370-\u037d]|[\u037f-\u1fff]|[\u200c-\u200d]|[\u2070-\u218f]|' + \
     r'[\u2c00-\u2fef]|[\u3001-\uD7FF]|[\uF900-\uFDCF]|[\uFDF0-\uFFFD]' + \
     r'|[\U00010000-\U000EFFFF]' + r')'
-- 
2.43.0


From 3af971c1fd7a1b4f812e93baa38423801bf4b3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:49 +0000
Subject: [PATCH 41/61] fix: XPath 'and' binds more tightly than 'or'

---
 pylib/uxml/uxpath/lexrules.py   |  4 ++--
 pylib/uxml/uxpath/parserules.py | 15 ++++++++++-----
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/pylib/uxml/uxpath/lexrules.py b/pylib/uxml/uxpath/lexrules.py
index 317f03c..8c23f20 100644
--- a/pylib/uxml/uxpath/lexrules.py
+++ b/pylib/uxml/uxpath/lexrules.py
@@ -10,8 +10,8 @@ from ply.lex import TOKEN
 
 # Note: element names can coincide with XPath operators (notably div)
 OPERATOR_NAMES = {
-    'or': 'LOGICAL_OP',
-    'and': 'LOGICAL_OP',
+    'or': 'OR_OP',
+    'and': 'AND_OP',
     'div': 'DIVMOD_OP',
     'mod': 'DIVMOD_OP',
 }
diff --git a/pylib/uxml/uxpath/parserules.py b/pylib/uxml/uxpath/parserules.py
index 1922872..3a442d7 100644
--- a/pylib/uxml/uxpath/parserules.py
+++ b/pylib/uxml/uxpath/parserules.py
@@ -9,7 +9,8 @@ from amara3.uxml.uxpath import xast
 from amara3.uxml.uxpath.lexrules import tokens
 
 precedence = (
-    ('left', 'LOGICAL_OP'),
+    ('left', 'OR_OP'),
+    ('left', 'AND_OP'),
     ('left', 'EQUAL_OP'),
     ('left', 'REL_OP'),
     ('left', 'PLUS_OP', 'MINUS_OP'),
@@ -24,7 +25,8 @@ precedence = (
 
 def p_expr_boolean(p):
     """
-    Expr : Expr LOGICAL_OP Expr
+    Expr : Expr OR_OP Expr
+         | Expr AND_OP Expr
          | Expr EQUAL_OP Expr
          | Expr REL_OP Expr
          | Expr PLUS_OP Expr
@@ -218,7 +220,8 @@ def p_name_test_star(p):
 def p_name_test_name(p):
     """
     NameTest : NAME
-             | LOGICAL_OP
+             | OR_OP
+             | AND_OP
              | DIVMOD_OP
     """
     p[0] = xast.name_test(p[1])
@@ -263,7 +266,8 @@ def p_predicate(p):
 def p_variable_reference(p):
     """
     VariableReference : DOLLAR NAME
-                      | DOLLAR LOGICAL_OP
+                      | DOLLAR OR_OP
+                      | DOLLAR AND_OP
                       | DOLLAR DIVMOD_OP
     """
     p[0] = xast.variable_reference(p[2])
@@ -286,7 +290,8 @@ def p_number(p):
 def p_function_call(p):
     """
     FunctionCall : NAME FormalArguments
-                 | LOGICAL_OP FormalArguments
+                 | OR_OP FormalArguments
+                 | AND_OP FormalArguments
                  | DIVMOD_OP FormalArguments
     """
     # Hacking around the ambiguity between node type test & function call
-- 
2.43.0


From e3a89850e50d1879bbd32cee85f86320d3e67349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:57 +0000
Subject: [PATCH 42/61] fix: isxml C extension loads on current Python versions

---
 clib/xmlstring.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/clib/xmlstring.c b/clib/xmlstring.c
index f1bb7aa..2a3ea98 100644
--- a/clib/xmlstring.c
+++ b/clib/xmlstring.c
@@ -8,9 +8,7 @@ Miscellaneous XML-specific string functions\n\
 Copyright 2016 Uche Ogbuji (USA).\n\
 ";
 
-/*
 #define PY_SSIZE_T_CLEAN
-*/
 #include <Python.h>
 
 #define XmlString_BUILDING_MODULE
@@ -48,9 +46,8 @@ static PyObject *string_isxml(PyObject *self, PyObject *args)
     #http://www.xml.com/pub/a/2007/02/28/what-does-xml-smell-like.html
   */
   char *str, *encoding;
-  int len;
+  Py_ssize_t len, pos = 0;
   PyObject *characters, *result;
-  Py_UNICODE *p;
 
   if (!PyArg_ParseTuple(args,"y#:isxml", &str, &len))
     return NULL;
@@ -111,14 +108,13 @@ static PyObject *string_isxml(PyObject *self, PyObject *args)
     result = Py_False;
   } else {
     /* Find the first non-whitespace character */
-    p = PyUnicode_AS_UNICODE(characters);
-    /* while (*p && IS_XMLSPACE(*p)) {printf("ASCII value = %d, Character = [%c]\n", *p, *p); p++;} */
-    while (IS_XMLSPACE(*p)) p++;
+    len = PyUnicode_GET_LENGTH(characters);
+    while (pos < len && IS_XMLSPACE(PyUnicode_READ_CHAR(characters, pos))) pos++;
 
     /* The first non-whitespace character in a well-formed XML document must
      * be '<'.
      */
-    result = *p == '<' ? Py_True : Py_False;
+    result = pos < len && PyUnicode_READ_CHAR(characters, pos) == '<' ? Py_True : Py_False;
     Py_DECREF(characters);
   }
 
-- 
2.43.0


From 7eefe2050cc757ff25e7dee0e472557a61c98126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:58 +0000
Subject: [PATCH 43/61] fix: microx honours the result limit

---
 exec/microx | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/exec/microx b/exec/microx
index 3f5f1df..444990e 100755
--- a/exec/microx
+++ b/exec/microx
@@ -152,12 +152,21 @@ def run(command_name, command_detail, sources=None, foreach=None, partition=None
         else:
             print(item, file=out)
 
+    def limited(result):
+        nonlocal limit
+        for item in result:
+            if limit is not None:
+                if limit < 1:
+                    return
+                limit -= 1
+            yield item
+
     def process_partition(root):
         if command_name == 'expr':
             expr = command_detail
             ctx = context(root, variables=varmap)
             result = parsed_expr.compute(ctx)
-            for item in result:
+            for item in limited(result):
                 if foreach:
                     ctx = context(item, variables=varmap, force_root=False)
                     innerresult = parsed_foreach.compute(ctx)
@@ -171,7 +180,7 @@ def run(command_name, command_detail, sources=None, foreach=None, partition=None
             for elem in chain([root], descendants(root)):
                 ctx = context(elem, variables=varmap, force_root=False)
                 result = parsed_match.compute(ctx)
-                for item in result:
+                for item in limited(result):
                     if foreach:
                         ctx = context(item, variables=varmap, force_root=False)
                         innerresult = parsed_foreach.compute(ctx)
@@ -232,7 +241,7 @@ if __name__ == '__main__':
         help='MicroXPath expression to be executed on each item in the result sequence from --expr or --match')
     parser.add_argument('--partition', metavar="MICROXPATH",
         help='Element name used to partition documents and parse only a section at a time. Useful for large files.')
-    parser.add_argument('-l', '--limit', metavar="NUMBER",
+    parser.add_argument('-l', '-c', '--limit', metavar="NUMBER", type=int,
         help='Limit the number resuts in the result sequence from --expr or --match.')
     parser.add_argument('-v', '--verbose', action='store_true',
         help='Show verbose error messages')
-- 
2.43.0


From ec03f42e16487221120115993d5e5fa8b070b88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:59 +0000
Subject: [PATCH 44/61] fix: MicroXML scanner starts each run afresh, and
 allows whitespace in tags

---
 pylib/uxml/lex.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pylib/uxml/lex.py b/pylib/uxml/lex.py
index d2ee559..ac9f25c 100644
--- a/pylib/uxml/lex.py
+++ b/pylib/uxml/lex.py
@@ -149,6 +149,8 @@ t_data_NUM_ENT = t_attrsgl_NUM_ENT = t_attrdbl_NUM_ENT
 #print(re.compile(CHARACTER))
 
 # Ignored characters
+t_tag_ignore = ' \t\n'
+t_data_ignore = t_attrsgl_ignore = t_attrdbl_ignore = ''
 #t_ignore = " \t\n"
 
 def t_error(t):
@@ -165,6 +167,7 @@ lexer.begin('data')
 def run(s):
     s = s.replace(u'\r\n', u'\n')
     s = s.replace(u'\r', u'\n')
+    lexer.begin('data') # Could be in the midst of something else from an earlier run
     lexer.input(s)
     # Tokenize
     while True:
-- 
2.43.0


From e383e0ba7ff50ae5c28209a1116de773c1064867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:56 +0000
Subject: [PATCH 45/61] fix: select_value yields only elements, not text nodes

---
 pylib/uxml/treeutil.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pylib/uxml/treeutil.py b/pylib/uxml/treeutil.py
index b69d62d..ba0ed82 100644
--- a/pylib/uxml/treeutil.py
+++ b/pylib/uxml/treeutil.py
@@ -54,9 +54,7 @@ def select_value(source, val):
     source - if an element, starts with all child elements in order; can also be any other iterator
     val - string value to match
     '''
-    if isinstance(source, element):
-        source = source.xml_children
-    return filter(lambda x: x.xml_value == val, source)
+    return filter(lambda x: x.xml_value == val, select_elements(source))
 
 
 def select_attribute(source, name, val=None):
-- 
2.43.0


From a021f191f643f3bf669084777f5f52cdbc380992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:16 +0000
Subject: [PATCH 46/61] fix: following axis from an attribute includes the
 content of its element

---
 pylib/uxml/uxpath/xast.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 99c7c63..62031cd 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -559,7 +559,11 @@ class step:
         elif self.axis == 'following':
             origin = ctx.item
             while origin is not None:
-                to_process = _siblings(origin)[1]
+                if isinstance(origin, attribute_node):
+                    # The content of the element comes after its attributes
+                    to_process = list(origin.xml_parent.xml_children)
+                else:
+                    to_process = _siblings(origin)[1]
                 while to_process:
                     ff = to_process[0]
                     to_process = list(ff.xml_children) + to_process[1:]
-- 
2.43.0


From 036ea5a96e220093f9e08cebf7b31ecc8814737d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:20 +0000
Subject: [PATCH 47/61] fix: XPath booleans become the numbers 0 and 1 when
 converted to numbers

---
 pylib/uxml/uxpath/xast.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 62031cd..b38e3ee 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -170,6 +170,8 @@ def to_number(obj):
         yield _string_to_number(val)
     elif isinstance(val, node):
         yield _string_to_number(strval(val))
+    elif isinstance(val, bool):
+        yield int(val)
     elif isinstance(val, int) or isinstance(val, float):
         yield val
     else:
-- 
2.43.0


From 12e489d30e9de19270c4bae6c952e7a831d1e648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:03 +0000
Subject: [PATCH 48/61] fix: XPath predicates and path separators bind tighter
 than operators

---
 pylib/uxml/uxpath/parserules.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pylib/uxml/uxpath/parserules.py b/pylib/uxml/uxpath/parserules.py
index 3a442d7..b62508f 100644
--- a/pylib/uxml/uxpath/parserules.py
+++ b/pylib/uxml/uxpath/parserules.py
@@ -17,6 +17,7 @@ precedence = (
     ('left', 'MULT_OP', 'DIVMOD_OP'),
     ('right', 'UMINUS_OP'),
     ('left', 'UNION_OP'),
+    ('right', 'OPEN_BRACKET', 'PATH_SEP', 'ABBREV_PATH_SEP'),
 )
 
 #
-- 
2.43.0


From 457bf45584a3b948a4a1042be49a4229df742e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:35 +0000
Subject: [PATCH 49/61] fix: XPath string conversion gives plain strings, not
 text nodes

---
 pylib/uxml/uxpath/xast.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index b38e3ee..79b5ff3 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -143,7 +143,8 @@ def to_string(obj):
     if val is None:
         yield ''
     elif isinstance(val, str):
-        yield val
+        #Text nodes are also strings, but their string value is just a string
+        yield str(val)
     elif isinstance(val, node):
         yield strval(val)
     elif isinstance(val, bool):
-- 
2.43.0


From 319c50930d0c57ee7b3cc14babfdb7ce84885c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:33 +0000
Subject: [PATCH 50/61] fix: a lone / takes no steps without parentheses

---
 pylib/uxml/uxpath/parserules.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pylib/uxml/uxpath/parserules.py b/pylib/uxml/uxpath/parserules.py
index b62508f..00e232d 100644
--- a/pylib/uxml/uxpath/parserules.py
+++ b/pylib/uxml/uxpath/parserules.py
@@ -87,6 +87,9 @@ def p_path_expr_binary(p):
     Expr : Expr PATH_SEP RelativeLocationPath
          | Expr ABBREV_PATH_SEP RelativeLocationPath
     """
+    # / must be in parentheses to have steps from it, as otherwise / /a would be //a
+    if isinstance(p[1], xast.absolute_path) and not p[1].relative:
+        raise RuntimeError("Syntax error at '{0}'".format(p[2]))
     p[0] = xast.binary_expression(p[1], p[2], p[3])
 
 def p_expr_paths_etc(p):
-- 
2.43.0


From c41c5728f00473387d72210a5f60e0cc2021a5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:40 +0000
Subject: [PATCH 51/61] fix: / followed by an element name which is also an
 operator is a path

---
 pylib/uxml/uxpath/parserules.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/parserules.py b/pylib/uxml/uxpath/parserules.py
index 00e232d..d2d14b2 100644
--- a/pylib/uxml/uxpath/parserules.py
+++ b/pylib/uxml/uxpath/parserules.py
@@ -9,6 +9,8 @@ from amara3.uxml.uxpath import xast
 from amara3.uxml.uxpath.lexrules import tokens
 
 precedence = (
+    # / followed by a name which coincides with an operator is a path, not an operation on the root
+    ('nonassoc', 'LONE_PATH_SEP'),
     ('left', 'OR_OP'),
     ('left', 'AND_OP'),
     ('left', 'EQUAL_OP'),
@@ -117,7 +119,7 @@ def p_expr_literal(p):
 
 def p_absolute_location_path_rootonly(p):
     """
-    AbsoluteLocationPath : PATH_SEP
+    AbsoluteLocationPath : PATH_SEP %prec LONE_PATH_SEP
     """
     p[0] = xast.absolute_path(p[1])
 
-- 
2.43.0


From d43011a2f17c7a184868fa1a3186531b20c22664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:40 +0000
Subject: [PATCH 52/61] fix: XPath numbers have ASCII digits only

---
 pylib/uxml/uxpath/lexrules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/uxpath/lexrules.py b/pylib/uxml/uxpath/lexrules.py
index 8c23f20..21b1da7 100644
--- a/pylib/uxml/uxpath/lexrules.py
+++ b/pylib/uxml/uxpath/lexrules.py
@@ -90,12 +90,12 @@ def t_LITERAL(t):
     return t
 
 def t_FLOAT(t):
-    r'\d+\.\d*|\.\d+'
+    r'[0-9]+\.[0-9]*|\.[0-9]+'
     t.value = float(t.value)
     return t
 
 def t_INTEGER(t):
-    r'\d+'
+    r'[0-9]+'
     t.value = int(t.value)
     return t
 
-- 
2.43.0


From 8f7e95f7d9310a7367459673e966439417bf81b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:50 +0000
Subject: [PATCH 53/61] fix: node tests take no arguments

---
 pylib/uxml/uxpath/parserules.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/parserules.py b/pylib/uxml/uxpath/parserules.py
index d2d14b2..7f28036 100644
--- a/pylib/uxml/uxpath/parserules.py
+++ b/pylib/uxml/uxpath/parserules.py
@@ -206,7 +206,6 @@ def p_node_test_type(p):
     """
     NodeTest : FunctionCall
     """
-    # FIXME: Also check no args
     if p[1].name not in ('node', 'text'):
         raise RuntimeError("Invalid node test '{0}'".format(p[1]))
     p[0] = p[1]
@@ -302,6 +301,8 @@ def p_function_call(p):
     """
     # Hacking around the ambiguity between node type test & function call
     if p[1] in ('node', 'text'):
+        if p[2]:
+            raise RuntimeError("Arguments given to node test '{0}'".format(p[1]))
         p[0] = xast.node_type_test(p[1])
     else:
         p[0] = xast.function_call(p[1], p[2])
-- 
2.43.0


From 7df3fefe154611801c01eb9a46c3184848f57dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:30 +0000
Subject: [PATCH 54/61] fix: MicroXML scanner keeps tabs and line feeds in
 attribute values

---
 pylib/uxml/lex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/lex.py b/pylib/uxml/lex.py
index ac9f25c..f907512 100644
--- a/pylib/uxml/lex.py
+++ b/pylib/uxml/lex.py
@@ -48,13 +48,13 @@ NAMECHAR =  '[-.0-9A-Za-z_\u00B7\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u037D' \
             '\uF900-\uFDCF\uFDF0-\uFFFD\U00010000-\U000EFFFF]'
 
 #For single quoted attrs
-ATTRIBVALCHAR_SGL = '[\u0020-\u0025\u0028-\u003B\u003D\u003F-\u007e\u00a0-\ud7ff\ue000-\ufdcf\ufdf0-\ufffd' \
+ATTRIBVALCHAR_SGL = '[\u0009\u000a\u0020-\u0025\u0028-\u003B\u003D\u003F-\u007e\u00a0-\ud7ff\ue000-\ufdcf\ufdf0-\ufffd' \
             '\U00010000-\U0001fffd\U00020000-\U0002fffd\U00030000-\U0003fffd\U00040000-\U0004fffd\U00050000-\U0005fffd\U00060000-\U0006fffd' \
             '\U00070000-\U0007fffd\U00080000-\U0008fffd\U00090000-\U0009fffd\U000a0000-\U000afffd\U000b0000-\U000bfffd\U000c0000-\U000cfffd' \
             '\U000d0000-\U000dfffd\U000e0000-\U000efffd\U000f0000-\U000ffffd\U00100000-\U0010fffd]'
 
 #For double quoted attrs
-ATTRIBVALCHAR_DBL = '[\u0020-\u0021\\\u0023-\u0025\u0027-\u003B\u003D\u003F-\u007e\u00a0-\ud7ff\ue000-\ufdcf\ufdf0-\ufffd' \
+ATTRIBVALCHAR_DBL = '[\u0009\u000a\u0020-\u0021\\\u0023-\u0025\u0027-\u003B\u003D\u003F-\u007e\u00a0-\ud7ff\ue000-\ufdcf\ufdf0-\ufffd' \
             '\U00010000-\U0001fffd\U00020000-\U0002fffd\U00030000-\U0003fffd\U00040000-\U0004fffd\U00050000-\U0005fffd\U00060000-\U0006fffd' \
             '\U00070000-\U0007fffd\U00080000-\U0008fffd\U00090000-\U0009fffd\U000a0000-\U000afffd\U000b0000-\U000bfffd\U000c0000-\U000cfffd' \
             '\U000d0000-\U000dfffd\U000e0000-\U000efffd\U000f0000-\U000ffffd\U00100000-\U0010fffd]'
-- 
2.43.0


From 0146cf0aab9d67fd22acd42086e0769c4cd19065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:56 +0000
Subject: [PATCH 55/61] fix: XPath root nodes are encoded as their document

---
 pylib/uxml/uxpath/xast.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 79b5ff3..ae193cf 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -51,6 +51,9 @@ class root_node(node):
     def xml_value(self):
         return self.xml_children[0].xml_value
 
+    def xml_encode(self, indent=None, depth=0):
+        return self.xml_children[0].xml_encode(indent=indent, depth=depth)
+
     def __repr__(self):
         return u'{uxpath.rootnode}'
 
-- 
2.43.0


From 71c8b8848446dda5daa5d857a8d95e5f820edd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:36 +0000
Subject: [PATCH 56/61] fix: sinks can move the elements senders deliver into
 other trees

---
 pylib/uxml/treeiter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pylib/uxml/treeiter.py b/pylib/uxml/treeiter.py
index 12d9d6e..6fb11ad 100644
--- a/pylib/uxml/treeiter.py
+++ b/pylib/uxml/treeiter.py
@@ -169,6 +169,9 @@ class sender:
                         #Done with this subtree
                         if not building_depth:
                             self._sinks[ix].send(parent)
+                            #Let go of it. Do not look for its parent, because the sink
+                            #can have made it part of another tree
+                            parent = self._parents[ix] = self._roots[ix] = None
                         #Pop back up in element ancestry
                         if parent:
                             parent = self._parents[ix] = parent.xml_parent
-- 
2.43.0


From a86dd39bdda02fa3da3718d294d4c9191c3b6ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:15 +0000
Subject: [PATCH 57/61] fix: microx --find-text lists the paths of the elements
 with the text, not of their parents

---
 exec/microx | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/exec/microx b/exec/microx
index 444990e..d029a9d 100755
--- a/exec/microx
+++ b/exec/microx
@@ -112,15 +112,13 @@ P = TB.parse
 
 def xpath_to(node, show_attrs):
     ancestors = []
-    parent = node.xml_parent
-    while parent:
-        step = parent.xml_name
+    while node:
+        step = node.xml_name
         for sattr in show_attrs:
-            if sattr in parent.xml_attributes:
-                step += f'[@{sattr}="{parent.xml_attributes[sattr]}"]'
+            if sattr in node.xml_attributes:
+                step += f'[@{sattr}="{node.xml_attributes[sattr]}"]'
         ancestors.append(step)
-        node = parent
-        parent = node.xml_parent
+        node = node.xml_parent
     ancestors.reverse()
     xp = '/'.join(ancestors)
     return xp
-- 
2.43.0


From fe31179d129e075514a9bcd76fde0647d2f5ba60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:18 +0000
Subject: [PATCH 58/61] fix: html5.markup_fragment returns the body instead of
 raising AttributeError

---
 pylib/uxml/html5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/html5.py b/pylib/uxml/html5.py
index 470be9d..606c000 100644
--- a/pylib/uxml/html5.py
+++ b/pylib/uxml/html5.py
@@ -352,6 +352,6 @@ def markup_fragment(source, encoding=None):
     See also: http://wiki.xml3k.org/Amara2/Tagsoup [TODO: Page defunct - restore it]
     '''
     doc = parse(source, encoding=encoding)
-    frag = doc.html.body
+    frag = next(select_name(doc, 'body'), None)
     return frag
 
-- 
2.43.0


From 668fe455d60f4882330ce703c0fbfd9b770161ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:00 +0000
Subject: [PATCH 59/61] fix: senders start afresh after a document which broke
 off

---
 pylib/uxml/treeiter.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pylib/uxml/treeiter.py b/pylib/uxml/treeiter.py
index 6fb11ad..1d6c94c 100644
--- a/pylib/uxml/treeiter.py
+++ b/pylib/uxml/treeiter.py
@@ -62,11 +62,8 @@ class sender:
         self._sinks = sinks if isinstance(sinks, list) or isinstance(sinks, tuple) else [sinks]
         if len(self._sinks) != self._pattern_count:
             raise ValueError('Number of patterns must match number of sinks')
-        self._roots = [None] * self._pattern_count
-        self._parents = [None] * self._pattern_count
         self._stateses = [None] * self._pattern_count
-        self._evstacks = [ [] for i in range(self._pattern_count) ]
-        self._building_depths = [0] * self._pattern_count
+        self._start_document()
         # if asyncio.iscoroutine(sink):
         if prime_sinks:
             for sink in self._sinks:
@@ -75,6 +72,13 @@ class sender:
         self._currents = [None] * self._pattern_count
         self._prep_patterns()
 
+    def _start_document(self):
+        # Forget whatever is left of an earlier document, which might have broken off
+        self._roots = [None] * self._pattern_count
+        self._parents = [None] * self._pattern_count
+        self._evstacks = [ [] for i in range(self._pattern_count) ]
+        self._building_depths = [0] * self._pattern_count
+
     def _only_name(self, next, name):
         def _only_name_func(ev):
             if ev[0] == event.start_element and ev[1] == name:
@@ -135,6 +139,7 @@ class sender:
         return False
 
     def _handler(self):
+        self._start_document()
         while True:
             ev = yield
             for ix, evstack in enumerate(self._evstacks):
-- 
2.43.0


From d005b6d647d91cb2063d3abea44973771d120be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:37 +0000
Subject: [PATCH 60/61] fix: threads may parse XPath expressions at the same
 time

---
 pylib/uxml/uxpath/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/__init__.py b/pylib/uxml/uxpath/__init__.py
index 6759e2a..8c9822a 100644
--- a/pylib/uxml/uxpath/__init__.py
+++ b/pylib/uxml/uxpath/__init__.py
@@ -68,7 +68,8 @@ def parse(xpath):
     >>> xp = parse('a/text()')
     '''
     # Explicitly specify the lexer created above, otherwise parser.parse will use the most-recently created lexer. (Ewww! Wha?!)
-    return parser.parse(xpath, lexer=lexer)#, debug=True)
+    # A copy, because other threads might be in the midst of using the lexer
+    return parser.parse(xpath, lexer=lexer.clone())#, debug=True)
 
 
 class context(object):
-- 
2.43.0


From 74e75cdcb79ca4430e75a1bfb0b6fdd26fd43ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:57 +0000
Subject: [PATCH 61/61] fix: amara3.uxml.parse may be used in several threads

---
 pylib/uxml/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/__init__.py b/pylib/uxml/__init__.py
index 16b7db3..7b66e2a 100644
--- a/pylib/uxml/__init__.py
+++ b/pylib/uxml/__init__.py
@@ -14,7 +14,8 @@ amara.lib.inputsource.text if it's not obviously XML
 from amara3.uxml import tree
 
 TB = tree.treebuilder()
-parse = TB.parse
+#Not of TB, which builds one tree at a time, so would mix those of several threads
+parse = tree.parse
 
 
 try:
-- 
2.43.0

