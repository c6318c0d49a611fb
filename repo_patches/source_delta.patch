From 9fc810a16b1af2a4332b80be9a7dc6abd1fa0108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:26 +0000
Subject: [PATCH 01/38] fix: re-read an attribute whose value is split across
 input fragments

---
 pylib/uxml/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index d9f38ba..382169f 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -287,7 +287,8 @@ def parser(handler, strict=True):
                             aval, newpos = handle_cdata(pos+1, window, attrpat, openattr)
                             if aval == None:
                                 if not done: need_input = True
-                                #Don't advance to newpos, so effectively backtrack
+                                #Re-read the whole attribute once there's more input
+                                pos = backtrackpos
                                 continue
                                 #if window[pos] != openattr:
                                 #    raise RuntimeError('Mismatch in attribute quotes')
-- 
2.43.0


From 25c7f02fa7076e60a9307058db7722e5460f8878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:28 +0000
Subject: [PATCH 02/38] fix: do not prime the parser's event accumulator twice
 (spurious None event)

---
 pylib/uxml/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index 382169f..af2f882 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -344,7 +344,7 @@ echo "for e in parsefrags(('<spa', 'm>eggs</spam>')): print(e)" >> /tmp/spam.py
 python -m pdb -c "b /Users/uche/.local/venv/py3/lib/python3.3/site-packages/amara3/uxml/parser.py:173" /tmp/spam.py
 '''
 
-@coroutine
+#Not decorated with @coroutine because the parser primes its handler
 def handler(accumulator):
     while True:
         event = yield
-- 
2.43.0


From 11b5662d3b5d0b43108706c1163cb8bbc7ee9c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:30 +0000
Subject: [PATCH 03/38] fix: raise the intended error for an illegal character
 reference

---
 pylib/uxml/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index af2f882..f1148bd 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -124,7 +124,7 @@ def handle_cdata(pos, window, charpat, stopchars):
                                 raise RuntimeError('Unknown named character reference: {0}'.format(repr(window[start:cursor])))
                             break
                         else:
-                            raise RuntimeError('Illegal in character reference: {0} (around {1})'.format(window[cursor]), error_context(window, start, cursor))
+                            raise RuntimeError('Illegal in character reference: {0} (around {1})'.format(window[cursor], error_context(window, start, cursor)))
             #print(start, cursor, cdata, window[cursor])
             cursor += 1
             start = cursor
-- 
2.43.0


From 1691b506dd1b6c097eb4959314d3a224233a5e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:32 +0000
Subject: [PATCH 04/38] fix: raise an error rather than loop forever on junk
 before the document element

---
 pylib/uxml/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index f1148bd..5710827 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -176,6 +176,8 @@ def parser(handler, strict=True):
                         if window[pos] == '<':
                             pos += 1
                             curr_state = state.pre_tag_gi
+                        else:
+                            raise RuntimeError('Expected \'<\', found {0}'.format(window[pos]))
                         #if not done and pos == wlen:
                         #    need_input = True
                         #    continue
-- 
2.43.0


From cf41ea03099b09e8da5047dcc5b57cf3a071adb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:34 +0000
Subject: [PATCH 05/38] fix: report truncated input rather than looping forever
 or accepting it

---
 pylib/uxml/parser.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index 5710827..bd3b23b 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -168,7 +168,7 @@ def parser(handler, strict=True):
                             while window[pos] in ' \r\n\t':
                                 pos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             continue
                         #if not done and pos == wlen:
                         #    need_input = True
@@ -188,7 +188,7 @@ def parser(handler, strict=True):
                             while window[pos] in ' \r\n\t':
                                 pos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             continue
                         if curr_state == state.pre_tag_gi and window[pos] == '/':
                             pos += 1
@@ -205,7 +205,7 @@ def parser(handler, strict=True):
                                 while NAMECHAR.match(window[advpos]):
                                     advpos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             continue
                         else:
                             gi = window[pos:advpos]
@@ -217,7 +217,7 @@ def parser(handler, strict=True):
                             while window[pos] in ' \r\n\t':
                                 pos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             continue
                         #Check for attributes
                         if pending_event == event.start_element and NAMESTARTCHAR.match(window[pos]):
@@ -241,12 +241,8 @@ def parser(handler, strict=True):
                                 if not element_stack: #and if strict
                                     curr_state = state.complete_doc
                             if pos == wlen:
-                                if done:
-                                    #Error: unfinished business if this is opening tag
-                                    break
-                                else:
-                                    need_input = True
-                                    continue
+                                need_input = True
+                                continue
                         else:
                             raise RuntimeError('Expected \'>\', found {0}'.format(window[pos]))
                     if curr_state == state.attribute:
@@ -256,7 +252,7 @@ def parser(handler, strict=True):
                             while NAMECHAR.match(window[advpos]):
                                 advpos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             pos = backtrackpos
                             continue
                         else:
@@ -268,7 +264,7 @@ def parser(handler, strict=True):
                             while window[pos] in ' \r\n\t':
                                 pos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             pos = backtrackpos
                             continue
 
@@ -276,7 +272,7 @@ def parser(handler, strict=True):
                             pos += 1
                         else:
                             raise RuntimeError('Expected \'=\', found {0} (around {1})'.format(window[pos], error_context(window, pos, pos)))
-                        if not done and pos == wlen:
+                        if pos == wlen:
                             need_input = True
                             pos = backtrackpos
                             continue
@@ -288,7 +284,7 @@ def parser(handler, strict=True):
                             #pos + 1 to skip the opening quote
                             aval, newpos = handle_cdata(pos+1, window, attrpat, openattr)
                             if aval == None:
-                                if not done: need_input = True
+                                need_input = True
                                 #Re-read the whole attribute once there's more input
                                 pos = backtrackpos
                                 continue
@@ -300,7 +296,7 @@ def parser(handler, strict=True):
                     if curr_state == state.in_element:
                         chars, newpos = handle_cdata(pos, window, DATACHAR, '<')
                         if chars == None:
-                            if not done: need_input = True
+                            need_input = True
                             #Don't advance to newpos, so effectively backtrack
                             continue
                         pos = newpos
@@ -320,7 +316,7 @@ def parser(handler, strict=True):
                             while window[pos] in ' \r\n\t':
                                 pos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             continue
                         #if not done and pos == wlen:
                         #    need_input = True
@@ -331,6 +327,9 @@ def parser(handler, strict=True):
                             raise RuntimeError('Junk after document element')
                     #print('END1')
                 #print('END2')
+            #No more input, so anything unfinished at this point will never be finished
+            if wlen and curr_state != state.complete_doc:
+                raise RuntimeError('Unexpected end of input')
             sentinel = yield #Avoid StopIteration in parent from running off enf of coroutine?
         except GeneratorExit:
             #close() called
-- 
2.43.0


From 7e09c112dda3faa867eaa186a979e374a946f679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:07 +0000
Subject: [PATCH 06/38] fix: remove the very child node given, not the first
 one equal to it

---
 pylib/uxml/tree.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pylib/uxml/tree.py b/pylib/uxml/tree.py
index 2f3a5d8..eaa8aea 100644
--- a/pylib/uxml/tree.py
+++ b/pylib/uxml/tree.py
@@ -146,9 +146,12 @@ class element(node):
 
         child - the child to remove
         '''
-        if child in self.xml_children:
-            child._xml_parent = None
-            self.xml_children.remove(child)
+        #Look for the very node given, not e.g. the first text node with the same value
+        for ix, node_ in enumerate(self.xml_children):
+            if node_ is child:
+                child._xml_parent = None
+                del self.xml_children[ix]
+                break
         else:
             raise ValueError(f'Element {self} has no child {child}')
         return
-- 
2.43.0


From fb93b62cdeecaa26d42c6f54424ee3ab2d226e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:09 +0000
Subject: [PATCH 07/38] fix: following_siblings starts from the very node
 given, not the first one equal to it

---
 pylib/uxml/treeutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/treeutil.py b/pylib/uxml/treeutil.py
index fe63f9d..40267d4 100644
--- a/pylib/uxml/treeutil.py
+++ b/pylib/uxml/treeutil.py
@@ -77,7 +77,7 @@ def following_siblings(elem):
     '''
     Yields elements and text which have the same parent as elem, but come afterward in document order
     '''
-    it = itertools.dropwhile(lambda x: x != elem, elem.xml_parent.xml_children)
+    it = itertools.dropwhile(lambda x: x is not elem, elem.xml_parent.xml_children)
     next(it, None) #Skip the element itself, if any
     return it
 
-- 
2.43.0


From b738c99c66bcd7b353da90633afe9f385cf54c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:11 +0000
Subject: [PATCH 08/38] fix: write tab, newline and CR in attributes as
 references MicroXML parsers accept

---
 pylib/uxml/tree.py   | 11 ++++++++++-
 pylib/uxml/writer.py |  3 ++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/tree.py b/pylib/uxml/tree.py
index eaa8aea..164d4dc 100644
--- a/pylib/uxml/tree.py
+++ b/pylib/uxml/tree.py
@@ -9,13 +9,22 @@
 
 import sys
 import weakref
-from xml.sax.saxutils import escape, quoteattr
+from xml.sax.saxutils import escape, quoteattr as sax_quoteattr
 
 from amara3.uxml.parser import parser, event  # parse, parsefrags
 
 # NO_PARENT = object()
 
 
+def quoteattr(val):
+    '''
+    Escape & quote an attribute value, using only the hexadecimal form of
+    numerical character references, the one form available in MicroXML
+    '''
+    # Any & from the value itself is escaped, so these are all newly added references
+    return sax_quoteattr(val).replace('&#9;', '&#x9;').replace('&#10;', '&#xA;').replace('&#13;', '&#xD;')
+
+
 class node:
     def __init__(self, parent=None):
         self._xml_parent = weakref.ref(parent) if parent is not None else None
diff --git a/pylib/uxml/writer.py b/pylib/uxml/writer.py
index f1ac03f..804a059 100644
--- a/pylib/uxml/writer.py
+++ b/pylib/uxml/writer.py
@@ -4,9 +4,10 @@ Raw XML writer
 '''
 
 from enum import Enum #https://docs.python.org/3.4/library/enum.html
-from xml.sax.saxutils import escape, quoteattr
+from xml.sax.saxutils import escape
 
 from amara3.uxml import tree, xml
+from amara3.uxml.tree import quoteattr
 
 class token(Enum):
     start_open = 1
-- 
2.43.0


From 03e691bfcc704007f84095af95739f779402b799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:13 +0000
Subject: [PATCH 09/38] fix: do not share one treebuilder among all users of
 amara3.uxml.parse

---
 pylib/uxml/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/__init__.py b/pylib/uxml/__init__.py
index 16b7db3..8a427be 100644
--- a/pylib/uxml/__init__.py
+++ b/pylib/uxml/__init__.py
@@ -13,8 +13,8 @@ amara.lib.inputsource.text if it's not obviously XML
 
 from amara3.uxml import tree
 
-TB = tree.treebuilder()
-parse = TB.parse
+#Not a method of one, shared treebuilder, because parses can overlap (e.g. in threads)
+parse = tree.parse
 
 
 try:
-- 
2.43.0


From d60a48db83ea3ca40fb9c0e09628d6cc87a2cbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:15 +0000
Subject: [PATCH 10/38] fix: reset xml.treebuilder so that it can be reused

---
 pylib/uxml/xml.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pylib/uxml/xml.py b/pylib/uxml/xml.py
index afcbd2c..102dc80 100644
--- a/pylib/uxml/xml.py
+++ b/pylib/uxml/xml.py
@@ -117,6 +117,9 @@ class treebuilder(tree.treebuilder):
     root
     '''
     def parse(self, source):
+        #reset
+        self._root = None
+        self._parent = None
         self.handler = expat_callbacks(self._handler())
         self.expat_parser = xml.parsers.expat.ParserCreate(namespace_separator=' ')
 
-- 
2.43.0


From 571ee8d76e852d0156dd2594846bc4064f44563e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:16 +0000
Subject: [PATCH 11/38] fix: report truncated XML in xml.treebuilder.parse

---
 pylib/uxml/xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/xml.py b/pylib/uxml/xml.py
index 102dc80..0c3192c 100644
--- a/pylib/uxml/xml.py
+++ b/pylib/uxml/xml.py
@@ -128,6 +128,6 @@ class treebuilder(tree.treebuilder):
         self.expat_parser.CharacterDataHandler = self.handler.char_data
         self.expat_parser.StartNamespaceDeclHandler = self.handler.start_namespace
         self.expat_parser.EndNamespaceDeclHandler = self.handler.end_namespace
-        self.expat_parser.Parse(source)
+        self.expat_parser.Parse(source, True)
         return self._root
 
-- 
2.43.0


From 9693e8adf4945310d9f1284ec151dc8b8aec1269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:18 +0000
Subject: [PATCH 12/38] fix: use the same local name at the start and end of an
 element from XML

---
 pylib/uxml/xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/xml.py b/pylib/uxml/xml.py
index 0c3192c..36d5d39 100644
--- a/pylib/uxml/xml.py
+++ b/pylib/uxml/xml.py
@@ -33,7 +33,7 @@ class expat_callbacks(object):
 
     def end_element(self, name):
         #print('End element:', name)
-        local = name.split()[1] if ' ' in name else name
+        local = name.split()[-1]
         self._elem_stack.pop()
         self._handler.send((event.end_element, local, self._elem_stack.copy()))
 
-- 
2.43.0


From 047f2077529d20d463f5e3098609a63d15e77e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:20 +0000
Subject: [PATCH 13/38] fix: keep the matching of multiple patterns apart in
 treeiter.sender

---
 pylib/uxml/treeiter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/treeiter.py b/pylib/uxml/treeiter.py
index 9a047fa..d808f3b 100644
--- a/pylib/uxml/treeiter.py
+++ b/pylib/uxml/treeiter.py
@@ -53,7 +53,7 @@ class sender:
         self._roots = [None] * self._pattern_count
         self._parents = [None] * self._pattern_count
         self._stateses = [None] * self._pattern_count
-        self._evstacks = [[]] * self._pattern_count
+        self._evstacks = [ [] for _ in range(self._pattern_count) ]
         self._building_depths = [0] * self._pattern_count
         # if asyncio.iscoroutine(sink):
         if prime_sinks:
@@ -91,8 +91,8 @@ class sender:
         return _any_func
 
     def _prep_patterns(self):
-        next_state = MATCHED_STATE
         for ix, pattern in enumerate(self._patterns):
+            next_state = MATCHED_STATE
             for i in range(len(pattern)):
                 stage = pattern[-i-1]
                 if isinstance(stage, str):
-- 
2.43.0


From 61f4828c441f565cdd19f97c3108fdab7371985a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:22 +0000
Subject: [PATCH 14/38] fix: keep looking past a failed partial match after **
 in treeiter patterns

---
 pylib/uxml/treeiter.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/treeiter.py b/pylib/uxml/treeiter.py
index d808f3b..6e10e48 100644
--- a/pylib/uxml/treeiter.py
+++ b/pylib/uxml/treeiter.py
@@ -79,11 +79,24 @@ class sender:
         def _any_until_func(ev):
             if ev[0] == event.start_element:
                 next_next = next(ev)
+                if next_next is MATCHED_STATE:
+                    return MATCHED_STATE
                 if next_next is not None:
-                    return next_next
+                    #The match of the rest of the pattern might yet fail, so also keep looking for a later start to it
+                    return self._either(next_next, _any_until_func)
             return _any_until_func
         return _any_until_func
 
+    def _either(self, first, second):
+        def _either_func(ev):
+            states = [ state for state in (first(ev), second(ev)) if state is not None ]
+            if MATCHED_STATE in states:
+                return MATCHED_STATE
+            if len(states) == 2:
+                return self._either(*states)
+            return states[0] if states else None
+        return _either_func
+
     def _any(self, next, funcs):
         def _any_func(ev):
             if any( (func(ev) for func in funcs) ):
-- 
2.43.0


From e1a3d2d53618e3ce5f5c495cad764f938083d2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:24 +0000
Subject: [PATCH 15/38] fix: keep looking past a failed partial match after **
 in select_pattern

---
 pylib/uxml/treeutil.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/treeutil.py b/pylib/uxml/treeutil.py
index 40267d4..0cdd386 100644
--- a/pylib/uxml/treeutil.py
+++ b/pylib/uxml/treeutil.py
@@ -107,11 +107,24 @@ def any_until(next):
     def _any_until(node):
         if isinstance(node, element):
             next_next = next(node)
+            if next_next is MATCHED_STATE:
+                return MATCHED_STATE
             if next_next is not None:
-                return next_next
+                #The match of the rest of the pattern might yet fail, so also keep looking for a later start to it
+                return either(next_next, _any_until)
         return _any_until #Return this same state until we can match the next
     return _any_until
 
+def either(first, second):
+    def _either(node):
+        states = [ state for state in (first(node), second(node)) if state is not None ]
+        if MATCHED_STATE in states:
+            return MATCHED_STATE
+        if len(states) == 2:
+            return either(*states)
+        return states[0] if states else None
+    return _either
+
 def any_(next, funcs):
     def _any(node):
         if any( (func(node) for func in funcs) ):
-- 
2.43.0


From b6b5bdf9c31d968e57720c45867dee77028fada4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:26 +0000
Subject: [PATCH 16/38] fix: reset treeiter.sender so that it can be reused
 after an aborted parse

---
 pylib/uxml/treeiter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pylib/uxml/treeiter.py b/pylib/uxml/treeiter.py
index 6e10e48..ad092f2 100644
--- a/pylib/uxml/treeiter.py
+++ b/pylib/uxml/treeiter.py
@@ -176,6 +176,11 @@ class sender:
         return
 
     def parse(self, doc):
+        #Reset, in case an earlier parse didn't run to completion
+        self._roots = [None] * self._pattern_count
+        self._parents = [None] * self._pattern_count
+        self._evstacks = [ [] for _ in range(self._pattern_count) ]
+        self._building_depths = [0] * self._pattern_count
         h = self._handler()
         p = parser(h)
         p.send((doc, False))
-- 
2.43.0


From 5a7227a3441ad61da3ef6f99b027e82abeba030f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:20 +0000
Subject: [PATCH 17/38] fix: do not build the next subtree into the tree to
 which a sink attached the last one

---
 pylib/uxml/treeiter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/treeiter.py b/pylib/uxml/treeiter.py
index ad092f2..c2d68a9 100644
--- a/pylib/uxml/treeiter.py
+++ b/pylib/uxml/treeiter.py
@@ -168,8 +168,10 @@ class sender:
                         #Done with this subtree
                         if not building_depth:
                             self._sinks[ix].send(parent)
+                            #It's the sink's from here, which e.g. might have attached it to another tree
+                            parent = self._parents[ix] = self._roots[ix] = None
                         #Pop back up in element ancestry
-                        if parent:
+                        elif parent:
                             parent = self._parents[ix] = parent.xml_parent
 
                 #print(ev, building_depth, evstack)
-- 
2.43.0


From 4b6c95997c32454632c4075593edfd13ef74a9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:23 +0000
Subject: [PATCH 18/38] fix: do not share one lexer among all overlapping XPath
 parses

---
 pylib/uxml/uxpath/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/__init__.py b/pylib/uxml/uxpath/__init__.py
index 781dd43..ec4a01f 100644
--- a/pylib/uxml/uxpath/__init__.py
+++ b/pylib/uxml/uxpath/__init__.py
@@ -68,7 +68,8 @@ def parse(xpath):
     >>> xp = parse('a/text()')
     '''
     # Explicitly specify the lexer created above, otherwise parser.parse will use the most-recently created lexer. (Ewww! Wha?!)
-    return parser.parse(xpath, lexer=lexer)#, debug=True)
+    # Use a clone because the lexer carries the state of the scan, and parses can overlap (e.g. in threads)
+    return parser.parse(xpath, lexer=lexer.clone())#, debug=True)
 
 
 class context(object):
-- 
2.43.0


From a223ec87534484f0868227344317baff895dce34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:25 +0000
Subject: [PATCH 19/38] fix: start each scan from a clean state, apart from
 other scans

---
 pylib/uxml/lex.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pylib/uxml/lex.py b/pylib/uxml/lex.py
index ffabf2f..2d1398a 100644
--- a/pylib/uxml/lex.py
+++ b/pylib/uxml/lex.py
@@ -157,7 +157,7 @@ def t_error(t):
 
 t_data_error = t_tag_error = t_attrsgl_error = t_attrdbl_error = t_error
 
-# FIXME: Terribly non-reentrant with use of global here.  Right now it's because the lexer is so slow to build.  Figure out how to mitigate...
+# Global because the lexer is so slow to build. Only clones of it are used for scanning
 # Build the lexer
 lexer = lex.lex() #debug=True
 lexer.begin('data')
@@ -165,10 +165,13 @@ lexer.begin('data')
 def run(s):
     s = s.replace(u'\r\n', u'\n')
     s = s.replace(u'\r', u'\n')
-    lexer.input(s)
+    # Use a clone so as not to start from wherever another scan left off, nor to disturb one in progress
+    scanner = lexer.clone()
+    scanner.begin('data')
+    scanner.input(s)
     # Tokenize
     while True:
-        tok = lexer.token()
+        tok = scanner.token()
         if not tok: break      # No more input
         yield tok
 
-- 
2.43.0


From 86ad3d312d441e43efcfab8da2daa2fedeaaa671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:27 +0000
Subject: [PATCH 20/38] fix: do not keep queried trees alive, nor take them as
 unmodified, in the XPath root node cache

---
 pylib/uxml/uxpath/xast.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index d76d65a..97f8cec 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -25,6 +25,7 @@ __all__ = [
 
 
 import operator
+import weakref
 # import functools
 from collections.abc import Iterable
 from amara3.uxml.tree import node, element, strval
@@ -36,7 +37,8 @@ class root_node(node):
     The core uxml object model does not have a root node, but
     we need something to conform as closely as we can to XPath
     '''
-    _cache = {}
+    #Weak values, so that this doesn't keep the trees alive
+    _cache = weakref.WeakValueDictionary()
 
     def __init__(self, docelem):
         self.xml_name = ''
@@ -50,16 +52,15 @@ class root_node(node):
     @staticmethod
     #@functools.lru_cache()
     def get(elem):
-        if elem in root_node._cache: return root_node._cache[elem]
         if isinstance(elem, root_node): return elem
         assert isinstance(elem, element), 'Cannot get root node from object {} of type {}'.format(elem, type(elem))
+        #Always find the current top of the tree, which might have been modified since the last time
         curr_elem = elem
         parent = curr_elem.xml_parent
         while parent:
             curr_elem = parent
             parent = curr_elem.xml_parent
-            if parent in root_node._cache: return root_node._cache[parent]
-        return root_node._cache.setdefault(elem, root_node(curr_elem))
+        return root_node._cache.setdefault(curr_elem, root_node(curr_elem))
 
 
 class attribute_node(node):
-- 
2.43.0


From 8db679071a28c4f64f25dc3acae0c6d14e6a7d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:29 +0000
Subject: [PATCH 21/38] fix: advance along the ancestor-or-self axis rather
 than looping forever

---
 pylib/uxml/uxpath/xast.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 97f8cec..6b9c976 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -441,7 +441,8 @@ class step:
             while parent:
                 new_ctx = ctx.copy(item=parent)
                 yield from self.node_test.compute(new_ctx)
-            yield root_node.get(parent)
+                parent = parent.xml_parent
+            yield root_node.get(ctx.item)
         elif self.axis == 'descendant':
             to_process = list(ctx.item.xml_children)
             while to_process:
-- 
2.43.0


From 411dd604cb9b87961fc4dfb42e900562404e6d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:31 +0000
Subject: [PATCH 22/38] fix: sort XPath unions by the current document order,
 and for any kind of node

---
 pylib/uxml/uxpath/xast.py | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 6b9c976..99bc3c5 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -24,7 +24,6 @@ __all__ = [
     ]
 
 
-import operator
 import weakref
 # import functools
 from collections.abc import Iterable
@@ -90,6 +89,33 @@ def index_docorder(node):
         node._docorder = index
 
 
+def docorder_key(top):
+    '''
+    Return a sort key function for the document order of nodes in the same tree as the given node
+    '''
+    #Always start at the root
+    while top.xml_parent:
+        top = top.xml_parent
+    if isinstance(top, root_node):
+        top = top.xml_children[0]
+    index = {}
+    to_process = [top]
+    while to_process:
+        n = to_process.pop()
+        index[id(n)] = len(index)
+        to_process.extend(reversed(n.xml_children))
+
+    def _docorder_key(n):
+        if isinstance(n, root_node):
+            return -1, -1
+        if isinstance(n, attribute_node) and id(n.xml_parent) in index:
+            #Right after the element, and before its children
+            return index[id(n.xml_parent)], list(n.xml_parent.xml_attributes).index(n.xml_name)
+        #Anything from elsewhere comes last
+        return index.get(id(n), len(index)), -1
+    return _docorder_key
+
+
 # Casts
 def to_string(obj):
     '''
@@ -271,13 +297,11 @@ class binary_expression:
                 new_ctx = ctx.copy(item=item)
                 yield from self.right.compute(new_ctx)
         elif self.op == '|':
-            # Union expressions require an indexing by doc order
-            if not hasattr(ctx.item, '_docorder'):
-                index_docorder(ctx.item)
             # XXX Might be more efficient to maintain a list in doc order as left & right are added
             selected = list(self.left.compute(ctx))
             selected.extend(list(self.right.compute(ctx)))
-            selected.sort(key=operator.attrgetter('_docorder'))
+            # Union expressions require an indexing by doc order. Always redone, because the tree might have been modified
+            selected.sort(key=docorder_key(ctx.item))
             yield from selected
 
         # FIXME: A lot of work to do on comparisons
-- 
2.43.0


From 15a50831afedd30435a21419c16d753a1b14b2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:33 +0000
Subject: [PATCH 23/38] fix: accept a parsed expression in qquery, as
 documented

---
 pylib/uxml/uxpath/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pylib/uxml/uxpath/__init__.py b/pylib/uxml/uxpath/__init__.py
index ec4a01f..83b04b5 100644
--- a/pylib/uxml/uxpath/__init__.py
+++ b/pylib/uxml/uxpath/__init__.py
@@ -133,6 +133,8 @@ def qquery(xml_thing, xpath_thing, vars=None, funcs=None, force_root=None):
     if not root: return
     if isinstance(xpath_thing, str):
         parsed_expr = parse(xpath_thing)
+    else:
+        parsed_expr = xpath_thing
     ctx = context(root, variables=vars, functions=funcs, force_root=force_root)
     result = parsed_expr.compute(ctx)
     yield from result
-- 
2.43.0


From c560f84f5e1d617c11e5d5493363804647784bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:48 +0000
Subject: [PATCH 24/38] fix: keep the names and namespaces html5lib gives, so
 that misnested HTML is repaired properly

---
 pylib/uxml/html5.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/pylib/uxml/html5.py b/pylib/uxml/html5.py
index 1b65eff..274b990 100644
--- a/pylib/uxml/html5.py
+++ b/pylib/uxml/html5.py
@@ -155,7 +155,10 @@ class element(tree.element, node):
         name and attributes but with no parent or child nodes
         """
         attrs = self.xml_attributes.copy()
-        return element(self.xml_name, attrs=attrs)
+        clone = element(self.xml_name, attrs=attrs)
+        #html5lib needs to recognize the clone as an element of the same type
+        clone.xml_html5lib_name, clone.xml_html5lib_namespace = self.name, self.namespace
+        return clone
 
 
 # class comment(tree.comment):
@@ -239,8 +242,6 @@ class doctype(node):
         return "<!--%s-->" % self.data
 
 
-MARKER = object()
-
 BOGUS_NAMESPACE = u'urn:bogus:x'
 NAME_FOR_ELEMENTS_UNNAMED_BY_HTML5LIB = u'UNNAMED_BY_HTML5LIB'
 XHTML_NAMESPACE = 'http://www.w3.org/1999/xhtml'
@@ -263,28 +264,24 @@ class treebuilder(TreeBuilder):
         #We'll take care of that ourselves with the if not use_xhtml_ns... below
         TreeBuilder.__init__(self, True)
         def eclass(name, namespace):
-            xml_html5lib_name, xml_html5lib_namespace = MARKER, MARKER
+            #html5lib matches up elements by the name & namespace it gave, so keep both as they are
+            xml_html5lib_name, xml_html5lib_namespace = name, namespace
             if not use_xhtml_ns and namespace == XHTML_NAMESPACE:
                 #html5lib feints support for HTML5 elements kept in the null namespace
                 #But in reality this support is broken.  We have to in effect keep
                 #Two namespaces for each element, the real one from an amara perspective
                 #And another that is always XHTML for HTML5 elements, so html5lib doesn't break
-                xml_html5lib_namespace = namespace
                 namespace = None
             #For some reason html5lib sometimes sends None as name
             if not name:
-                xml_html5lib_name = name
                 name = NAME_FOR_ELEMENTS_UNNAMED_BY_HTML5LIB
             #import sys; print >> sys.stderr, (namespace, name, use_xhtml_ns)
             #Deal with some broken HTML that uses bogus colons in tag names
             if (u":" in name and not namespace):
-                xml_html5lib_namespace = namespace
                 namespace = BOGUS_NAMESPACE
             elem = element(qname_to_local(name))
-            if xml_html5lib_namespace != MARKER:
-                elem.xml_html5lib_namespace = xml_html5lib_namespace
-            if xml_html5lib_name != MARKER:
-                elem.xml_html5lib_name = xml_html5lib_name
+            elem.xml_html5lib_namespace = xml_html5lib_namespace
+            elem.xml_html5lib_name = xml_html5lib_name
             return elem
         self.elementClass = eclass
         self.fragmentClass = eclass
-- 
2.43.0


From 7097954605b3c20a335cfb3140289b973693cf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:50 +0000
Subject: [PATCH 25/38] fix: make html5iter.sender work, as documented

---
 pylib/uxml/html5iter.py | 23 +++++++++++++++++++----
 pylib/uxml/treeiter.py  |  7 +++++--
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/pylib/uxml/html5iter.py b/pylib/uxml/html5iter.py
index b1b9ea1..c7f666f 100644
--- a/pylib/uxml/html5iter.py
+++ b/pylib/uxml/html5iter.py
@@ -7,6 +7,7 @@
 from . import tree
 from . import treeiter
 from .treeutil import *
+from .parser import event
 from . import html5
 
 
@@ -20,14 +21,28 @@ class sender(treeiter.sender):
     ...
     >>> values = []
     >>> ts = html5iter.sender(('html', 'body', 'ul', 'li'), sink(values))
-    >>> ts.parse('<html><head><title></head><body><ul><li>1</li><li>2</li><li>3</li></ul></body>')
+    >>> ts.parse('<html><head><title></title></head><body><ul><li>1</li><li>2</li><li>3</li></ul></body>')
     >>> values
     ['1', '2', '3']
     '''
     def parse(self, doc):
+        self._reset()
         h = self._handler()
-        p = html5.parser(h)
-        p.send((doc, False))
-        p.send(('', True))  # Wrap it up
+        next(h)  # Prime the coroutine
+        # Tag soup can't be relied on until it's all been repaired, so there is no incremental version of this
+        _send_events(html5.parse(doc), h)
         return
 
+
+def _send_events(elem, handler, ancestors=()):
+    '''
+    Send a coroutine the MicroXML parser events which correspond to an element
+    '''
+    handler.send((event.start_element, elem.xml_name, elem.xml_attributes.copy(), list(ancestors)))
+    for child in elem.xml_children:
+        if isinstance(child, tree.element):
+            _send_events(child, handler, ancestors + (elem.xml_name,))
+        elif child.xml_value:  # i.e. excluding comments
+            handler.send((event.characters, child.xml_value))
+    handler.send((event.end_element, elem.xml_name, list(ancestors)))
+
diff --git a/pylib/uxml/treeiter.py b/pylib/uxml/treeiter.py
index c2d68a9..a151c79 100644
--- a/pylib/uxml/treeiter.py
+++ b/pylib/uxml/treeiter.py
@@ -177,12 +177,15 @@ class sender:
                 #print(ev, building_depth, evstack)
         return
 
-    def parse(self, doc):
-        #Reset, in case an earlier parse didn't run to completion
+    def _reset(self):
+        #In case an earlier parse didn't run to completion
         self._roots = [None] * self._pattern_count
         self._parents = [None] * self._pattern_count
         self._evstacks = [ [] for _ in range(self._pattern_count) ]
         self._building_depths = [0] * self._pattern_count
+
+    def parse(self, doc):
+        self._reset()
         h = self._handler()
         p = parser(h)
         p.send((doc, False))
-- 
2.43.0


From 64fbade9a5be6c3c12ce7a026565b12dc71deb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:38 +0000
Subject: [PATCH 26/38] fix: allow - and . in names, as MicroXML does

---
 pylib/uxml/lex.py    | 2 +-
 pylib/uxml/parser.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/lex.py b/pylib/uxml/lex.py
index 2d1398a..d1d7a87 100644
--- a/pylib/uxml/lex.py
+++ b/pylib/uxml/lex.py
@@ -43,7 +43,7 @@ NAMESTARTCHAR = '[A-Za-z_\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u02FF\u0370-\u037D' \
             '\u037F-\u1FFF\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF' \
             '\uF900-\uFDCF\uFDF0-\uFFFD\U00010000-\U000EFFFF]'
 
-NAMECHAR =  '[0-9A-Za-z_\u00B7-\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u037D' \
+NAMECHAR =  '[-.0-9A-Za-z_\u00B7-\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u037D' \
             '\u037F-\u1FFF\u200C-\u200D\u203F-\u2040\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF' \
             '\uF900-\uFDCF\uFDF0-\uFFFD\U00010000-\U000EFFFF]'
 
diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index bd3b23b..a23c21b 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -46,7 +46,7 @@ NAMESTARTCHAR = re.compile('[A-Za-z_\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u02FF\u037
             '\u037F-\u1FFF\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF' \
             '\uF900-\uFDCF\uFDF0-\uFFFD\U00010000-\U000EFFFF]')
 
-NAMECHAR =  re.compile('[0-9A-Za-z_\u00B7-\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u037D' \
+NAMECHAR =  re.compile('[-.0-9A-Za-z_\u00B7-\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u037D' \
             '\u037F-\u1FFF\u200C-\u200D\u203F-\u2040\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF' \
             '\uF900-\uFDCF\uFDF0-\uFFFD\U00010000-\U000EFFFF]')
 
-- 
2.43.0


From 880c35edd3981fc35dc4b8e0db1a92c31bbe7719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:36 +0000
Subject: [PATCH 27/38] fix: give each subtree delivered by treeiter.sender its
 own attributes

---
 pylib/uxml/treeiter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/treeiter.py b/pylib/uxml/treeiter.py
index a151c79..32e8b86 100644
--- a/pylib/uxml/treeiter.py
+++ b/pylib/uxml/treeiter.py
@@ -148,7 +148,8 @@ class sender:
                     elif self._match_state(ix):
                         building_depth = self._building_depths[ix] = 1
                     if building_depth:
-                        new_element = element(ev[1], ev[2], parent)
+                        #Copy the attributes, which another pattern's subtree might need as well
+                        new_element = element(ev[1], dict(ev[2]), parent)
                         #if parent: parent().xml_children.append(weakref.ref(new_element))
                         #Note: not using weakrefs here because these refs are not circular
                         if parent: parent.xml_children.append(new_element)
-- 
2.43.0


From bedab80741978664bcd3ad23431e96c533026893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:12 +0000
Subject: [PATCH 28/38] fix: keep the name of XPath attribute nodes, which also
 broke sorting them in unions

---
 pylib/uxml/uxpath/xast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 99bc3c5..f886689 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -64,9 +64,9 @@ class root_node(node):
 
 class attribute_node(node):
     def __init__(self, name, value, parent):
+        node.__init__(self, parent)
         self.xml_name = name
         self.xml_value = value
-        node.__init__(self, parent)
 
     def __repr__(self):
         return '{{uxpath.attribute {0}="{1}"}}'.format(self.xml_name, self.xml_value)
-- 
2.43.0


From 71444abbfee94d1b115b26181264ac9aff365d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:12 +0000
Subject: [PATCH 29/38] fix: keep the alternatives of patterns with several
 '**' from multiplying at each level

---
 pylib/uxml/treeiter.py | 15 ++++++++++-----
 pylib/uxml/treeutil.py | 15 ++++++++++-----
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/pylib/uxml/treeiter.py b/pylib/uxml/treeiter.py
index 32e8b86..a4c4e48 100644
--- a/pylib/uxml/treeiter.py
+++ b/pylib/uxml/treeiter.py
@@ -87,14 +87,19 @@ class sender:
             return _any_until_func
         return _any_until_func
 
-    def _either(self, first, second):
+    def _either(self, *alternatives):
+        #Flattened and without duplicates, or their number might multiply at each step
+        flattened = []
+        for state in alternatives:
+            for alternative in getattr(state, 'alternatives', (state,)):
+                if alternative not in flattened:
+                    flattened.append(alternative)
         def _either_func(ev):
-            states = [ state for state in (first(ev), second(ev)) if state is not None ]
+            states = [ state for state in (alternative(ev) for alternative in flattened) if state is not None ]
             if MATCHED_STATE in states:
                 return MATCHED_STATE
-            if len(states) == 2:
-                return self._either(*states)
-            return states[0] if states else None
+            return self._either(*states) if states else None
+        _either_func.alternatives = flattened
         return _either_func
 
     def _any(self, next, funcs):
diff --git a/pylib/uxml/treeutil.py b/pylib/uxml/treeutil.py
index 0cdd386..499f531 100644
--- a/pylib/uxml/treeutil.py
+++ b/pylib/uxml/treeutil.py
@@ -115,14 +115,19 @@ def any_until(next):
         return _any_until #Return this same state until we can match the next
     return _any_until
 
-def either(first, second):
+def either(*alternatives):
+    #Flattened and without duplicates, or their number might multiply at each step
+    flattened = []
+    for state in alternatives:
+        for alternative in getattr(state, 'alternatives', (state,)):
+            if alternative not in flattened:
+                flattened.append(alternative)
     def _either(node):
-        states = [ state for state in (first(node), second(node)) if state is not None ]
+        states = [ state for state in (alternative(node) for alternative in flattened) if state is not None ]
         if MATCHED_STATE in states:
             return MATCHED_STATE
-        if len(states) == 2:
-            return either(*states)
-        return states[0] if states else None
+        return either(*states) if states else None
+    _either.alternatives = flattened
     return _either
 
 def any_(next, funcs):
-- 
2.43.0


From b33925318127df132856306b134fb21b4ae5b24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:53 +0000
Subject: [PATCH 30/38] fix: xml_insert/xml_append insert the very text node
 given, not a copy of it

---
 pylib/uxml/html5.py | 5 +++++
 pylib/uxml/tree.py  | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/html5.py b/pylib/uxml/html5.py
index 274b990..96abfe5 100644
--- a/pylib/uxml/html5.py
+++ b/pylib/uxml/html5.py
@@ -169,7 +169,12 @@ class comment(tree.text, node):
     text node.
     '''
     type = 6
+    def __new__(cls, data):
+        #Zero-length, whatever the data
+        return tree.text.__new__(cls, '')
+
     def __init__(self, data):
+        tree.text.__init__(self, '')
         self.data = data
         # XXX Next 2 wererequired by html5lib tree API,
         # but maybe only for __str__, which is now overridden
diff --git a/pylib/uxml/tree.py b/pylib/uxml/tree.py
index 164d4dc..73fa847 100644
--- a/pylib/uxml/tree.py
+++ b/pylib/uxml/tree.py
@@ -138,7 +138,7 @@ class element(node):
 
         child - the child to append. If a string, convert to a text node, for convenience
         '''
-        if isinstance(child, str):
+        if isinstance(child, str) and not isinstance(child, node):
             child = text(child, parent=self)
         else:
             child._xml_parent = weakref.ref(self)
-- 
2.43.0


From 29bd849eb1c0b06fe4e4aadd473715a38643568f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:55 +0000
Subject: [PATCH 31/38] fix: xml_insert leaves the child as it was if the index
 is rejected

---
 pylib/uxml/tree.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pylib/uxml/tree.py b/pylib/uxml/tree.py
index 73fa847..865753f 100644
--- a/pylib/uxml/tree.py
+++ b/pylib/uxml/tree.py
@@ -7,6 +7,7 @@
 
 # See also: http://www.w3.org/community/microxml/wiki/MicroLarkApi
 
+import operator
 import sys
 import weakref
 from xml.sax.saxutils import escape, quoteattr as sax_quoteattr
@@ -138,6 +139,8 @@ class element(node):
 
         child - the child to append. If a string, convert to a text node, for convenience
         '''
+        #Check this first: if rejected the child must stay as it was
+        index = operator.index(index)
         if isinstance(child, str) and not isinstance(child, node):
             child = text(child, parent=self)
         else:
-- 
2.43.0


From 7add513dbc2a53773e0b7b3ba4fa3ddab9d09b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:57 +0000
Subject: [PATCH 32/38] fix: make_pretty uses the given indentation throughout,
 and detaches the text nodes it replaces

---
 pylib/uxml/treeutil.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/treeutil.py b/pylib/uxml/treeutil.py
index 499f531..2d55ae0 100644
--- a/pylib/uxml/treeutil.py
+++ b/pylib/uxml/treeutil.py
@@ -235,7 +235,7 @@ def make_pretty(elem, depth=0, indent='  '):
                 updated_child_list.append(new_text)
                 updated_child_list.append(child)
                 updated_child_ix += 2
-            make_pretty(child, depth)
+            make_pretty(child, depth, indent)
         else:
             if child.xml_value.strip():
                 #More to it than whitespace, so leave alone
@@ -247,6 +247,8 @@ def make_pretty(elem, depth=0, indent='  '):
                 new_text = text('\n' + indent*depth, elem)
                 updated_child_list.append(new_text)
                 updated_child_ix += 1
+                #No longer a child of elem
+                child._xml_parent = None
     #Trailing indentation might be needed
     if not(updated_child_ix % 2):
         new_text = text('\n' + indent*(depth-1), elem)
-- 
2.43.0


From b58537eb43dd7b52aab3997bba82719982262cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:33 +0000
Subject: [PATCH 33/38] fix: select_pattern raised TypeError on a stage with
 alternative names

---
 pylib/uxml/treeutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/treeutil.py b/pylib/uxml/treeutil.py
index 2d55ae0..43ad7a5 100644
--- a/pylib/uxml/treeutil.py
+++ b/pylib/uxml/treeutil.py
@@ -149,7 +149,7 @@ def _prep_pattern(pattern):
             else:
                 next_state = name_test(next_state, stage)
         elif isinstance(stage, tuple):
-            new_tuple = tuple(( name_test(substage) if isinstance(substage, str) else substage for substage in stage ))
+            new_tuple = tuple(( name_test(MATCHED_STATE, substage) if isinstance(substage, str) else substage for substage in stage ))
             next_state = any_(next_state, new_tuple)
         else:
             raise ValueError('Cannot interpret pattern component {0}'.format(repr(stage)))
-- 
2.43.0


From ef1cc794ae88ef3578d40a63e825772075b9fc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:33 +0000
Subject: [PATCH 34/38] fix: select_pattern with '**' missed the matches within
 another match

---
 pylib/uxml/treeutil.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pylib/uxml/treeutil.py b/pylib/uxml/treeutil.py
index 43ad7a5..a233e63 100644
--- a/pylib/uxml/treeutil.py
+++ b/pylib/uxml/treeutil.py
@@ -107,10 +107,9 @@ def any_until(next):
     def _any_until(node):
         if isinstance(node, element):
             next_next = next(node)
-            if next_next is MATCHED_STATE:
-                return MATCHED_STATE
             if next_next is not None:
-                #The match of the rest of the pattern might yet fail, so also keep looking for a later start to it
+                #The match of the rest of the pattern might yet fail, and there might be further
+                #matches below this one, so also keep looking for a later start to it
                 return either(next_next, _any_until)
         return _any_until #Return this same state until we can match the next
     return _any_until
@@ -123,9 +122,8 @@ def either(*alternatives):
             if alternative not in flattened:
                 flattened.append(alternative)
     def _either(node):
-        states = [ state for state in (alternative(node) for alternative in flattened) if state is not None ]
-        if MATCHED_STATE in states:
-            return MATCHED_STATE
+        states = [ alternative(node) for alternative in flattened if alternative is not MATCHED_STATE ]
+        states = [ state for state in states if state is not None ]
         return either(*states) if states else None
     _either.alternatives = flattened
     return _either
@@ -186,9 +184,9 @@ def select_pattern(node, pattern, state=None):
     if isinstance(node, element):
         for child in node.xml_children:
             new_state = state(child)
-            if new_state == MATCHED_STATE:
+            if MATCHED_STATE in getattr(new_state, 'alternatives', (new_state,)):
                 yield child
-            elif new_state is not None:
+            if new_state is not None and new_state is not MATCHED_STATE:
                 yield from select_pattern(child, None, state=new_state)
     return
 
-- 
2.43.0


From fcbe84a8cad5fb250a49c9a7065cc85a3ec57f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:10 +0000
Subject: [PATCH 35/38] fix: one text event for each run of text in XML
 sources, however expat divides it up

---
 pylib/uxml/xml.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/xml.py b/pylib/uxml/xml.py
index 36d5d39..b52f591 100644
--- a/pylib/uxml/xml.py
+++ b/pylib/uxml/xml.py
@@ -16,6 +16,8 @@ class expat_callbacks(object):
     def __init__(self, handler, prime_handler=True):
         self._handler = handler
         self._elem_stack = []
+        #Pieces of the current run of text, which expat divides up e.g. at references, line & buffer ends
+        self._text_pieces = []
         # if asyncio.iscoroutine(handler):
         if prime_handler:
             next(handler)  # Prime coroutine
@@ -28,18 +30,27 @@ class expat_callbacks(object):
         new_attrs = {}
         for aname, aval in attrs.items():
             new_attrs[aname.split()[-1]] = aval
+        self._flush_text()
         self._handler.send((event.start_element, local, new_attrs, self._elem_stack.copy()))
         self._elem_stack.append(local)
 
     def end_element(self, name):
         #print('End element:', name)
         local = name.split()[-1]
+        self._flush_text()
         self._elem_stack.pop()
         self._handler.send((event.end_element, local, self._elem_stack.copy()))
 
     def char_data(self, data):
         #print('Character data:', repr(data))
-        self._handler.send((event.characters, data))
+        self._text_pieces.append(data)
+
+    def _flush_text(self):
+        #One event for each run of text, as from the MicroXML parser
+        if self._text_pieces:
+            data = ''.join(self._text_pieces)
+            self._text_pieces = []
+            self._handler.send((event.characters, data))
 
     def start_namespace(self, prefix, ns):
         pass
-- 
2.43.0


From 1e42b890658ce50b8a827782a82980fe3d7a1b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:50 +0000
Subject: [PATCH 36/38] fix: a context copied for an empty text node (e.g. an
 HTML comment), empty string or 0 kept the old item

---
 pylib/uxml/uxpath/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/__init__.py b/pylib/uxml/uxpath/__init__.py
index 83b04b5..d6d743d 100644
--- a/pylib/uxml/uxpath/__init__.py
+++ b/pylib/uxml/uxpath/__init__.py
@@ -90,7 +90,8 @@ class context(object):
         self.lookuptables = lookuptables or {}
 
     def copy(self, item=None, pos=None, variables=None, functions=None, lookuptables=None, extras=None, parent=None):
-        item = item if item else self.item
+        #An item might be false in itself, e.g. an empty text node, or 0
+        item = item if item is not None else self.item
         pos = pos if pos else self.pos
         variables = variables if variables else self.variables
         functions = functions if functions else self.functions
-- 
2.43.0


From 544716c8898ced012d0efd3059b0001e0b137b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:05 +0000
Subject: [PATCH 37/38] fix: XPath could not be imported after a crash, full
 disk or concurrent import left a parser table file which can't be loaded

---
 pylib/uxml/uxpath/__init__.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pylib/uxml/uxpath/__init__.py b/pylib/uxml/uxpath/__init__.py
index d6d743d..77ede25 100644
--- a/pylib/uxml/uxpath/__init__.py
+++ b/pylib/uxml/uxpath/__init__.py
@@ -55,9 +55,18 @@ if lexer is None:
 # Generate parsetab.py 
 parsedir = os.path.dirname(parserules.__file__)
 if (not os.access(parsedir, os.W_OK)):
-    parsedir = tempfile.gettempdir()
-
-parser = yacc.yacc(module=parserules, outputdir=parsedir)#, debug=True)
+    try:
+        parsedir = tempfile.gettempdir()
+    except OSError:
+        # Nowhere to write at all; yacc does without the file
+        pass
+
+try:
+    parser = yacc.yacc(module=parserules, outputdir=parsedir)#, debug=True)
+except Exception:
+    # A parsetab which can't be loaded, e.g. left incomplete by a crash or a full disk, unreadable, or just being written
+    # by another process, or a failed write of parser.out, must not prevent import. Do without the files
+    parser = yacc.yacc(module=parserules, tabmodule='_no_parsetab', write_tables=False, debug=False)
 
 
 def parse(xpath):
-- 
2.43.0


From 2c973f020ef8f273a11f76ffbf85a8b8cb58edfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:07 +0000
Subject: [PATCH 38/38] fix: XPath sibling axes start from the very node given,
 not the first text node equal to it

---
 pylib/uxml/uxpath/xast.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index f886689..908e79e 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -408,6 +408,16 @@ class absolute_path:
                 yield from self.relative.compute(new_ctx)
 
 
+def index_in_parent(item):
+    '''
+    Position of a node among its parent's children. Of the very node given, not e.g. the first text node with the same value
+    '''
+    for ix, child in enumerate(item.xml_parent.xml_children):
+        if child is item:
+            return ix
+    raise ValueError('{} is not in the children of its parent'.format(item))
+
+
 def _step_is_just_node(r):
     return isinstance(r, step) \
         and isinstance(r.node_test, node_type_test) \
@@ -484,7 +494,7 @@ class step:
                 yield from self.node_test.compute(new_ctx)
         elif self.axis == 'following':
             if not ctx.item.xml_parent: return
-            start = ctx.item.xml_parent.xml_children.index(ctx.item) + 1
+            start = index_in_parent(ctx.item) + 1
             to_process = list(ctx.item.xml_parent.xml_children)[start:]
             while to_process:
                 ff = to_process[0]
@@ -493,7 +503,7 @@ class step:
                 yield from self.node_test.compute(new_ctx)
         elif self.axis == 'following-sibling':
             if not ctx.item.xml_parent: return
-            start = ctx.item.xml_parent.xml_children.index(ctx.item) + 1
+            start = index_in_parent(ctx.item) + 1
             for ff in list(ctx.item.xml_parent.xml_children)[start:]:
                 new_ctx = ctx.copy(item=ff)
                 yield from self.node_test.compute(new_ctx)
@@ -505,7 +515,7 @@ class step:
                 yield root_node.get(ctx.item)
         elif self.axis == 'preceding':
             if not ctx.item.xml_parent: return
-            start = ctx.item.xml_parent.xml_children.index(ctx.item)
+            start = index_in_parent(ctx.item)
             if start == -1: return
             to_process = list(ctx.item.xml_parent.xml_children)[start:].reverse()
             while to_process:
@@ -515,7 +525,7 @@ class step:
                 yield from self.node_test.compute(new_ctx)
         elif self.axis == 'preceding-sibling':
             if not ctx.item.xml_parent: return
-            start = ctx.item.xml_parent.xml_children.index(ctx.item)
+            start = index_in_parent(ctx.item)
             if start == -1: return
             to_process = list(ctx.item.xml_parent.xml_children)[:start]
             to_process.reverse()
-- 
2.43.0

