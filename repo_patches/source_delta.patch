From 554ec615671dbc5092d1d077e6d897b97a5a0491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:19 +0000
Subject: [PATCH 01/87] fix: report the text left after a match by location,
 not by length

The remainder was computed from the length of the matched words joined by
single spaces, so speech with other whitespace between its words lost or
kept the wrong characters.
---
 jsgf/expansions.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index e9e3469..7fc6703 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -669,18 +669,25 @@ class Expansion(object):
         :param speech: str
         :returns: str
         """
-        # Match the string using this expansion's parser element.
+        # Match the string using this expansion's parser element and keep the
+        # location where the match ended.
         speech = speech.strip()
+        match_end = [0]
+
+        def save_end(_, loc, tokens):
+            match_end[0] = loc
+
+        element = pyparsing.And([
+            self.matcher_element, pyparsing.Empty().setParseAction(save_end)
+        ]).parseWithTabs()
         try:
-            result = " ".join(
-                self.matcher_element.parseString(speech).asList()
-            )
+            element.parseString(speech)
         except pyparsing.ParseException:
-            result = ""
+            pass
 
-        # Return the difference between the result and speech. The result can be
-        # shorter than speech, which means the match wasn't complete.
-        remaining = speech[len(result):].strip()
+        # Return what comes after the match. There can be something left, which
+        # means the match wasn't complete.
+        remaining = speech[match_end[0]:].strip()
 
         # Do a second pass of the expansion tree for post-processing.
         def process(x):
-- 
2.43.0


From dfbb7d901c2183d71e9109f0d37a6db2fb2aadba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:36 +0000
Subject: [PATCH 02/87] fix: match literals as whole words

Literals matched as string prefixes, so 'ab' was accepted for the sequence
'a' 'b', 'a' was found inside 'banana', and a literal with several words did
not match if they were separated by more than one space.
---
 jsgf/expansions.py | 43 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 7fc6703..edefe3a 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -189,6 +189,38 @@ def matches_overlap(m1, m2):
     return x1 < x2 <= y1 or x2 < x1 <= y2 or x1 == x2
 
 
+class _WordsElement(pyparsing.Token):
+    """
+    Internal parser element that matches text as whole words separated by any
+    whitespace.
+    """
+
+    def __init__(self, text, case_sensitive=False):
+        super(_WordsElement, self).__init__()
+        words = text.split()
+        self.match = " ".join(words)
+        self.name = "'%s'" % text
+        self.errmsg = "Expected " + self.name
+        self.mayReturnEmpty = not words
+
+        # Only match at word boundaries, unless the text itself doesn't start or
+        # end with a word character.
+        pattern = r"\s+".join([re.escape(word) for word in words])
+        if re.match(r"[\w\-']", self.match, re.UNICODE):
+            pattern = r"(?<![\w\-'])" + pattern
+        if re.search(r"[\w\-']$", self.match, re.UNICODE):
+            pattern += r"(?![\w\-'])"
+
+        flags = re.UNICODE if case_sensitive else re.UNICODE | re.IGNORECASE
+        self.pattern = re.compile(pattern, flags)
+
+    def parseImpl(self, instring, loc, doActions=True):
+        result = self.pattern.match(instring, loc)
+        if not result:
+            raise pyparsing.ParseException(instring, loc, self.errmsg, self)
+        return result.end(), [self.match] if self.match else []
+
+
 class JointTreeContext(object):
     """
     Class that temporarily joins an expansion tree with the expansion trees of all
@@ -1444,13 +1476,10 @@ class Literal(Expansion):
         return re.compile(r"\s+".join(words))
 
     def _make_matcher_element(self):
-        # Return a case-sensitive or case-insensitive pyparsing Literal element.
-        text = self._text
-        if self.case_sensitive:
-            matcher_cls = pyparsing.Literal
-        else:
-            matcher_cls = pyparsing.CaselessLiteral
-        return self._set_matcher_element_attributes(matcher_cls(text))
+        # Return a case-sensitive or case-insensitive element for whole words.
+        return self._set_matcher_element_attributes(
+            _WordsElement(self._text, self.case_sensitive)
+        )
 
     def __eq__(self, other):
         return (super(Literal, self).__eq__(other) and self.text == other.text and
-- 
2.43.0


From 147e807368bc42b477bbdc19a75ca85a936c78fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:57 +0000
Subject: [PATCH 03/87] fix: set matching slices from match locations and not
 during lookahead

Slices were computed from the length of the matched words joined by single
spaces and were also set on alternatives that were tried, but not chosen.
---
 jsgf/expansions.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index edefe3a..5340bc3 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -792,26 +792,25 @@ class Expansion(object):
         raise NotImplementedError()
 
     def _set_matcher_element_attributes(self, element):
-        # Set the ParserElement's action.
-        element.setParseAction(self._parse_action)
-
         # Save the element's original postParse function.
         closure = element.postParse
+        match_end = [0]
 
-        # Set a new function and use the original function for returning values.
+        # Set a new function to keep the location where the match ended and use the
+        # original function for returning values.
         def postParse(instring, loc, tokenlist):
-            if isinstance(tokenlist, pyparsing.ParseResults):
-                s = " ".join(tokenlist.asList())
-            elif isinstance(tokenlist, list):
-                s = "".join(tokenlist)
-            elif isinstance(tokenlist, string_types):
-                s = tokenlist
-            else:
-                raise TypeError("postParse received invalid tokenlist %s"
-                                % tokenlist)
-            self.matching_slice = slice(loc - len(s), loc)
+            match_end[0] = loc
             return closure(instring, loc, tokenlist)
 
+        # Set the ParserElement's action. Set the matching slice there rather than
+        # in postParse because parse actions aren't called for lookahead.
+        def action(instring, loc, tokens):
+            end = match_end[0]
+            start = end - len(instring[loc:end].lstrip()) if tokens.asList() else end
+            self.matching_slice = slice(start, end)
+            return self._parse_action(tokens)
+
+        element.setParseAction(action)
         element.postParse = postParse
 
         # Return the element.
-- 
2.43.0


From f6a9084dc0fe897239a3665fd1b47f8212dcc70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:27 +0000
Subject: [PATCH 04/87] fix: keep the case of speech in find_matching_part

Speech was put in lower case first, so case-sensitive literals with capitals
were never found and the returned part was not a part of the given speech.
---
 jsgf/rules.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/jsgf/rules.py b/jsgf/rules.py
index a49bd8c..1291fd3 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -270,9 +270,8 @@ class Rule(references.BaseRef):
         if not self._active:
             return None
 
-        # Strip whitespace at the start of 'speech' and lower it to match regex
-        # properly.
-        speech = speech.lstrip().lower()
+        # Strip whitespace at the start of 'speech'.
+        speech = speech.lstrip()
 
         # Reset match data for this rule and referenced rules.
         self.expansion.reset_for_new_match()
@@ -280,9 +279,10 @@ class Rule(references.BaseRef):
         # Use the first match (if any) and break. The loop is required because
         # scanString returns a generator.
         result = None
-        for match in self.expansion.matcher_element.scanString(speech):
+        element = self.expansion.matcher_element.parseWithTabs()
+        for match in element.scanString(speech):
             _, start, end = match
-            result = speech[start:end]
+            result = speech[start:end].strip()
             break
 
         return result
-- 
2.43.0


From 1589a5fa7614cfaef51d84e77857b3a885110355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:55 +0000
Subject: [PATCH 05/87] fix: match repeats of optional, nullable and re-used
 expansions correctly

* Repeats below optionals accepted zero repetitions.
* Repeats of expansions that match nothing never returned.
* A repeat whose only branch is a kleene star required a repetition.
* Repetitions were counted twice if the child's matcher element was kept when
  the repeat's element was invalidated.
* Repeats joined to another tree through a reference raised an IndexError.
---
 jsgf/expansions.py | 51 ++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 45 insertions(+), 6 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 5340bc3..cd43d38 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -221,6 +221,42 @@ class _WordsElement(pyparsing.Token):
         return result.end(), [self.match] if self.match else []
 
 
+class _OneOrMore(pyparsing.OneOrMore):
+    """
+    Internal parser element that, unlike the base class, stops if the repeated
+    element matches nothing. It would otherwise be repeated indefinitely.
+    """
+
+    def parseImpl(self, instring, loc, doActions=True):
+        loc, tokens = self.expr._parse(instring, loc, doActions, callPreParse=False)
+        try:
+            while tokens:
+                next_loc, next_tokens = self.expr._parse(instring, loc, doActions)
+                if not next_tokens:
+                    break
+                loc = next_loc
+                tokens += next_tokens
+        except (pyparsing.ParseException, IndexError):
+            pass
+        return loc, tokens
+
+
+class _ZeroOrMore(_OneOrMore):
+    """
+    Internal parser element used for matching zero or more repetitions.
+    """
+
+    def __init__(self, expr):
+        super(_ZeroOrMore, self).__init__(expr)
+        self.mayReturnEmpty = True
+
+    def parseImpl(self, instring, loc, doActions=True):
+        try:
+            return super(_ZeroOrMore, self).parseImpl(instring, loc, doActions)
+        except (pyparsing.ParseException, IndexError):
+            return loc, []
+
+
 class JointTreeContext(object):
     """
     Class that temporarily joins an expansion tree with the expansion trees of all
@@ -1596,7 +1632,7 @@ class Repeat(SingleChildExpansion):
         return tokens
 
     def _make_matcher_element(self):
-        # Define an extra parse action for the child's matcher element.
+        # Define a parse action for each repetition.
         def f(tokens):
             if tokens.asList():
                 # Add current match values to the _repetitions_matched list.
@@ -1606,20 +1642,23 @@ class Repeat(SingleChildExpansion):
                 self.child.reset_for_new_match()
             return tokens
 
-        # Get the child's matcher element and add the extra parse action.
-        child_element = self.child.matcher_element.addParseAction(f)
+        # Wrap the child's matcher element rather than adding the parse action to it:
+        # that element is kept if only this one is invalidated.
+        child_element = pyparsing.And([self.child.matcher_element])
+        child_element.setParseAction(f)
 
         # Determine the parser element type to use.
-        type_ = pyparsing.ZeroOrMore if self.is_optional else pyparsing.OneOrMore
+        kleene = isinstance(self, KleeneStar)
+        type_ = _ZeroOrMore if kleene else _OneOrMore
 
         # Handle the special case of a repetition ancestor, e.g. ((a b)+)+
         rep = self.repetition_ancestor
-        if rep:
+        if rep and (isinstance(rep, KleeneStar) or not kleene):
             # Check if there are no other branches.
             c = rep.child
             only_branch = True
             while c is not self:
-                if len(c.children) > 1:
+                if len(c.children) != 1:
                     only_branch = False
                     break
                 else:
-- 
2.43.0


From 952c74394973310936969ae3e378bcb25e905c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:14 +0000
Subject: [PATCH 06/87] fix: don't match anything else with optional rules or
 keep failed matches

Rules with an optional root expansion matched any speech string and the match
data and tags of incomplete matches were kept.
---
 jsgf/rules.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsgf/rules.py b/jsgf/rules.py
index 1291fd3..df723db 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -254,7 +254,9 @@ class Rule(references.BaseRef):
         # matched completely.
         remainder = self.expansion.matches(speech)
         if remainder != "":
-            self.expansion.current_match = None
+            # Don't keep match data if the rule didn't match completely.
+            self.expansion.reset_for_new_match()
+            return False
 
         return self.expansion.current_match is not None
 
-- 
2.43.0


From b502a1326d95520ba84057d555d2701a4159b092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:17 +0000
Subject: [PATCH 07/87] fix: was_matched is False for optional rules that did
 not match

---
 jsgf/rules.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsgf/rules.py b/jsgf/rules.py
index df723db..0bfdaf4 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -224,7 +224,11 @@ class Rule(references.BaseRef):
 
         :returns: bool
         """
-        return self.expansion.current_match is not None
+        # Expansions that match nothing always have an empty current match, so also
+        # check that the empty match was part of the speech string.
+        e = self.expansion
+        return bool(e.current_match) or (e.current_match is not None and
+                                         e.matching_slice is not None)
 
     def matches(self, speech):
         """
-- 
2.43.0


From 1a82f30949ed7b4491aca326d915ebf0cbf2634f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:34 +0000
Subject: [PATCH 08/87] fix: support the += operator for child lists

It set the children to None, which raised a TypeError, and did not set the
parents of the new children.
---
 jsgf/expansions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index cd43d38..475e5c9 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -354,7 +354,8 @@ class ChildList(object):
         return self._list + other
 
     def __iadd__(self, other):
-        self._list += other
+        self.extend(other)
+        return self
 
     def append(self, e):
         e = Expansion.make_expansion(e)
@@ -541,6 +542,10 @@ class Expansion(object):
 
     @children.setter
     def children(self, value):
+        # In-place operators (e.g. +=) set the list that is already used.
+        if value is self._children and value is not None:
+            return
+
         if not isinstance(value, (tuple, list, ChildList)):
             raise TypeError("'children' must be a list or tuple")
 
-- 
2.43.0


From 60719b11d1995d4cb01def6c9973f8ebc0ca681e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:37 +0000
Subject: [PATCH 09/87] fix: match the new text after setting the text of a
 literal

---
 jsgf/expansions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 475e5c9..9cfc519 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1410,9 +1410,9 @@ class Literal(Expansion):
     def __init__(self, text, case_sensitive=False):
         # Set _text and use the text setter to validate the input.
         self._text = ""
-        self.text = text
         self._case_sensitive = bool(case_sensitive)
         super(Literal, self).__init__([])
+        self.text = text
 
     def __str__(self):
         return "%s('%s')" % (self.__class__.__name__, self.text)
@@ -1462,6 +1462,7 @@ class Literal(Expansion):
             raise TypeError("expected string, got %s instead" % value)
 
         self._text = value
+        self.invalidate_matcher()
 
     def generate(self):
         """
-- 
2.43.0


From 999160b0e56f28c9d190d5ae05cd7cab4bdfde9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:40 +0000
Subject: [PATCH 10/87] fix: keep case sensitivity when copying literals

---
 jsgf/expansions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 9cfc519..dbbef8c 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1475,7 +1475,7 @@ class Literal(Expansion):
         return self.text
 
     def __copy__(self):
-        e = type(self)(self.text)
+        e = type(self)(self._text, self.case_sensitive)
         e.tag = self.tag
         return e
 
-- 
2.43.0


From dda0530677c78d526de89994282378d04d714890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:14 +0000
Subject: [PATCH 11/87] fix: don't match or generate removed or zero-weight
 alternatives

Weights of removed alternatives were still used for matching and generation,
and generation could fail or fall back on an alternative with no weight.
---
 jsgf/expansions.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index dbbef8c..13f60a2 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1899,15 +1899,20 @@ class AlternativeSet(VariableChildExpansion):
             self._validate_weights()
             # use weights if they are set
             # each alternative gets the probability weight / sum_of_all_weights
-            w_sum = sum(self._weights.values())
+            # and alternatives with a weight of 0 are never chosen
+            weighted = [(e, float(self._weights[e])) for e in self.children]
+            weighted = [(e, w) for e, w in weighted if w > 0]
+            if not weighted:
+                raise GrammarError("cannot generate a string for %s because all "
+                                   "weights are 0" % self)
+            w_sum = sum([w for _, w in weighted])
             rand = random.random()
-            # print("rand = %s" % rand)
             help_sum = 0
-            for child, weight in self._weights.items():
+            for child, weight in weighted:
                 help_sum += (weight / w_sum)
-                # print(help_sum)
                 if rand < help_sum:
-                    return child.generate()
+                    break
+            return child.generate()
         return random.choice(self.children).generate()
 
     def _make_matcher_element(self):
@@ -1915,9 +1920,11 @@ class AlternativeSet(VariableChildExpansion):
         if self._weights:
             self._validate_weights()
 
-            # Exclude alternatives that have a weight value of 0.
+            # Exclude alternatives that have a weight value of 0. Weights of removed
+            # alternatives are not used.
             children = []
-            for e, w in self._weights.items():
+            for e in self.children:
+                w = float(self._weights[e])
                 if w > 0:
                     children.append((e, w))
 
-- 
2.43.0


From 0d1f4d8b02a6cf8a06069194d95e3635f52a02d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:25 +0000
Subject: [PATCH 12/87] fix: generate repeats for any random number and without
 extra spaces

---
 jsgf/expansions.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 13f60a2..8815988 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1587,8 +1587,17 @@ class Repeat(SingleChildExpansion):
 
         :rtype: str
         """
-        c = int(math.log(random.random() / 2, 0.5))
-        return " ".join([self.child.generate() for _ in range(c)])
+        return self._generate(self._random_repetitions())
+
+    @staticmethod
+    def _random_repetitions():
+        # Get a number >= 1, each number being half as likely as the previous one.
+        # random.random() can return 0, which has no logarithm.
+        return int(math.log((random.random() or 1.0) / 2, 0.5))
+
+    def _generate(self, count):
+        repetitions = [self.child.generate() for _ in range(count)]
+        return " ".join([r for r in repetitions if r])
 
     def __hash__(self):
         return super(Repeat, self).__hash__()
@@ -1708,8 +1717,7 @@ class KleeneStar(Repeat):
 
         :rtype: str
         """
-        c = int(math.log(random.random() / 2, 0.5)) - 1
-        return " ".join([self.child.generate() for _ in range(c)])
+        return self._generate(self._random_repetitions() - 1)
 
     @property
     def is_optional(self):
-- 
2.43.0


From f3393cd0d9ed3569fd013e9361c0d25acdbad499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:43 +0000
Subject: [PATCH 13/87] fix: keep repetition match data of equal expansions
 apart

The data was stored by equality, so only the last of several equal expansions
in a repeat kept its matches.
---
 jsgf/expansions.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 8815988..a79dd90 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1618,8 +1618,7 @@ class Repeat(SingleChildExpansion):
         :returns: list
         """
         if e.is_descendant_of(self):
-            return [values[e]["current_match"] for values in
-                    self._repetitions_matched]
+            return self._get_repetition_values(e, "current_match")
         else:
             return []
 
@@ -1630,11 +1629,15 @@ class Repeat(SingleChildExpansion):
         :returns: list
         """
         if e.is_descendant_of(self):
-            return [values[e]["matching_slice"] for values in
-                    self._repetitions_matched]
+            return self._get_repetition_values(e, "matching_slice")
         else:
             return []
 
+    def _get_repetition_values(self, e, key):
+        # Look for exactly 'e'; there can be other comparable expansions.
+        return [next(data[key] for x, data in repetition if x is e)
+                for repetition in self._repetitions_matched]
+
     def _parse_action(self, tokens):
         # Call the super method to set current_match.
         super(Repeat, self)._parse_action(tokens)
@@ -1642,8 +1645,11 @@ class Repeat(SingleChildExpansion):
         # Note: this method is called after the child's parse actions.
         if self._repetitions_matched:
             # Restore the last repetition's match values.
-            last = self._repetitions_matched[len(self._repetitions_matched) - 1]
-            restore_current_matches(self.child, last, False)
+            for x, data in self._repetitions_matched[-1]:
+                if data["current_match"] is not None:
+                    x.current_match = data["current_match"]
+                if data["matching_slice"] is not None:
+                    x.matching_slice = data["matching_slice"]
         return tokens
 
     def _make_matcher_element(self):
@@ -1651,7 +1657,10 @@ class Repeat(SingleChildExpansion):
         def f(tokens):
             if tokens.asList():
                 # Add current match values to the _repetitions_matched list.
-                self._repetitions_matched.append(save_current_matches(self.child))
+                self._repetitions_matched.append([(x, {
+                    "current_match": x.current_match,
+                    "matching_slice": x.matching_slice,
+                }) for x in flat_map_expansion(self.child)])
 
                 # Wipe current match values for the next repetition (if any).
                 self.child.reset_for_new_match()
-- 
2.43.0


From e6e20218b05df56588e6895d55be911dc13d3ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:10 +0000
Subject: [PATCH 14/87] fix: keep the weights of modified and copied
 alternatives

Weights were looked up by hash value and copied with the original alternatives
as keys, so they were lost if e.g. the case sensitivity, text or tag of an
alternative changed.
---
 jsgf/expansions.py | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index a79dd90..86084df 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1840,6 +1840,10 @@ class AlternativeSet(VariableChildExpansion):
                 if c.compile() == compiled_child:
                     child = c
 
+        # Replace the previous weight, if there is one.
+        others = [(e, w) for e, w in self._weights.items() if e != child]
+        self._weights.clear()
+        self._weights.update(others)
         self._weights[child] = weight
 
         # Invalidate this expansion. This is a quick procedure if the matcher
@@ -1861,19 +1865,38 @@ class AlternativeSet(VariableChildExpansion):
 
     def __copy__(self):
         result = super(AlternativeSet, self).__copy__()
-        result.weights = dict(self.weights)
+        self._copy_weights(result)
         return result
 
     def __deepcopy__(self, memo):
         result = super(AlternativeSet, self).__deepcopy__(memo)
-        result.weights = dict(self.weights)
+        self._copy_weights(result)
         return result
 
+    def _copy_weights(self, other):
+        # Use the children of the other set rather than the children of this one.
+        for e1, e2 in zip(self.children, other.children):
+            weight = self._get_weight(e1)
+            if weight is not None:
+                other.set_weight(e2, weight)
+
+    def _get_weight(self, child):
+        # Get the weight of an alternative or None if it doesn't have one.
+        # The dictionary cannot be used for this because the hash value of an
+        # alternative changes if the alternative is modified.
+        for e, weight in self._weights.items():
+            if e is child:
+                return weight
+        for e, weight in self._weights.items():
+            if e == child:
+                return weight
+        return None
+
     def _validate_weights(self):
         # Check that all alternatives have a weight. The rule for weights is
         # all or nothing.
         for e in self.children:
-            if e not in self._weights:
+            if self._get_weight(e) is None:
                 raise GrammarError("alternative %s does not have a weight "
                                    "value" % e)
 
@@ -1886,7 +1909,7 @@ class AlternativeSet(VariableChildExpansion):
             # such that:
             # /<w 0>/ <e 0> | ... | /<w n-1>/ <e n-1>
             alt_set = "|".join([
-                "/%.4f/ %s" % (float(self._weights[e]), e.compile(ignore_tags))
+                "/%.4f/ %s" % (float(self._get_weight(e)), e.compile(ignore_tags))
                 for e in self.children
             ])
         else:
@@ -1917,7 +1940,7 @@ class AlternativeSet(VariableChildExpansion):
             # use weights if they are set
             # each alternative gets the probability weight / sum_of_all_weights
             # and alternatives with a weight of 0 are never chosen
-            weighted = [(e, float(self._weights[e])) for e in self.children]
+            weighted = [(e, float(self._get_weight(e))) for e in self.children]
             weighted = [(e, w) for e, w in weighted if w > 0]
             if not weighted:
                 raise GrammarError("cannot generate a string for %s because all "
@@ -1941,7 +1964,7 @@ class AlternativeSet(VariableChildExpansion):
             # alternatives are not used.
             children = []
             for e in self.children:
-                w = float(self._weights[e])
+                w = float(self._get_weight(e))
                 if w > 0:
                     children.append((e, w))
 
-- 
2.43.0


From d3db30c0756b4d8fd3f9fd8c87ae4b73ec849f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:36 +0000
Subject: [PATCH 15/87] fix: make the hash values of equal expansions equal

Hash values included tags, the class used by the parser, the order of nested
alternatives and repeated alternatives, which comparisons do not.
---
 jsgf/expansions.py | 46 ++++++++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 86084df..7f5ae6a 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -494,12 +494,17 @@ class Expansion(object):
         return self + other
 
     def __hash__(self):
-        # The hash of an expansion is a combination of the class name, tag and
-        # hashes of children, similar to expansion string representations.
+        # The hash of an expansion is a combination of the class name and hashes of
+        # children, similar to expansion string representations. Tags are not used
+        # because they are not used for comparisons.
         child_hashes = [hash(c) for c in self.children]
-        return hash(
-            "%s(%s)%s" % (self.__class__.__name__, child_hashes, self.tag)
-        )
+        return hash("%s(%s)" % (self.__class__.__name__, child_hashes))
+
+    def _content_hash(self):
+        # Get a hash value for use in the hashes of alternative sets. This depends
+        # on this expansion and its descendants only.
+        return hash((self.__class__.__name__,
+                     tuple([c._content_hash() for c in self.children])))
 
     def __copy__(self):
         if not self.children:
@@ -1202,6 +1207,9 @@ class BaseExpansionRef(references.BaseRef, Expansion):
     def __hash__(self):
         return hash("%s" % self)
 
+    def _content_hash(self):
+        return hash("%s" % self)
+
     def __eq__(self, other):
         return (Expansion.__eq__(self, other) and
                 references.BaseRef.__eq__(self, other))
@@ -1420,6 +1428,9 @@ class Literal(Expansion):
     def __hash__(self):
         return hash("%s" % self)
 
+    def _content_hash(self):
+        return hash("%s" % self)
+
     @property
     def case_sensitive(self):
         """
@@ -1851,17 +1862,20 @@ class AlternativeSet(VariableChildExpansion):
         self.invalidate_matcher()
 
     def __hash__(self):
-        # The hash of an Alt.Set is a combination of the class name, tag and
-        # hashes of children, similar to expansion string representations.
-        # Hashes of children are sorted so that the same value is returned
-        # regardless of child order. Weights are also included.
-        child_hashes = sorted([
-            (e.compile(), float(self.weights.get(e, 1)))
-            for e in self.children
-        ])
-        return hash(
-            "%s(%s)%s" % (self.__class__.__name__, child_hashes, self.tag)
-        )
+        # The hash of an Alt.Set is a combination of the hashes of children. A set
+        # is used so that the same value is returned regardless of child order and
+        # duplicates. Weights are also included.
+        children = []
+        for e in self.children:
+            weight = self._get_weight(e)
+            children.append((e._content_hash(),
+                             1.0 if weight is None else float(weight)))
+        return hash(("AlternativeSet", frozenset(children)))
+
+    def _content_hash(self):
+        return hash(("AlternativeSet", frozenset([
+            e._content_hash() for e in self.children
+        ])))
 
     def __copy__(self):
         result = super(AlternativeSet, self).__copy__()
-- 
2.43.0


From d354277728e41909e25e5b825405129b1c01f5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:57 +0000
Subject: [PATCH 16/87] fix: remove stored calculations in
 invalidate_calculations

Calculations are stored by ID, but were searched for by expansion, so none of
them were ever removed.
---
 jsgf/expansions.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 7f5ae6a..548160d 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -964,14 +964,10 @@ class Expansion(object):
         if not root._lookup_dict:
             return  # nothing to invalidate
 
+        # Calculations are stored using the IDs of expansions.
         for d in root._lookup_dict.values():
-            for k, v in d.items():
-                # Assume k is either an expansion or an iterable of expansions
-                if self is k or isinstance(k, (tuple, list)) and self in k:
-                    assert isinstance(d, dict)
-                    d.pop(k)
-                # Do something similar for values
-                elif self is v or isinstance(v, (tuple, list)) and self in k:
+            for k in list(d.keys()):
+                if id(self) == k or isinstance(k, tuple) and id(self) in k:
                     d.pop(k)
 
     def __str__(self):
-- 
2.43.0


From 901bb5d446ff0fe5b7c903a2c9f7b09517d1431f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:00 +0000
Subject: [PATCH 17/87] fix: keep rules visible if compile_as_root_grammar
 fails

---
 jsgf/grammars.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index b378222..e91e830 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -345,16 +345,21 @@ class Grammar(references.BaseRef):
         for rule in visible_rules:
             rule.visible = False
 
-        # Compile each rule and add its name to the names list if it compiled to
-        # something. Rules can compile to the empty string if they are disabled.
-        names = []
-        compiled_rules = ""
-        for rule in self.rules:
-            compiled = rule.compile()
-            if compiled:
-                compiled_rules += "%s\n" % compiled
-            if rule in visible_rules and compiled:
-                names.append(rule.name)
+        try:
+            # Compile each rule and add its name to the names list if it compiled to
+            # something. Rules can compile to the empty string if they are disabled.
+            names = []
+            compiled_rules = ""
+            for rule in self.rules:
+                compiled = rule.compile()
+                if compiled:
+                    compiled_rules += "%s\n" % compiled
+                if rule in visible_rules and compiled:
+                    names.append(rule.name)
+        finally:
+            # Set rule visibility back to normal
+            for rule in visible_rules:
+                rule.visible = True
 
         # If there are names, then build the root rule and add it and the compiled
         # rules to the result.
@@ -365,10 +370,6 @@ class Grammar(references.BaseRef):
             result += root_rule
             result += compiled_rules
 
-        # Set rule visibility back to normal
-        for rule in visible_rules:
-            rule.visible = True
-
         return result
 
     @property
-- 
2.43.0


From 2860390538684eeae00ce5f623b1f242f478717b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:03 +0000
Subject: [PATCH 18/87] fix: remove the grammar's own rule if given a
 comparable one

The check for dependent rules was skipped in that case and the removed rule
kept its grammar.
---
 jsgf/grammars.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index e91e830..296ac4a 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -682,6 +682,9 @@ class Grammar(references.BaseRef):
             rule = self.get_rule_from_name(rule)
         elif rule not in self.rules:
             raise GrammarError("'%s' is not a rule in Grammar '%s'" % (rule, self))
+        else:
+            # Use the rule in this grammar, 'rule' might only be comparable to it.
+            rule = self._rules[self._rules.index(rule)]
 
         # Check if rule with name 'rule_name' is a dependency of another rule
         # in this grammar.
-- 
2.43.0


From c85b1b9285c86505ffa3e967d510f79ea3378e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:36 +0000
Subject: [PATCH 19/87] fix: don't match the old expansions of replaced and
 removed rules

The matchers of references to a rule were kept if the rule's expansion was set
or if the rule was removed from its grammar.
---
 jsgf/grammars.py | 2 ++
 jsgf/rules.py    | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index 296ac4a..bb4db8d 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -692,6 +692,8 @@ class Grammar(references.BaseRef):
             raise GrammarError("Cannot remove rule '%s' as it is referenced by "
                                "another rule." % rule)
 
+        # Invalidate any references to the rule before removing it.
+        rule.expansion.invalidate_matcher()
         self._rules.remove(rule)
         rule.grammar = None
 
diff --git a/jsgf/rules.py b/jsgf/rules.py
index 0bfdaf4..d710f8e 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -93,8 +93,10 @@ class Rule(references.BaseRef):
             return self._name
 
     def _set_expansion(self, value):
-        # Reset expansion.rule if there was a previous expansion
+        # Reset expansion.rule if there was a previous expansion. Also invalidate its
+        # matcher because references to this rule should not use it any more.
         if self._expansion:
+            self._expansion.invalidate_matcher()
             self._expansion.rule = None
 
         # Handle the object passed in as an expansion
-- 
2.43.0


From 44cb2d50d2ff9e8ca0febab8217e148609cb473d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:39 +0000
Subject: [PATCH 20/87] fix: resolve references added to the expansion of an
 existing rule

---
 jsgf/expansions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 548160d..0a118e8 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1234,8 +1234,12 @@ class NamedRuleRef(BaseExpansionRef):
         :raises: GrammarError
         :returns: Rule
         """
-        if self.rule and self.rule.grammar:
-            return self.rule.grammar.get_rule_from_name(self.name)
+        # Use the rule of an ancestor if this was added after the rule was created.
+        e = self
+        while e.parent and not e.rule:
+            e = e.parent
+        if e.rule and e.rule.grammar:
+            return e.rule.grammar.get_rule_from_name(self.name)
         else:
             raise GrammarError("cannot get referenced Rule object from Grammar")
     
-- 
2.43.0


From 2e0541007eaff7af548518f2d1ecf4b59c0c9250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:17 +0000
Subject: [PATCH 21/87] fix: allow ',' and '=' in names

They are documented as valid characters, e.g. for the rule name 1+2=3.
---
 jsgf/references.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsgf/references.py b/jsgf/references.py
index a296f07..c622e6c 100644
--- a/jsgf/references.py
+++ b/jsgf/references.py
@@ -18,7 +18,7 @@ reserved_names = Combine(PPLiteral("NULL") ^ PPLiteral("VOID"))
 
 # This will match one or more alphanumeric Unicode characters and/or any of the
 # following special characters: +-:;,=|/\()[]@#%!^&~$
-base_name = Regex(r"[\w\+\-;:\|/\\\(\)\[\]@#%!\^&~\$]+", re.UNICODE)\
+base_name = Regex(r"[\w\+\-;:,=\|/\\\(\)\[\]@#%!\^&~\$]+", re.UNICODE)\
     .setName("base name")
 
 # A qualified name is a base name plus one or more base names joined by dots,
@@ -37,7 +37,7 @@ import_name = Combine((qualified_name + Optional(".*")) ^ (base_name + ".*"))
 # Grammar names cannot include semicolons because the declared grammar name parser
 # will gobble any semicolon after the name that isn't separated by whitespace,
 # leading to a parser error.
-_grammar_base_name = Regex(r"[\w\+\-:\|/\\\(\)\[\]@#%!\^&~\$]+", re.UNICODE)\
+_grammar_base_name = Regex(r"[\w\+\-:,=\|/\\\(\)\[\]@#%!\^&~\$]+", re.UNICODE)\
     .setName("base name")
 grammar_name = Combine(_grammar_base_name ^ Combine(
     _grammar_base_name + OneOrMore("." + _grammar_base_name)))\
-- 
2.43.0


From 7f0c8c6e3758490846126432fdfef68a8ef7d7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:19 +0000
Subject: [PATCH 22/87] fix: don't allow whitespace around names or reserved
 grammar names

---
 jsgf/grammars.py   | 3 ++-
 jsgf/references.py | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index bb4db8d..464a0f4 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -233,7 +233,8 @@ class Grammar(references.BaseRef):
 
     @staticmethod
     def valid(name):
-        return references.grammar_name.matches(name)
+        return (references.grammar_name.matches(name) and
+                not references.reserved_names.matches(name))
 
     @property
     def case_sensitive(self):
diff --git a/jsgf/references.py b/jsgf/references.py
index c622e6c..691a7fc 100644
--- a/jsgf/references.py
+++ b/jsgf/references.py
@@ -80,8 +80,9 @@ class BaseRef(object):
 
     @name.setter
     def name(self, value):
-        # Validate the format of name
-        if not self.valid(value):
+        # Validate the format of name. Whitespace around names is skipped by parser
+        # elements, so check that there isn't any.
+        if not self.valid(value) or value != value.strip():
             raise GrammarError("'%s' is not a valid %s name"
                                % (value, self.__class__.__name__))
         self._name = value
-- 
2.43.0


From e406b5df8f6d0fa56f027e39e8c440c6bf62cf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:02 +0000
Subject: [PATCH 23/87] fix: escape and parse tags with braces, backslashes or
 several words

Backslashes used to escape braces in compiled tags were escaped again, escaped
braces could not be parsed, escapes were kept in parsed tags and the closing
brace of tags with several words was parsed as part of the expansion.
---
 jsgf/expansions.py | 6 +++---
 jsgf/parser.py     | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 0a118e8..1e95829 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -639,9 +639,9 @@ class Expansion(object):
             # Escape '{', '}' and '\' so that tags will be processed
             # properly if they have those characters.
             # This is suggested in the JSGF specification.
-            escaped = self.tag.replace("{", "\\{") \
-                .replace("}", "\\}") \
-                .replace("\\", "\\\\")
+            escaped = self.tag.replace("\\", "\\\\") \
+                .replace("{", "\\{") \
+                .replace("}", "\\}")
             return " { %s }" % escaped
 
     @staticmethod
diff --git a/jsgf/parser.py b/jsgf/parser.py
index a0ba706..30522a2 100644
--- a/jsgf/parser.py
+++ b/jsgf/parser.py
@@ -384,8 +384,8 @@ def get_exp_parser():
     # Define tag text to one or more words defined by a regular expression.
     # Escaped brace characters ('\{' or '\}') are allowed in tag text.
     tag_text = OneOrMore(
-        Regex(r"([\w\-\\']|\\{|\\})+", re.UNICODE).setName("tag text")
-    )
+        Regex(r"(\\[{}\\]|[\w\-\\'])+", re.UNICODE).setName("tag text")
+    ).setParseAction(lambda tokens: re.sub(r"\\([{}\\])", r"\1", " ".join(tokens)))
     tag = lcurl + tag_text + rcurl
 
     # Define the root expansion as an atom plus additional alternatives, repeat or
-- 
2.43.0


From 902af249e344092f5cd82627eb57dcbb55d3f9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:25 +0000
Subject: [PATCH 24/87] fix: parse alternatives, weights and repeats by the
 documented precedence

* Alternatives after a required grouping were parsed as part of a sequence with
  the grouping, e.g. '(a) b|c' was parsed as '(a) (b|c)'.
* Weights of alternatives made of several atoms raised a GrammarError.
* The first of several tags of a weighted alternative was lost.
* The second of several repeat operators was parsed as literal text.
---
 jsgf/parser.py | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/jsgf/parser.py b/jsgf/parser.py
index 30522a2..5af713c 100644
--- a/jsgf/parser.py
+++ b/jsgf/parser.py
@@ -246,6 +246,15 @@ def _post_process(tokens):
 def _transform_tokens(tokens):
     lst = tokens.asList()
 
+    # Handle weights. They apply to everything up to the next alternative.
+    weight = None
+    if isinstance(lst[0], WeightedExpansion):
+        weight = lst[0].weight
+        lst[0] = lst[0].children.pop()
+
+    def weighted(e):
+        return e if weight is None else WeightedExpansion(e, weight)
+
     # Handle tags.
     while "{" in lst:
         # Remove braces and tag text from the left and assign the text to the
@@ -276,42 +285,40 @@ def _transform_tokens(tokens):
 
     # Handle repeats by wrapping the preceding item in either a Repeat or
     # KleeneStar expansion.
-    if "+" in lst or "*" in lst:
+    while "+" in lst or "*" in lst:
         cls = Repeat if lst.pop(1) == "+" else KleeneStar
-
-        # Handle weighted expansions by weighting the repeat expansion.
-        if isinstance(lst[0], WeightedExpansion):
-            child = lst[0].children.pop()
-            weight = lst[0].weight
-            lst[0] = WeightedExpansion(cls(child), weight)
-        else:
-            lst[0] = cls(lst[0])
+        lst[0] = cls(lst[0])
 
     # Handle atoms by returning the only token.
     if len(lst) == 1:
-        return lst[0]
+        return weighted(lst[0])
 
     # Handle alternative sets.
     elif "|" in lst:
         lst.remove("|")
+        lst[0] = weighted(lst[0])
         return ParsedAlternativeSet(*lst)
 
     # Handle sequences.
     elif len(lst) == 2:
         # If the second expansion is an alternative set, place the first expansion
         # inside a sequence with the first child of the alternative set.
-        # Do not do this if the first expansion is a required grouping.
         # This handles rule expansions like "up <n> | left <n>".
-        RG, AS = RequiredGrouping, AlternativeSet
-        if not isinstance(lst[0], RG) and isinstance(lst[1], AS):
-            child1 = lst[1].children.pop(0)
+        if isinstance(lst[1], AlternativeSet):
+            child1 = lst[1].children[0]
+            if any([e is child1 for e in lst[1].weights]):
+                raise GrammarError("weights cannot be used outside of alternative "
+                                   "sets")
+            lst[1].children.pop(0)
             seq = Sequence(lst[0], child1)
             lst[1].children.insert(0, seq)
+            if weight is not None:
+                lst[1].set_weight(seq, weight)
             return lst[1]
 
         # Otherwise return a sequence.
         else:
-            return Sequence(*lst)
+            return weighted(Sequence(*lst))
 
     raise TypeError("unhandled tokens %s" % lst)
 
-- 
2.43.0


From 2652c6398838d5e08036e32fc1a52e47291c88db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:49 +0000
Subject: [PATCH 25/87] fix: keep matched tags of nested repetitions and
 repeated references

Only the last inner repetition and the last match of a referenced rule counted,
so tags matched by earlier repetitions were not in the list of matched tags.
---
 jsgf/expansions.py | 27 +++++++++++++++++++++++----
 jsgf/rules.py      | 14 ++++++++++----
 2 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 1e95829..1dc7de5 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -875,10 +875,11 @@ class Expansion(object):
             return True
 
         rep = self.repetition_ancestor
-        if rep and any(rep.get_expansion_matches(self)):
-            return True
-        else:
-            return False
+        while rep:
+            if rep.had_repetition_match(self):
+                return True
+            rep = rep.repetition_ancestor
+        return False
 
     def _init_lookup(self):
         # Initialises the lookup dictionary for the root expansion.
@@ -1649,6 +1650,18 @@ class Repeat(SingleChildExpansion):
         return [next(data[key] for x, data in repetition if x is e)
                 for repetition in self._repetitions_matched]
 
+    def had_repetition_match(self, e):
+        """
+        Whether an expansion was matched as part of any of the repetitions last
+        matched. This includes expansions in the trees of referenced rules.
+
+        :param e: Expansion
+        :returns: bool
+        """
+        return any([x is e and data["had_match"]
+                    for repetition in self._repetitions_matched
+                    for x, data in repetition])
+
     def _parse_action(self, tokens):
         # Call the super method to set current_match.
         super(Repeat, self)._parse_action(tokens)
@@ -1667,10 +1680,16 @@ class Repeat(SingleChildExpansion):
         # Define a parse action for each repetition.
         def f(tokens):
             if tokens.asList():
+                repeats = filter_expansion(self.child,
+                                           lambda x: isinstance(x, Repeat))
+
                 # Add current match values to the _repetitions_matched list.
                 self._repetitions_matched.append([(x, {
                     "current_match": x.current_match,
                     "matching_slice": x.matching_slice,
+                    "had_match": x.had_match or any([
+                        rep.had_repetition_match(x) for rep in repeats
+                    ]),
                 }) for x in flat_map_expansion(self.child)])
 
                 # Wipe current match values for the next repetition (if any).
diff --git a/jsgf/rules.py b/jsgf/rules.py
index d710f8e..4664c0c 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -7,8 +7,8 @@ rules.
 
 from .errors import GrammarError
 from . import references
-from .expansions import Expansion, Literal, NamedRuleRef, filter_expansion, \
-    map_expansion, TraversalOrder
+from .expansions import Expansion, Literal, NamedRuleRef, Repeat, \
+    filter_expansion, map_expansion, TraversalOrder
 
 
 class Rule(references.BaseRef):
@@ -321,9 +321,15 @@ class Rule(references.BaseRef):
 
         :returns: list
         """
-        # Get tagged and matching expansions in this rule and referenced rules.
+        # Get tagged and matching expansions in this rule and referenced rules. The
+        # latter can be repeated by this rule.
+        repeats = filter_expansion(self.expansion, lambda e: isinstance(e, Repeat))
+
+        def had_match(e):
+            return e.had_match or any([r.had_repetition_match(e) for r in repeats])
+
         tagged_expansions = filter_expansion(
-            self.expansion, lambda e: e.tag and e.had_match,
+            self.expansion, lambda e: e.tag and had_match(e),
             TraversalOrder.PostOrder
         )
 
-- 
2.43.0


From 4d38eaf0690eedaea1ce0480aa1e0d418a8bc9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:22 +0000
Subject: [PATCH 26/87] fix: match nothing with rules of only optional parts

A sequence of optional expansions didn't match the empty string, although the
same expansions without the sequence did.
---
 jsgf/rules.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/jsgf/rules.py b/jsgf/rules.py
index 4664c0c..4c15e78 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -226,11 +226,10 @@ class Rule(references.BaseRef):
 
         :returns: bool
         """
-        # Expansions that match nothing always have an empty current match, so also
-        # check that the empty match was part of the speech string.
+        # The current match of an expansion can be empty whether or not it matched, so
+        # also check if a part of the speech string, possibly an empty one, matched.
         e = self.expansion
-        return bool(e.current_match) or (e.current_match is not None and
-                                         e.matching_slice is not None)
+        return bool(e.current_match) or e.matching_slice is not None
 
     def matches(self, speech):
         """
@@ -262,9 +261,8 @@ class Rule(references.BaseRef):
         if remainder != "":
             # Don't keep match data if the rule didn't match completely.
             self.expansion.reset_for_new_match()
-            return False
 
-        return self.expansion.current_match is not None
+        return self.was_matched
 
     def find_matching_part(self, speech):
         """
-- 
2.43.0


From 370eb15b01745300002b3fdfcf883f02023b8b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:17 +0000
Subject: [PATCH 27/87] fix: exclude trailing whitespace from matching slices

The slice of an expansion that ended with an unmatched optional part included the
whitespace before the next word.
---
 jsgf/expansions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 1dc7de5..080df46 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -852,7 +852,11 @@ class Expansion(object):
         # in postParse because parse actions aren't called for lookahead.
         def action(instring, loc, tokens):
             end = match_end[0]
-            start = end - len(instring[loc:end].lstrip()) if tokens.asList() else end
+            start = end
+            if tokens.asList():
+                # Exclude whitespace skipped before and after the matching words.
+                start -= len(instring[loc:end].lstrip())
+                end = start + len(instring[start:end].rstrip())
             self.matching_slice = slice(start, end)
             return self._parse_action(tokens)
 
-- 
2.43.0


From 6382dadb629713757cf3b2675c4145395b4bcfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:38 +0000
Subject: [PATCH 28/87] fix: restore match data if optional or repeated
 expansions don't match

Match data of rule references and referenced rules that were only partially
matched was kept, as was data of optional parts of incomplete repetitions.
---
 jsgf/expansions.py | 97 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 75 insertions(+), 22 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 080df46..acc82ff 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -221,23 +221,61 @@ class _WordsElement(pyparsing.Token):
         return result.end(), [self.match] if self.match else []
 
 
-class _OneOrMore(pyparsing.OneOrMore):
+class _Attempt(pyparsing.ParseElementEnhance):
     """
-    Internal parser element that, unlike the base class, stops if the repeated
-    element matches nothing. It would otherwise be repeated indefinitely.
+    Internal base class for parser elements that go on if the element for an
+    expansion doesn't match. The match data of the expansion's tree is restored in
+    that case because some of the expansions in it could have been matched.
     """
 
-    def parseImpl(self, instring, loc, doActions=True):
-        loc, tokens = self.expr._parse(instring, loc, doActions, callPreParse=False)
+    def __init__(self, element, expansion):
+        super(_Attempt, self).__init__(element)
+        self.expansion = expansion
+
+    def attempt(self, instring, loc, doActions):
+        saved = []
+        if doActions:
+            saved = [(x, x._get_match_data())
+                     for x in flat_map_expansion(self.expansion)]
         try:
-            while tokens:
-                next_loc, next_tokens = self.expr._parse(instring, loc, doActions)
-                if not next_tokens:
-                    break
-                loc = next_loc
-                tokens += next_tokens
+            return self.expr._parse(instring, loc, doActions)
         except (pyparsing.ParseException, IndexError):
-            pass
+            for x, data in saved:
+                x._set_match_data(data)
+            return None
+
+
+class _Optional(_Attempt):
+    """
+    Internal parser element used for optionals.
+    """
+
+    def __init__(self, element, expansion):
+        super(_Optional, self).__init__(element, expansion)
+        self.mayReturnEmpty = True
+
+    def parseImpl(self, instring, loc, doActions=True):
+        return self.attempt(instring, loc, doActions) or (loc, [])
+
+
+class _OneOrMore(_Attempt):
+    """
+    Internal parser element for repetition that, unlike the pyparsing class, stops if
+    the repeated element matches nothing. It would otherwise be repeated
+    indefinitely.
+    """
+
+    def parseImpl(self, instring, loc, doActions=True):
+        loc, tokens = self.expr._parse(instring, loc, doActions, callPreParse=False)
+        return self.parse_more(instring, loc, tokens, doActions)
+
+    def parse_more(self, instring, loc, tokens, doActions):
+        while tokens:
+            result = self.attempt(instring, loc, doActions)
+            if not (result and result[1]):
+                break
+            loc = result[0]
+            tokens += result[1]
         return loc, tokens
 
 
@@ -246,15 +284,15 @@ class _ZeroOrMore(_OneOrMore):
     Internal parser element used for matching zero or more repetitions.
     """
 
-    def __init__(self, expr):
-        super(_ZeroOrMore, self).__init__(expr)
+    def __init__(self, element, expansion):
+        super(_ZeroOrMore, self).__init__(element, expansion)
         self.mayReturnEmpty = True
 
     def parseImpl(self, instring, loc, doActions=True):
-        try:
-            return super(_ZeroOrMore, self).parseImpl(instring, loc, doActions)
-        except (pyparsing.ParseException, IndexError):
+        result = self.attempt(instring, loc, doActions)
+        if not result:
             return loc, []
+        return self.parse_more(instring, result[0], result[1], doActions)
 
 
 class JointTreeContext(object):
@@ -732,6 +770,13 @@ class Expansion(object):
         self.current_match = None
         self.matching_slice = None
 
+    def _get_match_data(self):
+        # Get a copy of the data that reset_match_data() resets.
+        return self._current_match, self._matching_slice
+
+    def _set_match_data(self, data):
+        self._current_match, self._matching_slice = data
+
     def matches(self, speech):
         """
         Match speech with this expansion, set ``current_match`` to the first matched
@@ -1707,7 +1752,8 @@ class Repeat(SingleChildExpansion):
 
         # Determine the parser element type to use.
         kleene = isinstance(self, KleeneStar)
-        type_ = _ZeroOrMore if kleene else _OneOrMore
+        element_type = _ZeroOrMore if kleene else _OneOrMore
+        element = element_type(child_element, self.child)
 
         # Handle the special case of a repetition ancestor, e.g. ((a b)+)+
         rep = self.repetition_ancestor
@@ -1725,15 +1771,22 @@ class Repeat(SingleChildExpansion):
             # Use an And element instead if self is the only branch because
             # it makes no sense to repeat a repeat like this!
             if only_branch:
-                type_ = pyparsing.And
-                child_element = [child_element]
+                element = pyparsing.And([child_element])
 
-        return self._set_matcher_element_attributes(type_(child_element))
+        return self._set_matcher_element_attributes(element)
 
     def reset_match_data(self):
         super(Repeat, self).reset_match_data()
         self._repetitions_matched = []
 
+    def _get_match_data(self):
+        data = super(Repeat, self)._get_match_data()
+        return data, list(self._repetitions_matched)
+
+    def _set_match_data(self, data):
+        super(Repeat, self)._set_match_data(data[0])
+        self._repetitions_matched = data[1]
+
 
 class KleeneStar(Repeat):
     """
@@ -1787,7 +1840,7 @@ class OptionalGrouping(SingleChildExpansion):
 
     def _make_matcher_element(self):
         return self._set_matcher_element_attributes(
-            pyparsing.Optional(self.child.matcher_element)
+            _Optional(self.child.matcher_element, self.child)
         )
 
     @property
-- 
2.43.0


From e2f9005eb772f3cfae8a6e4473639d3d329bc4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:35 +0000
Subject: [PATCH 29/87] fix: don't keep data of failed attempts in
 find_matching_part

Rules were matched against each part of the speech without resetting match data
in between. Optional rules also returned an empty part or None depending on the
number of words.
---
 jsgf/rules.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/jsgf/rules.py b/jsgf/rules.py
index 4c15e78..2112ef1 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -5,6 +5,8 @@ This module contains classes for compiling and matching JSpeech Grammar Format
 rules.
 """
 
+import pyparsing
+
 from .errors import GrammarError
 from . import references
 from .expansions import Expansion, Literal, NamedRuleRef, Repeat, \
@@ -279,19 +281,26 @@ class Rule(references.BaseRef):
         # Strip whitespace at the start of 'speech'.
         speech = speech.lstrip()
 
-        # Reset match data for this rule and referenced rules.
-        self.expansion.reset_for_new_match()
+        # Reset match data for this rule and referenced rules each time matching is
+        # attempted.
+        def reset(_):
+            self.expansion.reset_for_new_match()
 
-        # Use the first match (if any) and break. The loop is required because
+        element = pyparsing.And([
+            pyparsing.Empty().setParseAction(reset), self.expansion.matcher_element
+        ]).parseWithTabs()
+
+        # Use the first match (if any) that isn't empty. The loop is required because
         # scanString returns a generator.
-        result = None
-        element = self.expansion.matcher_element.parseWithTabs()
         for match in element.scanString(speech):
             _, start, end = match
             result = speech[start:end].strip()
-            break
+            if result:
+                return result
 
-        return result
+        # Don't keep match data if no part matches.
+        self.expansion.reset_for_new_match()
+        return None
 
     @property
     def tags(self):
-- 
2.43.0


From 54eeaaffcdbf40aa31353c25f537e41778d1144e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:27 +0000
Subject: [PATCH 30/87] fix: reset match data if disabled rules are matched

was_matched and get_tags_matching reported the match that was made before the rule
was disabled.
---
 jsgf/rules.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsgf/rules.py b/jsgf/rules.py
index 2112ef1..ae35332 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -248,6 +248,8 @@ class Rule(references.BaseRef):
         :returns: bool
         """
         if not self._active:
+            # Don't keep data from previous matches.
+            self.expansion.reset_for_new_match()
             return False
 
         # Strip whitespace at the start of 'speech' and lower it to match regex
@@ -276,6 +278,8 @@ class Rule(references.BaseRef):
         :returns: str | None
         """
         if not self._active:
+            # Don't keep data from previous matches.
+            self.expansion.reset_for_new_match()
             return None
 
         # Strip whitespace at the start of 'speech'.
-- 
2.43.0


From 453e842b59db4a0864e0e508d1edc025135673a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:10 +0000
Subject: [PATCH 31/87] fix: match the new rule after setting the name of a
 reference

The parser element for the previously referenced rule was used otherwise.
---
 jsgf/expansions.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index acc82ff..eaabfeb 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1233,8 +1233,24 @@ class BaseExpansionRef(references.BaseRef, Expansion):
     """
     def __init__(self, name):
         # Call both super constructors
-        references.BaseRef.__init__(self, name)
         Expansion.__init__(self, [])
+        references.BaseRef.__init__(self, name)
+
+    @property
+    def name(self):
+        """
+        The referenced name.
+
+        :returns: str
+        """
+        return references.BaseRef.name.fget(self)
+
+    @name.setter
+    def name(self, value):
+        references.BaseRef.name.fset(self, value)
+
+        # A different rule is referenced now.
+        self.invalidate_matcher()
 
     @staticmethod
     def valid(name):
-- 
2.43.0


From 7eff6b52680252438d9588ab888dbf442ee7e9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:08 +0000
Subject: [PATCH 32/87] fix: repeat depending on the current ancestors of
 repeats

Parser elements of repeats in other repeats weren't changed if they were moved.
---
 jsgf/expansions.py | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index eaabfeb..cfa72e1 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -270,6 +270,12 @@ class _OneOrMore(_Attempt):
         return self.parse_more(instring, loc, tokens, doActions)
 
     def parse_more(self, instring, loc, tokens, doActions):
+        # Don't repeat if an ancestor does. This is checked here because ancestors can
+        # change without this element being invalidated.
+        repeat = self.expansion.parent
+        if repeat and repeat._is_only_branch_of_repetition():
+            return loc, tokens
+
         while tokens:
             result = self.attempt(instring, loc, doActions)
             if not (result and result[1]):
@@ -1769,27 +1775,25 @@ class Repeat(SingleChildExpansion):
         # Determine the parser element type to use.
         kleene = isinstance(self, KleeneStar)
         element_type = _ZeroOrMore if kleene else _OneOrMore
-        element = element_type(child_element, self.child)
+        return self._set_matcher_element_attributes(
+            element_type(child_element, self.child)
+        )
 
-        # Handle the special case of a repetition ancestor, e.g. ((a b)+)+
+    def _is_only_branch_of_repetition(self):
+        # Handle the special case of a repetition ancestor, e.g. ((a b)+)+. It makes
+        # no sense to repeat a repeat that is the only branch like this!
         rep = self.repetition_ancestor
-        if rep and (isinstance(rep, KleeneStar) or not kleene):
-            # Check if there are no other branches.
-            c = rep.child
-            only_branch = True
-            while c is not self:
-                if len(c.children) != 1:
-                    only_branch = False
-                    break
-                else:
-                    c = c.children[0]
-
-            # Use an And element instead if self is the only branch because
-            # it makes no sense to repeat a repeat like this!
-            if only_branch:
-                element = pyparsing.And([child_element])
+        if not rep or isinstance(self, KleeneStar) and not isinstance(rep,
+                                                                      KleeneStar):
+            return False
 
-        return self._set_matcher_element_attributes(element)
+        # Check if there are no other branches.
+        c = rep.child
+        while c is not self:
+            if len(c.children) != 1:
+                return False
+            c = c.children[0]
+        return True
 
     def reset_match_data(self):
         super(Repeat, self).reset_match_data()
-- 
2.43.0


From def92e7630d7a2204447af930165d2bd9abaa3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:13 +0000
Subject: [PATCH 33/87] fix: keep matched tags of rules referenced in and
 outside of repeats

Track which expansions were part of the last match instead of searching
repetitions. Matches of rules that were referenced again afterwards were lost.
---
 jsgf/expansions.py | 51 ++++++++++++++++++----------------------------
 jsgf/rules.py      | 14 ++++---------
 2 files changed, 24 insertions(+), 41 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index cfa72e1..9d292bd 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -527,6 +527,10 @@ class Expansion(object):
 
         self._current_match = None
         self._matching_slice = None
+
+        # Internal member for whether this expansion was part of the last match. The
+        # values above only describe the last repetition or reference.
+        self._had_match = False
         self.rule = None
 
         # Internal member used for caching calculations. Initially None as this
@@ -775,13 +779,17 @@ class Expansion(object):
         """
         self.current_match = None
         self.matching_slice = None
+        self._had_match = False
+
+    def _reset_had_match(self):
+        self._had_match = False
 
     def _get_match_data(self):
         # Get a copy of the data that reset_match_data() resets.
-        return self._current_match, self._matching_slice
+        return self._current_match, self._matching_slice, self._had_match
 
     def _set_match_data(self, data):
-        self._current_match, self._matching_slice = data
+        self._current_match, self._matching_slice, self._had_match = data
 
     def matches(self, speech):
         """
@@ -802,6 +810,7 @@ class Expansion(object):
         # location where the match ended.
         speech = speech.strip()
         match_end = [0]
+        map_expansion(self, Expansion._reset_had_match)
 
         def save_end(_, loc, tokens):
             match_end[0] = loc
@@ -812,7 +821,7 @@ class Expansion(object):
         try:
             element.parseString(speech)
         except pyparsing.ParseException:
-            pass
+            map_expansion(self, Expansion._reset_had_match)
 
         # Return what comes after the match. There can be something left, which
         # means the match wasn't complete.
@@ -878,6 +887,8 @@ class Expansion(object):
 
     def _parse_action(self, tokens):
         self.current_match = " ".join(tokens.asList())
+        if self.current_match:
+            self._had_match = True
         return tokens
 
     def _make_matcher_element(self):
@@ -926,15 +937,7 @@ class Expansion(object):
 
         :returns: bool
         """
-        if self.current_match:
-            return True
-
-        rep = self.repetition_ancestor
-        while rep:
-            if rep.had_repetition_match(self):
-                return True
-            rep = rep.repetition_ancestor
-        return False
+        return bool(self.current_match) or self._had_match
 
     def _init_lookup(self):
         # Initialises the lookup dictionary for the root expansion.
@@ -1721,18 +1724,6 @@ class Repeat(SingleChildExpansion):
         return [next(data[key] for x, data in repetition if x is e)
                 for repetition in self._repetitions_matched]
 
-    def had_repetition_match(self, e):
-        """
-        Whether an expansion was matched as part of any of the repetitions last
-        matched. This includes expansions in the trees of referenced rules.
-
-        :param e: Expansion
-        :returns: bool
-        """
-        return any([x is e and data["had_match"]
-                    for repetition in self._repetitions_matched
-                    for x, data in repetition])
-
     def _parse_action(self, tokens):
         # Call the super method to set current_match.
         super(Repeat, self)._parse_action(tokens)
@@ -1751,20 +1742,18 @@ class Repeat(SingleChildExpansion):
         # Define a parse action for each repetition.
         def f(tokens):
             if tokens.asList():
-                repeats = filter_expansion(self.child,
-                                           lambda x: isinstance(x, Repeat))
-
                 # Add current match values to the _repetitions_matched list.
                 self._repetitions_matched.append([(x, {
                     "current_match": x.current_match,
                     "matching_slice": x.matching_slice,
-                    "had_match": x.had_match or any([
-                        rep.had_repetition_match(x) for rep in repeats
-                    ]),
                 }) for x in flat_map_expansion(self.child)])
 
-                # Wipe current match values for the next repetition (if any).
+                # Wipe current match values for the next repetition (if any), but
+                # keep track of the expansions that were matched.
+                had_match = filter_expansion(self.child, lambda x: x.had_match)
                 self.child.reset_for_new_match()
+                for x in had_match:
+                    x._had_match = True
             return tokens
 
         # Wrap the child's matcher element rather than adding the parse action to it:
diff --git a/jsgf/rules.py b/jsgf/rules.py
index ae35332..b8457d4 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -9,8 +9,8 @@ import pyparsing
 
 from .errors import GrammarError
 from . import references
-from .expansions import Expansion, Literal, NamedRuleRef, Repeat, \
-    filter_expansion, map_expansion, TraversalOrder
+from .expansions import Expansion, Literal, NamedRuleRef, filter_expansion, \
+    map_expansion, TraversalOrder
 
 
 class Rule(references.BaseRef):
@@ -332,15 +332,9 @@ class Rule(references.BaseRef):
 
         :returns: list
         """
-        # Get tagged and matching expansions in this rule and referenced rules. The
-        # latter can be repeated by this rule.
-        repeats = filter_expansion(self.expansion, lambda e: isinstance(e, Repeat))
-
-        def had_match(e):
-            return e.had_match or any([r.had_repetition_match(e) for r in repeats])
-
+        # Get tagged and matching expansions in this rule and referenced rules.
         tagged_expansions = filter_expansion(
-            self.expansion, lambda e: e.tag and had_match(e),
+            self.expansion, lambda e: e.tag and e.had_match,
             TraversalOrder.PostOrder
         )
 
-- 
2.43.0


From 1dc44872732f976dac679058f7743f9b82010340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:35 +0000
Subject: [PATCH 34/87] fix: match the current expansions of rules referenced
 from outside their grammar

References kept using the referenced rule's old parser element if the rule was
modified and the reference's rule was not in the same grammar.
---
 jsgf/expansions.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 9d292bd..695c1ad 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -301,6 +301,29 @@ class _ZeroOrMore(_OneOrMore):
         return self.parse_more(instring, result[0], result[1], doActions)
 
 
+class _Reference(pyparsing.ParserElement):
+    """
+    Internal parser element for references. It uses the current parser element of the
+    referenced rule's expansion, which can be replaced without the reference being
+    invalidated, e.g. if the rule with the reference is not in the same grammar.
+    """
+
+    def __init__(self, reference):
+        super(_Reference, self).__init__()
+        self.reference = reference
+        self.name = str(reference)
+
+        # This also raises an error now if the referenced rule can't be found.
+        self.mayReturnEmpty = self.expr.mayReturnEmpty
+
+    @property
+    def expr(self):
+        return self.reference.referenced_rule.expansion.matcher_element
+
+    def parseImpl(self, instring, loc, doActions=True):
+        return self.expr._parse(instring, loc, doActions)
+
+
 class JointTreeContext(object):
     """
     Class that temporarily joins an expansion tree with the expansion trees of all
@@ -1330,7 +1353,7 @@ class NamedRuleRef(BaseExpansionRef):
         # Wrap the parser element for the referenced rule's root expansion so that
         # the current match value for the NamedRuleRef is also set.
         return self._set_matcher_element_attributes(pyparsing.And([
-            self.referenced_rule.expansion.matcher_element
+            _Reference(self)
         ]))
 
     def __hash__(self):
-- 
2.43.0


From 1deeb706000f2e3443604d046e946dba0690c5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:29 +0000
Subject: [PATCH 35/87] fix: parse compiled repeats that have tags

Tagged repeats compile as "(text)+ { tag }" or "(text)* { tag }", which the parser
rejected.
---
 jsgf/parser.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jsgf/parser.py b/jsgf/parser.py
index 5af713c..45dffed 100644
--- a/jsgf/parser.py
+++ b/jsgf/parser.py
@@ -261,6 +261,13 @@ def _transform_tokens(tokens):
         # expansion on the left.
         i = lst.index("{")
 
+        # Wrap a preceding grouping in a repeat or Kleene star first, because tags for
+        # those are compiled as "(text)+ { tag }".
+        if lst[i-1] in ("+", "*") and isinstance(lst[i-2], RequiredGrouping):
+            cls = Repeat if lst.pop(i-1) == "+" else KleeneStar
+            lst[i-2] = cls(lst[i-2])
+            i -= 1
+
         # Raise an error if '*' or '+' is found; repeats cannot be tagged like that.
         previous = lst[i-1]
         if isinstance(previous, string_types):
-- 
2.43.0


From 45838599a429a9c55d3973ec53c5304ffaaaffa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:05 +0000
Subject: [PATCH 36/87] fix: compile tags of sequences for the whole sequence

The tag of a sequence with more than one child was compiled as a tag of the last
child.
---
 jsgf/expansions.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 695c1ad..5437387 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1493,8 +1493,14 @@ class Sequence(VariableChildExpansion):
             e.compile(ignore_tags) for e in self.children
         ])
 
-        # Return the sequence and the tag if there is one
+        # Return the sequence and the tag if there is one. The tag would only apply to
+        # the last child without parenthesises.
         if self.tag and not ignore_tags:
+            e = self
+            while type(e) is Sequence and len(e.children) == 1:
+                e = e.children[0]
+            if type(e) is Sequence:
+                seq = "(%s)" % seq
             return "%s%s" % (seq, self.compiled_tag)
         else:
             return seq
-- 
2.43.0


From 31ba9ac2a0b071a258b853f5d51789fb2abd32a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:37 +0000
Subject: [PATCH 37/87] fix: allow comments at the end of grammars

Grammars with a comment after the last rule were not parsed.
---
 jsgf/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsgf/parser.py b/jsgf/parser.py
index 45dffed..c6e05a0 100644
--- a/jsgf/parser.py
+++ b/jsgf/parser.py
@@ -497,6 +497,9 @@ def get_grammar_parser():
     parser = (header_line + name_line + ZeroOrMore(import_statement) +
               OneOrMore(rule_parser))
     parser.setName("grammar").setParseAction(_make_grammar)
+
+    # Also ignore comments at the end of the grammar.
+    parser.ignore(cppStyleComment)
     return parser
 
 
-- 
2.43.0


From f60d4ebb9159c63cc530eddfaf1500a01bffd8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:54 +0000
Subject: [PATCH 38/87] fix: make valid_grammar return False for negative
 weights

---
 jsgf/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsgf/parser.py b/jsgf/parser.py
index c6e05a0..0ed0457 100644
--- a/jsgf/parser.py
+++ b/jsgf/parser.py
@@ -558,8 +558,8 @@ def valid_grammar(s):
     try:
         parse_grammar_string(s)
         return True
-    except (ParseException, GrammarError):
-        # print(e)
+    except (ParseException, GrammarError, TypeError):
+        # A TypeError is raised for negative weights.
         return False
 
 
-- 
2.43.0


From f8ae2e20280de2b45e79707b0b60fc3660a209cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:10 +0000
Subject: [PATCH 39/87] fix: make rules and grammars unequal to other objects

Comparing them to anything else raised an AttributeError.
---
 jsgf/grammars.py | 3 ++-
 jsgf/rules.py    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index 464a0f4..564e05c 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -438,7 +438,8 @@ class Grammar(references.BaseRef):
         return self.__str__()
 
     def __eq__(self, other):
-        return (self.name == other.name and self.jsgf_header == other.jsgf_header
+        return (isinstance(other, Grammar) and
+                self.name == other.name and self.jsgf_header == other.jsgf_header
                 and self.rules == other.rules and self.imports == other.imports
                 and self.case_sensitive == other.case_sensitive)
 
diff --git a/jsgf/rules.py b/jsgf/rules.py
index b8457d4..a5d5c67 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -410,7 +410,8 @@ class Rule(references.BaseRef):
         return len(self.dependent_rules)
 
     def __eq__(self, other):
-        return (self.name == other.name and
+        return (isinstance(other, Rule) and
+                self.name == other.name and
                 self.expansion == other.expansion and
                 self.visible == other.visible and
                 self.case_sensitive == other.case_sensitive)
-- 
2.43.0


From 3176479898b725bc7418338c95d8fe7e22be2b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:13 +0000
Subject: [PATCH 40/87] fix: compare weights of alternatives that were modified

---
 jsgf/expansions.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 5437387..18b66f2 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -2114,9 +2114,18 @@ class AlternativeSet(VariableChildExpansion):
             # Check that the children lists have the same contents, but the
             # ordering can be different. Also check the weights dictionaries.
             set(self.children) == set(other.children) and
-            self.weights == other.weights
+            self._compare_weights(other)
         )
 
+    def _compare_weights(self, other):
+        # The dictionaries cannot be compared because their keys may have been
+        # modified since the weights were set.
+        def weights(e):
+            return {(x, e._get_weight(x)) for x in e.children}
+
+        return (bool(self._weights) == bool(other._weights) and
+                weights(self) == weights(other))
+
     @property
     def is_alternative(self):
         return True
-- 
2.43.0


From c4fc231f56ae0dbf8ec5abb77c9c73a3a19c7065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:43 +0000
Subject: [PATCH 41/87] fix: link the expansions of deep copied rules to the
 copies

References by name could not be found in deep copies of rules and grammars.
---
 jsgf/rules.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/jsgf/rules.py b/jsgf/rules.py
index a5d5c67..6bbc756 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -5,6 +5,8 @@ This module contains classes for compiling and matching JSpeech Grammar Format
 rules.
 """
 
+from copy import deepcopy
+
 import pyparsing
 
 from .errors import GrammarError
@@ -103,13 +105,25 @@ class Rule(references.BaseRef):
 
         # Handle the object passed in as an expansion
         self._expansion = Expansion.make_expansion(value)
+        self._set_expansion_rules()
 
+    def _set_expansion_rules(self):
         # Set the rule attribute for the rule's expansions
         def set_rule(x):
             x.rule = self
 
         map_expansion(self._expansion, set_rule, shallow=True)
 
+    def __deepcopy__(self, memo):
+        result = type(self).__new__(type(self))
+        memo[id(self)] = result
+        for name, value in self.__dict__.items():
+            result.__dict__[name] = deepcopy(value, memo)
+
+        # Copied expansions are not linked to rules.
+        result._set_expansion_rules()
+        return result
+
     def compile(self, ignore_tags=False):
         """
         Compile this rule's expansion tree and return the result.
-- 
2.43.0


From bf6637a53ece48918a9df27acd399e1eeb269975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:20 +0000
Subject: [PATCH 42/87] fix: unpickle alternatives and dictation of weighted
 sets

---
 jsgf/expansions.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 18b66f2..4a69f66 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1923,6 +1923,9 @@ class AlternativeSet(VariableChildExpansion):
 
         :rtype: dict
         """
+        # Unpickled weights are a list of items.
+        if isinstance(self._weights, list):
+            self._weights = dict(self._weights)
         return self._weights
 
     @weights.setter
@@ -1966,10 +1969,10 @@ class AlternativeSet(VariableChildExpansion):
                     child = c
 
         # Replace the previous weight, if there is one.
-        others = [(e, w) for e, w in self._weights.items() if e != child]
-        self._weights.clear()
-        self._weights.update(others)
-        self._weights[child] = weight
+        others = [(e, w) for e, w in self.weights.items() if e != child]
+        self.weights.clear()
+        self.weights.update(others)
+        self.weights[child] = weight
 
         # Invalidate this expansion. This is a quick procedure if the matcher
         # element hasn't been initialised.
@@ -2001,6 +2004,13 @@ class AlternativeSet(VariableChildExpansion):
         self._copy_weights(result)
         return result
 
+    def __getstate__(self):
+        # Pickle weights as a list because the hash values of alternatives cannot be
+        # used before everything is unpickled.
+        state = super(AlternativeSet, self).__getstate__()
+        state['_weights'] = list(self.weights.items())
+        return state
+
     def _copy_weights(self, other):
         # Use the children of the other set rather than the children of this one.
         for e1, e2 in zip(self.children, other.children):
@@ -2012,10 +2022,10 @@ class AlternativeSet(VariableChildExpansion):
         # Get the weight of an alternative or None if it doesn't have one.
         # The dictionary cannot be used for this because the hash value of an
         # alternative changes if the alternative is modified.
-        for e, weight in self._weights.items():
+        for e, weight in self.weights.items():
             if e is child:
                 return weight
-        for e, weight in self._weights.items():
+        for e, weight in self.weights.items():
             if e == child:
                 return weight
         return None
@@ -2030,7 +2040,7 @@ class AlternativeSet(VariableChildExpansion):
 
     def compile(self, ignore_tags=False):
         super(AlternativeSet, self).compile()
-        if self._weights:
+        if self.weights:
             self._validate_weights()
 
             # Create a string with w=weight and e=compiled expansion
@@ -2063,7 +2073,7 @@ class AlternativeSet(VariableChildExpansion):
             p = w / sum(weights)
 
         """
-        if self._weights:
+        if self.weights:
             self._validate_weights()
             # use weights if they are set
             # each alternative gets the probability weight / sum_of_all_weights
@@ -2085,7 +2095,7 @@ class AlternativeSet(VariableChildExpansion):
 
     def _make_matcher_element(self):
         # Return an element that can match the alternatives.
-        if self._weights:
+        if self.weights:
             self._validate_weights()
 
             # Exclude alternatives that have a weight value of 0. Weights of removed
@@ -2123,7 +2133,7 @@ class AlternativeSet(VariableChildExpansion):
         def weights(e):
             return {(x, e._get_weight(x)) for x in e.children}
 
-        return (bool(self._weights) == bool(other._weights) and
+        return (bool(self.weights) == bool(other.weights) and
                 weights(self) == weights(other))
 
     @property
-- 
2.43.0


From 6391f4711a68c69335b134a458b3c9d4e2da98c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:23 +0000
Subject: [PATCH 43/87] fix: don't pickle calculations stored by object IDs

---
 jsgf/expansions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 4a69f66..a7c66d4 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1077,6 +1077,9 @@ class Expansion(object):
     def __getstate__(self):
         state = self.__dict__.copy()
         state['_matcher_element'] = None
+
+        # Stored calculations use the IDs of expansions.
+        state['_lookup_dict'] = None
         return state
 
     @property
-- 
2.43.0


From a2706506ffb0bda36c92e14248bee63c2a810e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:08 +0000
Subject: [PATCH 44/87] fix: raise a TypeError if objects other than rules are
 added to root grammars

---
 jsgf/grammars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index 564e05c..14b46da 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -799,7 +799,7 @@ class RootGrammar(Grammar):
         return self.compile_as_root_grammar()
 
     def add_rule(self, rule):
-        if rule.name == "root":
+        if isinstance(rule, Rule) and rule.name == "root":
             raise GrammarError("cannot add rule with name 'root' to RootGrammar")
 
         super(RootGrammar, self).add_rule(rule)
-- 
2.43.0


From 19d3a48455704e68eacd8ba7b5040db13128a08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:12 +0000
Subject: [PATCH 45/87] fix: raise a GrammarError if imported rules are removed
 by name

---
 jsgf/grammars.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index 14b46da..389f757 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -682,11 +682,13 @@ class Grammar(references.BaseRef):
             # Assume 'rule' is the name of a rule
             # Get the rule object with the name
             rule = self.get_rule_from_name(rule)
-        elif rule not in self.rules:
+
+        # The rule with the name might be an imported rule.
+        if rule not in self.rules:
             raise GrammarError("'%s' is not a rule in Grammar '%s'" % (rule, self))
-        else:
-            # Use the rule in this grammar, 'rule' might only be comparable to it.
-            rule = self._rules[self._rules.index(rule)]
+
+        # Use the rule in this grammar, 'rule' might only be comparable to it.
+        rule = self._rules[self._rules.index(rule)]
 
         # Check if rule with name 'rule_name' is a dependency of another rule
         # in this grammar.
-- 
2.43.0


From e6c5b7b5321a2616b0960cb2939f546a2e5ecb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:48 +0000
Subject: [PATCH 46/87] fix: resolve rules that have the full names of grammars

Importing both rule 'g' of grammar 'p' and rules of grammar 'p.g' raised an
AttributeError or returned grammars instead of rules.
---
 jsgf/grammars.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index 389f757..a9aa87d 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -77,7 +77,7 @@ class Import(references.BaseRef):
     def _get_import_grammar(self, memo, file_exts):
         """ Internal method to get the grammar from a file if necessary. """
         grammar_name = self.grammar_name
-        if grammar_name in memo:
+        if isinstance(memo.get(grammar_name), Grammar):
             return memo[grammar_name]
 
         # Import the parser function locally to avoid import cycles; this module is
@@ -139,9 +139,10 @@ class Import(references.BaseRef):
         if file_exts is None:
             file_exts = self.grammar_file_exts
 
-        # Check if this import statement has already been resolved.
+        # Check if this import statement has already been resolved. Grammars may have
+        # the same names as rules of other grammars.
         import_name = self.name
-        if import_name in memo:
+        if import_name in memo and not isinstance(memo[import_name], Grammar):
             return memo[import_name]
 
         # Parse the grammar from its file, if it exists.
@@ -167,14 +168,19 @@ class Import(references.BaseRef):
             raise JSGFImportError("no public rule with name %r was found in grammar "
                                   "%r" % (import_rule_name, grammar_name))
 
-        # Add any appropriate rules.
+        # Add any appropriate rules, but don't replace grammars with the same names.
+        result = visible_rules
         for rule in visible_rules:
             if wildcard_import or rule.name == import_rule_name:
-                memo[rule.fully_qualified_name] = rule
-                memo["%s.%s" % (grammar_name, rule.name)] = rule
+                for name in (rule.fully_qualified_name,
+                             "%s.%s" % (grammar_name, rule.name)):
+                    if not isinstance(memo.get(name), Grammar):
+                        memo[name] = rule
+                if not wildcard_import:
+                    result = rule
 
         # Return the imported rule(s).
-        return memo[import_name]
+        return result
 
     @staticmethod
     def valid(name):
@@ -613,11 +619,9 @@ class Grammar(references.BaseRef):
 
         # No local rules matched, so resolve import statements.
         self.resolve_imports()
-        import_names = self.import_names
         imported_rules = []
-        for (key, value) in self.import_environment.items():
-            if key not in import_names:
-                continue
+        for import_ in self._imports:
+            value = import_.resolve(self._import_env)
 
             # Handle single rule imports.
             if isinstance(value, Rule):
-- 
2.43.0


From b65df2a7b238b0c14494f7d7dd86c2efb20d6ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:51 +0000
Subject: [PATCH 47/87] fix: find rules by the names given and imported more
 than once

Names like 'x.g.r' returned rule 'r' of any imported grammar with a name ending
in 'g'. Rules imported by two import statements were ambiguous.
---
 jsgf/grammars.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index a9aa87d..db5b340 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -633,9 +633,11 @@ class Grammar(references.BaseRef):
 
         # Check against imported rules.
         matching_rules = []
-        qualified_name = ".".join(name.split(".")[-2:])  # get only the last part
         for rule in imported_rules:
-            if name == rule.name or qualified_name == rule.qualified_name:
+            # Rules may be imported by more than one import statement.
+            if any(rule is r for r in matching_rules):
+                continue
+            if name in (rule.name, rule.qualified_name):
                 matching_rules.append(rule)
 
         # Return the matching imported rule if there is only one.
-- 
2.43.0


From 9c2b971691ade0fb1fe9ad2b7a3aa2ffb5a2b35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 48/87] fix: stop dictation at any of the next literals, as
 whole words

---
 jsgf/ext/expansions.py | 171 +++++++++++++++++------------------------
 1 file changed, 69 insertions(+), 102 deletions(-)

diff --git a/jsgf/ext/expansions.py b/jsgf/ext/expansions.py
index 3c3ff15..fc4cc5b 100644
--- a/jsgf/ext/expansions.py
+++ b/jsgf/ext/expansions.py
@@ -16,6 +16,8 @@ from ..expansions import (
     Repeat,
     Sequence,
     TraversalOrder,
+    VoidRef,
+    _WordsElement,
     find_expansion,
 )
 
@@ -23,94 +25,69 @@ from ..expansions import (
 _word_regex_str = r"[\w\d?,\.\-_!;:']+"
 
 
-def _collect_from_leaves(e, backtrack):
-    result = []
-    look_further = True
-    for leaf in e.leaves:
-        if isinstance(leaf, Dictation):
-            # Add regex for a single dictation word.
-            result.append(_word_regex_str)
-        elif isinstance(leaf, Literal):
-            # Add first word of literal.
-            result.append(leaf.text.split()[0])
-        else:
-            # Skip references.
-            continue
-
-        # Break out of the loop if the leaf is required.
-        if not leaf.is_optional:
-            if not backtrack:
-                look_further = False
-            break
-    return result, look_further
-
-
-def _collect_next_literals(stack, i, look_further, backtrack):
+def _collect_first(e):
     """
-    Build a list of each next literal using a stack of expansions and their parents
-    as well as an index for which stack frame to use.
-
-    The stack has the following structure:
-    [(e, e.parent), (e.parent, e.parent.parent), ... (root.children[x], root)]
-    :param stack: list
-    :param i: int
-    :param look_further: bool
-    :param backtrack: bool
-    :returns: tuple of literals list and flags value
+    Collect the literals and dictation that an expansion can start with.
+
+    :param e: Expansion
+    :returns: tuple of literals list and whether the expansion can match nothing
     """
-    # Handle stop looking for literals or i being an invalid index.
-    if not look_further or i < 0 or i >= len(stack):
-        return [], look_further
+    if isinstance(e, Dictation) or (isinstance(e, Literal) and e.text.split()):
+        return [e], False
+    elif isinstance(e, VoidRef):
+        return [], False
+    elif isinstance(e, NamedRuleRef):
+        return _collect_first(e.referenced_rule.expansion)
 
-    # Get the current child and parent from the stack.
-    p1, p2 = stack[i]
     result = []
+    if isinstance(e, AlternativeSet):
+        optional = False
+        for c in e.children:
+            literals, child_optional = _collect_first(c)
+            result.extend(literals)
+            optional = optional or child_optional
+        return result, optional
+
+    # Collect from each child until a required one is found.
+    for c in e.children:
+        literals, child_optional = _collect_first(c)
+        result.extend(literals)
+        if not child_optional:
+            return result, isinstance(e, (OptionalGrouping, KleeneStar))
+    return result, True
+
+
+def _collect_next_literals(e):
+    """
+    Collect the literals and dictation that can come next after an expansion.
 
-    if isinstance(p2, Sequence):
-        # Get the index of p1 in p2.children using 'is'.
-        j = 0
-        for j, c in enumerate(p2.children):
-            if c is p1:
-                break
-
-        # Collect the first word of each literal until a required one is found.
-        # This won't collect the same repeating dictation from backtracking.
-        child_slice = p2.children[:j] if backtrack else p2.children[j + 1:]
-        for c in child_slice:
-            leaves, look_further = _collect_from_leaves(c, backtrack)
-            result.extend(leaves)
-
-            # Stop if a required literal has been collected.
-            if not look_further:
-                break
-
-    elif isinstance(p2, Repeat):
-        # If we get to a repeat, it means that there were no required literals below
-        # it *after* the dictation expansion. Backtrack to search before it instead.
-        next_stack_result = _collect_next_literals(stack, i - 1, look_further, True)
-        result.extend(next_stack_result[0])
-        look_further = look_further or next_stack_result[1]
-
-    elif isinstance(p2, AlternativeSet) and backtrack:
-        # Handle backtracking through repeating alternatives. Non-repeating
-        # alternative sets in the stack won't have next literals.
-        for c in p2.children:
-            # Collect the next literals from each alternative; any of them could be
-            # matched after dictation.
-            leaves, look_further = _collect_from_leaves(c, backtrack)
-            result.extend(leaves)
-
-    # Go to the next logical stack frame.
-    if backtrack:
-        next_stack_result = _collect_next_literals(stack, i - 1, look_further,
-                                                   backtrack)
-    else:
-        next_stack_result = _collect_next_literals(stack, i + 1, look_further,
-                                                   backtrack)
-
-    result.extend(next_stack_result[0])
-    look_further = look_further or next_stack_result[1]
-    return result, look_further
+    :param e: Expansion
+    :returns: list
+    """
+    result = []
+    child, parent = e, e.parent
+    while parent:
+        if isinstance(parent, Sequence):
+            # Collect from the children after this one until a required one is found.
+            # Find the child using 'is'.
+            child_reached = False
+            for c in parent.children:
+                if c is child:
+                    child_reached = True
+                elif child_reached:
+                    literals, optional = _collect_first(c)
+                    result.extend(literals)
+                    if not optional:
+                        return result
+
+        elif isinstance(parent, Repeat):
+            # Collect what the next repetition can start with, but don't collect the
+            # same repeating dictation.
+            result.extend([x for x in _collect_first(parent.child)[0] if x is not e])
+
+        # Move further up the tree.
+        child, parent = parent, parent.parent
+    return result
 
 
 class Dictation(Literal):
@@ -206,34 +183,24 @@ class Dictation(Literal):
             # Set the parse action and return the element.
             return result.setParseAction(self._parse_action)
 
-        # Otherwise build a list of next possible literals. Make the required stack
-        # of child-parent pairs.
-        stack = []
-        p1, p2 = self, self.parent
-        while p1 and p2:
-            stack.append((p1, p2))
-
-            # Move both pivots further up the tree.
-            p1 = p1.parent
-            p2 = p2.parent
-
-        # Build a list of next literals using the stack.
-        next_literals, _ = _collect_next_literals(stack, 0, True, False)
-
-        # De-duplicate the list.
-        next_literals = set(next_literals)
+        # Otherwise build a list of next possible literals.
+        next_literals = _collect_next_literals(self)
 
         word = pyparsing.Regex(_word_regex_str, re.UNICODE)
         if next_literals:
             # Check if there is a next dictation literal. If there is, only match
             # one word for this expansion.
-            if _word_regex_str in next_literals:
+            if any(isinstance(e, Dictation) for e in next_literals):
                 result = word
 
             # Otherwise build an element to match one or more words stopping on
-            # any of the next literals so that they aren't matched as dictation.
+            # the first word of any of the next literals so that they aren't matched
+            # as dictation.
             else:
-                next_literals = list(map(pyparsing.Literal, next_literals))
+                next_literals = [
+                    _WordsElement(e.text.split()[0], e.case_sensitive)
+                    for e in next_literals
+                ]
                 result = pyparsing.OneOrMore(
                     word, stopOn=pyparsing.Or(next_literals)
                 )
-- 
2.43.0


From f469491e3c5d370a0bd68ebbf02887669a61c300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:45 +0000
Subject: [PATCH 49/87] fix: match dictation according to joined trees,
 whatever was matched before

---
 jsgf/expansions.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index a7c66d4..0cba7ed 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -355,7 +355,7 @@ class JointTreeContext(object):
         if isinstance(x, NamedRuleRef):
             # Set the parent of the referenced rule's root expansion to this
             # expansion.
-            x.referenced_rule.expansion.parent = x
+            JointTreeContext._set_parent(x.referenced_rule.expansion, x)
 
     @staticmethod
     def detach_tree(x):
@@ -367,7 +367,14 @@ class JointTreeContext(object):
         """
         if isinstance(x, NamedRuleRef):
             # Reset parent
-            x.referenced_rule.expansion.parent = None
+            JointTreeContext._set_parent(x.referenced_rule.expansion, None)
+
+    @staticmethod
+    def _set_parent(e, parent):
+        e.parent = parent
+
+        # How expansions are matched can depend on the whole tree, e.g. dictation.
+        map_expansion(e, lambda x: x.invalidate_matcher(), shallow=True)
 
     def __enter__(self):
         map_expansion(self._root, self.join_tree, TraversalOrder.PostOrder)
-- 
2.43.0


From 6bcd2ba82d12cd7c27d67bd3c5ec1301e2bb65ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:05 +0000
Subject: [PATCH 50/87] fix: expand equal alternatives with dictation

expand_dictation_expansion raised an AttributeError if two of the expanded
expansions were equal.
---
 jsgf/ext/expansions.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/jsgf/ext/expansions.py b/jsgf/ext/expansions.py
index fc4cc5b..a77a84f 100644
--- a/jsgf/ext/expansions.py
+++ b/jsgf/ext/expansions.py
@@ -409,15 +409,11 @@ def expand_dictation_expansion(expansion):
             copies.append(copy)
 
         for copy in copies:
-            next_unprocessed = first_unprocessed_expansion(copy)
-            if not next_unprocessed and copy not in result:
-                result.append(copy)
-            else:
-                # Process the next unprocessed expansion and add the results.
-                # There are duplicates sometimes, so don't add them.
-                for r in process(next_unprocessed):
-                    if r not in result:
-                        result.append(r)
+            # Process the next unprocessed expansion, if there is one, and add the
+            # results. There are duplicates sometimes, so don't add them.
+            for r in process(copy):
+                if r not in result:
+                    result.append(r)
 
         return result
 
-- 
2.43.0


From 19b0d25dc7171090724e794c58b8fe5bcfbe85de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:25 +0000
Subject: [PATCH 51/87] fix: expand alternatives that can be skipped

The expansions of e.g. 'a (b | [<DICTATION>])' didn't match 'a'.
---
 jsgf/ext/expansions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsgf/ext/expansions.py b/jsgf/ext/expansions.py
index a77a84f..bc9153b 100644
--- a/jsgf/ext/expansions.py
+++ b/jsgf/ext/expansions.py
@@ -371,9 +371,11 @@ def expand_dictation_expansion(expansion):
             ancestor = copy_parent
 
             # Traverse up the parent tree and remove copy_x or one of its ancestors
-            # where there is another child
+            # where there is another child. If an alternative matches nothing, then
+            # the whole set does, even if there are other alternatives.
             while ancestor:
-                if len(ancestor.children) > 1:
+                if (len(ancestor.children) > 1 and
+                        not isinstance(ancestor, AlternativeSet)):
                     ancestor.children.remove(copy_x)
                     break
 
-- 
2.43.0


From cac9b82351c1bb92a97292a312b5d4723295cb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:18 +0000
Subject: [PATCH 52/87] fix: expand references to rules with dictation

If the expansion of a referenced rule needed processing, then
expand_dictation_expansion returned only the expansions of that rule.
---
 jsgf/ext/expansions.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/jsgf/ext/expansions.py b/jsgf/ext/expansions.py
index bc9153b..3a23017 100644
--- a/jsgf/ext/expansions.py
+++ b/jsgf/ext/expansions.py
@@ -315,7 +315,10 @@ def expand_dictation_expansion(expansion):
         :returns: Expansion | None
         """
         if isinstance(e, NamedRuleRef):
-            return first_unprocessed_expansion(e.referenced_rule.expansion)
+            # Return the reference itself because the referenced rule's expansion
+            # is not part of this tree.
+            if first_unprocessed_expansion(e.referenced_rule.expansion):
+                return e
         else:
             # Traverse in post order, i.e. children first, then e.
             for child in e.children:
@@ -393,6 +396,10 @@ def expand_dictation_expansion(expansion):
                 replacements = [current.child.copy()]
             else:
                 replacements = [Repeat(current.child.copy())]
+        elif isinstance(current, NamedRuleRef):
+            # Replace the reference with a copy of what it refers to, which will be
+            # processed next.
+            replacements = [current.referenced_rule.expansion.copy()]
         else:
             replacements = []
 
-- 
2.43.0


From d6f41fb1070e311ce3b859c0ae9e7f747de4bdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:21 +0000
Subject: [PATCH 53/87] fix: don't change referenced rules when calculating
 sequences

calculate_expansion_sequence took referenced rules with dictation apart.
---
 jsgf/ext/expansions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsgf/ext/expansions.py b/jsgf/ext/expansions.py
index 3a23017..55e88b2 100644
--- a/jsgf/ext/expansions.py
+++ b/jsgf/ext/expansions.py
@@ -483,7 +483,10 @@ def calculate_expansion_sequence(expansion, should_deepcopy=True):
         elif len(e.children) == 0:
             if (isinstance(e, NamedRuleRef) and
                     dictation_in_expansion(e.referenced_rule.expansion)):
-                result.extend(calculate_sequence(e.referenced_rule.expansion))
+                # Use a copy so that the referenced rule isn't changed.
+                result.extend(calculate_sequence(
+                    e.referenced_rule.expansion.copy()
+                ))
             else:
                 result.append(e)
         else:
-- 
2.43.0


From 496b04113c4e79a2ca34c6ecca8afe8bbecaed95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:20 +0000
Subject: [PATCH 54/87] fix: keep weights when expanding alternatives with
 dictation

expand_dictation_expansion lost the weights of alternatives, so alternatives with
a weight of zero could be matched, and raised AttributeErrors or returned sets that
are only partially weighted.
---
 jsgf/ext/expansions.py | 61 +++++++++++++++++++++++++++++++-----------
 1 file changed, 46 insertions(+), 15 deletions(-)

diff --git a/jsgf/ext/expansions.py b/jsgf/ext/expansions.py
index 55e88b2..0b68ad7 100644
--- a/jsgf/ext/expansions.py
+++ b/jsgf/ext/expansions.py
@@ -328,8 +328,34 @@ def expand_dictation_expansion(expansion):
             if is_unprocessed(e):
                 return e
 
-    def find_goal(e, goal):
-        return find_expansion(e, lambda x: x == goal)
+    def copy_tree(e):
+        """
+        Copy the whole tree of an expansion.
+
+        :param e: Expansion
+        :returns: tuple of the root expansion's copy and the copy of e
+        """
+        # Find the copy using 'is' because there can be equal expansions.
+        indices = []
+        root = e
+        while root.parent:
+            indices.append([c is root for c in root.parent.children].index(True))
+            root = root.parent
+        copy = copy_e = root.copy()
+        for i in reversed(indices):
+            copy_e = copy_e.children[i]
+        return copy, copy_e
+
+    def replace_child(e, replacement):
+        # Replace an expansion in its tree, keeping its weight if it has one.
+        parent = e.parent
+        weight = None
+        if isinstance(parent, AlternativeSet):
+            weight = parent._get_weight(e)
+        index = [c is e for c in parent.children].index(True)
+        parent.children[index] = replacement
+        if weight is not None:
+            parent.set_weight(index, weight)
 
     def process(e):
         """
@@ -351,27 +377,35 @@ def expand_dictation_expansion(expansion):
             # the AlternativeSet currently being processed.
             dictation_children = []  # again, not necessarily only dictation.
             jsgf_only_children = []
+            jsgf_only_weights = []
             for child in current.children:
+                # Skip alternatives that can never be matched.
+                if current._get_weight(child) == 0:
+                    continue
+
                 # Add a deep copy of each child to one of the above lists.
                 if dictation_in_expansion(child):
                     dictation_children.append(child.copy())
                 else:
                     jsgf_only_children.append(child.copy())
+                    jsgf_only_weights.append(current._get_weight(child))
 
             if len(jsgf_only_children) == 1:
                 replacements = jsgf_only_children
             elif len(jsgf_only_children) > 1:
-                replacements = [AlternativeSet(*jsgf_only_children)]
+                alt_set = AlternativeSet(*jsgf_only_children)
+                for child, weight in zip(jsgf_only_children, jsgf_only_weights):
+                    if weight is not None:
+                        alt_set.set_weight(child, weight)
+                replacements = [alt_set]
             else:  # no JSGF children
                 replacements = []
             replacements.extend(dictation_children)
 
         elif isinstance(current, (OptionalGrouping, KleeneStar)):
             # Handle not required - remove from a copy
-            copy = current.root_expansion.copy()
-            copy_x = find_goal(copy, current)
-            copy_parent = copy_x.parent
-            ancestor = copy_parent
+            copy, copy_x = copy_tree(current)
+            ancestor = copy_x.parent
 
             # Traverse up the parent tree and remove copy_x or one of its ancestors
             # where there is another child. If an alternative matches nothing, then
@@ -379,7 +413,8 @@ def expand_dictation_expansion(expansion):
             while ancestor:
                 if (len(ancestor.children) > 1 and
                         not isinstance(ancestor, AlternativeSet)):
-                    ancestor.children.remove(copy_x)
+                    index = [c is copy_x for c in ancestor.children].index(True)
+                    ancestor.children.pop(index)
                     break
 
                 copy_x = ancestor
@@ -405,13 +440,9 @@ def expand_dictation_expansion(expansion):
 
         for replacement in replacements:
             # Find the copy of the current expansion being processed
-            copy = current.root_expansion.copy()
-            copy_x = find_goal(copy, current)
-            copy_parent = copy_x.parent
-            if copy_parent:
-                index = copy_parent.children.index(copy_x)
-                copy_parent.children.remove(copy_x)
-                copy_parent.children.insert(index, replacement)
+            copy, copy_x = copy_tree(current)
+            if copy_x.parent:
+                replace_child(copy_x, replacement)
             else:
                 # copy is the root expansion.
                 copy = replacement
-- 
2.43.0


From 26bb892226d85ace22a93a2479e10e08272f839e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:24 +0000
Subject: [PATCH 55/87] fix: keep weights and tags when calculating sequences

calculate_expansion_sequence took dictation-free expansions apart too and lost
their weights, so alternatives with a weight of zero could be matched, and tags.
---
 jsgf/ext/expansions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsgf/ext/expansions.py b/jsgf/ext/expansions.py
index 0b68ad7..8079a45 100644
--- a/jsgf/ext/expansions.py
+++ b/jsgf/ext/expansions.py
@@ -498,7 +498,11 @@ def calculate_expansion_sequence(expansion, should_deepcopy=True):
         :returns: list
         """
         result = []
-        if isinstance(e, Dictation):
+        if no_dictation_in_expansion(e):
+            # Keep dictation-free expansions as they are.
+            result.append(e)
+
+        elif isinstance(e, Dictation):
             # Manipulate the result by turning this expansion into its entire
             # parent chain so that it becomes a top level expansion in the sequence
             # with all relevant information denoted by the expansions wrapping it
-- 
2.43.0


From 514ce1d83a4c11ac45f81e2e3447a88873392410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:41 +0000
Subject: [PATCH 56/87] fix: don't skip alternatives that can never be matched

Optional alternatives with a weight of zero could be left out of expanded
expansions.
---
 jsgf/ext/expansions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/jsgf/ext/expansions.py b/jsgf/ext/expansions.py
index 8079a45..ec5ffc0 100644
--- a/jsgf/ext/expansions.py
+++ b/jsgf/ext/expansions.py
@@ -411,8 +411,12 @@ def expand_dictation_expansion(expansion):
             # where there is another child. If an alternative matches nothing, then
             # the whole set does, even if there are other alternatives.
             while ancestor:
-                if (len(ancestor.children) > 1 and
-                        not isinstance(ancestor, AlternativeSet)):
+                if isinstance(ancestor, AlternativeSet):
+                    if ancestor._get_weight(copy_x) == 0:
+                        # The alternative can never be matched.
+                        ancestor = None
+                        break
+                elif len(ancestor.children) > 1:
                     index = [c is copy_x for c in ancestor.children].index(True)
                     ancestor.children.pop(index)
                     break
-- 
2.43.0


From a2aadfc71828e7c979a7ef2231a0d60c17f9b8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 57/87] fix: match current matches of dictation as whole words

Dictation with use_current_match set had no matching slices and matched the start
of longer words.
---
 jsgf/ext/expansions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsgf/ext/expansions.py b/jsgf/ext/expansions.py
index ec5ffc0..a3feae5 100644
--- a/jsgf/ext/expansions.py
+++ b/jsgf/ext/expansions.py
@@ -178,10 +178,10 @@ class Dictation(Literal):
             elif current_match == "":
                 result = pyparsing.Empty()
             else:
-                result = pyparsing.Literal(self.current_match)
+                # Match whole words.
+                result = _WordsElement(current_match, True)
 
-            # Set the parse action and return the element.
-            return result.setParseAction(self._parse_action)
+            return self._set_matcher_element_attributes(result)
 
         # Otherwise build a list of next possible literals.
         next_literals = _collect_next_literals(self)
-- 
2.43.0


From 84e2a457e86e19b648770ffcd5ae058942809abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:23 +0000
Subject: [PATCH 58/87] fix: don't keep data of previous matches when grafting
 sequence matches

---
 jsgf/ext/rules.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jsgf/ext/rules.py b/jsgf/ext/rules.py
index d768af3..b0ded4b 100644
--- a/jsgf/ext/rules.py
+++ b/jsgf/ext/rules.py
@@ -263,6 +263,9 @@ class SequenceRule(Rule):
             dictation_in_seq.extend(filter_expansion(
                 e, is_dictation, TraversalOrder.PostOrder))
 
+        # Don't keep data from previous matches.
+        expansion.reset_for_new_match()
+
         # Set current_match of Dictation expansions in the given expansion to
         # current_match values of their respective counterparts in the sequence.
         for e1, e2 in zip(dictation_in_seq, dictation_in_exp):
@@ -281,7 +284,9 @@ class SequenceRule(Rule):
                 matching.append(e)
 
         # Now match on expansion using the matches for the sequence.
-        expansion.matches(" ".join([e.current_match for e in matching]))
+        if expansion.matches(" ".join([e.current_match for e in matching])):
+            # Don't keep match data if the expansion didn't match completely.
+            expansion.reset_for_new_match()
 
 
 class PublicSequenceRule(SequenceRule):
-- 
2.43.0


From efd57e16190f279a4ce056a18a616ecd3a33c28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:28 +0000
Subject: [PATCH 59/87] fix: set case sensitivity for entire sequence rules

Setting case_sensitive on a SequenceRule only changed the current expansion of the
sequence.
---
 jsgf/ext/rules.py | 10 ++++++++++
 jsgf/rules.py     |  7 ++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/jsgf/ext/rules.py b/jsgf/ext/rules.py
index b0ded4b..6e23b84 100644
--- a/jsgf/ext/rules.py
+++ b/jsgf/ext/rules.py
@@ -16,6 +16,8 @@ class SequenceRule(Rule):
     that must be spoken in a sequence.
     """
     def __init__(self, name, visible, expansion, case_sensitive=False):
+        self._original_expansion = None
+        self._sequence = ()
         super(SequenceRule, self).__init__(name, visible, expansion, case_sensitive)
 
         # Keep the original expansion and use a copy of it for the sequence
@@ -110,6 +112,14 @@ class SequenceRule(Rule):
             if result:
                 return result
 
+    def _get_expansions(self):
+        # Include the other expansions in the sequence and the original expansion.
+        result = [self.expansion]
+        for e in self._sequence + (self._original_expansion,):
+            if e is not None and e is not self.expansion:
+                result.append(e)
+        return result
+
     def compile(self, ignore_tags=False):
         result = ""
         if not self.refuse_matches and not self.current_is_dictation_only:
diff --git a/jsgf/rules.py b/jsgf/rules.py
index 6bbc756..a266c31 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -210,7 +210,12 @@ class Rule(references.BaseRef):
 
         # Recursively operate on the rule expansion tree. Do *not* operate on
         # referenced rules directly.
-        map_expansion(self.expansion, func, shallow=True)
+        for expansion in self._get_expansions():
+            map_expansion(expansion, func, shallow=True)
+
+    def _get_expansions(self):
+        # Get each expansion tree used by this rule.
+        return [self.expansion]
 
     def enable(self):
         """
-- 
2.43.0


From 37a76b586898195e9ed631698f7d5a8e3f37d416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:08 +0000
Subject: [PATCH 60/87] fix: don't keep grafted dictation if the expansion
 doesn't match

---
 jsgf/ext/rules.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsgf/ext/rules.py b/jsgf/ext/rules.py
index 6e23b84..2384fa4 100644
--- a/jsgf/ext/rules.py
+++ b/jsgf/ext/rules.py
@@ -294,7 +294,9 @@ class SequenceRule(Rule):
                 matching.append(e)
 
         # Now match on expansion using the matches for the sequence.
-        if expansion.matches(" ".join([e.current_match for e in matching])):
+        remainder = expansion.matches(" ".join([e.current_match for e in matching]))
+        if remainder != "" or (not expansion.current_match and
+                               expansion.matching_slice is None):
             # Don't keep match data if the expansion didn't match completely.
             expansion.reset_for_new_match()
 
-- 
2.43.0


From b02780f556b6d81aaa2dec1e75aa35894b523732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:23 +0000
Subject: [PATCH 61/87] fix: find the original rules of modified rules in
 dictation grammars

---
 jsgf/ext/grammars.py | 45 +++++++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index b471d07..f5f41df 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -23,7 +23,7 @@ class DictationGrammar(Grammar):
         """
         super(DictationGrammar, self).__init__(name, case_sensitive=case_sensitive)
         self._dictation_rules = []
-        self._original_rule_map = {}
+        self._original_rules = []
         self._init_jsgf_only_grammar()
 
         if rules:
@@ -48,10 +48,15 @@ class DictationGrammar(Grammar):
 
         :returns: list
         """
-        return list(set(
-                self._dictation_rules + self._jsgf_only_grammar.match_rules +
-                list(self._original_rule_map.values())
-        ))
+        # Rules can be modified, so don't rely on their hashes.
+        result = []
+        for generated, original in self._original_rules:
+            if not any(r is original for r in result):
+                result.append(original)
+        for generated, original in self._original_rules:
+            if generated is not original:
+                result.append(generated)
+        return result
 
     @property
     def match_rules(self):
@@ -85,7 +90,7 @@ class DictationGrammar(Grammar):
         # the original rule map.
         if not dictation_in_expansion(rule.expansion):
             self._jsgf_only_grammar.add_rule(rule)
-            self._original_rule_map[rule] = rule
+            self._original_rules.append((rule, rule))
             return
 
         # Check if the rule is a SequenceRule already and do a few things with it.
@@ -96,7 +101,7 @@ class DictationGrammar(Grammar):
                 self._jsgf_only_grammar.add_rule(rule)
             else:
                 self._dictation_rules.append(rule)
-            self._original_rule_map[rule] = rule
+            self._original_rules.append((rule, rule))
             return
 
         # Expand the rule's expansion into a list of 1 or more expansions.
@@ -118,10 +123,10 @@ class DictationGrammar(Grammar):
 
                 # Keep track of the relationship between the original rule and its
                 # expanded rules
-                self._original_rule_map[r] = rule
+                self._original_rules.append((r, rule))
             else:
                 seq_rule = SequenceRule(new_name, rule.visible, x)
-                self._original_rule_map[seq_rule] = rule
+                self._original_rules.append((seq_rule, rule))
 
                 if not seq_rule.current_is_dictation_only:
                     # The sequence starts with a JSGF only rule and can be
@@ -137,7 +142,16 @@ class DictationGrammar(Grammar):
         :param rule: Rule
         :returns: Rule
         """
-        return self._original_rule_map[rule]
+        for generated, original in self._original_rules:
+            if generated is rule:
+                return original
+
+        # The rule might only be comparable to a generated rule.
+        for generated, original in self._original_rules:
+            if generated == rule:
+                return original
+
+        raise KeyError(rule)
 
     def get_generated_rules(self, rule):
         """
@@ -146,9 +160,9 @@ class DictationGrammar(Grammar):
         :param rule: Rule
         :returns: generator
         """
-        for k, v in list(self._original_rule_map.items()):
-            if v is rule:
-                yield k
+        for generated, original in list(self._original_rules):
+            if original is rule:
+                yield generated
 
     def remove_rule(self, rule, ignore_dependent=False):
         # Find the rules generated from this rule and remove them wherever they are
@@ -158,9 +172,10 @@ class DictationGrammar(Grammar):
         else:
             rule_name = rule.name
 
-        for k, v in list(self._original_rule_map.items()):
+        for pair in list(self._original_rules):
+            k, v = pair
             if v.name == rule_name:
-                self._original_rule_map.pop(k)
+                self._original_rules.remove(pair)
 
                 if k in self._dictation_rules:
                     self._dictation_rules.remove(k)
-- 
2.43.0


From f6bd6c9995cd365821bd09cac486894009dd9275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 62/87] fix: remove rules from dictation grammars completely or
 not at all

---
 jsgf/ext/grammars.py | 45 ++++++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index f5f41df..660947e 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -165,23 +165,36 @@ class DictationGrammar(Grammar):
                 yield generated
 
     def remove_rule(self, rule, ignore_dependent=False):
+        # Get the original rule. The given rule might only be comparable to it or be
+        # the only rule generated from it.
+        original = None
+        rule_name = rule.name if isinstance(rule, Rule) else rule
+        for _, r in self._original_rules:
+            if r.name == rule_name:
+                original = r
+                break
+
+        if original is None or isinstance(rule, Rule) and rule not in self.rules:
+            raise GrammarError("'%s' is not a rule in Grammar '%s'" % (rule, self))
+
+        # Check if any other rule added to this grammar references this rule.
+        if not ignore_dependent:
+            for _, r in self._original_rules:
+                if r is not original and original in r.dependencies:
+                    raise GrammarError("Cannot remove rule '%s' as it is referenced "
+                                       "by another rule." % original)
+
         # Find the rules generated from this rule and remove them wherever they are
-        # as well as the original rule
-        if isinstance(rule, string_types):
-            rule_name = rule
-        else:
-            rule_name = rule.name
-
-        for pair in list(self._original_rules):
-            k, v = pair
-            if v.name == rule_name:
-                self._original_rules.remove(pair)
-
-                if k in self._dictation_rules:
-                    self._dictation_rules.remove(k)
-
-                elif k in self._jsgf_only_grammar.match_rules:
-                    self._jsgf_only_grammar.remove_rule(k, ignore_dependent)
+        # as well as the original rule.
+        generated = list(self.get_generated_rules(original))
+        self._original_rules = [(k, v) for k, v in self._original_rules
+                                if v is not original]
+        for k in generated:
+            if any(k is r for r in self._jsgf_only_grammar.rules):
+                self._jsgf_only_grammar.remove_rule(k, True)
+            else:
+                self._dictation_rules = [r for r in self._dictation_rules
+                                         if r is not k]
 
     def _compile(self, compile_as_root_grammar):
         """
-- 
2.43.0


From f4b3869e763de650b79dc9c0eacfd97cb53a41f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:43 +0000
Subject: [PATCH 63/87] fix: include the rules referenced by any part of
 sequence rules in dependencies

---
 jsgf/ext/rules.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/jsgf/ext/rules.py b/jsgf/ext/rules.py
index 2384fa4..2f52306 100644
--- a/jsgf/ext/rules.py
+++ b/jsgf/ext/rules.py
@@ -3,7 +3,7 @@ This module contains extension rule classes.
 """
 
 from ..errors import GrammarError
-from ..expansions import Repeat, TraversalOrder, filter_expansion
+from ..expansions import NamedRuleRef, Repeat, TraversalOrder, filter_expansion
 from ..rules import Rule
 
 from .expansions import (expand_dictation_expansion, calculate_expansion_sequence,
@@ -246,6 +246,19 @@ class SequenceRule(Rule):
         # Return a set containing the tags of each tagged expansion.
         return set(map(lambda e: e.tag, tagged_expansions))
 
+    @property
+    def dependencies(self):
+        """
+        The set of rules which this rule directly and indirectly references.
+
+        :returns: set
+        """
+        return set(map(
+            lambda x: x.referenced_rule,
+            filter_expansion(self.original_expansion,
+                             lambda x: isinstance(x, NamedRuleRef))
+        ))
+
     @property
     def original_expansion(self):
         return self._original_expansion
-- 
2.43.0


From 6c4b79f645548be4b413cd187cf9019c1f11ecc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:45 +0000
Subject: [PATCH 64/87] fix: compile dictation grammars with their names,
 header values and imports

---
 jsgf/ext/grammars.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index 660947e..fdefa81 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -26,6 +26,10 @@ class DictationGrammar(Grammar):
         self._original_rules = []
         self._init_jsgf_only_grammar()
 
+        # Use the same imports for the internal grammar.
+        self._jsgf_only_grammar._imports = self._imports
+        self._jsgf_only_grammar._import_env = self._import_env
+
         if rules:
             self.add_rules(*rules)
 
@@ -205,6 +209,13 @@ class DictationGrammar(Grammar):
         """
         self.rearrange_rules()
 
+        # Use this grammar's name and header values.
+        grammar = self._jsgf_only_grammar
+        grammar.name = self.name
+        grammar.jsgf_version = self.jsgf_version
+        grammar.charset_name = self.charset_name
+        grammar.language_name = self.language_name
+
         try:
             # Compile the grammar
             if compile_as_root_grammar:
-- 
2.43.0


From 57f7e91f5654694576d6b9bedd564663983f0cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:51 +0000
Subject: [PATCH 65/87] fix: don't add rules with names of rules in dictation
 grammars

---
 jsgf/ext/grammars.py | 81 ++++++++++++++++++++------------------------
 1 file changed, 36 insertions(+), 45 deletions(-)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index fdefa81..750a5d6 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -90,54 +90,45 @@ class DictationGrammar(Grammar):
                 raise GrammarError("JSGF grammars cannot have multiple rules with "
                                    "the same name")
 
-        # If the rule is not a dictation rule, add it to the JSGF only grammar and
-        # the original rule map.
-        if not dictation_in_expansion(rule.expansion):
-            self._jsgf_only_grammar.add_rule(rule)
-            self._original_rules.append((rule, rule))
-            return
-
-        # Check if the rule is a SequenceRule already and do a few things with it.
-        if isinstance(rule, SequenceRule):
-            if not rule.current_is_dictation_only:
-                # The sequence starts with a JSGF only rule and can be
-                # spoken like a normal rule
-                self._jsgf_only_grammar.add_rule(rule)
-            else:
-                self._dictation_rules.append(rule)
-            self._original_rules.append((rule, rule))
-            return
-
-        # Expand the rule's expansion into a list of 1 or more expansions.
-        expanded = expand_dictation_expansion(rule.expansion)
-
-        # Otherwise create new rules from the resulting expansions and add each to
-        # either dictation_rules or _jsgf_only_grammar
-        for i, x in enumerate(expanded):
-            if len(expanded) == 1:
-                # No need to use different names in this case
-                new_name = rule.name
-            else:
-                new_name = "%s_%d" % (rule.name, i)
-            if not dictation_in_expansion(x):
-                r = Rule(new_name, rule.visible, x)
+        # If the rule is not a dictation rule or if it is a SequenceRule already, then
+        # add the rule itself.
+        generated = []
+        if (not dictation_in_expansion(rule.expansion) or
+                isinstance(rule, SequenceRule)):
+            generated.append(rule)
+
+        # Otherwise expand the rule's expansion into a list of 1 or more expansions
+        # and create new rules from them.
+        else:
+            expanded = expand_dictation_expansion(rule.expansion)
+            for i, x in enumerate(expanded):
+                if len(expanded) == 1:
+                    # No need to use different names in this case
+                    new_name = rule.name
+                else:
+                    new_name = "%s_%d" % (rule.name, i)
+                if dictation_in_expansion(x):
+                    generated.append(SequenceRule(new_name, rule.visible, x))
+                else:
+                    generated.append(Rule(new_name, rule.visible, x))
 
-                # Add this rule to the JSGF only grammar
-                self._jsgf_only_grammar.add_rule(r)
+        # Check that the names of the new rules aren't taken before adding them.
+        taken_names = self.rule_names
+        for r in generated:
+            if r.name in taken_names:
+                raise GrammarError("JSGF grammars cannot have multiple rules with "
+                                   "the same name")
 
-                # Keep track of the relationship between the original rule and its
-                # expanded rules
-                self._original_rules.append((r, rule))
-            else:
-                seq_rule = SequenceRule(new_name, rule.visible, x)
-                self._original_rules.append((seq_rule, rule))
+        for r in generated:
+            # Keep track of the relationship between the original rule and its
+            # expanded rules
+            self._original_rules.append((r, rule))
 
-                if not seq_rule.current_is_dictation_only:
-                    # The sequence starts with a JSGF only rule and can be
-                    # spoken like a normal rule
-                    self._jsgf_only_grammar.add_rule(seq_rule)
-                else:
-                    self._dictation_rules.append(seq_rule)
+            # Add rules to the JSGF only grammar, unless they start with dictation.
+            if isinstance(r, SequenceRule) and r.current_is_dictation_only:
+                self._dictation_rules.append(r)
+            else:
+                self._jsgf_only_grammar.add_rule(r)
 
     def get_original_rule(self, rule):
         """
-- 
2.43.0


From 52f6a92c1dd6d97ced512a03507a51b689bc4059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:53 +0000
Subject: [PATCH 66/87] fix: set case sensitivity of all rules in dictation
 grammars

---
 jsgf/ext/grammars.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index 750a5d6..aeb1fdb 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -43,6 +43,26 @@ class DictationGrammar(Grammar):
         self._jsgf_only_grammar = Grammar(name=self.name,
                                           case_sensitive=self.case_sensitive)
 
+    @property
+    def case_sensitive(self):
+        """
+        Case sensitivity used when matching and compiling :class:`Literal` rule
+        expansions.
+
+        Setting this property will override the ``case_sensitive`` values for each
+        :class:`Rule` and :class:`Literal` expansion in the grammar or in any newly
+        added grammar rules.
+
+        :rtype: bool
+        :returns: case sensitivity
+        """
+        return self._case_sensitive
+
+    @case_sensitive.setter
+    def case_sensitive(self, value):
+        Grammar.case_sensitive.fset(self, value)
+        self._jsgf_only_grammar.case_sensitive = value
+
     @property
     def rules(self):
         """
@@ -119,6 +139,9 @@ class DictationGrammar(Grammar):
                 raise GrammarError("JSGF grammars cannot have multiple rules with "
                                    "the same name")
 
+        for r in [rule] + generated:
+            r.case_sensitive = self.case_sensitive
+
         for r in generated:
             # Keep track of the relationship between the original rule and its
             # expanded rules
-- 
2.43.0


From 6bb785f371a47a3654d4776207ae91d324172e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:55 +0000
Subject: [PATCH 67/87] fix: enable and disable rules generated by dictation
 grammars

---
 jsgf/ext/grammars.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index aeb1fdb..bcaca0a 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -141,6 +141,8 @@ class DictationGrammar(Grammar):
 
         for r in [rule] + generated:
             r.case_sensitive = self.case_sensitive
+            if not rule.active:
+                r.disable()
 
         for r in generated:
             # Keep track of the relationship between the original rule and its
@@ -214,6 +216,33 @@ class DictationGrammar(Grammar):
                 self._dictation_rules = [r for r in self._dictation_rules
                                          if r is not k]
 
+    def _get_rules_and_generated(self, rule):
+        """
+        Internal method to get the rules with a name or with the name of a rule,
+        including rules generated from them.
+
+        :param rule: Rule | str
+        :returns: list
+        """
+        name = rule.name if isinstance(rule, Rule) else rule
+        result = [r for r in self.rules if r.name == name]
+        for generated, original in self._original_rules:
+            if original.name == name:
+                result.append(generated)
+        return result
+
+    def enable_rule(self, rule):
+        # Enable any rules generated from this rule too.
+        super(DictationGrammar, self).enable_rule(rule)
+        for r in self._get_rules_and_generated(rule):
+            r.enable()
+
+    def disable_rule(self, rule):
+        # Disable any rules generated from this rule too.
+        super(DictationGrammar, self).disable_rule(rule)
+        for r in self._get_rules_and_generated(rule):
+            r.disable()
+
     def _compile(self, compile_as_root_grammar):
         """
         Internal method to compile the grammar.
-- 
2.43.0


From 69d86100a9eda1f6f27e44387dd6c0f114d682a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:56 +0000
Subject: [PATCH 68/87] fix: keep matches of sequence rules added to dictation
 grammars

---
 jsgf/ext/grammars.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index bcaca0a..92043f8 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -337,7 +337,9 @@ class DictationGrammar(Grammar):
         for rule in result:
             original = self.get_original_rule(rule)
             if isinstance(rule, SequenceRule):
-                SequenceRule.graft_sequence_matches(rule, original.expansion)
+                # SequenceRules set matches for their original expansions.
+                if original is not rule:
+                    SequenceRule.graft_sequence_matches(rule, original.expansion)
 
                 # Progress to the next expansion if required
                 if rule.has_next_expansion and advance_sequence_rules:
-- 
2.43.0


From b7f22ba5940c4cd25f2bad6ce8633bb1fbb9728e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:57 +0000
Subject: [PATCH 69/87] fix: reset hidden sequence rules of dictation grammars

---
 jsgf/ext/grammars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index 92043f8..63b037a 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -310,7 +310,7 @@ class DictationGrammar(Grammar):
         Reset each ``SequenceRule`` in this grammar so that they can accept matches
         again.
         """
-        for r in self._jsgf_only_grammar.match_rules + self._dictation_rules:
+        for r in self._jsgf_only_grammar.rules + self._dictation_rules:
             if isinstance(r, SequenceRule):
                 r.restart_sequence()
 
-- 
2.43.0


From 7864acc3dfe71efa118df4a4de64be3f0f4f4d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:06 +0000
Subject: [PATCH 70/87] fix: let expansions match other dictation after
 grafting sequence matches

---
 jsgf/ext/rules.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsgf/ext/rules.py b/jsgf/ext/rules.py
index 2f52306..53e0bef 100644
--- a/jsgf/ext/rules.py
+++ b/jsgf/ext/rules.py
@@ -313,6 +313,10 @@ class SequenceRule(Rule):
             # Don't keep match data if the expansion didn't match completely.
             expansion.reset_for_new_match()
 
+        # Let the expansion match anything again afterwards.
+        for e in dictation_in_exp:
+            e.use_current_match = False
+
 
 class PublicSequenceRule(SequenceRule):
     """
-- 
2.43.0


From e6b5dda44aa1a31e807ae5b4b779189add664a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:34 +0000
Subject: [PATCH 71/87] fix: don't unset parents of children that were added to
 other lists

---
 jsgf/expansions.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 0cba7ed..03f0608 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -452,7 +452,15 @@ class ChildList(object):
         Set each child's parent to None.
         """
         for c in self:
-            c.parent = None
+            self._orphan(c)
+
+    def _orphan(self, e):
+        # Expansions might have been added to other lists since they were added to
+        # this one, so only unset the parent attribute if it was set by this list.
+        if e.parent is self._expansion:
+            e.parent = None
+        else:
+            self._expansion.invalidate_matcher()
 
     def extend(self, iterable):
         # Make each item in the iterable into an Expansion.
@@ -480,13 +488,13 @@ class ChildList(object):
         # Pop item at the specified index (default -1), set its parent to None
         # and return it.
         e = self._list.pop(index)
-        e.parent = None
+        self._orphan(e)
         return e
 
     def remove(self, value):
         # Set the parent before removing the expansion.
         # 'value' is not necessarily in the list, so we can't use that.
-        self._list[self._list.index(value)].parent = None
+        self._orphan(self._list[self._list.index(value)])
         self._list.remove(value)
 
     def __setslice__(self, i, j, sequence):
@@ -501,10 +509,7 @@ class ChildList(object):
         sequence = [Expansion.make_expansion(e) for e in sequence]
 
         # Orphan the old children :-(
-        def orphan(x):
-            x.parent = None
-
-        [orphan(c) for c in self._list[i:j]]
+        [self._orphan(c) for c in self._list[i:j]]
 
         # Set the slice.
         self._list[slice(i, j)] = sequence
@@ -528,7 +533,7 @@ class ChildList(object):
         value = Expansion.make_expansion(value)
 
         # Orphan the old child :-(
-        self._list[i].parent = None
+        self._orphan(self._list[i])
 
         # Set the Expansion in the internal list.
         self._list[i] = value
-- 
2.43.0


From a8ed8839f5c9fe735d636340f8376861299ddf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:37 +0000
Subject: [PATCH 72/87] fix: keep children if they are set to invalid ones

---
 jsgf/expansions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 03f0608..af333d2 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -637,6 +637,9 @@ class Expansion(object):
         if not isinstance(value, (tuple, list, ChildList)):
             raise TypeError("'children' must be a list or tuple")
 
+        # Don't change anything if there are invalid children.
+        value = [self.make_expansion(e) for e in value]
+
         # Orphan current children if applicable.
         if self._children:
             self._children.orphan_children()
-- 
2.43.0


From 47d0a5aac65c7410d2569ee1b363bc2ae4115a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:40 +0000
Subject: [PATCH 73/87] fix: use the steps of slices of children that are set

---
 jsgf/expansions.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index af333d2..52a7762 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -505,14 +505,18 @@ class ChildList(object):
         :param j: int
         :param sequence: iterable
         """
+        self._set_slice(slice(i, j), sequence)
+
+    def _set_slice(self, key, sequence):
         # Convert the sequence to a sequence of Expansions if it isn't one.
         sequence = [Expansion.make_expansion(e) for e in sequence]
 
-        # Orphan the old children :-(
-        [self._orphan(c) for c in self._list[i:j]]
+        # Set the slice. This can raise an error for slices with steps.
+        old_children = self._list[key]
+        self._list[key] = sequence
 
-        # Set the slice.
-        self._list[slice(i, j)] = sequence
+        # Orphan the old children :-(
+        [self._orphan(c) for c in old_children]
 
         # Adopt the new children :-)
         def adopt(x):
@@ -526,7 +530,7 @@ class ChildList(object):
     def __setitem__(self, i, value):
         # Handle setting slices separately for my sanity.
         if isinstance(i, slice):
-            self.__setslice__(i.start, i.stop, value)
+            self._set_slice(i, value)
             return
 
         # Convert value to Expansion appropriately.
-- 
2.43.0


From f99670695443e6697ea173c1ccf52ecb83fc4838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:43 +0000
Subject: [PATCH 74/87] fix: add lists of children to each other

---
 jsgf/expansions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 52a7762..6b91a63 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -425,7 +425,7 @@ class ChildList(object):
         return not(self._list)
 
     def __add__(self, other):
-        return self._list + other
+        return self._list + list(other)
 
     def __iadd__(self, other):
         self.extend(other)
-- 
2.43.0


From cd8c4d4d98c85fcce77fe78cc2154039c253f763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:03 +0000
Subject: [PATCH 75/87] fix: restore current matches by default

---
 jsgf/expansions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 6b91a63..bd2670c 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -168,9 +168,9 @@ def restore_current_matches(e, values, override_none=True):
     def restore(x):
         match_data = values.get(x, None)
         if match_data:
-            if not override_none and match_data["current_match"] is not None:
+            if override_none or match_data["current_match"] is not None:
                 x.current_match = match_data["current_match"]
-            if not override_none and match_data["matching_slice"] is not None:
+            if override_none or match_data["matching_slice"] is not None:
                 x.matching_slice = match_data["matching_slice"]
 
     map_expansion(e, restore)
-- 
2.43.0


From 850cea3975a4199717db23fec86c6116af95e58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:07 +0000
Subject: [PATCH 76/87] fix: don't treat children of sets with one child as
 alternatives

---
 jsgf/expansions.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index bd2670c..f1f35fe 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1121,10 +1121,12 @@ class Expansion(object):
 
         :returns: bool
         """
-        result = False
-        if self.parent:
-            result = self.parent.is_alternative
-        return result
+        e = self.parent
+        while e:
+            if isinstance(e, AlternativeSet) and len(e.children) > 1:
+                return True
+            e = e.parent
+        return False
 
     @property
     def repetition_ancestor(self):
-- 
2.43.0


From c66214874274618c65ff65213bd408e4fec8a2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:10 +0000
Subject: [PATCH 77/87] fix: restore parents on exit of joint tree contexts

---
 jsgf/expansions.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index f1f35fe..06c1d46 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -344,6 +344,7 @@ class JointTreeContext(object):
 
     def __init__(self, root_expansion):
         self._root = root_expansion
+        self._parents = []
 
     @staticmethod
     def join_tree(x):
@@ -377,10 +378,21 @@ class JointTreeContext(object):
         map_expansion(e, lambda x: x.invalidate_matcher(), shallow=True)
 
     def __enter__(self):
-        map_expansion(self._root, self.join_tree, TraversalOrder.PostOrder)
+        # Get the expansions to join first because this will raise an error if a
+        # referenced rule cannot be found.
+        refs = filter_expansion(self._root,
+                                lambda x: isinstance(x, NamedRuleRef),
+                                TraversalOrder.PostOrder)
+        expansions = [x.referenced_rule.expansion for x in refs]
+        self._parents.append([(e, e.parent) for e in expansions])
+
+        for x in refs:
+            self.join_tree(x)
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        map_expansion(self._root, self.detach_tree, TraversalOrder.PostOrder)
+        # Set the previous parents again. The trees might have been joined already.
+        for e, parent in self._parents.pop():
+            self._set_parent(e, parent)
 
 
 @functools.total_ordering
-- 
2.43.0


From af777204a376818e30c460951bc36c4a5625e925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 78/87] fix: don't unlink rule expansions if new expansions are
 invalid

---
 jsgf/rules.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jsgf/rules.py b/jsgf/rules.py
index a266c31..612d129 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -97,14 +97,17 @@ class Rule(references.BaseRef):
             return self._name
 
     def _set_expansion(self, value):
+        # Handle the object passed in as an expansion. Don't change anything if it is
+        # invalid.
+        value = Expansion.make_expansion(value)
+
         # Reset expansion.rule if there was a previous expansion. Also invalidate its
         # matcher because references to this rule should not use it any more.
         if self._expansion:
             self._expansion.invalidate_matcher()
             self._expansion.rule = None
 
-        # Handle the object passed in as an expansion
-        self._expansion = Expansion.make_expansion(value)
+        self._expansion = value
         self._set_expansion_rules()
 
     def _set_expansion_rules(self):
-- 
2.43.0


From 3a1e2b7280b81accf57d14747e8cb4db6d7e2528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:52 +0000
Subject: [PATCH 79/87] fix: refuse weights that aren't finite numbers

---
 jsgf/expansions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 06c1d46..6ba1626 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1994,6 +1994,8 @@ class AlternativeSet(VariableChildExpansion):
         weight = float(weight)
         if weight < 0:
             raise TypeError("weight value '%s' is a negative number" % weight)
+        if math.isnan(weight) or math.isinf(weight):
+            raise TypeError("weight value '%s' is not a finite number" % weight)
 
         # Use the alternative as the key for _weights.
         if isinstance(child, integer_types):
-- 
2.43.0


From 90c8e37acf8b8d5f1224739234ae058a08b46fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:53 +0000
Subject: [PATCH 80/87] fix: replace weights when setting
 AlternativeSet.weights

---
 jsgf/expansions.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 6ba1626..e978630 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1968,9 +1968,18 @@ class AlternativeSet(VariableChildExpansion):
     def weights(self, value):
         value = dict(value)
 
-        # Set weights for each child using set_weight().
-        for k, v in value.items():
-            self.set_weight(k, v)
+        # Replace the current weights. Set weights for each child using set_weight()
+        # and restore the current weights if any of the new ones are invalid.
+        current = list(self.weights.items())
+        self.weights.clear()
+        try:
+            for k, v in value.items():
+                self.set_weight(k, v)
+        except Exception:
+            self.weights.clear()
+            self.weights.update(current)
+            raise
+        self.invalidate_matcher()
 
     def set_weight(self, child, weight):
         """
-- 
2.43.0


From 8f933067bc45f9fb669442d61e7df74425f610ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:54 +0000
Subject: [PATCH 81/87] fix: refuse weights for text that isn't a compiled
 child

---
 jsgf/expansions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index e978630..52c3a35 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -2014,6 +2014,9 @@ class AlternativeSet(VariableChildExpansion):
             for c in self.children:
                 if c.compile() == compiled_child:
                     child = c
+            if child is compiled_child:
+                raise ValueError("'%s' is not a compiled child of %s"
+                                 % (compiled_child, self))
 
         # Replace the previous weight, if there is one.
         others = [(e, w) for e, w in self.weights.items() if e != child]
-- 
2.43.0


From 91a9e676af3368aea8fcf1c581858fe4a230880e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 82/87] fix: raise GrammarError for names that aren't strings

---
 jsgf/references.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsgf/references.py b/jsgf/references.py
index 691a7fc..88f23b9 100644
--- a/jsgf/references.py
+++ b/jsgf/references.py
@@ -6,6 +6,7 @@ import re
 
 from pyparsing import Regex, Optional, OneOrMore, Combine
 from pyparsing import Literal as PPLiteral  # to differentiate from jsgf.Literal
+from six import string_types
 
 from .errors import GrammarError
 
@@ -82,7 +83,8 @@ class BaseRef(object):
     def name(self, value):
         # Validate the format of name. Whitespace around names is skipped by parser
         # elements, so check that there isn't any.
-        if not self.valid(value) or value != value.strip():
+        if not isinstance(value, string_types) or not self.valid(value) or \
+                value != value.strip():
             raise GrammarError("'%s' is not a valid %s name"
                                % (value, self.__class__.__name__))
         self._name = value
-- 
2.43.0


From b19ece2aa7dc82d941aa95f1335f440c97223831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:57 +0000
Subject: [PATCH 83/87] fix: resolve references moved between rules with their
 current rules

---
 jsgf/expansions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 52c3a35..36242ed 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1368,9 +1368,11 @@ class NamedRuleRef(BaseExpansionRef):
         :raises: GrammarError
         :returns: Rule
         """
-        # Use the rule of an ancestor if this was added after the rule was created.
+        # Find the rule using the expansion tree this is part of. Don't use this
+        # expansion's rule attribute because it might have been added to the tree
+        # after the rule was created or moved there from another rule.
         e = self
-        while e.parent and not e.rule:
+        while e.parent and not (e.rule and e.rule.expansion is e):
             e = e.parent
         if e.rule and e.rule.grammar:
             return e.rule.grammar.get_rule_from_name(self.name)
-- 
2.43.0


From 9b6a585f8ce26277dc64b62912091af9e4a2de4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:57 +0000
Subject: [PATCH 84/87] fix: raise TypeError when enabling or disabling objects
 that aren't rules

---
 jsgf/grammars.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index db5b340..924326b 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -720,9 +720,11 @@ class Grammar(references.BaseRef):
         # Handle the rule parameter
         if isinstance(rule, string_types):
             rule_name = rule
-        else:
+        elif isinstance(rule, Rule):
             rule_name = rule.name
             rule.enable()
+        else:
+            raise TypeError("object '%s' is not a JSGF rule" % rule)
 
         if rule_name not in self.rule_names:
             raise GrammarError("'%s' is not a rule in Grammar '%s'" % (rule, self))
@@ -741,9 +743,11 @@ class Grammar(references.BaseRef):
         # Handle the rule parameter
         if isinstance(rule, string_types):
             rule_name = rule
-        else:
+        elif isinstance(rule, Rule):
             rule_name = rule.name
             rule.disable()
+        else:
+            raise TypeError("object '%s' is not a JSGF rule" % rule)
 
         if rule_name not in self.rule_names:
             raise GrammarError("'%s' is not a rule in Grammar '%s'" % (rule, self))
-- 
2.43.0


From db9e0a80290f91231f486bfc8470fbf3c4015f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:18 +0000
Subject: [PATCH 85/87] fix: don't unlink expansions that are used by other
 rules now

---
 jsgf/rules.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsgf/rules.py b/jsgf/rules.py
index 612d129..89e1fbc 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -105,7 +105,10 @@ class Rule(references.BaseRef):
         # matcher because references to this rule should not use it any more.
         if self._expansion:
             self._expansion.invalidate_matcher()
-            self._expansion.rule = None
+
+            # The expansion might be used by another rule now.
+            if self._expansion.rule is self:
+                self._expansion.rule = None
 
         self._expansion = value
         self._set_expansion_rules()
-- 
2.43.0


From 5cb4065e8dbe256d78da004938f09f1f4751c360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:22 +0000
Subject: [PATCH 86/87] fix: don't unlink removed rules that were added to
 other grammars

---
 jsgf/grammars.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index 924326b..9c50293 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -705,7 +705,10 @@ class Grammar(references.BaseRef):
         # Invalidate any references to the rule before removing it.
         rule.expansion.invalidate_matcher()
         self._rules.remove(rule)
-        rule.grammar = None
+
+        # The rule might have been added to another grammar since it was added here.
+        if rule.grammar is self:
+            rule.grammar = None
 
     def enable_rule(self, rule):
         """
-- 
2.43.0


From 98f80e90caff7c42ed4bb84e88c88bd0cfdd304e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:34 +0000
Subject: [PATCH 87/87] fix: treat expansions without children as <NULL>
 without adding a child

Compiling an expansion whose children were removed added a reference to it.
Before that, it could not be matched or used to generate strings.
---
 jsgf/expansions.py     | 54 ++++++++++++++++++++++--------------------
 jsgf/ext/expansions.py |  2 +-
 2 files changed, 29 insertions(+), 27 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 36242ed..8cdbf1d 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1457,11 +1457,10 @@ class VoidRef(BaseExpansionRef):
 
 
 class ExpansionWithChildren(Expansion):
-    def compile(self, ignore_tags=False):
-        # Add a reference to the built-in NULL rule to produce a valid JSGF rule
-        # expansion: "<NULL>" instead of "()";
-        if not self.children:
-            self.children.append(NullRef())
+    def _get_children(self):
+        # Use a reference to the built-in NULL rule if there are no children. This
+        # produces a valid JSGF rule expansion: "<NULL>" instead of "()".
+        return self.children or [NullRef()]
 
 
 class SingleChildExpansion(ExpansionWithChildren):
@@ -1476,7 +1475,7 @@ class SingleChildExpansion(ExpansionWithChildren):
             return self.children[0]
         
     def generate(self):
-        return self.child.generate()
+        return self._get_children()[0].generate()
 
     def __hash__(self):
         return super(SingleChildExpansion, self).__hash__()
@@ -1498,7 +1497,7 @@ class VariableChildExpansion(ExpansionWithChildren):
         super(VariableChildExpansion, self).__init__(expansions)
         
     def generate(self):
-        return " ".join([c for c in [e.generate() for e in self.children] if c])
+        return " ".join([c for c in [e.generate() for e in self._get_children()] if c])
 
     def __hash__(self):
         return super(VariableChildExpansion, self).__hash__()
@@ -1528,15 +1527,15 @@ class Sequence(VariableChildExpansion):
     def compile(self, ignore_tags=False):
         super(Sequence, self).compile()
         seq = " ".join([
-            e.compile(ignore_tags) for e in self.children
+            e.compile(ignore_tags) for e in self._get_children()
         ])
 
         # Return the sequence and the tag if there is one. The tag would only apply to
         # the last child without parenthesises.
         if self.tag and not ignore_tags:
             e = self
-            while type(e) is Sequence and len(e.children) == 1:
-                e = e.children[0]
+            while type(e) is Sequence and len(e.children) < 2:
+                e = e._get_children()[0]
             if type(e) is Sequence:
                 seq = "(%s)" % seq
             return "%s%s" % (seq, self.compiled_tag)
@@ -1546,7 +1545,7 @@ class Sequence(VariableChildExpansion):
     def _make_matcher_element(self):
         # Return an And element using each child's matcher element.
         return self._set_matcher_element_attributes(pyparsing.And([
-            child.matcher_element for child in self.children
+            child.matcher_element for child in self._get_children()
         ]))
 
     def __hash__(self):
@@ -1726,7 +1725,7 @@ class Repeat(SingleChildExpansion):
 
     def compile(self, ignore_tags=False):
         super(Repeat, self).compile()
-        compiled = self.child.compile(ignore_tags)
+        compiled = self._get_children()[0].compile(ignore_tags)
         if self.tag and not ignore_tags:
             return "(%s)+%s" % (compiled, self.compiled_tag)
         else:
@@ -1749,7 +1748,8 @@ class Repeat(SingleChildExpansion):
         return int(math.log((random.random() or 1.0) / 2, 0.5))
 
     def _generate(self, count):
-        repetitions = [self.child.generate() for _ in range(count)]
+        child = self._get_children()[0]
+        repetitions = [child.generate() for _ in range(count)]
         return " ".join([r for r in repetitions if r])
 
     def __hash__(self):
@@ -1825,14 +1825,15 @@ class Repeat(SingleChildExpansion):
 
         # Wrap the child's matcher element rather than adding the parse action to it:
         # that element is kept if only this one is invalidated.
-        child_element = pyparsing.And([self.child.matcher_element])
+        child = self._get_children()[0]
+        child_element = pyparsing.And([child.matcher_element])
         child_element.setParseAction(f)
 
         # Determine the parser element type to use.
         kleene = isinstance(self, KleeneStar)
         element_type = _ZeroOrMore if kleene else _OneOrMore
         return self._set_matcher_element_attributes(
-            element_type(child_element, self.child)
+            element_type(child_element, child)
         )
 
     def _is_only_branch_of_repetition(self):
@@ -1874,7 +1875,7 @@ class KleeneStar(Repeat):
     """
     def compile(self, ignore_tags=False):
         super(KleeneStar, self).compile()
-        compiled = self.child.compile(ignore_tags)
+        compiled = self._get_children()[0].compile(ignore_tags)
         if self.tag and not ignore_tags:
             return "(%s)*%s" % (compiled, self.compiled_tag)
         else:
@@ -1905,18 +1906,19 @@ class OptionalGrouping(SingleChildExpansion):
     """
     def compile(self, ignore_tags=False):
         super(OptionalGrouping, self).compile()
-        compiled = self.child.compile(ignore_tags)
+        compiled = self._get_children()[0].compile(ignore_tags)
         if self.tag and not ignore_tags:
             return "[%s]%s" % (compiled, self.compiled_tag)
         else:
             return "[%s]" % compiled
         
     def generate(self):
-        return random.choice([self.child.generate(), ""])
+        return random.choice([self._get_children()[0].generate(), ""])
 
     def _make_matcher_element(self):
+        child = self._get_children()[0]
         return self._set_matcher_element_attributes(
-            _Optional(self.child.matcher_element, self.child)
+            _Optional(child.matcher_element, child)
         )
 
     @property
@@ -1934,7 +1936,7 @@ class RequiredGrouping(Sequence):
     def compile(self, ignore_tags=False):
         super(RequiredGrouping, self).compile()
         grouping = " ".join([
-            e.compile(ignore_tags) for e in self.children
+            e.compile(ignore_tags) for e in self._get_children()
         ])
 
         if self.tag and not ignore_tags:
@@ -2092,7 +2094,7 @@ class AlternativeSet(VariableChildExpansion):
 
     def compile(self, ignore_tags=False):
         super(AlternativeSet, self).compile()
-        if self.weights:
+        if self.weights and self.children:
             self._validate_weights()
 
             # Create a string with w=weight and e=compiled expansion
@@ -2105,7 +2107,7 @@ class AlternativeSet(VariableChildExpansion):
         else:
             # Or do the same thing without the weights
             alt_set = "|".join([
-                e.compile(ignore_tags) for e in self.children
+                e.compile(ignore_tags) for e in self._get_children()
             ])
 
         if self.tag and not ignore_tags:
@@ -2125,7 +2127,7 @@ class AlternativeSet(VariableChildExpansion):
             p = w / sum(weights)
 
         """
-        if self.weights:
+        if self.weights and self.children:
             self._validate_weights()
             # use weights if they are set
             # each alternative gets the probability weight / sum_of_all_weights
@@ -2143,11 +2145,11 @@ class AlternativeSet(VariableChildExpansion):
                 if rand < help_sum:
                     break
             return child.generate()
-        return random.choice(self.children).generate()
+        return random.choice(self._get_children()).generate()
 
     def _make_matcher_element(self):
         # Return an element that can match the alternatives.
-        if self.weights:
+        if self.weights and self.children:
             self._validate_weights()
 
             # Exclude alternatives that have a weight value of 0. Weights of removed
@@ -2162,7 +2164,7 @@ class AlternativeSet(VariableChildExpansion):
             children = [e for e, _ in sorted(children, key=lambda x: x[1])]
             children.reverse()
         else:
-            children = self.children
+            children = self._get_children()
 
         return self._set_matcher_element_attributes(pyparsing.Or([
             e.matcher_element for e in children
diff --git a/jsgf/ext/expansions.py b/jsgf/ext/expansions.py
index a3feae5..8111b4e 100644
--- a/jsgf/ext/expansions.py
+++ b/jsgf/ext/expansions.py
@@ -41,7 +41,7 @@ def _collect_first(e):
 
     result = []
     if isinstance(e, AlternativeSet):
-        optional = False
+        optional = not e.children
         for c in e.children:
             literals, child_optional = _collect_first(c)
             result.extend(literals)
-- 
2.43.0

