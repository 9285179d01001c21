From d90ee5963ad8fe55d4f4e88bfc7e1b86be8f4d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 01/91] fix: do not spell out zero groups inside a number

---
 lib/daeso/string/number.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/string/number.py b/lib/daeso/string/number.py
index 269dabd..0f25cc7 100644
--- a/lib/daeso/string/number.py
+++ b/lib/daeso/string/number.py
@@ -50,8 +50,10 @@ def spell_out_number(n, prefer_hundreds=True):
     while s:
         triple = s[-3:].rjust(3, "0")
         
-        if i == 0 and triple == "000":
-            words = "nul"
+        if triple == "000":
+            # zeros remain unexpressed, unless the number itself is zero
+            if s == "0":
+                words = "nul"
         elif i == 1 and triple == "001":
             # 1000 ==> *eenduizend
             words = ( _triple_modifiers[i] + 
-- 
2.43.0


From 3d1dca5e18c9c259ef7f22ef23047a5af7209cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 02/91] fix: normalized idf weights for less than two documents

---
 lib/daeso/string/tf_idf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/string/tf_idf.py b/lib/daeso/string/tf_idf.py
index 40cd63d..41dfd0a 100644
--- a/lib/daeso/string/tf_idf.py
+++ b/lib/daeso/string/tf_idf.py
@@ -88,7 +88,8 @@ TODO
         # note that the minimal value of idf is zero (term occurs in all docs)
         # and its maximum value is log(docs_count/1) = log(docs_count),
         # so we can normalize idf by simply dividing by logs(docs_count) 
-        norm = math.log(docs_count)
+        # (with less than two docs, idf is always zero)
+        norm = math.log(max(docs_count, 1)) or 1
     else:
         norm = 1
     
@@ -155,7 +156,8 @@ def tf_idf(terms_per_doc, normalized=False, indicator=False):
         # Note that the minimal value of idf is zero (term occurs in all docs)
         # and its maximum value is log(docs_count/1) = log(docs_count).
         # so we can normalize idf by simply dividing by logs(docs_count) 
-        norm = math.log(docs_count)
+        # (with less than two docs, idf is always zero)
+        norm = math.log(max(docs_count, 1)) or 1
     else:
         norm = 1
         
-- 
2.43.0


From d0fb43b47107bd1188b2f889caf716c8666c94ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 03/91] fix: skip bigrams of long token sequences exceed the
 recursion limit

---
 lib/daeso/string/sgram.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/daeso/string/sgram.py b/lib/daeso/string/sgram.py
index 02de036..2c27290 100644
--- a/lib/daeso/string/sgram.py
+++ b/lib/daeso/string/sgram.py
@@ -36,12 +36,10 @@ def skip_bigram_slices(tokens, distance_limit=sys.maxint):
     """
     # distance_limit corresponds to d_skip in Lin04
     # distance_limit=0 gives ordinary bigrams
-    if tokens:
-        return ( [(tokens[0], next_token) 
-                  for next_token in tokens[1:2 + distance_limit]] +
-                 skip_bigram_slices(tokens[1:], distance_limit) )
-    else:
-        return []
+    # no recursion, as that restricts the number of tokens
+    return [(token, next_token)
+            for i, token in enumerate(tokens)
+            for next_token in tokens[i + 1:][:1 + distance_limit]]
 
 
 def padded_skip_bigram_slices(tokens, distance_limit=sys.maxint,
-- 
2.43.0


From d226e3ed84850f6eb9c675e7506243d04c361797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 04/91] fix: local alignment of sequences without any positive
 score

---
 lib/daeso/string/smith_waterman.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/daeso/string/smith_waterman.py b/lib/daeso/string/smith_waterman.py
index f26ce9e..16e3948 100644
--- a/lib/daeso/string/smith_waterman.py
+++ b/lib/daeso/string/smith_waterman.py
@@ -101,6 +101,11 @@ def smith_waterman(seq1, seq2, sim_score, gap_cost):
     # find highest score
     positives = [(score, pair) for (pair, score) in scores.items() if score[0] > 0]
     positives.sort()
+    
+    if not positives:
+        # nothing to align
+        return scores, []
+    
     i,j = positives[-1][1]
     
     # backtrack to reconstruct (a) best alignment
-- 
2.43.0


From 2451bbf6dadee0c4add3d36204139f1f77528386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 05/91] fix: accumulate gap costs along the borders in global
 alignment

---
 lib/daeso/string/needleman_wunsch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/string/needleman_wunsch.py b/lib/daeso/string/needleman_wunsch.py
index 2cac879..081022c 100644
--- a/lib/daeso/string/needleman_wunsch.py
+++ b/lib/daeso/string/needleman_wunsch.py
@@ -78,10 +78,10 @@ def needleman_wunsch(seq1, seq2, sim_score, gap_cost):
     scores = {(0,0): (0, "T")}
     
     for i in range(1, len(seq1) + 1):
-        scores[i, 0] = (gap_cost(seq1[i-1]) * i, "U")
+        scores[i, 0] = (scores[i-1, 0][0] + gap_cost(seq1[i-1]), "U")
     
     for j in range(1, len(seq2) + 1):
-        scores[0, j] = (gap_cost(seq2[j-1]) * j, "L")
+        scores[0, j] = (scores[0, j-1][0] + gap_cost(seq2[j-1]), "L")
     
     for i in range(1, len(seq1) + 1):
         for j in range(1, len(seq2) + 1):
-- 
2.43.0


From 371e0486bedb620ac1d3443a55c0b2a8e4bf5499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 06/91] fix: ROUGE-L and ROUGE-S of empty or one-token
 sequences

---
 lib/daeso/string/rouge.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/daeso/string/rouge.py b/lib/daeso/string/rouge.py
index 287b656..f0f0850 100644
--- a/lib/daeso/string/rouge.py
+++ b/lib/daeso/string/rouge.py
@@ -95,10 +95,10 @@ def rouge_l(candidate_tokens, reference_tokens, beta=1):
     beta determines the relative importance of recall in the F-measure
     """
     lcs = len(longest_common_subsequence(candidate_tokens, reference_tokens))
-    recall = lcs / float(len(reference_tokens))
-    precision = lcs / float(len(candidate_tokens))
 
     try:
+        recall = lcs / float(len(reference_tokens))
+        precision = lcs / float(len(candidate_tokens))
         return ( ((1 + beta ** 2) * precision * recall )  /
                  (beta ** 2 * precision + recall) )
     except ZeroDivisionError:
@@ -135,10 +135,9 @@ def rouge_skip_bigram(skip_bigrams1, skip_bigrams2, beta=1):
     # In the current implementation, X and Y are effectively considered sets (i.e. no duplicates). 
     matches_count = float(len(matches))
     
-    recall = matches_count / len(skip_bigrams1)
-    precision = matches_count / len(skip_bigrams2)
-    
     try:
+        recall = matches_count / len(skip_bigrams1)
+        precision = matches_count / len(skip_bigrams2)
         return ( ((1 + beta ** 2) * precision * recall )  /
                  (beta ** 2 * precision + recall) )
     except ZeroDivisionError:
-- 
2.43.0


From 768271f3f6b8b3d2cb362594f0cea6bc91a27110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 07/91] fix: roots_aligned compares the source root with itself

---
 lib/daeso/pgc/graphpair.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/graphpair.py b/lib/daeso/pgc/graphpair.py
index db5ccab..9986b10 100644
--- a/lib/daeso/pgc/graphpair.py
+++ b/lib/daeso/pgc/graphpair.py
@@ -321,7 +321,7 @@ class GraphMapping(GraphPairBase, DiGraph):
         """
         return self.has_edge(
             self._graphs.source.root ,
-            self._graphs.source.root)
+            self._graphs.target.root)
     
     
     def dump_alignments(self):
-- 
2.43.0


From 8f2ab7118427b67ffab495f73c773e359a66388c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 08/91] fix: graph pairs (and their copies) lose meta-data
 without child elements

---
 lib/daeso/pgc/graphpair.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/graphpair.py b/lib/daeso/pgc/graphpair.py
index 9986b10..35ebf42 100644
--- a/lib/daeso/pgc/graphpair.py
+++ b/lib/daeso/pgc/graphpair.py
@@ -75,7 +75,11 @@ class GraphPairBase(object):
         # references to them. Therefore graphs are automatically destroyed if
         # they are no longer part of any graph pair.
         self._graphs = graphs
-        self._meta_data = meta_data or et.Element("graph_meta_data")
+        # an Element without children is false
+        if meta_data is None:
+            meta_data = et.Element("graph_meta_data")
+            
+        self._meta_data = meta_data
         
         
     def __eq__(self, other):
-- 
2.43.0


From 1cb64e88c86a81f6c8188166e8a382ea232ac94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 09/91] fix: inequality of pairs and graph pairs is not the
 negation of equality

---
 lib/daeso/pair.py          | 4 ++++
 lib/daeso/pgc/graphpair.py | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/lib/daeso/pair.py b/lib/daeso/pair.py
index 3003ce0..e0909c0 100644
--- a/lib/daeso/pair.py
+++ b/lib/daeso/pair.py
@@ -44,6 +44,10 @@ class Pair(object):
                      self.target == other.target )
         
         
+    def __ne__(self, other):
+        return not self == other
+        
+        
     def __repr__(self):
         return 'Pair(source={pair.source!r}, target={pair.target!r})'.format(
             pair=self) 
diff --git a/lib/daeso/pgc/graphpair.py b/lib/daeso/pgc/graphpair.py
index 35ebf42..9e62564 100644
--- a/lib/daeso/pgc/graphpair.py
+++ b/lib/daeso/pgc/graphpair.py
@@ -110,6 +110,13 @@ class GraphPairBase(object):
                          self._meta_data_equal(other) )
         
         
+    def __ne__(self, other):
+        """
+        self.__ne__(self, other) <==> self != other
+        """
+        return not self == other
+        
+        
     def __deepcopy__(self, memo_dict):
         """
         Implements the copy protocol for copy.deepcopy(graph_pair), which only
-- 
2.43.0


From f0bdc14601c8307347e3addc481aca13dea6ef56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 10/91] fix: comparison of elements containing non-ASCII text

---
 lib/daeso/utils/etree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/utils/etree.py b/lib/daeso/utils/etree.py
index 4248e84..4f98dfd 100644
--- a/lib/daeso/utils/etree.py
+++ b/lib/daeso/utils/etree.py
@@ -50,8 +50,8 @@ def equals(elem1, elem2):
     """
     # as far as I can see, _ElementInterface lacks a __eq__ method
     return ( elem1.tag == elem2.tag and
-             str(elem1.text).strip() == str(elem2.text).strip() and
-             str(elem1.tail).strip() == str(elem2.tail).strip() and
+             (elem1.text or "").strip() == (elem2.text or "").strip() and
+             (elem1.tail or "").strip() == (elem2.tail or "").strip() and
              elem1.attrib == elem2.attrib and
              len(elem1) == len(elem2) and
              all([ equals(child1, child2)
-- 
2.43.0


From 141f4df5ce60215db19877a275ecd2c18e8615ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 11/91] fix: comparison of graphbanks whose file does not exist

---
 lib/daeso/gb/graphbank.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/gb/graphbank.py b/lib/daeso/gb/graphbank.py
index 90dbf96..22c96a9 100644
--- a/lib/daeso/gb/graphbank.py
+++ b/lib/daeso/gb/graphbank.py
@@ -89,7 +89,9 @@ class GraphBank(object):
         their contents.)
         """
         return ( self._file_path == other._file_path or
-                 os.path.samefile(self._file_path, other._file_path))
+                 ( os.path.exists(self._file_path) and
+                   os.path.exists(other._file_path) and
+                   os.path.samefile(self._file_path, other._file_path) ) )
     
     
     def __ne__(self, other):
-- 
2.43.0


From ac867cc3593a6a3bb6a65eb440f35fdcb0e61a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:13 +0000
Subject: [PATCH 12/91] fix: comparing corpora with != raises TypeError

---
 lib/daeso/pgc/corpus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index b7a9896..1136663 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -350,7 +350,7 @@ class ParallelGraphCorpus(list):
         """
         corpus.__ne__(other) <==> corpsu != other
         """
-        return not self.__eq__(self, other)
+        return not self.__eq__(other)
     
       
     def __repr__(self):
-- 
2.43.0


From 2784ea44c0bea4a748262198c32c24cfc65100df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:13 +0000
Subject: [PATCH 13/91] fix: n * corpus raises TypeError

---
 lib/daeso/pgc/corpus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 1136663..4707876 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -374,7 +374,7 @@ class ParallelGraphCorpus(list):
         """
         corpus.__rmul__(n) <==> n * corpus
         """
-        return self.__mul__()
+        return self.__mul__(n)
          
     
     def __setitem__(self, index, value):
-- 
2.43.0


From 777153760d21949da1245f9bfca6f5c57b35bc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:13 +0000
Subject: [PATCH 14/91] fix: corpus.insert lacks its index argument

---
 lib/daeso/pgc/corpus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 4707876..724c5ba 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -498,7 +498,7 @@ class ParallelGraphCorpus(list):
         return list.index(self, graph_pair)
     
           
-    def insert(self, graph_pair):
+    def insert(self, index, graph_pair):
         """
         corpus.insert(index, graph_pair) -- insert graph_pair before index
         
@@ -509,7 +509,7 @@ class ParallelGraphCorpus(list):
         if not isinstance(graph_pair, GraphPair):
             raise TypeError("only GraphPair instances are allowed")
         
-        list.insert(self, i, graph_pair)
+        list.insert(self, index, graph_pair)
     
     
     def read(self, inf, graph_loading=LOAD_SPARSE, relax_gb_paths=False):
-- 
2.43.0


From 681c261c77773c65ae11a02db682d65907bec0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:13 +0000
Subject: [PATCH 15/91] fix: corpus.pop returns the graph pair and defaults to
 the last one

---
 lib/daeso/pgc/corpus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 724c5ba..69e3f7a 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -542,7 +542,7 @@ class ParallelGraphCorpus(list):
                      relax_gb_paths=relax_gb_paths)
 
           
-    def pop(self, index=None):
+    def pop(self, index=-1):
         """
         corpus.pop([index]) -> GraphPair -- 
         remove and return graph pair at index (default last)
@@ -550,7 +550,7 @@ class ParallelGraphCorpus(list):
         Raises IndexError if corpus is empty or index is out of range.
         """
         # redundant graphbanks are automatically garbage collected
-        list.pop(self, index)
+        return list.pop(self, index)
     
     
     def purge(self, graph_pair=None):
-- 
2.43.0


From bf79f1bbe17e1d99127150a03ad282af7992d239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:13 +0000
Subject: [PATCH 16/91] fix: corpus.index lacks its optional start and stop
 arguments

---
 lib/daeso/pgc/corpus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 69e3f7a..d77c490 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -489,13 +489,13 @@ class ParallelGraphCorpus(list):
         return self._relations
     
     
-    def index(self, graph_pair):
+    def index(self, graph_pair, *args):
         """
         corpus.index(graph_pair, [start, [stop]]) -> integer -- 
         return first index of graph_pair.
         Raises ValueError if the graph_pair is not present.
         """
-        return list.index(self, graph_pair)
+        return list.index(self, graph_pair, *args)
     
           
     def insert(self, index, graph_pair):
-- 
2.43.0


From d489439d587f925e70c8e531c89c3e2f46adbd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:13 +0000
Subject: [PATCH 17/91] fix: comparing corpora with and without meta-data
 raises AttributeError

---
 lib/daeso/pgc/corpus.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index d77c490..31ee2b1 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -679,6 +679,8 @@ class ParallelGraphCorpus(list):
         if self._meta_data is other._meta_data:
             # both None or same object 
             return True
+        elif self._meta_data is None or other._meta_data is None:
+            return False
         else: 
             return equals(self._meta_data, other._meta_data)
 
-- 
2.43.0


From fc04519199a15d3db600b9244be1fc65ce1af523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:13 +0000
Subject: [PATCH 18/91] fix: graph classes use NetworkXError and convert
 without importing them

---
 lib/daeso/graph/daesograph.py | 2 ++
 lib/daeso/graph/ograph.py     | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/graph/daesograph.py b/lib/daeso/graph/daesograph.py
index b1d9ea5..352567f 100644
--- a/lib/daeso/graph/daesograph.py
+++ b/lib/daeso/graph/daesograph.py
@@ -26,6 +26,8 @@ __authors__ = "Erwin Marsi <e.marsi@gmail.com>"
 
 import string
 
+from networkx.exception import NetworkXError
+
 from daeso.graph.ograph import ODiGraph
 
 # TODO:
diff --git a/lib/daeso/graph/ograph.py b/lib/daeso/graph/ograph.py
index 8a60bd9..e34c83f 100644
--- a/lib/daeso/graph/ograph.py
+++ b/lib/daeso/graph/ograph.py
@@ -52,6 +52,8 @@ __authors__ = "Erwin Marsi <e.marsi@gmail.com>"
 
 from distutils.version import LooseVersion
 import networkx
+from networkx.convert import to_networkx_graph
+from networkx.exception import NetworkXError
 
 if LooseVersion(networkx.__version__) < LooseVersion('1.0'):
     raise ImportError("networkx version 1.0 or later required" +
@@ -118,7 +120,7 @@ class ODiGraph(networkx.DiGraph):
 
         # attempt to load graph with data
         if data is not None:
-            convert.from_whatever(data,create_using=self)
+            to_networkx_graph(data,create_using=self)
         # load graph attributes (must be after convert)
         self.graph.update(attr)
 
-- 
2.43.0


From 696dd35326e7e20971578d369dfacc616baa6427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:13 +0000
Subject: [PATCH 19/91] fix: nodes added with the same attributes share one
 attribute dict

---
 lib/daeso/graph/ograph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/graph/ograph.py b/lib/daeso/graph/ograph.py
index e34c83f..3032bc9 100644
--- a/lib/daeso/graph/ograph.py
+++ b/lib/daeso/graph/ograph.py
@@ -182,7 +182,7 @@ class ODiGraph(networkx.DiGraph):
         if n not in self.succ:
             self.succ[n] = OrderedDict()
             self.pred[n] = OrderedDict()
-            self.node[n] = attr_dict
+            self.node[n] = attr_dict.copy()
         else: # update attr even if node already exists            
             self.node[n].update(attr_dict)
 
@@ -220,7 +220,7 @@ class ODiGraph(networkx.DiGraph):
             if n not in self.succ:
                 self.succ[n] = OrderedDict()
                 self.pred[n] = OrderedDict()
-                self.node[n] = attr
+                self.node[n] = attr.copy()
             else: # update attr even if node already exists            
                 self.node[n].update(attr)
 
-- 
2.43.0


From ef68d3694246cb4f4f85b18060b4571a73d0bc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:13 +0000
Subject: [PATCH 20/91] fix: non_terminals calls a method that does not exist

---
 lib/daeso/graph/daesograph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/graph/daesograph.py b/lib/daeso/graph/daesograph.py
index 352567f..89d8d23 100644
--- a/lib/daeso/graph/daesograph.py
+++ b/lib/daeso/graph/daesograph.py
@@ -101,7 +101,7 @@ class DaesoGraph(ODiGraph):
     
     def non_terminals_iter(self):
         return ( node for node in self
-                 if self.is_non_terminal(node) )
+                 if self.node_is_non_terminal(node) )
     
     
     def non_terminals(self):
-- 
2.43.0


From 2ba8f64bf3f16644f3839e86ba95a2f4ff7804e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:13 +0000
Subject: [PATCH 21/91] fix: terminal yield of a node that is false (e.g. 0) is
 that of the root

---
 lib/daeso/graph/daesograph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/graph/daesograph.py b/lib/daeso/graph/daesograph.py
index 89d8d23..474a4f6 100644
--- a/lib/daeso/graph/daesograph.py
+++ b/lib/daeso/graph/daesograph.py
@@ -149,7 +149,7 @@ class DaesoGraph(ODiGraph):
         terminal nodes dominated by non-terminal node n (in pre-order)
         """
         # should work for both trees and graphs
-        queue = [n or self.root] # LIFO queue
+        queue = [self.root if n is None else n] # LIFO queue
         seen = {} # nodes seen      
         terminals = []  # list of terminal nodes in a DFS preorder
         
-- 
2.43.0


From 9a8e694570723c81c339f1b248eb3f46f6df3258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:13 +0000
Subject: [PATCH 22/91] fix: root of graphs in GraphML graphbanks is never set

---
 lib/daeso/gb/graphml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/gb/graphml.py b/lib/daeso/gb/graphml.py
index 792d3c5..0cb3730 100644
--- a/lib/daeso/gb/graphml.py
+++ b/lib/daeso/gb/graphml.py
@@ -161,7 +161,7 @@ class GraphmlParser(XmlGraphbankParser):
             
             # set the root node, defined as a graph attribute like 
             # <data key="root">n0</data>
-            self._graph.root = self._graph.graph.get("graph")
+            self._graph.root = self._graph.graph.get("root")
             
             self._graph = None
             self._comp_attrs = None
-- 
2.43.0


From 5a519380532f89d6b0f8bea1bae74d17e93335e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:32 +0000
Subject: [PATCH 23/91] fix: default values of keys in GraphML graphbanks are
 ignored

---
 lib/daeso/gb/graphml.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/daeso/gb/graphml.py b/lib/daeso/gb/graphml.py
index 0cb3730..38dedd8 100644
--- a/lib/daeso/gb/graphml.py
+++ b/lib/daeso/gb/graphml.py
@@ -119,8 +119,8 @@ class GraphmlParser(XmlGraphbankParser):
         # temporarily assign None to required arg label
         self._graph.add_node(n, label=None)
         self._comp_attrs = self._graph.node[n]
-        self._set_defaults()
         self._node = n 
+        self._set_defaults()
         
             
     def _start_edge(self, attrs):
@@ -148,8 +148,8 @@ class GraphmlParser(XmlGraphbankParser):
                 self._end_node()
             elif tag == "data":
                 self._end_data()
-            elif tag == "default":
-                self._end_default()
+        elif tag == "default":
+            self._end_default()
                 
         self._context.pop()
         
@@ -206,7 +206,7 @@ class GraphmlParser(XmlGraphbankParser):
         
  
     def _char_data(self, data):
-        if self._graph_wanted():
+        if self._graph_wanted() or self._context[-1] == "default":
             self._char_data_buf += data   
             
             
-- 
2.43.0


From 51b94b990dbc49a8781da547ea92120ededf86d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:32 +0000
Subject: [PATCH 24/91] fix: GraphML graph data following a node or edge
 crashes or ends up at the edge

---
 lib/daeso/gb/graphml.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/daeso/gb/graphml.py b/lib/daeso/gb/graphml.py
index 38dedd8..aff2c43 100644
--- a/lib/daeso/gb/graphml.py
+++ b/lib/daeso/gb/graphml.py
@@ -144,8 +144,10 @@ class GraphmlParser(XmlGraphbankParser):
         if tag == "graph":
             self._end_graph()
         elif self._graph_wanted():
-            if tag in "node":
+            if tag == "node":
                 self._end_node()
+            elif tag == "edge":
+                self._end_edge()
             elif tag == "data":
                 self._end_data()
         elif tag == "default":
@@ -175,11 +177,12 @@ class GraphmlParser(XmlGraphbankParser):
             raise DaesoError("node must have a 'tokens' attribute")
         
         self._node = None
-        self._comp_attrs = None
+        # subsequent data belongs to the graph again
+        self._comp_attrs = self._graph.graph
         
         
-    def end_edge(self):
-        self._comp_attrs = None
+    def _end_edge(self):
+        self._comp_attrs = self._graph.graph
     
      
     def _end_data(self):
-- 
2.43.0


From 72d7c689cb1e498957882de2e5becdee85660cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:32 +0000
Subject: [PATCH 25/91] fix: parsing graphbanks from strings ignores an empty
 id2graph and fails on sparse

---
 lib/daeso/gb/parser.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/daeso/gb/parser.py b/lib/daeso/gb/parser.py
index 657f920..2dce098 100644
--- a/lib/daeso/gb/parser.py
+++ b/lib/daeso/gb/parser.py
@@ -55,13 +55,13 @@ class XmlGraphbankParser(object):
         
     def parse_string(self, data, id2graph=None, sparse=False):
         # supports incremental parsing
-        self._id2graph = id2graph or {}
+        self._id2graph = {} if id2graph is None else id2graph
         self._sparse = sparse
 
         self._parser.Parse(data, 0)
         
         if self._sparse:
-            self._check_for_unresolved_graphs()
+            self._check_for_unresolved_graphs("<string>")
             
         return self._id2graph
 
@@ -82,12 +82,13 @@ class XmlGraphbankParser(object):
         ##del self._parser 
         
         if self._sparse:
-            self._check_for_unresolved_graphs(inf)
+            self._check_for_unresolved_graphs(
+                getattr(inf, "name", repr(inf)))
             
         return self._id2graph
     
             
-    def _check_for_unresolved_graphs(self, inf):
+    def _check_for_unresolved_graphs(self, name):
         unresolved = [ '"{0}"'.format(id) 
                        for (id, graph) in self._id2graph.items() 
                        if graph is None ]
@@ -95,7 +96,7 @@ class XmlGraphbankParser(object):
         if unresolved:
             msg = ( "graphs with the following id's were not found"
                     ' in graphbank file "{0}": {1}'.format(
-                        inf.name, 
+                        name, 
                         ", ".join(unresolved) ))
             raise DaesoError(msg)
         
-- 
2.43.0


From aef965fc9c0dd1b2d664e09063c5c738afeae8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:32 +0000
Subject: [PATCH 26/91] fix: error for graphbanks in an unknown format

---
 lib/daeso/gb/graphbank.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/gb/graphbank.py b/lib/daeso/gb/graphbank.py
index 22c96a9..101b029 100644
--- a/lib/daeso/gb/graphbank.py
+++ b/lib/daeso/gb/graphbank.py
@@ -164,9 +164,9 @@ class GraphBank(object):
         try:
             parser_module_name, parser_class_name = getattr(daeso.gb.register, 
                                                             format.lower())
-        except KeyError:
+        except AttributeError:
             # TODO: use own error class
-            AssertionError("no parser available for graphbank in '%s' format" % format)
+            raise AssertionError("no parser available for graphbank in '%s' format" % format)
             
         try:
             parser_module = __import__(parser_module_name, 
-- 
2.43.0


From c25cebc6ea73f789cb07b096123c365c80148f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:53 +0000
Subject: [PATCH 27/91] fix: adding nodes or edges changes the caller's
 attribute dict

---
 lib/daeso/graph/daesograph.py | 2 ++
 lib/daeso/graph/ograph.py     | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/lib/daeso/graph/daesograph.py b/lib/daeso/graph/daesograph.py
index 474a4f6..1eab86b 100644
--- a/lib/daeso/graph/daesograph.py
+++ b/lib/daeso/graph/daesograph.py
@@ -191,6 +191,7 @@ class DaesoGraph(ODiGraph):
             attr_dict=attr
         else:
             try:
+                attr_dict = attr_dict.copy()
                 attr_dict.update(attr)
             except AttributeError:
                 raise NetworkXError(\
@@ -211,6 +212,7 @@ class DaesoGraph(ODiGraph):
             attr_dict=attr
         else:
             try:
+                attr_dict = attr_dict.copy()
                 attr_dict.update(attr)
             except AttributeError:
                 raise NetworkXError(\
diff --git a/lib/daeso/graph/ograph.py b/lib/daeso/graph/ograph.py
index 3032bc9..3dabe74 100644
--- a/lib/daeso/graph/ograph.py
+++ b/lib/daeso/graph/ograph.py
@@ -175,6 +175,7 @@ class ODiGraph(networkx.DiGraph):
             attr_dict=attr
         else:
             try:
+                attr_dict = attr_dict.copy()
                 attr_dict.update(attr)
             except AttributeError:
                 raise NetworkXError(\
@@ -278,6 +279,7 @@ class ODiGraph(networkx.DiGraph):
             attr_dict=attr
         else:
             try:
+                attr_dict = attr_dict.copy()
                 attr_dict.update(attr)
             except AttributeError:
                 raise NetworkXError(\
@@ -343,6 +345,7 @@ class ODiGraph(networkx.DiGraph):
             attr_dict=attr
         else:
             try:
+                attr_dict = attr_dict.copy()
                 attr_dict.update(attr)
             except AttributeError:
                 raise NetworkXError(\
-- 
2.43.0


From 00a4e9e8535aa9c31f6040ebb16c9fed7177c4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 28/91] fix: meta-data without child elements is not written to
 the corpus file

---
 lib/daeso/pgc/corpus.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 31ee2b1..f291191 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -1118,7 +1118,8 @@ class PGCGenerator(object):
     def _gen_pg_corpus(self, pg_corpus, out_dir, abs_path):
         root_elem = et.Element("parallel_graph_corpus")
         
-        if pg_corpus._meta_data:
+        # an Element without children is false
+        if pg_corpus._meta_data is not None:
             root_elem.append(pg_corpus._meta_data)
         
         graphbanks_elem = et.SubElement(root_elem, "graphbanks")
@@ -1159,8 +1160,13 @@ class PGCGenerator(object):
                 from_graph_id=graph_pair._graphs.source.id,
                 to_graph_id=graph_pair._graphs.target.id)
             
-            if graph_pair._meta_data:
-                graph_pair_elem.append(graph_pair._meta_data)
+            meta_data = graph_pair._meta_data
+            
+            # skip empty meta-data, as that is also the default; an Element
+            # without children is false
+            if ( len(meta_data) or meta_data.attrib or 
+                 (meta_data.text or "").strip() ):
+                graph_pair_elem.append(meta_data)
             
             self._gen_node_pairs(graph_pair_elem, graph_pair)
                 
-- 
2.43.0


From dca2eee9b9170a09c4b9f0a4d35f0c921d950fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 29/91] fix: pretty printing a corpus changes its meta-data

---
 lib/daeso/pgc/corpus.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index f291191..d7f95e6 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -1120,7 +1120,8 @@ class PGCGenerator(object):
         
         # an Element without children is false
         if pg_corpus._meta_data is not None:
-            root_elem.append(pg_corpus._meta_data)
+            # use a copy, because pretty printing changes the elements
+            root_elem.append(copy.deepcopy(pg_corpus._meta_data))
         
         graphbanks_elem = et.SubElement(root_elem, "graphbanks")
         self._gen_node_relations(root_elem, pg_corpus)
@@ -1166,7 +1167,7 @@ class PGCGenerator(object):
             # without children is false
             if ( len(meta_data) or meta_data.attrib or 
                  (meta_data.text or "").strip() ):
-                graph_pair_elem.append(meta_data)
+                graph_pair_elem.append(copy.deepcopy(meta_data))
             
             self._gen_node_pairs(graph_pair_elem, graph_pair)
                 
-- 
2.43.0


From 4676f317703d8c51ad9ee64258b62a2273f263a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 30/91] fix: elements inside meta-data are taken for elements
 of the corpus

---
 lib/daeso/pgc/corpus.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index d7f95e6..ef04aae 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -752,6 +752,7 @@ class PGCParser(object):
     
     def __init__(self):
         self.in_meta_data=False
+        self.meta_data_elem = None
         self.graph_pair = None
         self.default_format = None
         self.relations = []
@@ -805,15 +806,18 @@ class PGCParser(object):
         # use ElementTree's iterparse rather than expat, because we want to
         # store the meta-data as an Element
         for event, elem in et.iterparse(inf, ("start", "end")):
+            if self.in_meta_data and elem is not self.meta_data_elem:
+                # meta-data is arbitrary, so ignore the tags of its elements
+                continue
+            
             if event == "start":
                 try:
                     # search handler only
                     handler = self.start_handlers[elem.tag]
                 except KeyError:
-                    if not self.in_meta_data:
-                        warnings.warn(
-                            "Encountered illegal element <{0}>".format(elem.tag),
-                            DaesoWarning)
+                    warnings.warn(
+                        "Encountered illegal element <{0}>".format(elem.tag),
+                        DaesoWarning)
                     continue
             else:
                 try:
@@ -851,6 +855,7 @@ class PGCParser(object):
 
     def handle_meta_data_elem_start(self, elem):
         self.in_meta_data = True
+        self.meta_data_elem = elem
 
         
     def handle_graphbanks_elem_start(self, elem):
-- 
2.43.0


From cd1f89f798d48fe1536486ceb52f27f782343def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 31/91] fix: reading a corpus with relative paths from a
 file-like object

---
 lib/daeso/pgc/corpus.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index ef04aae..61af7fe 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -793,6 +793,9 @@ class PGCParser(object):
         elif isinstance(inf, file):
             # if input is a tty, dir becomes ""
             self.dir = os.path.dirname(inf.name)
+        else:
+            # like PGCGenerator, use the current working directory
+            self.dir = os.getcwd()
             
         if pg_corpus is not None:
             assert isinstance(pg_corpus, ParallelGraphCorpus)
-- 
2.43.0


From c8c74b4fcbecebbd86608d422679fc7b09afd584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 32/91] fix: close the file when writing an element tree to a
 named file

---
 lib/daeso/utils/etree.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/lib/daeso/utils/etree.py b/lib/daeso/utils/etree.py
index 4f98dfd..284ab68 100644
--- a/lib/daeso/utils/etree.py
+++ b/lib/daeso/utils/etree.py
@@ -32,14 +32,20 @@ def write(etree, file=sys.stdout, encoding="utf-8", pprint=False):
     write element tree with xml header
     even when encoding is the default utf-8
     """
-    if not hasattr(file, "write"):
-        file = open(file, "wb")
-        
     if pprint:
         indent(etree.getroot())
         
-    file.write('<?xml version="1.0" encoding="utf-8"?>\n')
-    etree.write(file, "utf-8")
+    opened = not hasattr(file, "write")
+    
+    if opened:
+        file = open(file, "wb")
+        
+    try:
+        file.write('<?xml version="1.0" encoding="utf-8"?>\n')
+        etree.write(file, "utf-8")
+    finally:
+        if opened:
+            file.close()
     
  
 def equals(elem1, elem2):
-- 
2.43.0


From fce05380608a36e0a54c472c17221931f9cd2f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:16 +0000
Subject: [PATCH 33/91] fix: setting the annotator of a corpus without
 meta-data

---
 lib/daeso/pgc/corpus.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 61af7fe..64df59e 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -657,6 +657,9 @@ class ParallelGraphCorpus(list):
             pass
         
     def set_annotator(self, annot, append=True):
+        if self._meta_data is None:
+            self._meta_data = et.Element("corpus_meta_data")
+            
         annot_el = self._meta_data.find("annotator")
         
         if annot_el is None:
-- 
2.43.0


From 84175d0e40c18b9b5f99fd2cb938aa001d4d8956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 34/91] fix: close the file when writing an evaluation to a
 named file

---
 lib/daeso/pgc/evaluate.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/evaluate.py b/lib/daeso/pgc/evaluate.py
index 7b3c519..191e101 100644
--- a/lib/daeso/pgc/evaluate.py
+++ b/lib/daeso/pgc/evaluate.py
@@ -305,7 +305,14 @@ class AlignEval(dict):
         write full evaluation 
 	"""
         if isinstance(out, basestring):
-            out = open(out, "w")
+            out_file = open(out, "w")
+            
+            try:
+                self.write(out_file)
+            finally:
+                out_file.close()
+            
+            return
             
         self.write_alignment_only(out)
         self.write_alignment_per_relation(out)
-- 
2.43.0


From 952d177a7689eacffc43df070a194afaa8a4aa01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:55 +0000
Subject: [PATCH 35/91] fix: close the files that agreement results are pickled
 to

---
 lib/daeso/pgc/agreement.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/lib/daeso/pgc/agreement.py b/lib/daeso/pgc/agreement.py
index b3e34b7..06f1d91 100644
--- a/lib/daeso/pgc/agreement.py
+++ b/lib/daeso/pgc/agreement.py
@@ -53,11 +53,23 @@ def run_eval(corpus_fns, annotators, pickle_fn=None, words_only=False):
     write_tables(tables)
     
     if pickle_fn:
-        pickle.dump((align_eval, tables), open(pickle_fn, "wb"))
+        dump((align_eval, tables), pickle_fn)
         
     return align_eval, tables
 
 
+def dump(obj, pickle_fn):
+    """
+    pickle object to a file with given name
+    """
+    pickle_file = open(pickle_fn, "wb")
+    
+    try:
+        pickle.dump(obj, pickle_file)
+    finally:
+        pickle_file.close()
+
+
 def write_tables(tables):
     for rel, val in tables.items():
         print 80 * "="
@@ -94,7 +106,7 @@ def tableize(align_eval, pickle_fn=None):
             am.calculate_statistics()
             
     if pickle_fn:
-        pickle.dump(tables, open(pickle_fn, "wb"))
+        dump(tables, pickle_fn)
         
     return tables
            
@@ -124,7 +136,7 @@ def cross_evaluate(corpus_fns, annotators=None, pickle_fn=None,
     align_eval.run_eval()
         
     if pickle_fn:
-        pickle.dump(align_eval, open(pickle_fn, "wb"))
+        dump(align_eval, pickle_fn)
         
     return align_eval
 
-- 
2.43.0


From e7b5822e6e08e964d8dce475abad7c1403c0678c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 36/91] fix: headings of corpora and graph pairs are not
 printed by pgc_diff

---
 lib/daeso/pgc/diff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/pgc/diff.py b/lib/daeso/pgc/diff.py
index cf2d5b5..6fa8061 100644
--- a/lib/daeso/pgc/diff.py
+++ b/lib/daeso/pgc/diff.py
@@ -59,7 +59,7 @@ def pgc_diff(corpus1, corpus2,
     pair_count = 0
     
     header("%s corpus: %s\n%s corpus: %s" % (annot1, corpus_name1, annot2,
-                                             corpus_name2), width=120, char="#")
+                                             corpus_name2), out, width=120, char="#")
     
     for graph_pair1, graph_pair2 in zip(corpus1, corpus2):
         # assume that the corpora have the same graph pairs in the same order,
@@ -103,7 +103,7 @@ def pgc_diff(corpus1, corpus2,
         #if not ( ident and rel_diff and uniq1 and uniq2 and show_comments ):
         #    continue
             
-        header("Graph pair %d" % pair_count, width=120, char="=")
+        header("Graph pair %d" % pair_count, out, width=120, char="=")
         
         print >>out, graphs.source.get_graph_token_string().encode("utf-8"), "\n"
         print >>out, graphs.target.get_graph_token_string().encode("utf-8"), "\n"
-- 
2.43.0


From a59cfe707d685a4bbefcc50fd0d2010a550c62e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 37/91] fix: pgc_diff restricted to words crashes or omits the
 words

---
 lib/daeso/pgc/diff.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/daeso/pgc/diff.py b/lib/daeso/pgc/diff.py
index 6fa8061..a8e32e8 100644
--- a/lib/daeso/pgc/diff.py
+++ b/lib/daeso/pgc/diff.py
@@ -77,7 +77,7 @@ def pgc_diff(corpus1, corpus2,
         
         for nodes, rel1 in graph_pair1.alignments_iter(relations=relations):
             if ( words_only and
-                 graphs.source.node_node_is_non_terminal(nodes.source) and
+                 graphs.source.node_is_non_terminal(nodes.source) and
                  graphs.target.node_is_non_terminal(nodes.target) ):
                 continue
             
@@ -92,8 +92,8 @@ def pgc_diff(corpus1, corpus2,
             
         for nodes, rel2 in graph_pair2.alignments_iter(relations=relations):
             if ( words_only and
-                 ( graphs.source.node_is_terminal(nodes.source) or
-                   graphs.target.node_is_terminal(nodes.target) )):
+                 graphs.source.node_is_non_terminal(nodes.source) and
+                 graphs.target.node_is_non_terminal(nodes.target) ):
                 continue
             
             if not graph_pair1.get_align(nodes):
-- 
2.43.0


From fcd78eca714cc6e072a1d55e4dbfaed814f33b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 38/91] fix: pgc_diff requires numerical node identifiers

---
 lib/daeso/pgc/diff.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/diff.py b/lib/daeso/pgc/diff.py
index a8e32e8..db99f9e 100644
--- a/lib/daeso/pgc/diff.py
+++ b/lib/daeso/pgc/diff.py
@@ -27,6 +27,8 @@ __authors__ = "Erwin Marsi <e.marsi@gmail.com>"
 # TODO 
 # - a number of things here might be Alpino specific
 
+import re
+
 from sys import stdout
 
 from daeso.pgc.corpus import ParallelGraphCorpus
@@ -131,7 +133,15 @@ def pgc_diff(corpus1, corpus2,
         
         
 def cmp_nodes(nodes1, nodes2):
-    return cmp(int(nodes1.source), int(nodes2.source))
+    return cmp(node_key(nodes1.source), node_key(nodes2.source))
+
+
+def node_key(node):
+    """
+    sort key which orders nodes by the numbers in their identifiers
+    """
+    return [ int(part) if part.isdigit() else part
+             for part in re.split("([0-9]+)", unicode(node)) ]
 
 
 def print_alignments(align_count, title, graph_pair1, graph_pair2, graphs,
-- 
2.43.0


From eadc467e9bd441ec073b6ed6c5c1e671b04f673d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 39/91] fix: pgc_diff fails on non-ASCII labels and nodes
 without begin and end

---
 lib/daeso/pgc/diff.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/lib/daeso/pgc/diff.py b/lib/daeso/pgc/diff.py
index db99f9e..772698b 100644
--- a/lib/daeso/pgc/diff.py
+++ b/lib/daeso/pgc/diff.py
@@ -157,19 +157,17 @@ def print_alignments(align_count, title, graph_pair1, graph_pair2, graphs,
             # tricky because of implicit coercions, 
             # see "Formatting Markers" http://www.python.org/dev/peps/pep-0100/
             print >>out, "#%d:" % align_count 
-            s = '(%s) %s [%s:%s]: "%s"' % (                
+            s = '(%s) %s%s: "%s"' % (                
                 nodes.source,
-                graphs.source.node[nodes.source]["label"].encode("utf-8"),
-                graphs.source.node[nodes.source]["begin"],
-                graphs.source.node[nodes.source]["end"],
+                graphs.source.node[nodes.source]["label"],
+                node_span(graphs.source.node[nodes.source]),
                 graphs.source.get_node_token_string(nodes.source))
             print >>out, s.encode("utf-8")
             print >>out, "<<<", rel1.upper(), "/", rel2.upper(), ">>>"
-            s = '(%s) %s [%s:%s]: "%s"\n' % (
+            s = '(%s) %s%s: "%s"\n' % (
                 nodes.target,
                 graphs.target.node[nodes.target]["label"],
-                graphs.target.node[nodes.target]["begin"],
-                graphs.target.node[nodes.target]["end"],
+                node_span(graphs.target.node[nodes.target]),
                 graphs.target.get_node_token_string(nodes.target))
             print >>out, s.encode("utf-8")
             
@@ -177,6 +175,16 @@ def print_alignments(align_count, title, graph_pair1, graph_pair2, graphs,
         
 
 
+def node_span(attrs):
+    """
+    begin and end position of a node, which are specific to Alpino graphs
+    """
+    if "begin" in attrs and "end" in attrs:
+        return " [%s:%s]" % (attrs["begin"], attrs["end"])
+    else:
+        return ""
+
+
 def print_comments(graph_pair, annot, out, encoding="utf-8"):
     try:
         comment = graph_pair.get_meta_data().find("comment").text
-- 
2.43.0


From dab134cff765d87e9180722349a0bb3f0dfd98f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 40/91] fix: pgc_diff fails on non-ASCII relations

---
 lib/daeso/pgc/diff.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/daeso/pgc/diff.py b/lib/daeso/pgc/diff.py
index 772698b..66baba0 100644
--- a/lib/daeso/pgc/diff.py
+++ b/lib/daeso/pgc/diff.py
@@ -151,8 +151,8 @@ def print_alignments(align_count, title, graph_pair1, graph_pair2, graphs,
         
         for nodes in nodes_list:        
             align_count += 1
-            rel1 = str(graph_pair1.get_align(nodes))
-            rel2 = str(graph_pair2.get_align(nodes))
+            rel1 = unicode(graph_pair1.get_align(nodes))
+            rel2 = unicode(graph_pair2.get_align(nodes))
             
             # tricky because of implicit coercions, 
             # see "Formatting Markers" http://www.python.org/dev/peps/pep-0100/
@@ -163,7 +163,8 @@ def print_alignments(align_count, title, graph_pair1, graph_pair2, graphs,
                 node_span(graphs.source.node[nodes.source]),
                 graphs.source.get_node_token_string(nodes.source))
             print >>out, s.encode("utf-8")
-            print >>out, "<<<", rel1.upper(), "/", rel2.upper(), ">>>"
+            s = "<<< %s / %s >>>" % (rel1.upper(), rel2.upper())
+            print >>out, s.encode("utf-8")
             s = '(%s) %s%s: "%s"\n' % (
                 nodes.target,
                 graphs.target.node[nodes.target]["label"],
-- 
2.43.0


From a6d988c15ef53de0def83927a791db052b19dac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 41/91] fix: pgc_diff fails on empty comments

---
 lib/daeso/pgc/diff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/diff.py b/lib/daeso/pgc/diff.py
index 66baba0..81469be 100644
--- a/lib/daeso/pgc/diff.py
+++ b/lib/daeso/pgc/diff.py
@@ -192,6 +192,6 @@ def print_comments(graph_pair, annot, out, encoding="utf-8"):
     except AttributeError:
         return
     
-    if comment.strip():
+    if comment and comment.strip():
         header("Comments by " + annot, out, char="-")
         print >>out, comment.encode(encoding), "\n"
-- 
2.43.0


From a230815cc6ae9e29f2c90a25b3fb478722d77cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:55 +0000
Subject: [PATCH 42/91] fix: pgc_split yields fewer parts than asked for

---
 bin/pgc_split.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/bin/pgc_split.py b/bin/pgc_split.py
index fc5eaa9..59c6606 100755
--- a/bin/pgc_split.py
+++ b/bin/pgc_split.py
@@ -77,11 +77,15 @@ log("Reading corpus from " + args.filename)
 corpus = ParallelGraphCorpus(inf=args.filename)
 root, ext = os.path.splitext(args.filename)
 
-if not args.size:
-    args.size = int(round(len(corpus) / args.parts + 0.5))
+size = len(corpus)
 
-for i in range(0, len(corpus), args.size): 
-    j = min(i + args.size, len(corpus))
+if args.size:
+    bounds = range(0, size, args.size)
+else:
+    parts = min(args.parts, size)
+    bounds = [i * size // parts for i in range(parts)]
+
+for i, j in zip(bounds, bounds[1:] + [size]):
     part_corpus = corpus[i:j]
     part_filename = "{0}_{1:04d}-{2:04d}{3}".format(root, i + 1, j, ext)
     log("Writing corpus part " + part_filename)
-- 
2.43.0


From 943f00868f8cb4ed1af0d5d67fc91813c0759844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:30 +0000
Subject: [PATCH 43/91] fix: pgc_chdir changes elements inside meta-data

---
 bin/pgc_chdir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/pgc_chdir.py b/bin/pgc_chdir.py
index 7f509bb..3a11d96 100755
--- a/bin/pgc_chdir.py
+++ b/bin/pgc_chdir.py
@@ -85,7 +85,7 @@ for fn in args.corpus:
     # because of all the overhead of reading the treebanks etc.
     tree = ElementTree(file=fn)
         
-    for file_el in tree.findall("//file"):
+    for file_el in tree.findall("graphbanks/file"):
         from_path, to_path = args.path_prefix_pair
         
         if file_el.text.startswith(from_path):
-- 
2.43.0


From 6211a4180d36f320bb049d5812da5d16ccb607c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:30 +0000
Subject: [PATCH 44/91] fix: pgc_zip stores files twice, under other names or
 mixed up

---
 bin/pgc_zip.py | 41 ++++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/bin/pgc_zip.py b/bin/pgc_zip.py
index aed0d4e..6756e85 100755
--- a/bin/pgc_zip.py
+++ b/bin/pgc_zip.py
@@ -41,31 +41,42 @@ __authors__ = 'Erwin Marsi <e.marsi@gmail.com>'
 import os
 import zipfile
 
+from xml.etree.cElementTree import ElementTree
 
 from daeso.utils.cli import DaesoArgParser
 from daeso.utils.opsys import multiglob
-from daeso.pgc.corpus import ParallelGraphCorpus, LOAD_NONE
 
 
 def pgc_zip(zip_filename, pgc_filenames):
-    zip_arch = zipfile.ZipFile(zip_filename, "w")
     arch_dir = os.path.splitext( os.path.basename(zip_filename))[0]
+    # map of filenames in archive to original filenames
+    members = {}
     
-    for corpus_filename in multiglob(pgc_filenames):
-        # add corpus to archive
+    def add(filename):
         arch_filename = os.path.join( arch_dir,
-                                      os.path.basename(corpus_filename) )
-        zip_arch.write(corpus_filename, arch_filename)
+                                      os.path.basename(filename) )
+        original = members.setdefault(arch_filename, filename)
+        
+        if not os.path.samefile(original, filename):
+            # all files are stored in the same directory 
+            raise SystemExit("error: cannot store both %s and %s" % (
+                original, filename))
+    
+    for corpus_filename in multiglob(pgc_filenames):
+        add(corpus_filename)
         
-        corpus = ParallelGraphCorpus(inf=corpus_filename,
-                                     graph_loading=LOAD_NONE)
-
-        for gb in corpus._graphbanks():
-            gb_filename = gb.get_file_path()
-            # add graphbank files to archive
-            arch_filename = os.path.join( arch_dir,
-                                          os.path.basename(gb_filename) )
-            zip_arch.write(gb_filename, arch_filename)
+        tree = ElementTree(file=corpus_filename)
+        corpus_dir = os.path.dirname(corpus_filename)
+
+        for file_el in tree.findall("graphbanks/file"):
+            # add graphbank files to archive under the names in the corpus,
+            # even if these are symbolic links
+            add(os.path.join(corpus_dir, file_el.text.strip()))
+            
+    zip_arch = zipfile.ZipFile(zip_filename, "w")
+    
+    for arch_filename, filename in sorted(members.items()):
+        zip_arch.write(filename, arch_filename)
             
     zip_arch.close()
     
-- 
2.43.0


From c44531021f59901dd79239fd44aaf6e000352906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:58 +0000
Subject: [PATCH 45/91] fix: waterman_eggert ignores a limit of zero

---
 lib/daeso/string/waterman_eggert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/string/waterman_eggert.py b/lib/daeso/string/waterman_eggert.py
index 137f2a2..20639c8 100644
--- a/lib/daeso/string/waterman_eggert.py
+++ b/lib/daeso/string/waterman_eggert.py
@@ -89,7 +89,7 @@ def waterman_eggert(seq1, seq2, sim_score, gap_cost, limit=None):
     all_scores = []
     all_alignments = []
     
-    while not limit or len(all_alignments) < limit:
+    while limit is None or len(all_alignments) < limit:
         # find highest score
         best_score, best_pair = find_best_score(seq1, seq2, scores)
         
-- 
2.43.0


From 5f1d305bae4d337a77331f1210455073c9cee1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:39 +0000
Subject: [PATCH 46/91] fix: mark every element in an ignored subtree as
 ignored, also without children

---
 lib/daeso/ptc/ielemtree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/ptc/ielemtree.py b/lib/daeso/ptc/ielemtree.py
index 47fee79..e676a2b 100644
--- a/lib/daeso/ptc/ielemtree.py
+++ b/lib/daeso/ptc/ielemtree.py
@@ -98,8 +98,9 @@ class IndexElemTree(ElementTree):
         elem.set("_alignments", [])
         
         if ignore or elem.tag in self.ignoreTags: 
+            elem.set("_ignore", "true")
+            
             for child in elem.getchildren():
-                elem.set("_ignore", "true")
                 self.index_elem(child, ignore=True)
                 
             text = ""
-- 
2.43.0


From 4805d9a41e56aa84146c5e6074fcdae5de34acfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:39 +0000
Subject: [PATCH 47/91] fix: forget positions and ignore marks of earlier
 render settings

---
 lib/daeso/ptc/ielemtree.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/daeso/ptc/ielemtree.py b/lib/daeso/ptc/ielemtree.py
index e676a2b..82ec0f6 100644
--- a/lib/daeso/ptc/ielemtree.py
+++ b/lib/daeso/ptc/ielemtree.py
@@ -97,6 +97,10 @@ class IndexElemTree(ElementTree):
         # it may be better to create this attribute on the fly
         elem.set("_alignments", [])
         
+        # remove what an earlier update under other render settings has left
+        for attr in ("_ignore", "_start", "_end"):
+            elem.attrib.pop(attr, None)
+        
         if ignore or elem.tag in self.ignoreTags: 
             elem.set("_ignore", "true")
             
-- 
2.43.0


From 3d9bde46ace0be3c839948abad331e1ac02e3324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:39 +0000
Subject: [PATCH 48/91] fix: file name of a Hitaext document that has none yet

---
 lib/daeso/ptc/document.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/ptc/document.py b/lib/daeso/ptc/document.py
index 3296cdb..35ce0d6 100644
--- a/lib/daeso/ptc/document.py
+++ b/lib/daeso/ptc/document.py
@@ -86,7 +86,7 @@ class HitaextDoc(ElementTree):
         
         
     def get_filename(self, side, search=False):
-        fn = self.find('/%s/filename' % side).text.strip()
+        fn = (self.find('/%s/filename' % side).text or "").strip()
         
         # this still won't work with a windows path
         if search:
-- 
2.43.0


From 2dc98a06ca8f194a85846fabb4194c6b8b9a59a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:39 +0000
Subject: [PATCH 49/91] fix: search the document file, not the Hitaext file,
 beside the Hitaext document

---
 lib/daeso/ptc/document.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/ptc/document.py b/lib/daeso/ptc/document.py
index 35ce0d6..81a4074 100644
--- a/lib/daeso/ptc/document.py
+++ b/lib/daeso/ptc/document.py
@@ -95,7 +95,7 @@ class HitaextDoc(ElementTree):
                 # relative path
                 join(dirname(self.filename), fn),
                 # ignore path, just search in same dir as hitaext document
-                join(dirname(self.filename), basename(self.filename)) 
+                join(dirname(self.filename), basename(fn)) 
             ):
                 if exists(p):
                     return p
-- 
2.43.0


From 6f56c7da6e78aa0ef58dd3a843b413655a932646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:39 +0000
Subject: [PATCH 50/91] fix: close the file a Hitaext document is written to

---
 lib/daeso/ptc/document.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/daeso/ptc/document.py b/lib/daeso/ptc/document.py
index 81a4074..871a93c 100644
--- a/lib/daeso/ptc/document.py
+++ b/lib/daeso/ptc/document.py
@@ -175,9 +175,16 @@ class HitaextDoc(ElementTree):
         # ElementTree.write does not write the XML header
         # if the encoding is utf-8
         if not hasattr(file, "write"):
-            file = open(file, "w")
-        print >>file, '<?xml version="1.0" encoding="utf-8"?>'
-        ElementTree.write(self, file, "utf-8")
+            stream = open(file, "w")
+        else:
+            stream = file
+            
+        try:
+            print >>stream, '<?xml version="1.0" encoding="utf-8"?>'
+            ElementTree.write(self, stream, "utf-8")
+        finally:
+            if stream is not file:
+                stream.close()
     
     #===============================================================================
     # document tree methods
-- 
2.43.0


From 1d0420f1d7ae3fcf19b2b9dc524c6b3f4cc1cb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:39 +0000
Subject: [PATCH 51/91] fix: change directory of file names of a single
 character

---
 bin/ptc_chdir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/ptc_chdir.py b/bin/ptc_chdir.py
index 27f7565..1ef12ae 100755
--- a/bin/ptc_chdir.py
+++ b/bin/ptc_chdir.py
@@ -81,7 +81,7 @@ for fn in args.corpus:
             print >>stderr, "Current %s path is %s" %  (side, path)
         
         # a heuristic to deal with windows paths        
-        if path[0] in uppercase and path[1] == ":":
+        if path[0] in uppercase and path[1:2] == ":":
             # strip drive letter
             path = path[2:]
         path = path.replace("\\", "/")
-- 
2.43.0


From d6309dedf1af1d4ad3971febcc3288ec904c30ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:42 +0000
Subject: [PATCH 52/91] fix: ptc_n_to_id passes its list of files as a single
 file

---
 bin/ptc_n_to_id.py | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/bin/ptc_n_to_id.py b/bin/ptc_n_to_id.py
index ef44119..e33683b 100644
--- a/bin/ptc_n_to_id.py
+++ b/bin/ptc_n_to_id.py
@@ -53,25 +53,26 @@ parser.add_argument(
 
 args = parser.parse_args()
 
-if args.verbose:
-    print >>stderr, "Reading corpus from", args.corpus
+for fn in args.corpus:
+    if args.verbose:
+        print >>stderr, "Reading corpus from", fn
+        
+    corpus = HitaextDoc(file=fn)
     
-corpus = HitaextDoc(file=args.corpus)
-
-from_tree = corpus.get_doc_tree("from")
-to_tree = corpus.get_doc_tree("to")
-
-from_tree.update()
-to_tree.update()
-
-corpus.inject_alignments(from_tree, to_tree)
-
-corpus.alignment.set("method", "id")
-
-corpus.extract_alignments(from_tree, to_tree)
-
-if args.verbose:
-    print >>stderr, "Writing corpus to", args.corpus
+    from_tree = corpus.get_doc_tree("from")
+    to_tree = corpus.get_doc_tree("to")
+    
+    from_tree.update()
+    to_tree.update()
+    
+    corpus.inject_alignments(from_tree, to_tree)
+    
+    corpus.alignment.set("method", "id")
+    
+    corpus.extract_alignments(from_tree, to_tree)
     
-corpus.write(args.corpus)
+    if args.verbose:
+        print >>stderr, "Writing corpus to", fn
+        
+    corpus.write(fn)
 
-- 
2.43.0


From 0eda8f08402c5ad5deb8b87fdc4a1595cc203abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:08 +0000
Subject: [PATCH 53/91] fix: evaluation of text alignments by number takes all
 links for the same

---
 lib/daeso/ptc/evaluate.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/ptc/evaluate.py b/lib/daeso/ptc/evaluate.py
index 0e5c4f2..269d906 100644
--- a/lib/daeso/ptc/evaluate.py
+++ b/lib/daeso/ptc/evaluate.py
@@ -91,9 +91,13 @@ def get_alignment(corpus, tag):
     for link_elem in corpus.get_alignments():
         if ( link_elem.get('from_tag') == tag and 
              link_elem.get('to_tag') == tag ):
+            # elements are identified by either "id" or "n",
+            # depending on the alignment method
             alignments.add((
                 link_elem.get('from_id'),
-                link_elem.get('to_id')))
+                link_elem.get('to_id'),
+                link_elem.get('from_n'),
+                link_elem.get('to_n')))
             
     return alignments
 
-- 
2.43.0


From a38c5e3a580f32f84121c92fd443e0f7f4029688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:08 +0000
Subject: [PATCH 54/91] fix: diff of text alignments takes all elements without
 id for the same

---
 lib/daeso/ptc/diff.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/ptc/diff.py b/lib/daeso/ptc/diff.py
index d668866..f86220d 100644
--- a/lib/daeso/ptc/diff.py
+++ b/lib/daeso/ptc/diff.py
@@ -56,7 +56,7 @@ def print_diff(true_corpus, pred_corpus, tag, encoding="utf-8"):
         for true_to_elem in true_from_elem.get("_alignments"):
 
             for pred_to_elem in pred_from_elem.get("_alignments"):
-                if true_to_elem.get("id") == pred_to_elem.get("id"):
+                if is_same_elem(true_to_elem, pred_to_elem):
                     # same alignment
                     break
             else:
@@ -72,7 +72,7 @@ def print_diff(true_corpus, pred_corpus, tag, encoding="utf-8"):
         for pred_to_elem in pred_from_elem.get("_alignments"):
 
             for true_to_elem in true_from_elem.get("_alignments"):
-                if true_to_elem.get("id") == pred_to_elem.get("id"):
+                if is_same_elem(true_to_elem, pred_to_elem):
                     # same alignment
                     break
             else:
@@ -86,6 +86,11 @@ def print_diff(true_corpus, pred_corpus, tag, encoding="utf-8"):
                 print
                 
     
+def is_same_elem(true_elem, pred_elem):
+    # "id" attributes are optional, and need not differ between tags
+    return ( true_elem.tag == pred_elem.tag and
+             true_elem.get("_n") == pred_elem.get("_n") )
+
     
 def read_corpus(corpus): 
     if not isinstance(corpus, HitaextDoc):
-- 
2.43.0


From 5067d505a89da5c8ea1dc942763e3931de819f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:08 +0000
Subject: [PATCH 55/91] fix: diff of text alignments for a tag that the
 document does not have

---
 lib/daeso/ptc/diff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/ptc/diff.py b/lib/daeso/ptc/diff.py
index f86220d..bef810d 100644
--- a/lib/daeso/ptc/diff.py
+++ b/lib/daeso/ptc/diff.py
@@ -50,8 +50,8 @@ def print_diff(true_corpus, pred_corpus, tag, encoding="utf-8"):
     count = 0
     
     for true_from_elem, pred_from_elem in zip(
-        true_from_tree.tagCountTable[tag],
-        pred_from_tree.tagCountTable[tag]):
+        true_from_tree.tagCountTable.get(tag, []),
+        pred_from_tree.tagCountTable.get(tag, [])):
         
         for true_to_elem in true_from_elem.get("_alignments"):
 
-- 
2.43.0


From 3e115fc301a58e03c845c6fb574fffefd5d416a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:13 +0000
Subject: [PATCH 56/91] fix: preprocessing for text alignment does not remove
 punctuation

---
 lib/daeso/ptc/textalign.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/ptc/textalign.py b/lib/daeso/ptc/textalign.py
index a53e686..27d61be 100644
--- a/lib/daeso/ptc/textalign.py
+++ b/lib/daeso/ptc/textalign.py
@@ -322,7 +322,7 @@ def preproc_word_n_gram_factory(n):
         # but does not return the tokens lower cased!!!
         text = [ token.lower()
                  for token in text.split()
-                 if text not in string.punctuation ]
+                 if token not in string.punctuation ]
         return n_gram_strings(text, n)
     
     func.__name__ = "preproc_word_%d_gram" % n
-- 
2.43.0


From c75b96604f966d0af91f43771f94a1bd521cbc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:13 +0000
Subject: [PATCH 57/91] fix: preprocessed character n-grams are word n-grams

---
 lib/daeso/ptc/textalign.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/ptc/textalign.py b/lib/daeso/ptc/textalign.py
index 27d61be..0fd0535 100644
--- a/lib/daeso/ptc/textalign.py
+++ b/lib/daeso/ptc/textalign.py
@@ -349,7 +349,7 @@ def preproc_char_n_gram_factory(n):
         text = remove_stopwords(text.lower().split(), 
                                 ignore_case=True, 
                                 remove_punc=True)
-        return n_gram_strings(list(text), n)
+        return n_gram_strings(list(" ".join(text)), n)
     
     func.__name__ = "preproc_char_%d_gram" % n
     return func
-- 
2.43.0


From dd2bb0e671477bc78f03675156e8d5a07d3985c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:13 +0000
Subject: [PATCH 58/91] fix: text alignment with given document trees ignores
 the alignments of the corpus

---
 lib/daeso/ptc/textalign.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/daeso/ptc/textalign.py b/lib/daeso/ptc/textalign.py
index 0fd0535..6e01a06 100644
--- a/lib/daeso/ptc/textalign.py
+++ b/lib/daeso/ptc/textalign.py
@@ -103,10 +103,16 @@ class TextAlignerBase(object):
                 get_doc_tree(corpus, "from", self.ignore_tags.source),
                 get_doc_tree(corpus, "to", self.ignore_tags.target))
             
-            # copy alignments from <aligment> section in corpus
-            # to "_alignments" attribute on elements
-            corpus.inject_alignments(doc_trees.source, 
-                                     doc_trees.target)
+        else:
+            # remove alignments left by earlier use of the document trees
+            for doc_tree in doc_trees:
+                for elem in doc_tree.getiterator():
+                    elem.set("_alignments", [])
+        
+        # copy alignments from <aligment> section in corpus
+        # to "_alignments" attribute on elements
+        corpus.inject_alignments(doc_trees.source, 
+                                 doc_trees.target)
         
         if self.scope_tags:
             scope_tags = self.scope_tags
-- 
2.43.0


From f42ca0c14f8a60e64c5293f58ff7271434069950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:26 +0000
Subject: [PATCH 59/91] fix: pgc_stats fails on an option type given by name

---
 bin/pgc_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/pgc_stats.py b/bin/pgc_stats.py
index 9f58b45..02c200c 100755
--- a/bin/pgc_stats.py
+++ b/bin/pgc_stats.py
@@ -91,7 +91,7 @@ parser.add_argument(
 
 parser.add_argument(
     "-t", "--token_diff_threshold", 
-    type="int", 
+    type=int, 
     metavar="THRESHOLD",
     default=0, dest="threshold", 
     help="exclude graph pairs with a token difference below the threshold")
-- 
2.43.0


From 4c7e352ef8563b98823459e0f0acfab924cd9497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:26 +0000
Subject: [PATCH 60/91] fix: reading statistics of files with white space in
 their name

---
 lib/daeso/stats/table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/stats/table.py b/lib/daeso/stats/table.py
index 7923f93..37ebd5b 100644
--- a/lib/daeso/stats/table.py
+++ b/lib/daeso/stats/table.py
@@ -172,7 +172,8 @@ class StatsTable(OrderedDict):
                     continue            
             elif sep_count == 1:
                 # read body
-                value_row = l.strip().split()
+                # only the first column may contain white space
+                value_row = l.strip().rsplit(None, len(self) - 1)
                 
                 for col, val in zip(self.values(), value_row):
                     if col.type == "string":
-- 
2.43.0


From d9e7e25c694aaef9041f58c0631abadd094bcfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:26 +0000
Subject: [PATCH 61/91] fix: width and precision of a statistics column are
 ignored

---
 lib/daeso/stats/table.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/stats/table.py b/lib/daeso/stats/table.py
index 37ebd5b..1bed41e 100644
--- a/lib/daeso/stats/table.py
+++ b/lib/daeso/stats/table.py
@@ -39,8 +39,8 @@ class Column(list):
         self.type = type
         self.descr = descr
         self.overall = overall
-        self.width = 8
-        self.prec = 2
+        self.width = width
+        self.prec = prec
         
         if size:
             self.grow(size)
-- 
2.43.0


From 67ecbf493dce6c670aa86b85023343c8cb2dddc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:26 +0000
Subject: [PATCH 62/91] fix: close statistics tables before they are read again

---
 lib/daeso/stats/corpus.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/stats/corpus.py b/lib/daeso/stats/corpus.py
index 141cde1..6164c8f 100644
--- a/lib/daeso/stats/corpus.py
+++ b/lib/daeso/stats/corpus.py
@@ -170,4 +170,9 @@ def write_table(table, fn, verbose=True):
     """
     if not table.is_empty():
         if verbose: print "Writing table", fn
-        table.write(out=file(fn, "w"))
\ No newline at end of file
+        out = file(fn, "w")
+        
+        try:
+            table.write(out=out)
+        finally:
+            out.close()
-- 
2.43.0


From e927fad4d7180fbb2462b9a1d2d3dd2574f81c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:26 +0000
Subject: [PATCH 63/91] fix: graph bank statistics count failed parses of
 graphs that are not counted

---
 lib/daeso/gb/gbstats.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/lib/daeso/gb/gbstats.py b/lib/daeso/gb/gbstats.py
index 10b0109..f8d2924 100644
--- a/lib/daeso/gb/gbstats.py
+++ b/lib/daeso/gb/gbstats.py
@@ -134,11 +134,10 @@ def graph_stats(gb,
     gb_table["BANK"][i] = name
 
     for graph in gb:                                   
-        if graph.is_failed_parse():
-            if with_failed_parses:
-                gb_table["CGFP"][i] += 1
-            else:
-                continue
+        found_failed_parse = graph.is_failed_parse()
+        
+        if found_failed_parse and not with_failed_parses:
+            continue
         
         if not root_aligned(graph):
             if with_unaligned_roots:
@@ -163,6 +162,11 @@ def graph_stats(gb,
             else:
                 gb_table["CGMA"][i] += 1
         
+        if found_failed_parse:
+            # counted here, because the graph might be discarded for other
+            # reasons
+            gb_table["CGFP"][i] += 1
+            
         gb_table["CG"][i] += 1
         gb_table["CT"][i] += count_tokens(graph, with_punc)
         
-- 
2.43.0


From 807bbc3c74f3f1a7dd7592c94fe74dc528ae0b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:23 +0000
Subject: [PATCH 64/91] fix: pgc_extract_phrases fails on a delimiter outside
 ASCII

---
 bin/pgc_extract_phrases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/pgc_extract_phrases.py b/bin/pgc_extract_phrases.py
index 08d522c..2b91061 100755
--- a/bin/pgc_extract_phrases.py
+++ b/bin/pgc_extract_phrases.py
@@ -91,4 +91,4 @@ parser.add_argument(
 args = parser.parse_args()          
 
 for fn in args.corpus:
-    extract_phrases(fn, args.delimiter, args.verbose)
\ No newline at end of file
+    extract_phrases(fn, args.delimiter.decode("utf-8"), args.verbose)
\ No newline at end of file
-- 
2.43.0


From 5d84d59ef752ef30b0c5a08d5aa4fc6016b5f545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:25 +0000
Subject: [PATCH 65/91] fix: makedirs hides that a directory could not be made

---
 lib/daeso/utils/opsys.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/daeso/utils/opsys.py b/lib/daeso/utils/opsys.py
index 0e70905..c454467 100644
--- a/lib/daeso/utils/opsys.py
+++ b/lib/daeso/utils/opsys.py
@@ -35,10 +35,10 @@ def makedirs(path, mode=0777):
     """
     try:
         os.makedirs(path, mode)
-    except OSError, inst:
-        if inst.errno == 17:
-            # dir already exists
-            pass
+    except OSError:
+        # fine if dir already exists
+        if not os.path.isdir(path):
+            raise
         
         
 def glob(pattern):
-- 
2.43.0


From 5c1b10a27db1b3b123073c3865801bec8589912d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:08 +0000
Subject: [PATCH 66/91] fix: cache loops forever once an object that was
 replaced must be evicted

---
 lib/daeso/thirdparty/GenericCache/GenericCache.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/thirdparty/GenericCache/GenericCache.py b/lib/daeso/thirdparty/GenericCache/GenericCache.py
index d991323..45e9dd8 100644
--- a/lib/daeso/thirdparty/GenericCache/GenericCache.py
+++ b/lib/daeso/thirdparty/GenericCache/GenericCache.py
@@ -154,7 +154,8 @@ class GenericCache(dict):
         
         node.__cache_timestamp = time.time()
         self.values[node] = node
-        self.lru.add(node)
+        # the key may have been used before
+        self.lru.update(node)
 
     @synchronized
     def clear(self):
-- 
2.43.0


From 6ffa9eddeb0b0621d4d1aef34796d9bfb362c4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:19 +0000
Subject: [PATCH 67/91] fix: cache with default_fail raises KeyError instead of
 calling the generator

---
 lib/daeso/thirdparty/GenericCache/GenericCache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/thirdparty/GenericCache/GenericCache.py b/lib/daeso/thirdparty/GenericCache/GenericCache.py
index 45e9dd8..0269c7c 100644
--- a/lib/daeso/thirdparty/GenericCache/GenericCache.py
+++ b/lib/daeso/thirdparty/GenericCache/GenericCache.py
@@ -107,7 +107,7 @@ class GenericCache(dict):
         """
         Fetch key, calling generator to build if it doesn't exist
         """
-        res = self.fetch(key, onmissing = _marker)
+        res = self.fetch(key, fail = False, onmissing = _marker)
         if res is _marker:
             res = generator(*args, **kwargs)
             self[key] = res
-- 
2.43.0


From fccb8b8ffb6d3d86a709baf6826c4d96f9d10e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:39 +0000
Subject: [PATCH 68/91] fix: cache does not see that it has a key that is no
 string, and evicts another object

---
 lib/daeso/thirdparty/GenericCache/GenericCache.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/thirdparty/GenericCache/GenericCache.py b/lib/daeso/thirdparty/GenericCache/GenericCache.py
index 0269c7c..7f57f53 100644
--- a/lib/daeso/thirdparty/GenericCache/GenericCache.py
+++ b/lib/daeso/thirdparty/GenericCache/GenericCache.py
@@ -200,6 +200,7 @@ class GenericCache(dict):
         """
         Do we have such key ?
         """
-        return self.values.has_key(key)
+        # keys are converted into strings
+        return self.values.has_key(str(key))
     __contains__ = has_key
 
-- 
2.43.0


From 3b0dcb61fb78513a3025eed70bd54376d0f6ec62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:17 +0000
Subject: [PATCH 69/91] fix: purging a graph pair without alignments purges the
 whole corpus instead

---
 lib/daeso/pgc/corpus.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 64df59e..f626c2b 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -568,7 +568,8 @@ class ParallelGraphCorpus(list):
         # (difference between source and target banks is irelevant)
         old2new = {}
         
-        if graph_pair:
+        # a graph pair without aligned nodes is false
+        if graph_pair is not None:
             to_purge = [graph_pair]
         else:
             to_purge = self
-- 
2.43.0


From c63e3d159ead9ba20aa2fb7519ce5e1265982f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:07 +0000
Subject: [PATCH 70/91] fix: an empty argument raises IndexError when arguments
 may be read from files

---
 lib/daeso/thirdparty/argparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/thirdparty/argparse.py b/lib/daeso/thirdparty/argparse.py
index 29963a2..20012e3 100644
--- a/lib/daeso/thirdparty/argparse.py
+++ b/lib/daeso/thirdparty/argparse.py
@@ -1930,7 +1930,7 @@ class ArgumentParser(_AttributeHolder, _ActionsContainer):
         for arg_string in arg_strings:
 
             # for regular arguments, just add them back into the list
-            if arg_string[0] not in self.fromfile_prefix_chars:
+            if not arg_string or arg_string[0] not in self.fromfile_prefix_chars:
                 new_arg_strings.append(arg_string)
 
             # replace arguments referencing files with the file content
-- 
2.43.0


From 55ba35277d952172308876bfb0beab82f6209d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:24 +0000
Subject: [PATCH 71/91] fix: --opt=value is called ambiguous when another
 option begins with --opt

---
 lib/daeso/thirdparty/argparse.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/daeso/thirdparty/argparse.py b/lib/daeso/thirdparty/argparse.py
index 20012e3..777337f 100644
--- a/lib/daeso/thirdparty/argparse.py
+++ b/lib/daeso/thirdparty/argparse.py
@@ -2003,6 +2003,13 @@ class ArgumentParser(_AttributeHolder, _ActionsContainer):
             action = self._option_string_actions[arg_string]
             return action, arg_string, None
 
+        # likewise for a long option joined to its argument by "="
+        if '=' in arg_string and arg_string[1] in self.prefix_chars:
+            option_string, explicit_arg = arg_string.split('=', 1)
+            if option_string in self._option_string_actions:
+                action = self._option_string_actions[option_string]
+                return action, option_string, explicit_arg
+
         # search through all possible prefixes of the option string
         # and all actions in the parser for possible interpretations
         option_tuples = self._get_option_tuples(arg_string)
-- 
2.43.0


From 123ef8e16aa2d521ae4d57c93b14af402b52097f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:41 +0000
Subject: [PATCH 72/91] fix: an unknown option with a digit is taken for a
 negative number

---
 lib/daeso/thirdparty/argparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/thirdparty/argparse.py b/lib/daeso/thirdparty/argparse.py
index 777337f..87e7dd4 100644
--- a/lib/daeso/thirdparty/argparse.py
+++ b/lib/daeso/thirdparty/argparse.py
@@ -1203,7 +1203,7 @@ class _ActionsContainer(object):
         self._defaults = {}
 
         # determines whether an "option" looks like a negative number
-        self._negative_number_matcher = _re.compile(r'^-\d+|-\d*.\d+$')
+        self._negative_number_matcher = _re.compile(r'^-\d+$|^-\d*\.\d+$')
 
         # whether or not there are any optionals that look like negative
         # numbers -- uses a list so it can be shared and edited
-- 
2.43.0


From 97e2862cb216b03cb335c64c7e9353763c18dce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:39 +0000
Subject: [PATCH 73/91] fix: DaesoArgParser ignores the formatter class it is
 given

---
 lib/daeso/utils/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/utils/cli.py b/lib/daeso/utils/cli.py
index 7807912..b0281df 100644
--- a/lib/daeso/utils/cli.py
+++ b/lib/daeso/utils/cli.py
@@ -40,7 +40,7 @@ class DaesoArgParser(ArgumentParser):
                  *args, 
                  **kwargs):
         ArgumentParser.__init__(self, *args,
-                                formatter_class=RawDescriptionHelpFormatter, 
+                                formatter_class=formatter_class, 
                                 epilog=epilog, 
                                 version=version,
                                 **kwargs)
-- 
2.43.0


From 74a0598455ce2de888c0e65871ffed6d7519bf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:05 +0000
Subject: [PATCH 74/91] fix: setting the relations of a corpus sorts and keeps
 the caller's list

---
 lib/daeso/pgc/corpus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index f626c2b..70ef1be 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -429,8 +429,8 @@ class ParallelGraphCorpus(list):
 
         
     def set_relations(self, relations=None):
-        self._relations = relations or []
-        self._relations.sort()
+        # a list of its own, leaving that of the caller as it is
+        self._relations = sorted(relations or [])
 
     
     def append(self, graph_pair):
-- 
2.43.0


From da8e3daec94f2c913132279996b0896245542177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:32 +0000
Subject: [PATCH 75/91] fix: printing scores or alignment of an empty sequence
 raises ValueError

---
 lib/daeso/string/needleman_wunsch.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/daeso/string/needleman_wunsch.py b/lib/daeso/string/needleman_wunsch.py
index 081022c..7678081 100644
--- a/lib/daeso/string/needleman_wunsch.py
+++ b/lib/daeso/string/needleman_wunsch.py
@@ -119,9 +119,9 @@ def needleman_wunsch(seq1, seq2, sim_score, gap_cost):
 def print_scores(seq1, seq2, scores, stdout=sys.stdout, 
                  header="SCORE MATRIX\n\n", trailer="\n\n"):
     space1a = len(str(len(seq1))) + 1
-    space1b = max([len(str(e)) for e in seq1]) + 1
+    space1b = max([len(str(e)) for e in seq1] or [0]) + 1
     space1 = space1a + space1b
-    space2 = max([len(str(e)) for e in seq2]) + 1
+    space2 = max([len(str(e)) for e in seq2] or [0]) + 1
     space2 = max(space2, 7)
     
     stdout.write(header)      
@@ -157,9 +157,9 @@ def print_scores(seq1, seq2, scores, stdout=sys.stdout,
 def print_alignment(seq1, seq2, alignment, stdout=sys.stdout, 
                     header="ALIGNMENT\n\n", trailer="\n\n"):
     space1a = len(str(len(seq1))) + 1
-    space1b = max([len(str(e)) for e in seq1]) + 1
+    space1b = max([len(str(e)) for e in seq1] or [0]) + 1
     space1 = space1a + space1b
-    space2 = max([len(str(e)) for e in seq2]) + 1
+    space2 = max([len(str(e)) for e in seq2] or [0]) + 1
     space2 = max(space2, len(str(len(seq2))) + 1)
     
     stdout.write(header)      
-- 
2.43.0


From 59020131190a3651cdc4e40734d91bb4b4ec609c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:32 +0000
Subject: [PATCH 76/91] fix: printing a matrix with zero or negative values
 raises ValueError

---
 lib/daeso/thirdparty/munkres.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/daeso/thirdparty/munkres.py b/lib/daeso/thirdparty/munkres.py
index a130aff..288f5d8 100644
--- a/lib/daeso/thirdparty/munkres.py
+++ b/lib/daeso/thirdparty/munkres.py
@@ -735,8 +735,6 @@ def print_matrix(matrix, msg=None):
         msg : str
             Optional message to print before displaying the matrix
     """
-    import math
-
     if msg is not None:
         print msg
 
@@ -744,7 +742,7 @@ def print_matrix(matrix, msg=None):
     width = 0
     for row in matrix:
         for val in row:
-            width = max(width, int(math.log10(val)) + 1)
+            width = max(width, len('%d' % val))
 
     # Make the format string
     format = '%%%dd' % width
-- 
2.43.0


From d37ca9cde6eac6657a9cf60c6acd9ace4499bd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:54 +0000
Subject: [PATCH 77/91] fix: padding unicode strings, and so their n-grams,
 raises TypeError

---
 lib/daeso/string/ngram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/string/ngram.py b/lib/daeso/string/ngram.py
index 9bc5970..654d715 100644
--- a/lib/daeso/string/ngram.py
+++ b/lib/daeso/string/ngram.py
@@ -82,7 +82,7 @@ def pad(tokens, pad_size, pad_string="_"):
     """
     if type(tokens) == type(tuple()):
         return pad_size * (pad_string,) + tokens + pad_size * (pad_string,)
-    elif type(tokens) == type(""):
+    elif isinstance(tokens, basestring):
         return pad_size * pad_string + tokens + pad_size * pad_string
     else:
         return pad_size * [pad_string] + tokens + pad_size * [pad_string]
-- 
2.43.0


From 3e265c6947ee9cc3a8990140ea74a98be9f5ec59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:54 +0000
Subject: [PATCH 78/91] fix: longest common subsequence of unicode strings is a
 list

---
 lib/daeso/string/lcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/string/lcs.py b/lib/daeso/string/lcs.py
index 475f7c0..aa1ed5d 100644
--- a/lib/daeso/string/lcs.py
+++ b/lib/daeso/string/lcs.py
@@ -75,7 +75,7 @@ def longest_common_subsequence(seq1, seq2):
     LCS.reverse()
     
     # output same type as input seq
-    if type(seq1) == type(seq2) == type(""):
+    if isinstance(seq1, basestring) and isinstance(seq2, basestring):
         return "".join(LCS)
     elif type(seq1) == type(seq2) == type(()):
         return tuple(LCS)
-- 
2.43.0


From 49556357c102ffca210ea09bcbc4e5854dcc7882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:54 +0000
Subject: [PATCH 79/91] fix: ROUGE-SU of lists of tokens raises TypeError

---
 lib/daeso/string/rouge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/string/rouge.py b/lib/daeso/string/rouge.py
index f0f0850..011c175 100644
--- a/lib/daeso/string/rouge.py
+++ b/lib/daeso/string/rouge.py
@@ -160,5 +160,5 @@ def rouge_su(tokens1, tokens2, distance_limit=sys.maxint,
     # "We can also obtain ROUGE-SU from ROUGE-S by adding a begin-of-sentence marker
     # at the beginning of candidate and reference sentences."
     # Note however that distance_limit may interfere with this trick!
-    return rouge_s((marker,) + tokens1, (marker,) + tokens2,
+    return rouge_s((marker,) + tuple(tokens1), (marker,) + tuple(tokens2),
                    distance_limit, beta)
-- 
2.43.0


From 75b66779a6b388173134db10d04efafc32018357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:18 +0000
Subject: [PATCH 80/91] fix: automatic alignment without scope drops the links
 of the source root

---
 lib/daeso/ptc/textalign.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/ptc/textalign.py b/lib/daeso/ptc/textalign.py
index 6e01a06..2be9826 100644
--- a/lib/daeso/ptc/textalign.py
+++ b/lib/daeso/ptc/textalign.py
@@ -122,7 +122,9 @@ class TextAlignerBase(object):
             source_root = doc_trees.source.getroot()
             target_root = doc_trees.target.getroot()
             scope_tags = Pair([source_root.tag], [target_root.tag])
-            source_root.set("_alignments", [target_root])
+            
+            if target_root not in source_root.get("_alignments"):
+                source_root.get("_alignments").append(target_root)
             
         # TODO: semantics not entirely clear. 
         # - what happens if scope tags are embedded?
-- 
2.43.0


From 89800224af0d380c0f9e1537a2e6bb111dbb9124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:27 +0000
Subject: [PATCH 81/91] fix: ptc_diff fails on identifiers with non-ASCII
 characters

---
 lib/daeso/ptc/diff.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/ptc/diff.py b/lib/daeso/ptc/diff.py
index bef810d..a240bbc 100644
--- a/lib/daeso/ptc/diff.py
+++ b/lib/daeso/ptc/diff.py
@@ -61,10 +61,12 @@ def print_diff(true_corpus, pred_corpus, tag, encoding="utf-8"):
                     break
             else:
                 count += 1
-                print "#%d true only (%s, %s):" % (
+                # identifiers may contain any character, as texts do
+                header = u"#%d true only (%s, %s):" % (
                     count,
                     true_from_elem.get("id"),
                     true_to_elem.get("id"))
+                print header.encode(encoding)
                 print true_from_tree.get_elem_text(true_from_elem).encode(encoding)
                 print true_to_tree.get_elem_text(true_to_elem).encode(encoding)
                 print
@@ -77,10 +79,12 @@ def print_diff(true_corpus, pred_corpus, tag, encoding="utf-8"):
                     break
             else:
                 count += 1
-                print "#%d predicted only (%s, %s)" % (
+                # identifiers may contain any character, as texts do
+                header = u"#%d predicted only (%s, %s)" % (
                     count,
                     pred_from_elem.get("id"),
                     pred_to_elem.get("id"))
+                print header.encode(encoding)
                 print pred_from_tree.get_elem_text(pred_from_elem).encode(encoding)
                 print pred_to_tree.get_elem_text(pred_to_elem).encode(encoding)
                 print
-- 
2.43.0


From bcd6383d09a7cec7a85e1bb7d858197d478cb260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:57 +0000
Subject: [PATCH 82/91] fix: ptc_n_to_id destroys corpora with aligned elements
 that have no id

---
 lib/daeso/ptc/document.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/ptc/document.py b/lib/daeso/ptc/document.py
index 871a93c..2b40964 100644
--- a/lib/daeso/ptc/document.py
+++ b/lib/daeso/ptc/document.py
@@ -25,7 +25,7 @@ __authors__ = "Erwin Marsi <e.marsi@gmail.com>"
 
 
 
-from xml.etree.cElementTree import Element, ElementTree, XML
+from xml.etree.cElementTree import Element, ElementTree, XML, tostring
 
 from daeso.ptc.ielemtree import IndexElemTree
 from daeso.pair import Pair
@@ -174,6 +174,9 @@ class HitaextDoc(ElementTree):
         """
         # ElementTree.write does not write the XML header
         # if the encoding is utf-8
+        # (an existing file is kept if this fails)
+        text = tostring(self.getroot(), "utf-8")
+        
         if not hasattr(file, "write"):
             stream = open(file, "w")
         else:
@@ -181,7 +184,7 @@ class HitaextDoc(ElementTree):
             
         try:
             print >>stream, '<?xml version="1.0" encoding="utf-8"?>'
-            ElementTree.write(self, stream, "utf-8")
+            stream.write(text)
         finally:
             if stream is not file:
                 stream.close()
-- 
2.43.0


From c5db0a70b17fb981b9902e6e93c7802cb4ac77c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:57 +0000
Subject: [PATCH 83/91] fix: a corpus that cannot be serialized is lost when it
 is written

---
 lib/daeso/utils/etree.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/utils/etree.py b/lib/daeso/utils/etree.py
index 284ab68..99ec726 100644
--- a/lib/daeso/utils/etree.py
+++ b/lib/daeso/utils/etree.py
@@ -26,6 +26,8 @@ __authors__ = "Erwin Marsi <e.marsi@gmail.com>"
 
 import sys
 
+from xml.etree.cElementTree import tostring
+
 
 def write(etree, file=sys.stdout, encoding="utf-8", pprint=False):
     """
@@ -35,6 +37,9 @@ def write(etree, file=sys.stdout, encoding="utf-8", pprint=False):
     if pprint:
         indent(etree.getroot())
         
+    # an existing file is kept if this fails
+    text = tostring(etree.getroot(), "utf-8")
+    
     opened = not hasattr(file, "write")
     
     if opened:
@@ -42,7 +47,7 @@ def write(etree, file=sys.stdout, encoding="utf-8", pprint=False):
         
     try:
         file.write('<?xml version="1.0" encoding="utf-8"?>\n')
-        etree.write(file, "utf-8")
+        file.write(text)
     finally:
         if opened:
             file.close()
-- 
2.43.0


From e024e0c3cd3a1c9540094cdea32e209f6cc51429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:35 +0000
Subject: [PATCH 84/91] fix: agreement tables are wrong for annotators named
 SD, mean or overall

---
 lib/daeso/pgc/agreement.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/lib/daeso/pgc/agreement.py b/lib/daeso/pgc/agreement.py
index 06f1d91..34eb21a 100644
--- a/lib/daeso/pgc/agreement.py
+++ b/lib/daeso/pgc/agreement.py
@@ -188,8 +188,14 @@ class AnalysesTable(dict):
         # Two more rows are added to contain the mean and SD values.
         # These also have one more column to hold the overall mean
         # and overall SD respectively
-        for label in self.labels + ["mean", "SD"]:
+        for label in self.labels:
             self[label] = dict()
+            
+        # an annotator may have the same name as these
+        self.mean = dict()
+        self.sd = dict()
+        self.setdefault("mean", self.mean)
+        self.setdefault("SD", self.sd)
 
 
     def calculate_statistics(self):
@@ -212,12 +218,13 @@ class AnalysesTable(dict):
                 if col_label != row_label:
                     col_sum += self[row_label][col_label]
 
-            self["mean"][col_label] = col_sum / col_n
+            self.mean[col_label] = col_sum / col_n
 
             overall_sum += col_sum
 
         overall_n = len(self.labels) * col_n
-        self["mean"]["overall"] = overall_sum / overall_n
+        self.overall_mean = overall_sum / overall_n
+        self.mean.setdefault("overall", self.overall_mean)
 
 
     def calculate_sd(self):
@@ -226,11 +233,11 @@ class AnalysesTable(dict):
         """
         overall_dev = 0.0
         col_n = len(self.labels) - 1
-        overall_av = self["mean"]["overall"] 
+        overall_av = self.overall_mean
 
         for col_label in self.labels:
             col_dev = 0.0
-            col_av = self["mean"][col_label] 
+            col_av = self.mean[col_label] 
 
             for row_label in self.labels:
                 if col_label != row_label:
@@ -238,13 +245,14 @@ class AnalysesTable(dict):
                     overall_dev += (self[row_label][col_label] - overall_av) ** 2
 
             try:
-                self["SD"][col_label] =  math.sqrt(col_dev / (col_n - 1))
+                self.sd[col_label] =  math.sqrt(col_dev / (col_n - 1))
             except ZeroDivisionError:
                 # for a 2 x 2 matrix, col_n -1 == 0, so sample SD is undefined
-                self["SD"][col_label] = 0.0
+                self.sd[col_label] = 0.0
 
         overall_n = len(self.labels) * col_n
-        self["SD"]["overall"] = math.sqrt(overall_dev / (overall_n - 1)) 
+        self.overall_sd = math.sqrt(overall_dev / (overall_n - 1)) 
+        self.sd.setdefault("overall", self.overall_sd)
         
         
     def write(self, formatter=None, **kwargs):
@@ -299,14 +307,16 @@ class FormatAnalysesMatrix(object):
 
         out.write(separator + "\n")
 
-        for row_label in ["mean", "SD"]:
+        for row_label, row, overall in [
+            ("mean", self.matrix.mean, self.matrix.overall_mean),
+            ("SD", self.matrix.sd, self.matrix.overall_sd) ]:
 
             out.write("%11s:" % row_label)
 
             for col_label in self.matrix.labels:
-                out.write(float_format % (self.matrix[row_label][col_label] * factor))
+                out.write(float_format % (row[col_label] * factor))
 
-            out.write(float_format % (self.matrix[row_label]["overall"] * factor))
+            out.write(float_format % (overall * factor))
 
             out.write("\n")
 
-- 
2.43.0


From 8cbc6b7161dd846742cf0e0f4901c5312b86dacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:13 +0000
Subject: [PATCH 85/91] fix: a link to element number zero or below is taken
 for one of the last elements

---
 lib/daeso/ptc/document.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/daeso/ptc/document.py b/lib/daeso/ptc/document.py
index 2b40964..d0fd92c 100644
--- a/lib/daeso/ptc/document.py
+++ b/lib/daeso/ptc/document.py
@@ -281,11 +281,17 @@ class HitaextDoc(ElementTree):
             fromTag = elem.get('from_tag')
             fromN = int(elem.get('from_n'))
             # fromN/toN counts from 1 -- tagCountTable counts from zero!!! 
+            if fromN < 1:
+                raise IndexError("there is no element %s number %d" % (fromTag, fromN))
+            
             fromElem = from_tree.tagCountTable[fromTag][fromN - 1]
             
             toTag = elem.get('to_tag')
             toN = int(elem.get('to_n'))
             # fromN/toN counts from 1 -- tagCountTable counts from zero!!! 
+            if toN < 1:
+                raise IndexError("there is no element %s number %d" % (toTag, toN))
+            
             toElem = to_tree.tagCountTable[toTag][toN - 1]
             
             fromElem.get("_alignments").append(toElem)
-- 
2.43.0


From 17f42b466d42cc3c74db4a33c8ef444e940a819b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:47 +0000
Subject: [PATCH 86/91] fix: a row of a statistics table is lost when its name
 begins with dashes

---
 lib/daeso/stats/table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/stats/table.py b/lib/daeso/stats/table.py
index 1bed41e..c021231 100644
--- a/lib/daeso/stats/table.py
+++ b/lib/daeso/stats/table.py
@@ -187,7 +187,8 @@ class StatsTable(OrderedDict):
                         
                         
     def is_separator(self, l):
-        return l.startswith("----")
+        # a name in the first column may begin with dashes too
+        return l.startswith("----") and not l.strip().strip("-")
         
 
     def summarize(self):
-- 
2.43.0


From 90a72dabbd919f92b5c89e6d8c49005dae1674d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:14 +0000
Subject: [PATCH 87/91] fix: statistics of removed corpora are kept in later
 summaries

---
 lib/daeso/stats/corpus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/stats/corpus.py b/lib/daeso/stats/corpus.py
index 6164c8f..98ec307 100644
--- a/lib/daeso/stats/corpus.py
+++ b/lib/daeso/stats/corpus.py
@@ -166,9 +166,9 @@ def read_subtable(table, fn, verbose=True):
 def write_table(table, fn, verbose=True):
     """
     write a stats table for parallel graph corpora or graph banks
-    unless it is empty
+    unless it is empty and there is no earlier table to be replaced
     """
-    if not table.is_empty():
+    if not table.is_empty() or path.exists(fn):
         if verbose: print "Writing table", fn
         out = file(fn, "w")
         
-- 
2.43.0


From c087b75ea42744d016b3edb40cabfb49ee0e43e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:22 +0000
Subject: [PATCH 88/91] fix: a summary of corpora that fails leaves its caller
 in another directory

---
 lib/daeso/stats/corpus.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/daeso/stats/corpus.py b/lib/daeso/stats/corpus.py
index 98ec307..4ffd7a8 100644
--- a/lib/daeso/stats/corpus.py
+++ b/lib/daeso/stats/corpus.py
@@ -142,10 +142,11 @@ def stats(pgc_dir, pgc_files_pattern, with_unaligned_roots=False):
     else:
         pgc_files = glob(pgc_files_pattern)
         
-    pgc_table, gb_table = pgc_stats(pgc_files, 
-                                    with_unaligned_roots=with_unaligned_roots)
-
-    chdir(cwd)
+    try:
+        pgc_table, gb_table = pgc_stats(pgc_files, 
+                                        with_unaligned_roots=with_unaligned_roots)
+    finally:
+        chdir(cwd)
     
     return  pgc_table, gb_table
     
-- 
2.43.0


From a3b522f2cd1c30c44d2f7d4a4f8dfb5d5d38390b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:29 +0000
Subject: [PATCH 89/91] fix: subgraphs of ordered graphs lose the order of the
 edges

---
 lib/daeso/graph/ograph.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/lib/daeso/graph/ograph.py b/lib/daeso/graph/ograph.py
index 3dabe74..424d79d 100644
--- a/lib/daeso/graph/ograph.py
+++ b/lib/daeso/graph/ograph.py
@@ -377,4 +377,31 @@ class ODiGraph(networkx.DiGraph):
             self.pred[v][u] = datadict
 
 
+    def subgraph(self, nbunch):
+        """Return the subgraph induced on nodes in nbunch.
+
+        The nodes and edges are in the order of the original graph. As with
+        DiGraph, the graph, node and edge attributes just point to the
+        original graph.
+
+        Parameters
+        ----------
+        nbunch : list, iterable
+            A container of nodes which will be iterated through once.
+        """
+        bunch = set(self.nbunch_iter(nbunch))
+        H = self.__class__()
+        
+        for n in self.succ:
+            if n in bunch:
+                H.node[n] = self.node[n]
+                H.succ[n] = OrderedDict([ (v, datadict)
+                                          for v, datadict in self.succ[n].items()
+                                          if v in bunch ])
+                H.pred[n] = OrderedDict([ (u, datadict)
+                                          for u, datadict in self.pred[n].items()
+                                          if u in bunch ])
+                
+        H.graph = self.graph
+        return H
    
-- 
2.43.0


From 7036dcaa62aab56480a0381f29dee7cc5eec3a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:24 +0000
Subject: [PATCH 90/91] fix: wide numbers in statistics tables run into each
 other and cannot be read back

---
 lib/daeso/stats/table.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/daeso/stats/table.py b/lib/daeso/stats/table.py
index c021231..6aade91 100644
--- a/lib/daeso/stats/table.py
+++ b/lib/daeso/stats/table.py
@@ -113,18 +113,19 @@ class StatsTable(OrderedDict):
             elif c.type == "count":
                 w = c.width
                 out.write(c.label.rjust(w))
-                format += "%" + str(w) + "d"
+                # a space keeps wide numbers apart
+                format += " %" + str(w - 1) + "d"
             else:
                 w = c.width
                 out.write(c.label.rjust(w))
-                format += "%" + str(w) + "." + str(c.prec) + "f"
+                format += " %" + str(w - 1) + "." + str(c.prec) + "f"
                 
             if c.overall is None:
                 overalls += w * " "
             elif c.type == "count":
-                overalls += ("%" + str(w) + "d") % c.overall
+                overalls += (" %" + str(w - 1) + "d") % c.overall
             else:
-                overalls += ("%" + str(w) + "." + str(c.prec) + "f") % c.overall
+                overalls += (" %" + str(w - 1) + "." + str(c.prec) + "f") % c.overall
                 
             tot_width += w
                 
-- 
2.43.0


From 9d4e7f3ee10c557c412cc95eaa4078380c7f4b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:34:28 +0000
Subject: [PATCH 91/91] fix: arguments -- behind -- or joined to an option are
 dropped

An argument -- after the -- that ends the options, and the value of
--option=--, were taken for separators: a required argument could end up
without a value, as an empty list.
---
 lib/daeso/thirdparty/argparse.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/daeso/thirdparty/argparse.py b/lib/daeso/thirdparty/argparse.py
index 87e7dd4..4c18a97 100644
--- a/lib/daeso/thirdparty/argparse.py
+++ b/lib/daeso/thirdparty/argparse.py
@@ -1844,6 +1844,13 @@ class ArgumentParser(_AttributeHolder, _ActionsContainer):
             # and add the Positional and its args to the list
             for action, arg_count in zip(positionals, arg_counts):
                 args = arg_strings[start_index: start_index + arg_count]
+                # for everything but PARSER args, strip out the first '--';
+                # those after it are arguments like any other
+                if action.nargs is not PARSER:
+                    pattern = arg_strings_pattern[start_index:
+                                                  start_index + arg_count]
+                    if '-' in pattern:
+                        del args[pattern.index('-')]
                 start_index += arg_count
                 take_action(action, args)
 
@@ -2127,10 +2134,6 @@ class ArgumentParser(_AttributeHolder, _ActionsContainer):
     # Value conversion methods
     # ========================
     def _get_values(self, action, arg_strings):
-        # for everything but PARSER args, strip out '--'
-        if action.nargs is not PARSER:
-            arg_strings = [s for s in arg_strings if s != '--']
-
         # optional argument produces a default when not present
         if not arg_strings and action.nargs == OPTIONAL:
             if action.option_strings:
-- 
2.43.0

