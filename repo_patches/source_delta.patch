From 8e21344dd94e54a64e5bd5402c55981438d5b066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:53 +0000
Subject: [PATCH 01/36] fix: count values beyond the int32 range (and infinity)
 in the overflow bin of a bin axis

---
 histbook/calc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index 12fb2eb..d6ef8eb 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -223,8 +223,8 @@ def histbook_bin(underflow, overflow, nanflow, closedlow):
             numpy.ceil(indexes, indexes)
             numpy.add(indexes, shift - 1, indexes)
 
-        out = numpy.ma.array(indexes, dtype=INDEXTYPE)
         with numpy.errstate(invalid="ignore"):
+            out = numpy.ma.array(numpy.clip(indexes, -1, numbins + shift), dtype=INDEXTYPE)
             if underflow:
                 numpy.maximum(out, 0, out)
             else:
-- 
2.43.0


From 07c77385521e07cc890fcad31253b3d241789527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:21 +0000
Subject: [PATCH 02/36] fix: do not wrap integers around in intbin, and do not
 count NaN or infinity in the wrong bin

---
 histbook/calc/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index d6ef8eb..e0e79bb 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -262,7 +262,8 @@ def histbook_intbin(underflow, overflow):
         shift = 0
 
     def intbin(values, min, max):
-        indexes = numpy.ma.array((values + (shift - min)), dtype=INDEXTYPE)
+        with numpy.errstate(invalid="ignore"):
+            indexes = numpy.ma.array((numpy.clip(values, min - 1, max + 1) + numpy.array([shift - min])), dtype=INDEXTYPE)   # array: narrow integers must not wrap around
 
         if underflow:
             numpy.maximum(indexes, 0, indexes)
@@ -274,6 +275,7 @@ def histbook_intbin(underflow, overflow):
         else:
             indexes[indexes > (shift + max - min)] = numpy.ma.masked
 
+        indexes[numpy.isnan(values)] = numpy.ma.masked
         return indexes
 
     return intbin
-- 
2.43.0


From 22cf39eb697ad32ab2b0b7ddae1ff737a6cdf6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:44 +0000
Subject: [PATCH 03/36] fix: groupbin keys and items handle the NaN bin

---
 histbook/axis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index edb672f..1c1371d 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -522,7 +522,8 @@ class groupbin(GroupAxis, _RebinFactor):
         """Returns (key, value) pairs of the content."""
         if not isinstance(content, dict):
             raise TypeError("groupbin content must be a dict")
-        return [IntervalPair((Interval(n, n + float(self._binwidth), closedlow=self._closedlow, closedhigh=(not self._closedlow)), content[n])) for n in sorted(content)]
+        return ([IntervalPair((Interval(n, n + float(self._binwidth), closedlow=self._closedlow, closedhigh=(not self._closedlow)), content[n])) for n in sorted(x for x in content if x != "NaN")] +
+                [IntervalPair((IntervalNaN(), content[n])) for n in content if n == "NaN"])
 
 class bin(FixedAxis, _RebinFactor, _RebinSplit):
     """
-- 
2.43.0


From dfdae200f4257060b977ce8d6f33995d7021d57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:10 +0000
Subject: [PATCH 04/36] fix: profiles respect masked (switched-off overflow)
 bins and do not wrap narrow integers

---
 histbook/hist.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index 3178c92..281aad3 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -400,8 +400,8 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
 
         axissumx, axissumx2 = [], []
         for axis in self._profile:
-            axissumx.append(self._destination[0][j])
-            axissumx2.append(self._destination[0][j + 1])
+            axissumx.append(numpy.array(self._destination[0][j], dtype=self.COUNTTYPE))
+            axissumx2.append(numpy.square(axissumx[-1]))
             j += 2
 
         if self._weightparsed is None:
@@ -411,8 +411,8 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             weight = numpy.ones(length) * self._weightparsed.value
             weight2 = numpy.ones(length) * self._weightparsed.value**2
         else:
-            weight = self._destination[0][j]
-            weight2 = self._destination[0][j + 1]
+            weight = numpy.array(self._destination[0][j], dtype=self.COUNTTYPE)
+            weight2 = numpy.square(weight)
             selection = numpy.isnan(weight)
             if selection.any():
                 weight = weight.copy()
@@ -424,14 +424,16 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             for sumx, sumx2, axis in zip(axissumx, axissumx2, self._profile):
                 if indexes is None:
                     indexes = numpy.ma.zeros(len(sumx), dtype=histbook.calc.INDEXTYPE)
-                if weight2 is not None:
-                    selection = numpy.ma.getmask(indexes)
-                    if selection is not numpy.ma.nomask:
-                        selection = numpy.bitwise_not(selection)
-                        weight = weight[selection]
-                        weight2 = weight2[selection]
-                numpy.add.at(content.reshape((-1, self._shape[-1]))[:, axis._sumwxindex], indexes.compressed(), sumx * weight)
-                numpy.add.at(content.reshape((-1, self._shape[-1]))[:, axis._sumwx2index], indexes.compressed(), sumx2 * weight)
+                axisweight = weight
+                selection = numpy.ma.getmask(indexes)
+                if selection is not numpy.ma.nomask:
+                    selection = numpy.bitwise_not(selection)
+                    sumx = sumx[selection]
+                    sumx2 = sumx2[selection]
+                    if weight2 is not None:
+                        axisweight = weight[selection]
+                numpy.add.at(content.reshape((-1, self._shape[-1]))[:, axis._sumwxindex], indexes.compressed(), sumx * axisweight)
+                numpy.add.at(content.reshape((-1, self._shape[-1]))[:, axis._sumwx2index], indexes.compressed(), sumx2 * axisweight)
 
             if weight2 is None:
                 if indexes is None:
-- 
2.43.0


From e556de49a19c71a124d46dd9ca5d3ff1e5ccb7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:10 +0000
Subject: [PATCH 05/36] fix: histograms derived from another do not share its
 axis objects

---
 histbook/hist.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index 281aad3..3480652 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -155,10 +155,10 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
 
         newaxis = []
         for old in axis:
-            if isinstance(old, histbook.axis._nullaxis) or hasattr(old, "_parsed"):
+            if isinstance(old, histbook.axis._nullaxis):
                 newaxis.append(old)
             else:
-                expr = histbook.expr.Expr.parse(old._expr, defs=defs)
+                expr = old._parsed if hasattr(old, "_parsed") else histbook.expr.Expr.parse(old._expr, defs=defs)
                 new = old.copy()
                 new._parsed = expr
                 newaxis.append(new)
-- 
2.43.0


From d4e8385a382f3b871651addd2a37d20958a13364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:37 +0000
Subject: [PATCH 06/36] fix: copy-on-fill copies are independent when filled
 through a book, added to, scaled, or when the original changes; scaling an
 unfilled histogram

---
 histbook/hist.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index 3480652..34b0b14 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -85,7 +85,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
     def copyonfill(self):
         """Return a copy of the histogram whose content is copied if filled."""
         out = Hist(*(self._group + self._fixed + self._profile), weight=self._weightoriginal, filter=self._filteroriginal, defs=dict(self._defs), attachment=dict(self._attachment))
-        out._copyonfill = True
+        out._copyonfill = self._copyonfill = True
         out._content = self._content
         return out
 
@@ -347,10 +347,6 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         **more : Numpy arrays or numbers
             more field values
         """
-        if self._copyonfill:
-            self._content = Hist._copycontent(self._content)
-            self._copyonfill = False
-
         if histbook.calc.spark.isspark(arrays, more):
             # pyspark.DataFrame
             wait = histbook.calc.spark.fillspark(self, arrays)
@@ -376,7 +372,13 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             length = self._fill(arrays)
             self._postfill(arrays, length)
 
+    def _copynow(self):
+        if self._copyonfill:
+            self._content = Hist._copycontent(self._content)
+            self._copyonfill = False
+
     def _prefill(self):
+        self._copynow()
         if self._content is None:
             if len(self._group) == 0:
                 self._content = numpy.zeros(self._shape, dtype=self.COUNTTYPE)
@@ -552,6 +554,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
                 if n not in selfcontent:
                     selfcontent[n] = Hist._copycontent(othercontent[n])
 
+        self._copynow()
         if other._content is None:
             pass
 
@@ -592,9 +595,10 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             if isinstance(content, dict):
                 for x in content.values():
                     recurse(x)
-            else:
+            elif content is not None:
                 content *= value
 
+        self._copynow()
         recurse(self._content)
         return self
 
-- 
2.43.0


From 537793a55e606201dd9db9f5b337a29e4ae96bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:56 +0000
Subject: [PATCH 07/36] fix: sums and multiples of histograms and books share
 nothing with their operands; refuse to mix weighted and unweighted

---
 histbook/book.py |  6 +++---
 histbook/hist.py | 18 +++++++++++-------
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/histbook/book.py b/histbook/book.py
index 830e0bc..380e40b 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -445,10 +445,10 @@ class GenericBook(collections.MutableMapping):
             if n in other:
                 content[n] = x + other[n]
             else:
-                content[n] = x
+                content[n] = x.copy()
         for n, x in other.iteritems():
             if n not in self:
-                content[n] = x
+                content[n] = x.copy()
 
         attachment = dict(self._attachment)
         attachment.update(other._attachment)
@@ -460,7 +460,7 @@ class GenericBook(collections.MutableMapping):
         
         for n, x in other.iteritems():
             if n not in self:
-                self[n] = x
+                self[n] = x.copy()
             else:
                 self[n] += x
         return self
diff --git a/histbook/hist.py b/histbook/hist.py
index 34b0b14..4214308 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -504,6 +504,9 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         if self._group + self._fixed + self._profile != other._group + other._fixed + other._profile:
             raise TypeError("histograms can only be added to other histograms with the same axis specifications")
 
+        if self._shape != other._shape:
+            raise TypeError("weighted histograms can only be added to other weighted histograms")
+
         def add(selfcontent, othercontent):
             if selfcontent is None and othercontent is None:
                 return None
@@ -524,14 +527,13 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
                     if n in othercontent:
                         out[n] = add(selfcontent[n], othercontent[n])
                     else:
-                        out[n] = selfcontent[n]
+                        out[n] = Hist._copycontent(selfcontent[n])
                 for n in othercontent:
                     if n not in selfcontent:
-                        out[n] = othercontent[n]
+                        out[n] = Hist._copycontent(othercontent[n])
                 return out
 
-        out = self.__class__.__new__(self.__class__)
-        out.__dict__.update(self.__dict__)
+        out = self.cleared()
         out._content = add(self._content, other._content)
         return out
 
@@ -542,6 +544,9 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         if self._group + self._fixed + self._profile != other._group + other._fixed + other._profile:
             raise TypeError("histograms can only be added to other histograms with the same axis specifications")
 
+        if self._shape != other._shape:
+            raise TypeError("weighted histograms can only be added to other weighted histograms")
+
         def add(selfcontent, othercontent):
             assert isinstance(selfcontent, dict) and isinstance(othercontent, dict)
             for n in selfcontent:
@@ -576,11 +581,10 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         def recurse(content):
             if isinstance(content, dict):
                 return dict((n, recurse(x)) for n, x in content.items())
-            else:
+            elif content is not None:
                 return content * value
 
-        out = self.__class__.__new__(self.__class__)
-        out.__dict__.update(self.__dict__)
+        out = self.cleared()
         out._content = recurse(self._content)
         return out
 
-- 
2.43.0


From b0523f1a009432bb9679a38922ce14e13b079130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:09 +0000
Subject: [PATCH 08/36] fix: books of systematics and empty books can be filled

---
 histbook/book.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/histbook/book.py b/histbook/book.py
index 380e40b..d36e2d8 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -527,7 +527,7 @@ class Book(GenericBook, histbook.fill.Fillable):
 
     @property
     def _goals(self):
-        return functools.reduce(set.union, (x._goals for x in self.itervalues(recursive=True, onlyhist=True)))
+        return functools.reduce(set.union, (x._goals for x in self.itervalues(recursive=True, onlyhist=True)), set())
 
     def _streamline(self, i, instructions):
         self._destination = []
@@ -637,6 +637,7 @@ class SystematicsBook(Book):
         return super(SystematicsBook, self).__str__(indent=indent, first=first)
 
     def _changed(self):
+        super(SystematicsBook, self)._changed()
         self.assertcompatible()
         if not all(x.has("systematic") for x in self.itervalues(recursive=True, onlyhist=True)):
             raise ValueError("all histograms in a SystematicsBook must have a 'systematic' attachment")
-- 
2.43.0


From 72834873faa193ac05b23c755d1caa63216e7741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:00 +0000
Subject: [PATCH 09/36] fix: projecting out a categorical axis adds up any
 number of categories (including none)

---
 histbook/proj.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index 6063808..d7c7c2c 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -258,24 +258,21 @@ class Projectable(object):
                 return left + right
 
         def addall(values):
-            assert len(values) != 0
-            left = values[:len(values) // 2]
-            right = values[len(values) // 2:]
-            if len(left) == 0:
-                return right
-            elif len(right) == 0:
-                return left
-            elif len(left) == 1 and len(right) == 1:
-                return addany(left[0], right[0])
+            if len(values) == 1:
+                return values[0]
             else:
-                return addall([addall(left)] + [addall(right)])
-            
+                return addany(addall(values[:len(values) // 2]), addall(values[len(values) // 2:]))
+
         def projcontent(j, content):
             if j < len(self._group):
                 if allaxis[j] in axis:
                     return dict((n, projcontent(j + 1, x)) for n, x in content.items())
-                else:
+                elif len(content) != 0:
                     return addall([projcontent(j + 1, x) for x in content.values()])
+                elif any(x in axis for x in self._group[j + 1:]):
+                    return {}
+                else:
+                    return numpy.zeros(out._shape, dtype=self.COUNTTYPE)
             else:
                 return projarray(content)
 
-- 
2.43.0


From 3ecb7f86f7458e08ae6e7d0e3bbcb6e70be990e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:02 +0000
Subject: [PATCH 10/36] fix: dropping profiles keeps the right columns;
 fractions of histograms without profiles

---
 histbook/proj.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index d7c7c2c..8b905fd 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -201,13 +201,14 @@ class Projectable(object):
         
         axis = []
         index = []
-        for i, prof in enumerate(self._profile):
+        for prof in self._profile:
             if prof not in profile:
                 axis.append(prof)
-                index.append(i)
+                index.append(prof._sumwxindex)
+                index.append(prof._sumwx2index)
 
         index.append(self._sumwindex)
-        if self._weightoriginal is not None:
+        if self._weightparsed is not None:
             index.append(self._sumw2index)
 
         slc = (slice(None),) * (len(self._shape) - 1) + (index,)
@@ -679,7 +680,7 @@ class Projectable(object):
                 cutindex.append(self._fixed.index(c))
         cut = [self._fixed[i] for i in cutindex]
 
-        noprofiles = self.drop(*self._profile)
+        noprofiles = self.drop(*self._profile) if len(self._profile) > 0 else self
         denomhist = noprofiles.project(*[x for x in self._group + self._fixed if x not in cut])
         cuthist = []
         for c in cut:
-- 
2.43.0


From 036948159003973e55a6915302937475375d26c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:44 +0000
Subject: [PATCH 11/36] fix: rebinning by a factor, or by axis index, works and
 sums the right bins

---
 histbook/axis.py | 48 ++++++++++++++++++++++++------------------------
 histbook/proj.py | 10 ++++++++--
 2 files changed, 32 insertions(+), 26 deletions(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index 1c1371d..466250d 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -430,41 +430,41 @@ class groupbin(GroupAxis, _RebinFactor):
     def _rebinfactor(self, factor, content, index):
         assert factor > 0
 
-        newaxis = groupbin(self._expr, float(self._binwidth) / float(factor), origin=self._origin, nanflow=self._nanflow, closedlow=self._closedlow)
+        newaxis = groupbin(self._expr, float(self._binwidth) * float(factor), origin=self._origin, nanflow=self._nanflow, closedlow=self._closedlow)
         if hasattr(self, "_original"):
             newaxis._original = self._original
         if hasattr(self, "_parsed"):
             newaxis._parsed = self._parsed
 
+        def add(left, right):
+            if isinstance(left, dict):
+                out = dict(left)
+                for n, x in right.items():
+                    out[n] = add(left[n], x) if n in left else x
+                return out
+            else:
+                return left + right
+
         def recurse(j, content):
             if j == index:
                 out = {}
                 for n, x in content.items():
-                    if n == "NaN":
-                        out[n] = recurse(j + 1, x)
+                    if n != "NaN" and not numpy.isinf(n):
+                        oldindex = int(round((n - float(self._origin)) / float(self._binwidth)))
+                        n = (oldindex // int(factor)) * float(newaxis._binwidth) + float(newaxis._origin)
 
+                    if n not in out:
+                        out[n] = recurse(j + 1, x)
                     else:
-                        index = (n - float(self._origin)) / float(self._binwidth)
-                        if self._closedlow:
-                            index = int(numpy.floor(index))
-                        else:
-                            index = int(numpy.ceil(index)) - 1
-
-                        index = index // int(factor)
-
-                        n = index * float(newindex._binwidth) + float(newaxis._origin)
-                        if n not in out:
-                            out[n] = recurse(j + 1, x)
-                        else:
-                            out[n] += recurse(j + 1, x)
+                        out[n] = add(out[n], recurse(j + 1, x))
 
                 return out
-                        
+
             elif isinstance(content, dict):
                 return dict((n, recurse(j + 1, x)) for n, x in content.items())
 
             else:
-                return content
+                return content.copy()
 
         if content is None:
             return newaxis, None
@@ -910,7 +910,7 @@ class intbin(FixedAxis, _RebinFactor, _RebinSplit):
         return self.bin()._rebinsplit(edges, content, index)
 
     def _rebinfactor(self, factor, content, index):
-        return self.bin()._rebinfactor(edges, content, index)
+        return self.bin()._rebinfactor(factor, content, index)
 
     def _select(self, cmp, value, tolerance):
         if value == float("-inf") and cmp == ">=":
@@ -1170,7 +1170,7 @@ class split(FixedAxis, _RebinFactor, _RebinSplit):
 
                 if newaxis._underflow:
                     oldi2 += 1
-                    newcontent[[newi if i == index else slice(None) for i, x in enumerate(content.shape)]] = numpy.sum(content[[slice(oldi, oldi2) if i == index else slice(None) for i, x in enumerate(content.shape)]], axis=index)
+                    newcontent[tuple(newi if i == index else slice(None) for i, x in enumerate(content.shape))] = numpy.sum(content[tuple(slice(oldi, oldi2) if i == index else slice(None) for i, x in enumerate(content.shape))], axis=index)
                     newi += 1
 
                 oldi = oldi2
@@ -1183,7 +1183,7 @@ class split(FixedAxis, _RebinFactor, _RebinSplit):
                     if newaxis._underflow:
                         oldi2 += 1
 
-                    newcontent[[newi if i == index else slice(None) for i, x in enumerate(content.shape)]] = numpy.sum(content[[slice(oldi, oldi2) if i == index else slice(None) for i, x in enumerate(content.shape)]], axis=index)
+                    newcontent[tuple(newi if i == index else slice(None) for i, x in enumerate(content.shape))] = numpy.sum(content[tuple(slice(oldi, oldi2) if i == index else slice(None) for i, x in enumerate(content.shape))], axis=index)
                     newi += 1
                     oldi = oldi2
                     if not newaxis._underflow:
@@ -1191,14 +1191,14 @@ class split(FixedAxis, _RebinFactor, _RebinSplit):
 
                 if newaxis._overflow:
                     oldi2 = len(self._edges) - 1 + (1 if self._underflow else 0) + (1 if self._overflow else 0)
-                    newcontent[[newi if i == index else slice(None) for i, x in enumerate(content.shape)]] = numpy.sum(content[[slice(oldi, oldi2) if i == index else slice(None) for i, x in enumerate(content.shape)]], axis=index)
+                    newcontent[tuple(newi if i == index else slice(None) for i, x in enumerate(content.shape))] = numpy.sum(content[tuple(slice(oldi, oldi2) if i == index else slice(None) for i, x in enumerate(content.shape))], axis=index)
                     newi += 1
                     oldi = oldi2
 
                 if newaxis._nanflow:
                     oldi = len(self._edges) - 1 + (1 if self._underflow else 0) + (1 if self._overflow else 0)
                     oldi2 = oldi + 1
-                    newcontent[[newi if i == index else slice(None) for i, x in enumerate(content.shape)]] = numpy.sum(content[[slice(oldi, oldi2) if i == index else slice(None) for i, x in enumerate(content.shape)]], axis=index)
+                    newcontent[tuple(newi if i == index else slice(None) for i, x in enumerate(content.shape))] = numpy.sum(content[tuple(slice(oldi, oldi2) if i == index else slice(None) for i, x in enumerate(content.shape))], axis=index)
 
                 return newcontent
 
@@ -1209,7 +1209,7 @@ class split(FixedAxis, _RebinFactor, _RebinSplit):
 
     def _rebinfactor(self, factor, content, index):
         assert factor > 0
-        return self._rebinsplit(self.edges[0:-1:factor] + self.edges[-1], content, index)
+        return self._rebinsplit(self._edges[0:-1:factor] + (self._edges[-1],), content, index)
 
     def _select(self, cmp, value, tolerance):
         if value == float("-inf") and cmp == ">=":
diff --git a/histbook/proj.py b/histbook/proj.py
index 8b905fd..9d7a78b 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -110,6 +110,9 @@ class Projectable(object):
         :py:class:`Hist <histbook.hist.Hist>`
             a rebinned histogram.
         """
+        if isinstance(axis, (numbers.Integral, numpy.integer)):
+            axis = self.axis[axis]
+
         if not isinstance(axis, histbook.axis.Axis):
             expr = histbook.expr.Expr.parse(axis, defs=self._defs)
             for x in self._group + self._fixed:
@@ -154,6 +157,9 @@ class Projectable(object):
         if not isinstance(factor, (numbers.Integral, numpy.integer)) or factor <= 0:
             raise TypeError("factor must be a positive integer")
 
+        if isinstance(axis, (numbers.Integral, numpy.integer)):
+            axis = self.axis[axis]
+
         if not isinstance(axis, histbook.axis.Axis):
             expr = histbook.expr.Expr.parse(axis, defs=self._defs)
             for x in self._group + self._fixed:
@@ -169,9 +175,9 @@ class Projectable(object):
             raise IndexError("no such rebinnable axis: {0}".format(axis))
 
         if isinstance(axis, histbook.axis.GroupAxis):
-            newaxis, newcontent = axis._rebinsplit(factor, self._content, index)
+            newaxis, newcontent = axis._rebinfactor(factor, self._content, index)
         else:
-            newaxis, newcontent = axis._rebinsplit(factor, self._content, index - len(self._group))
+            newaxis, newcontent = axis._rebinfactor(factor, self._content, index - len(self._group))
 
         outaxis = [newaxis if i == index else x for i, x in enumerate(self._group + self._fixed + self._profile)]
         out = self.__class__(*outaxis, weight=self._weightoriginal, filter=self._filteroriginal, defs=dict(self._defs), attachment=dict(self._attachment))
-- 
2.43.0


From fbf0a7c829f9607aa2fc07985a95f627198b89eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:10 +0000
Subject: [PATCH 12/36] fix: select: NaN and infinite bins, compound conditions
 on categories, error reporting; selected categories share nothing with the
 original

---
 histbook/axis.py | 33 +++++++++++++++++++--------------
 histbook/proj.py | 12 ++++++------
 2 files changed, 25 insertions(+), 20 deletions(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index 466250d..309ce98 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -476,19 +476,19 @@ class groupbin(GroupAxis, _RebinFactor):
             return self, lambda x: x != "NaN", None, False
 
         elif value == float("-inf") and cmp == ">":
-            return self, lambda x: x != "NaN", None, False
+            return self, lambda x: x != "NaN" and x != float("-inf"), None, False
 
         elif value == float("-inf") and cmp == "!=":
-            return self, lambda x: x != "NaN", None, False
+            return self, lambda x: x != float("-inf"), None, False
 
         elif value == float("inf") and cmp == "<=":
             return self, lambda x: x != "NaN", None, False
 
         elif value == float("inf") and cmp == "<":
-            return self, lambda x: x != "NaN", None, False
+            return self, lambda x: x != "NaN" and x != float("inf"), None, False
 
         elif value == float("inf") and cmp == "!=":
-            return self, lambda x: x != "NaN", None, False
+            return self, lambda x: x != float("inf"), None, False
 
         elif isinstance(value, (numbers.Real, numpy.floating, numpy.integer)) and numpy.isnan(value) and cmp == "!=":
             return self, lambda x: x != "NaN", None, False
@@ -500,13 +500,13 @@ class groupbin(GroupAxis, _RebinFactor):
             close = round((value - float(self._origin)) / float(self._binwidth)) * float(self._binwidth) + float(self._origin)
             if abs(value - close) < tolerance:
                 if self._closedlow and cmp == "<":
-                    return self, lambda x: x < close, close, False
+                    return self, lambda x: x != "NaN" and x < close, close, False
                 elif self._closedlow and cmp == ">=":
-                    return self, lambda x: x >= close, close, False
+                    return self, lambda x: x != "NaN" and x >= close, close, False
                 elif not self._closedlow and cmp == ">":
-                    return self, lambda x: x >= close, close, False
+                    return self, lambda x: x != "NaN" and x >= close, close, False
                 elif not self._closedlow and cmp == "<=":
-                    return self, lambda x: x < close, close, False
+                    return self, lambda x: x != "NaN" and x < close, close, False
                 else:
                     return None, None, close, True
             else:
@@ -715,7 +715,10 @@ class bin(FixedAxis, _RebinFactor, _RebinSplit):
         elif isinstance(value, (numbers.Real, numpy.floating, numpy.integer)) and numpy.isnan(value) and cmp == "==":
             out = self.__class__.__new__(self.__class__)
             out.__dict__.update(self.__dict__)
-            out._nanflow = False
+            out._numbins = 0
+            out._high = out._low
+            out._underflow = False
+            out._overflow = False
             out._checktot()
             return out, slice(self._numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0), self._numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0) + 1), None, False
 
@@ -918,28 +921,28 @@ class intbin(FixedAxis, _RebinFactor, _RebinSplit):
             out.__dict__.update(self.__dict__)
             out._nanflow = False
             out._checktot()
-            return out, slice(0, self._numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
+            return out, slice(0, self.numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
 
         elif value == float("-inf") and cmp == ">":
             out = self.__class__.__new__(self.__class__)
             out.__dict__.update(self.__dict__)
             out._nanflow = False
             out._checktot()
-            return out, slice(0, self._numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
+            return out, slice(0, self.numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
 
         elif value == float("inf") and cmp == "<=":
             out = self.__class__.__new__(self.__class__)
             out.__dict__.update(self.__dict__)
             out._nanflow = False
             out._checktot()
-            return out, slice(0, self._numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
+            return out, slice(0, self.numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
 
         elif value == float("inf") and cmp == "<":
             out = self.__class__.__new__(self.__class__)
             out.__dict__.update(self.__dict__)
             out._nanflow = False
             out._checktot()
-            return out, slice(0, self._numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
+            return out, slice(0, self.numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
 
         elif isinstance(value, (numbers.Real, numpy.floating, numpy.integer)):
             if value + tolerance < self._min:
@@ -1236,7 +1239,9 @@ class split(FixedAxis, _RebinFactor, _RebinSplit):
         elif isinstance(value, (numbers.Real, numpy.floating, numpy.integer)) and numpy.isnan(value) and cmp == "==":
             out = self.__class__.__new__(self.__class__)
             out.__dict__.update(self.__dict__)
-            out._nanflow = False
+            out._edges = self._edges[:1]
+            out._underflow = False
+            out._overflow = False
             out._checktot()
             return out, slice(len(self._edges) - 1 + (1 if self._underflow else 0) + (1 if self._overflow else 0), len(self._edges) - 1 + (1 if self._underflow else 0) + (1 if self._overflow else 0) + 1), None, False
 
diff --git a/histbook/proj.py b/histbook/proj.py
index 9d7a78b..cb4291b 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -398,7 +398,7 @@ class Projectable(object):
 
         allaxis = self._group + self._fixed
 
-        def logical(cutexpr, cutcmp, cutvalue, axis, cutaxis, newaxis, cutslice, closest, closestaxis, wrongcmpaxis):
+        def logical(cutexpr, cutcmp, cutvalue, axis, cutaxis, newaxis, cutslice, closest, wrongcmpaxis, closestaxis):
             if isinstance(axis, (histbook.axis.groupby, histbook.axis.groupbin)) and isinstance(cutexpr, histbook.expr.LogicalOr):
                 good = True
                 orslice = None
@@ -406,7 +406,7 @@ class Projectable(object):
                     andslice = None
                     for xpr in andexpr.args:
                         xpr, cmp, value = normalizeexpr(xpr)
-                        check, _, slice1, _, _, _ = logical(xpr, cmp, value, axis, cutaxis, newaxis, cutslice, closest, closestaxis, wrongcmpaxis)
+                        check, _, slice1, _, _, _ = logical(xpr, cmp, value, axis, cutaxis, newaxis, cutslice, closest, wrongcmpaxis, closestaxis)
                         if check is None:
                             good = False
                             break
@@ -414,7 +414,7 @@ class Projectable(object):
                             andslice = slice1
                         else:
                             slice2 = andslice
-                            andslice = lambda x: slice1(x) and slice2(x)
+                            andslice = lambda x, slice1=slice1, slice2=slice2: slice1(x) and slice2(x)
 
                     if not good:
                         break
@@ -423,7 +423,7 @@ class Projectable(object):
                     else:
                         slice1 = andslice
                         slice2 = orslice
-                        orslice = lambda x: slice1(x) or slice2(x)
+                        orslice = lambda x, slice1=slice1, slice2=slice2: slice1(x) or slice2(x)
 
                 if good:
                     return axis, axis, orslice, None, None, None
@@ -453,7 +453,7 @@ class Projectable(object):
                 break
         else:
             if wrongcmpaxis is not None:
-                raise ValueError("no axis can select {0} (axis {1} has the wrong inequality; low edges are {2})".format(repr(str(expr)), wrongcmpaxis, "closed" if wrongcmpaxis.closedlow else "open"))
+                raise ValueError("no axis can select {0} (axis {1} has the wrong inequality; low edges are {2})".format(repr(str(expr)), wrongcmpaxis, "closed" if getattr(wrongcmpaxis, "closedlow", True) else "open"))
             elif closestaxis is not None:
                 raise ValueError("no axis can select {0} (axis {1} has an edge at {2})".format(repr(str(expr)), closestaxis, repr(closest)))
             else:
@@ -470,7 +470,7 @@ class Projectable(object):
 
             if isinstance(allaxis[i], (histbook.axis.groupby, histbook.axis.groupbin)):
                 if allaxis[i] is cutaxis:
-                    return dict((n, x) for n, x in content.items() if cutslice(n))
+                    return dict((n, self._copycontent(x)) for n, x in content.items() if cutslice(n))
                 else:
                     return dict((n, cutcontent(i + 1, x)) for n, x in content.items())
 
-- 
2.43.0


From 6db5c172f633c1dd7aed763b77576eab52b8d5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:30 +0000
Subject: [PATCH 13/36] fix: profiles can be dropped by index position, as
 documented

---
 histbook/proj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index cb4291b..c30cfa5 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -200,7 +200,7 @@ class Projectable(object):
         """
         if len(profile) == 0:
             raise IndexError("no profile axis given")
-        profile = [x if isinstance(x, histbook.axis.Axis) else self.axis.profile(x) for x in profile]
+        profile = [x if isinstance(x, histbook.axis.Axis) else self.axis[x] if isinstance(x, (numbers.Integral, numpy.integer)) else self.axis.profile(x) for x in profile]
         for prof in profile:
             if prof not in self._profile:
                 raise IndexError("no such profile axis: {0}".format(prof))
-- 
2.43.0


From 98d718ca45076af2ef809f29d12450ed18757619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:59 +0000
Subject: [PATCH 14/36] fix: grouping: togroup works, unfilled and filtered
 histograms, refuse to mix weighted and unweighted

---
 histbook/hist.py | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index 4214308..b33c9ba 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -639,15 +639,13 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         if histbook.axis.groupby(by) in axis:
             raise ValueError("groupby({0}) already exists in these histograms; use hist.togroup(other) to add to a group".format(repr(by)))
 
-        weight = None
-        for x in hists.values():
-            if weight is None:
-                weight = x._weightoriginal
-            elif x._weightoriginal is None:
-                raise TypeError("histograms can only be grouped with the same weight specifications")
-            elif weight != x._weightoriginal:
-                weight = 1.0
-                
+        if any(x._shape != hist._shape for x in hists.values()):
+            raise TypeError("weighted histograms can only be grouped with other weighted histograms")
+
+        weight = hist._weightoriginal
+        if hist._weightparsed is not None and (weight is None or any(x._weightoriginal != weight for x in hists.values())):
+            weight = 1.0
+
         defs = {}
         for x in hists.values():
             defs.update(x._defs)
@@ -655,10 +653,15 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         out = cls(*((histbook.axis.groupby(by),) + hist._group + hist._fixed + hist._profile), weight=weight, filter=None, defs=dict(defs), attachment=None)
         out._content = {}
         for n, x in hists.items():
-            out._content[n] = cls._copycontent(x._content)
+            if x._content is not None:
+                out._content[n] = cls._copycontent(x._content)
+            elif len(hist._group) != 0:
+                out._content[n] = {}
+            else:
+                out._content[n] = numpy.zeros(out._shape, dtype=cls.COUNTTYPE)
         return out
 
-    def togroup(**hists):
+    def togroup(self, **hists):
         u"""
         Add histograms to the :py:class:`groupby <histbook.axis.groupby>` that is the first axis.
 
@@ -678,6 +681,8 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         for x in hists.values():
             if self._group[1:] + self._fixed + self._profile != x._group + x._fixed + x._profile:
                 raise TypeError("histograms can only be grouped with the same axis specifications")
+            if self._shape != x._shape:
+                raise TypeError("weighted histograms can only be grouped with other weighted histograms")
 
         def add(selfcontent, othercontent):
             assert isinstance(selfcontent, dict) and isinstance(othercontent, dict)
@@ -691,11 +696,12 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
                 if n not in selfcontent:
                     selfcontent[n] = Hist._copycontent(othercontent[n])
 
+        self._prefill()
         for n, x in hists.items():
-            if n in self._content:
-                add(self._content[n], other._content)
-            else:
-                self._content[n] = Hist._copycontent(other._content)
+            if x._content is not None:
+                add(self._content, {n: x._content})
+            elif n not in self._content:
+                self._content[n] = {} if len(self._group) > 1 else numpy.zeros(self._shape, dtype=self.COUNTTYPE)
 
     def tojson(self):
         out = {"type": "Hist", "axis": [x.tojson() for x in self._group + self._fixed + self._profile]}
-- 
2.43.0


From 63c0e4aac9a98f84907db7e3958e96ca55048cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:00 +0000
Subject: [PATCH 15/36] fix: histograms and books do not share attachments with
 their JSON objects

---
 histbook/book.py | 4 ++--
 histbook/hist.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/histbook/book.py b/histbook/book.py
index d36e2d8..8d16b39 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -182,7 +182,7 @@ class GenericBook(collections.MutableMapping):
             return node
         out = {"type": self.__class__.__name__, "content": [merge(n, x.tojson()) for n, x in self._content.items()]}
         if len(self._attachment) != 0:
-            out["attachment"] = self._attachment
+            out["attachment"] = dict(self._attachment)
         return out
 
     @staticmethod
@@ -194,7 +194,7 @@ class GenericBook(collections.MutableMapping):
                 content[node["name"]] = histbook.hist.Hist.fromjson(node)
             else:
                 content[node["name"]] = GenericBook.fromjson(node)
-        return cls.fromdicts(content, obj.get("attachment", {}))
+        return cls.fromdicts(content, dict(obj.get("attachment", {})))
 
     def __len__(self):
         return len(self._content)
diff --git a/histbook/hist.py b/histbook/hist.py
index b33c9ba..dfec24d 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -710,7 +710,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         if self._filteroriginal is not None:
             out["filter"] = self._filteroriginal
         if self._defs is not None and len(self._defs) != 0:
-            out["defs"] = self._defs
+            out["defs"] = dict(self._defs)
         if self._content is not None:
             def recurse(node):
                 if isinstance(node, dict):
@@ -719,7 +719,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
                     return node.tolist()
             out["content"] = recurse(self._content)
         if len(self._attachment) != 0:
-            out["attachment"] = self._attachment
+            out["attachment"] = dict(self._attachment)
         return out
 
     @staticmethod
@@ -733,7 +733,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             else:
                 return numpy.array(node, dtype=Hist.COUNTTYPE)
 
-        out = Hist(*[histbook.axis.Axis.fromjson(x) for x in obj["axis"]], weight=obj.get("weight", None), filter=obj.get("filter", None), defs=obj.get("defs", None), attachment=obj.get("attachment", None))
+        out = Hist(*[histbook.axis.Axis.fromjson(x) for x in obj["axis"]], weight=obj.get("weight", None), filter=obj.get("filter", None), defs=dict(obj.get("defs", {})), attachment=dict(obj.get("attachment", {})))
         out._content = recurse(obj.get("content", None))
         return out
 
-- 
2.43.0


From 858bb5e36ba0f50e9fc0177b4f23ff9d63293cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:20 +0000
Subject: [PATCH 16/36] fix: keep the product of the constant terms when
 distributing, cancel every repeated factor

---
 histbook/expr.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/histbook/expr.py b/histbook/expr.py
index 8b864ea..40462fe 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -723,11 +723,9 @@ class RingAlgebraAddLike(RingAlgebra):
             pos, neg = list(x.pos), []
             for y in x.neg:
                 try:
-                    i = x.pos.index(y)
+                    pos.remove(y)
                 except ValueError:
                     neg.append(y)
-                else:
-                    del pos[i]
             return op.subop(x.const, tuple(pos), tuple(neg))
 
         for x in arg.pos:
@@ -789,7 +787,7 @@ class RingAlgebraAddLike(RingAlgebra):
         pos += [op.subop.combine(x, y) for x, y in itertools.product(left.neg, right.neg)]
         neg += [op.subop.combine(x, y) for x, y in itertools.product(left.neg, right.pos)]
 
-        return op.collect(op(op.identity, tuple(pos), tuple(neg)))
+        return op.collect(op(op.subop.calcval(left.const, right.const), tuple(pos), tuple(neg)))
 
     def simplify(self):
         out = self.__class__(self.const, self.pos, self.neg)
-- 
2.43.0


From e9d4c04e1e2921ab6041c6633cad98a1bd929098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:48 +0000
Subject: [PATCH 17/36] fix: evaluate //, ^, round and fmod, and fold constants
 joined by //, %, ** and ^

---
 histbook/calc/__init__.py |  6 ++++--
 histbook/expr.py          | 20 ++++++++++----------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index e0e79bb..174abd0 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -39,6 +39,8 @@ library["numpy.add"] = numpy.add
 library["numpy.subtract"] = numpy.subtract
 library["numpy.multiply"] = numpy.multiply
 library["numpy.true_divide"] = numpy.true_divide
+library["numpy.floor_divide"] = numpy.floor_divide
+library["xor"] = numpy.bitwise_xor
 library["numpy.equal"] = numpy.equal
 library["numpy.not_equal"] = numpy.not_equal
 library["numpy.less"] = numpy.less
@@ -92,8 +94,8 @@ library["max"] = numpy.maximum;           library["fmax"] = numpy.maximum
 library["min"] = numpy.minimum;           library["fmin"] = numpy.minimum
 library["pow"] = numpy.power
 library["rad2deg"] = numpy.rad2deg
-library["mod"] = numpy.remainder;         library["fmod"] = numpy.remainder
-library["rint"] = numpy.rint
+library["mod"] = numpy.remainder
+library["rint"] = numpy.rint;             library["round"] = numpy.rint
 library["sign"] = numpy.sign
 library["sinh"] = numpy.sinh
 library["sin"] = numpy.sin
diff --git a/histbook/expr.py b/histbook/expr.py
index 40462fe..cb6f82a 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -107,7 +107,7 @@ class Expr(object):
                      "-": lambda x, y: x - y,
                      "*": lambda x, y: x * y,
                      "/": lambda x, y: float(x) / float(y),
-                     "//": lambda x, y: int(x // y),
+                     "//": lambda x, y: x // y,
                      "%": lambda x, y: x % y,
                      "**": lambda x, y: x ** y,
                      "|": lambda x, y: numpy.uint64(x) | numpy.uint64(y),
@@ -229,15 +229,15 @@ class Expr(object):
                 raise ExpressionError("only unary operators supported: 'not', '-', '+', and '~': {0}".format(histbook.util.astunparse.tostring(node).strip()))
 
             elif isinstance(node, ast.BinOp):
-                if   isinstance(node.op, ast.Add):      fcn = "+"
-                elif isinstance(node.op, ast.Sub):      fcn = "-"
-                elif isinstance(node.op, ast.Mult):     fcn = "*"
-                elif isinstance(node.op, ast.Div):      fcn = "/"
+                if   isinstance(node.op, ast.Add):      op, fcn = "+",  "+"
+                elif isinstance(node.op, ast.Sub):      op, fcn = "-",  "-"
+                elif isinstance(node.op, ast.Mult):     op, fcn = "*",  "*"
+                elif isinstance(node.op, ast.Div):      op, fcn = "/",  "/"
                 elif isinstance(node.op, ast.FloorDiv): op, fcn = "//", "numpy.floor_divide"
-                elif isinstance(node.op, ast.Mod):      op, fcn = "%",  "fmod"
+                elif isinstance(node.op, ast.Mod):      op, fcn = "%",  "mod"
                 elif isinstance(node.op, ast.Pow):      op, fcn = "**", "pow"
-                elif isinstance(node.op, ast.BitOr):    fcn = "|"
-                elif isinstance(node.op, ast.BitAnd):   fcn = "&"
+                elif isinstance(node.op, ast.BitOr):    op, fcn = "|",  "|"
+                elif isinstance(node.op, ast.BitAnd):   op, fcn = "&",  "&"
                 elif isinstance(node.op, ast.BitXor):   op, fcn = "^",  "xor"
                 else:
                     raise ExpressionError("only binary operators supported: '+', '-', '*', '/', '//', '%', '**', '|', '&', and '^': {0}".format(histbook.util.astunparse.tostring(node).strip()))
@@ -246,7 +246,7 @@ class Expr(object):
                 right = recurse(node.right)
 
                 if isinstance(left, Const) and isinstance(right, Const):
-                    return Const(calculate[fcn](left.value, right.value))
+                    return Const(calculate[op](left.value, right.value))
 
                 if fcn == "+":
                     return PlusMinus.combine(left, right).simplify()
@@ -375,7 +375,7 @@ _recognize(math, "exp", "exp")
 _recognize(math, "expm1", "expm1")
 _recognize(math, "factorial", "factorial")    # not in numexpr
 _recognize(math, "floor", "floor")
-_recognize(math, "fmod", "mod")
+_recognize(math, "fmod", "fmod")
 _recognize(math, "gamma", "gamma")    # not in numexpr (has lgamma and tgamma)
 _recognize(math, "hypot", "hypot")
 _recognize(math, "isinf", "isinf")
-- 
2.43.0


From 04c1b0dea12b4b6723cccb88d5665f96b8962367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:22 +0000
Subject: [PATCH 18/36] fix: refuse unhandled syntax and keyword arguments in
 expressions instead of ignoring them

---
 histbook/expr.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/histbook/expr.py b/histbook/expr.py
index cb6f82a..70751ff 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -306,7 +306,10 @@ class Expr(object):
             elif isinstance(node, ast.Call):
                 fcn = Expr.recognized.get(resolve(node.func), None)
 
-                if fcn is None and node.func.id in Expr.recognized.values():
+                if len(node.keywords) > 0 or any(isinstance(x, getattr(ast, "Starred", ())) for x in node.args):
+                    raise ExpressionError("only plain positional arguments are allowed in a function call: {0}".format(histbook.util.astunparse.tostring(node).strip()))
+
+                if fcn is None and isinstance(node.func, ast.Name) and node.func.id in Expr.recognized.values():
                     fcn = node.func.id
 
                 elif fcn is not None:
@@ -321,7 +324,7 @@ class Expr(object):
                 return Call(fcn, *(recurse(x, relations=(i == 0 and fcn == "where")) for i, x in enumerate(node.args)))
 
             else:
-                ExpressionError("unhandled syntax in expression: {0}".format(histbook.util.astunparse.tostring(node).strip()))
+                raise ExpressionError("unhandled syntax in expression: {0}".format(histbook.util.astunparse.tostring(node).strip()))
 
         return recurse(pyast, relations=True)
         
-- 
2.43.0


From 7aba178c2f25a82370358de5d415ef49e664dad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:43 +0000
Subject: [PATCH 19/36] fix: print expressions with the parentheses and quotes
 their meaning needs

---
 histbook/expr.py | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/histbook/expr.py b/histbook/expr.py
index 70751ff..ddfd400 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -495,7 +495,10 @@ class Const(Expr):
         return (repr(self.value),)
 
     def __str__(self):
-        return str(self.value)
+        if isinstance(self.value, set):
+            return "{" + ", ".join(str(Const(x)) for x in sorted(self.value)) + "}"
+        else:
+            return repr(self.value)
 
     def __hash__(self):
         if isinstance(self.value, set):
@@ -623,6 +626,12 @@ class Call(Expr):
         else:
             return self.__class__(self.fcn, *(x.rename(names) for x in self.args))
 
+def _parenthesize(x):
+    if isinstance(x, (BinOp, RingAlgebra)) or (isinstance(x, Const) and str(x).startswith("-")):
+        return "(" + str(x) + ")"
+    else:
+        return str(x)
+
 class BinOp(Call):
     """Represents a binary operation in the expression tree, such as ``%`` or ``**``."""
 
@@ -631,7 +640,7 @@ class BinOp(Call):
         self.op = op
 
     def __str__(self):
-        return (" " + self.op + " ").join(("(" + str(x) + ")") if isinstance(x, BinOp) else str(x) for x in self.args)
+        return (" " + self.op + " ").join(_parenthesize(x) for x in self.args)
 
 class RingAlgebra(Expr):
     """Abstract class for ring algebras, such as addition and multiplication."""
@@ -821,12 +830,16 @@ class RingAlgebraBinOp(object):
         for x in self.pos:
             if len(out) > 0:
                 out.append(self.posop)
-            out.append(str(x))
+            out.append(self._strarg(x))
         for x in self.neg:
             out.append(self.negop)
-            out.append(str(x))
+            out.append(self._strarg(x))
         return "".join(out)
 
+    @staticmethod
+    def _strarg(x):
+        return _parenthesize(x)
+
 class TimesDiv(RingAlgebraBinOp, RingAlgebraMultLike):
     """Represents multiplication and division in a ring algebra (actually, a whole field because it includes division)."""
 
@@ -850,6 +863,10 @@ class PlusMinus(RingAlgebraBinOp, RingAlgebraAddLike):
     posop = " + "
     negop = " - "
 
+    @staticmethod
+    def _strarg(x):
+        return str(x)
+
     subop = TimesDiv
     commutative = True
     identity = 0
@@ -908,6 +925,9 @@ class Logical(object):
     def _reprargs(self):
         return tuple(repr(x) for x in self.args)
 
+    def __str__(self):
+        return self._strop.join(("(" + str(x) + ")") if isinstance(x, Logical) and len(x.args) > 1 else str(x) for x in self.args)
+
     def __hash__(self):
         return hash((self.__class__, self.args))
 
@@ -950,6 +970,8 @@ class Logical(object):
 class LogicalAnd(Logical, RingAlgebraMultLike):
     """Represents logical and in a ring algebra."""
 
+    _strop = " and "
+
     @classmethod
     def combine(op, left, right):
         left, right = op.normalform(left), op.normalform(right)
@@ -968,6 +990,8 @@ class LogicalAnd(Logical, RingAlgebraMultLike):
 class LogicalOr(Logical, RingAlgebraAddLike):
     """Represents logical or in a ring algebra."""
 
+    _strop = " or "
+
     @classmethod
     def combine(op, left, right):
         left, right = op.normalform(left), op.normalform(right)
-- 
2.43.0


From 8af76c21d4e961fbefbf619375ee710167ea0d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:09 +0000
Subject: [PATCH 20/36] fix: compare strings, find members of a set, and negate
 boolean fields

---
 histbook/calc/__init__.py | 22 ++++++++++++++++------
 histbook/instr.py         |  8 +++++++-
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index 174abd0..62b2aa9 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -41,14 +41,24 @@ library["numpy.multiply"] = numpy.multiply
 library["numpy.true_divide"] = numpy.true_divide
 library["numpy.floor_divide"] = numpy.floor_divide
 library["xor"] = numpy.bitwise_xor
-library["numpy.equal"] = numpy.equal
-library["numpy.not_equal"] = numpy.not_equal
+def equal(left, right):
+    left, right = numpy.asarray(left), numpy.asarray(right)
+    if left.dtype.kind in "SU" and left.dtype.kind == right.dtype.kind:
+        return left == right            # numpy.equal is not defined for strings in all versions of Numpy
+    else:
+        return numpy.equal(left, right)
+library["numpy.equal"] = equal
+library["numpy.not_equal"] = lambda left, right: numpy.logical_not(equal(left, right))
 library["numpy.less"] = numpy.less
 library["numpy.less_equal"] = numpy.less_equal
-try:
-    library["numpy.isin"] = numpy.isin
-except AttributeError:
-    library["numpy.isin"] = numpy.in1d
+def isin(values, choices):
+    if isinstance(choices, set):        # Numpy would take a set to be a single object
+        choices = list(choices)
+    try:
+        return numpy.isin(values, choices)
+    except AttributeError:
+        return numpy.in1d(values, choices)
+library["numpy.isin"] = isin
 library["numpy.logical_or"] = numpy.logical_or
 library["numpy.logical_and"] = numpy.logical_and
 library["numpy.logical_not"] = numpy.logical_not
diff --git a/histbook/instr.py b/histbook/instr.py
index 15ab458..e650622 100644
--- a/histbook/instr.py
+++ b/histbook/instr.py
@@ -159,9 +159,15 @@ def totree(expr):
 
         return histbook.expr.Call(fcn, left, right)
 
-    if isinstance(expr, (histbook.expr.Const, histbook.expr.Name, histbook.expr.Predicate)):
+    if isinstance(expr, (histbook.expr.Const, histbook.expr.Name)):
         return expr
 
+    elif isinstance(expr, histbook.expr.Predicate):
+        if expr.positive:
+            return histbook.expr.Name(expr.value)
+        else:
+            return histbook.expr.Call("numpy.logical_not", histbook.expr.Name(expr.value))
+
     elif isinstance(expr, histbook.expr.Call):
         return histbook.expr.Call(expr.fcn, *(totree(x) for x in expr.args))
 
-- 
2.43.0


From 9ec856985366c3045a0ea9b406394248589a5d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:05 +0000
Subject: [PATCH 21/36] fix: evaluate function calls whose arguments are all
 constants

---
 histbook/expr.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/histbook/expr.py b/histbook/expr.py
index ddfd400..4033052 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -321,7 +321,12 @@ class Expr(object):
                 if fcn is None:
                     raise ExpressionError("unhandled function in expression: {0}".format(histbook.util.astunparse.tostring(node).strip()))
 
-                return Call(fcn, *(recurse(x, relations=(i == 0 and fcn == "where")) for i, x in enumerate(node.args)))
+                out = Call(fcn, *[recurse(x, relations=(i == 0 and fcn == "where")) for i, x in enumerate(node.args)])
+                if len(out.args) > 0 and all(isinstance(x, Const) for x in out.args):     # no field to compute it from when filling
+                    import histbook.calc
+                    return Const(histbook.calc.library[fcn](*[numpy.array([x.value]) for x in out.args])[0].item())
+                else:
+                    return out
 
             else:
                 raise ExpressionError("unhandled syntax in expression: {0}".format(histbook.util.astunparse.tostring(node).strip()))
-- 
2.43.0


From 2e44a0d969a885972e122d0196144d6f9b70da88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:15 +0000
Subject: [PATCH 22/36] fix: axes and profiles with a constant expression next
 to ones with fields

---
 histbook/expr.py | 2 +-
 histbook/fill.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/histbook/expr.py b/histbook/expr.py
index 4033052..7720d85 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -590,7 +590,7 @@ class BroadcastConst(Name):
                     else:
                         return type(self.value).__name__ < type(other.value).__name__
                 else:
-                    self.name < other.name
+                    return self.name < other.name
             else:
                 return type(self.name).__name__ < type(other.name).__name__
         else:
diff --git a/histbook/fill.py b/histbook/fill.py
index 2b67ecd..821c0e2 100644
--- a/histbook/fill.py
+++ b/histbook/fill.py
@@ -54,7 +54,7 @@ class Fillable(object):
             fields = histbook.instr.sources(goals, table)
 
             self._instructions = self._streamline(0, list(histbook.instr.instructions(fields, goals)))
-            self._fields = sorted(x.goal.value for x in fields)
+            self._fields = sorted(x.goal.value for x in fields if not isinstance(x.goal, histbook.expr.BroadcastConst))
 
         return self._fields
 
-- 
2.43.0


From 0fbae5ed4992124efadc54ca0740bd7db51bbe47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:18 +0000
Subject: [PATCH 23/36] fix: select from a cut axis whose condition compares
 two fields

---
 histbook/proj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index c30cfa5..55e5419 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -373,7 +373,7 @@ class Projectable(object):
                 elif asconst(expr.left) is not None and asconst(expr.right) is not None:
                     raise TypeError("select expression must have a variable left or right hand side, not {0}".format(repr(str(expr))))
                 else:
-                    raise TypeError("select expression must have a constant left or right hand side, not {0}".format(repr(str(expr))))
+                    return expr, "==", True     # only a cut axis with the same expression can select it
 
                 cutvalue = cutvalue.value   # unbox to Python
 
-- 
2.43.0


From d48f4956a0ca209a37c9b968ed5ba745782b56f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:45 +0000
Subject: [PATCH 24/36] fix: order sets in expressions totally, so that the
 order of terms does not matter

---
 histbook/expr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/histbook/expr.py b/histbook/expr.py
index 7720d85..7fe0fe0 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -518,6 +518,8 @@ class Const(Expr):
     def __lt__(self, other):
         if self.__class__.__name__ == other.__class__.__name__:
             if type(self.value).__name__ == type(other.value).__name__:
+                if isinstance(self.value, set):
+                    return sorted(self.value) < sorted(other.value)    # for sets, < would be the subset relation
                 return self.value < other.value
             else:
                 return type(self.value).__name__ < type(other.value).__name__
-- 
2.43.0


From b846bc35bb18a6ee1b87e757b6731a0036e2e11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:37 +0000
Subject: [PATCH 25/36] fix: books notice changes of the books inside them, and
 fill a histogram with several names once

---
 histbook/book.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/histbook/book.py b/histbook/book.py
index 8d16b39..c5060ca 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -525,13 +525,30 @@ class Book(GenericBook, histbook.fill.Fillable):
     def _changed(self):
         self._fields = None
 
+    def _hists(self):
+        # each histogram once, even if it has several names
+        out = collections.OrderedDict()
+        for x in self.itervalues(recursive=True, onlyhist=True):
+            out[id(x)] = x
+        return list(out.values())
+
+    @property
+    def fields(self):
+        """Names of fields that must be provided in the ``fill`` method."""
+        # books inside of this one may have changed without notice
+        hists = self._hists()
+        if self._fields is not None and (len(hists) != len(self._streamlined) or any(x is not y for x, y in zip(hists, self._streamlined))):
+            self._fields = None
+        return super(Book, self).fields
+
     @property
     def _goals(self):
-        return functools.reduce(set.union, (x._goals for x in self.itervalues(recursive=True, onlyhist=True)), set())
+        return functools.reduce(set.union, (x._goals for x in self._hists()), set())
 
     def _streamline(self, i, instructions):
         self._destination = []
-        for i, x in enumerate(self.itervalues(recursive=True, onlyhist=True)):
+        self._streamlined = self._hists()
+        for i, x in enumerate(self._streamlined):
             self._destination.append(x._destination[0])
             x._streamline(i, instructions)
         return instructions
@@ -578,10 +595,10 @@ class Book(GenericBook, histbook.fill.Fillable):
             else:
                 arrays = histbook.util.ChainedDict(arrays, more)
 
-            for x in self.itervalues(recursive=True, onlyhist=True):
+            for x in self._hists():
                 x._prefill()
             length = self._fill(arrays)
-            for x in self.itervalues(recursive=True, onlyhist=True):
+            for x in self._hists():
                 x._postfill(arrays, length)
 
 ################################################################ for constructing fillable views
-- 
2.43.0


From 640baa9dbf004b1cfc7888645ef8578f377c488c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:31 +0000
Subject: [PATCH 26/36] fix: normalized tables with sparse or several irregular
 axes; errors of profiles without spread are zero, not NaN

---
 histbook/proj.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index 55e5419..7cde6f9 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -558,16 +558,24 @@ class Projectable(object):
             for axis in self._group:
                 if isinstance(axis, histbook.axis.groupbin):
                     groupbins *= axis.binwidth
-            binwidths[tuple(axis.finiteslice for axis in self._group + self._fixed)] = groupbins
+            binwidths[tuple(axis.finiteslice for axis in self._fixed)] = groupbins
 
             for i, axis in enumerate(self._fixed):
                 if callable(axis.binwidth):
-                    binwidth = numpy.array([axis.binwidth(k) for k in range(axis.numbins)])
+                    binwidth = numpy.array([axis.binwidth(k) for k in range(axis.numbins)]).reshape((-1,) + (1,) * (len(self._fixed) - i - 1))
                 else:
                     binwidth = axis.binwidth
 
                 binwidths[tuple(axis.finiteslice if i == j else slice(None) for j, axis in enumerate(self._fixed))] *= binwidth
 
+            def densities(content):
+                if isinstance(content, dict):
+                    return sum(densities(x) for x in content.values())
+                else:
+                    return (content[..., self._sumwindex] / binwidths).sum()
+
+            total = densities(self._content)
+
         def handlearray(content):
             content = content.reshape((-1, self._shape[-1]))
 
@@ -589,9 +597,7 @@ class Projectable(object):
                     outindex += 1
 
                 if normalized:
-                    shaped = binwidths.reshape(content.shape[:-1])
-                    total = (out[:, countindex] / shaped).sum()
-                    correction = total * shaped
+                    correction = total * binwidths.reshape(content.shape[:-1])
                     out[:, countindex] /= correction
                     if error:
                         out[:, errorindex] /= correction
@@ -612,7 +618,8 @@ class Projectable(object):
                 out[good, outindex] = content[good, prof._sumwxindex] / sumw
                 outindex += 1
                 if error:
-                    out[good, outindex] = numpy.sqrt(((content[good, prof._sumwx2index] / sumw) - numpy.square(out[good, outindex - 1])) / effcnt)
+                    variance = (content[good, prof._sumwx2index] / sumw) - numpy.square(out[good, outindex - 1])
+                    out[good, outindex] = numpy.sqrt(numpy.maximum(variance, 0) / effcnt)     # rounding may take it below zero
                     outindex += 1
 
             if recarray:
-- 
2.43.0


From 5700471e182f48c78b5c753d657ee27ee14720f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:04 +0000
Subject: [PATCH 27/36] fix: fraction errors at other confidence levels without
 scipy, refuse unknown error methods

---
 histbook/proj.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index 7cde6f9..740205a 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -721,12 +721,11 @@ class Projectable(object):
             try:
                 from scipy.special import erfinv
             except ImportError:
-                a3 = math.pi / 12.0
-                a5 = math.pi**2 * 7.0/480.0
-                a7 = math.pi**3 * 127.0/40320.0
-                a9 = math.pi**4 * 4369.0/5806080.0
-                a11 = math.pi**5 * 34807.0/182476800.0
-                return 0.5*math.sqrt(math.pi)*(level + a3*level**3 + a5*level**5 + a7*level**7 + a9*level**9 + a11*level**11)
+                # Newton's method for erf(x) == level
+                x = 0.0
+                for i in range(100):
+                    x += (level - math.erf(x)) * 0.5*math.sqrt(math.pi) * math.exp(x**2)
+                return x * math.sqrt(2)
             else:
                 return float(erfinv(level) * math.sqrt(2))
 
@@ -783,6 +782,9 @@ class Projectable(object):
                 elif error == "bayesian-uniform":
                     raise NotImplementedError
 
+                else:
+                    raise ValueError("unrecognized error method: {0}".format(repr(error)))
+
             if recarray:
                 return out.view([(x, numpy.dtype(numpy.float64)) for x in columns]).reshape(denomhist._shape[:-1])
             else:
-- 
2.43.0


From 38da27da7c0914ed056e4da7fdb9277456feeb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:18 +0000
Subject: [PATCH 28/36] fix: deleting a wildcard pattern from a book only
 deletes what matches, names with wildcard characters can be read, popitem and
 update of books

---
 histbook/book.py | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/histbook/book.py b/histbook/book.py
index c5060ca..bbd4a4b 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -259,14 +259,13 @@ class GenericBook(collections.MutableMapping):
         if not isinstance(name, string):
             raise TypeError("keys of a {0} must be strings".format(self.__class__.__name__))
 
-        if "*" in name or "?" in name or "[" in name:
+        out = self._get(name)
+        if out is not None:
+            return out
+        elif "*" in name or "?" in name or "[" in name:
             return [x for n, x in self.iteritems(recursive=True) if fnmatch.fnmatchcase(n, name)]
         else:
-            out = self._get(name)
-            if out is not None:
-                return out
-            else:
-                raise KeyError("could not find {0} and could not interpret it as a wildcard (glob) pattern".format(repr(name)))
+            raise KeyError("could not find {0} and could not interpret it as a wildcard (glob) pattern".format(repr(name)))
 
     def __setitem__(self, name, value):
         if not isinstance(name, string):
@@ -280,12 +279,24 @@ class GenericBook(collections.MutableMapping):
         if not isinstance(name, string):
             raise TypeError("keys of a {0} must be strings".format(self.__class__.__name__))
 
-        if "*" in name or "?" in name or "[" in name:
+        if self._get(name) is None and ("*" in name or "?" in name or "[" in name):
             for n in self.allkeys():
-                self._del(n, "")
+                if fnmatch.fnmatchcase(n, name) and self._get(n) is not None:
+                    self._del(n, "")
         else:
             self._del(name, "")
 
+    def popitem(self):
+        """Remove and return the last name, book-or-histogram pair."""
+        if len(self._content) == 0:
+            raise KeyError("popitem: book is empty")
+        name = list(self._content)[-1]
+        return name, self.pop(name)
+
+    def update(self, *other, **more):
+        """Assign all items of a book, dict, or iterable of name, book-or-histogram pairs."""
+        super(GenericBook, self).update(*[x.items() if isinstance(x, GenericBook) else x for x in other], **more)
+
     def _iteritems(self, path, recursive, onlyhist):
         for n, x in self._content.items():
             if not onlyhist or isinstance(x, histbook.hist.Hist):
@@ -442,12 +453,12 @@ class GenericBook(collections.MutableMapping):
 
         content = collections.OrderedDict()
         for n, x in self.iteritems():
-            if n in other:
+            if n in other._content:
                 content[n] = x + other[n]
             else:
                 content[n] = x.copy()
         for n, x in other.iteritems():
-            if n not in self:
+            if n not in self._content:
                 content[n] = x.copy()
 
         attachment = dict(self._attachment)
@@ -459,7 +470,7 @@ class GenericBook(collections.MutableMapping):
             raise TypeError("histogram books can only be added to other histogram books")
         
         for n, x in other.iteritems():
-            if n not in self:
+            if n not in self._content:
                 self[n] = x.copy()
             else:
                 self[n] += x
@@ -499,10 +510,10 @@ class GenericBook(collections.MutableMapping):
 
         content = collections.OrderedDict()
         for name in functools.reduce(set.union, (set(book.iterkeys()) for book in books.values())):
-            nestcls = tuple(set(book[name].__class__ for book in books.values() if name in book))
+            nestcls = tuple(set(book[name].__class__ for book in books.values() if name in book._content))
             if len(nestcls) != 1:
                 raise TypeError("books at {0} have different types: {1}".format(repr(name), ", ".join(repr(x) for x in nestcls)))
-            content[name] = nestcls[0].group(by=by, **dict((n, book[name]) for n, book in books.items() if name in book))
+            content[name] = nestcls[0].group(by=by, **dict((n, book[name]) for n, book in books.items() if name in book._content))
 
         attachment = {}
         for book in books.values():
-- 
2.43.0


From a62afba262ef180866201c441f5847196d5788d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:43 +0000
Subject: [PATCH 29/36] fix: grouping books keeps the order of the names

---
 histbook/book.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/histbook/book.py b/histbook/book.py
index bbd4a4b..3ec8eca 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -507,9 +507,16 @@ class GenericBook(collections.MutableMapping):
         """
         if any(not isinstance(x, GenericBook) for x in books.values()):
             raise TypeError("only histogram books can be grouped with other books")
+        if len(books) == 0:
+            raise ValueError("at least one book must be provided")
 
         content = collections.OrderedDict()
-        for name in functools.reduce(set.union, (set(book.iterkeys()) for book in books.values())):
+        names = collections.OrderedDict()
+        for book in books.values():
+            for name in book.iterkeys():
+                names[name] = None
+
+        for name in names:
             nestcls = tuple(set(book[name].__class__ for book in books.values() if name in book._content))
             if len(nestcls) != 1:
                 raise TypeError("books at {0} have different types: {1}".format(repr(name), ", ".join(repr(x) for x in nestcls)))
-- 
2.43.0


From c7a79e5082fd8088c7118bbd89d5288a861a24b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:16 +0000
Subject: [PATCH 30/36] fix: unpickled books can be filled, JSON keeps group
 keys that are not strings

---
 histbook/book.py |  9 +++++++++
 histbook/hist.py | 13 ++++++++-----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/histbook/book.py b/histbook/book.py
index 3ec8eca..8545bd1 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -196,6 +196,15 @@ class GenericBook(collections.MutableMapping):
                 content[node["name"]] = GenericBook.fromjson(node)
         return cls.fromdicts(content, dict(obj.get("attachment", {})))
 
+    def __getstate__(self):
+        # not the instructions for filling: they refer to temporary storage in the histograms
+        return {"_content": self._content, "_attachment": self._attachment}
+
+    def __setstate__(self, state):
+        self._content = state["_content"]
+        self._attachment = state["_attachment"]
+        self._changed()
+
     def __len__(self):
         return len(self._content)
 
diff --git a/histbook/hist.py b/histbook/hist.py
index dfec24d..69a6dd5 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -713,8 +713,11 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             out["defs"] = dict(self._defs)
         if self._content is not None:
             def recurse(node):
-                if isinstance(node, dict):
+                if isinstance(node, dict) and all(isinstance(n, histbook.util.string) for n in node):
                     return dict((n, recurse(x)) for n, x in node.items())
+                elif isinstance(node, dict):
+                    # keys of a JSON object can only be strings
+                    return [[n.item() if isinstance(n, numpy.generic) else n, recurse(x)] for n, x in node.items()]
                 else:
                     return node.tolist()
             out["content"] = recurse(self._content)
@@ -725,16 +728,16 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
     @staticmethod
     def fromjson(obj):
         assert obj["type"] == "Hist"
-        def recurse(node):
+        def recurse(node, depth):
             if node is None:
                 return None
-            elif isinstance(node, dict):
-                return dict((n, recurse(x)) for n, x in node.items())
+            elif depth > 0:
+                return dict((n, recurse(x, depth - 1)) for n, x in (node.items() if isinstance(node, dict) else node))
             else:
                 return numpy.array(node, dtype=Hist.COUNTTYPE)
 
         out = Hist(*[histbook.axis.Axis.fromjson(x) for x in obj["axis"]], weight=obj.get("weight", None), filter=obj.get("filter", None), defs=dict(obj.get("defs", {})), attachment=dict(obj.get("attachment", {})))
-        out._content = recurse(obj.get("content", None))
+        out._content = recurse(obj.get("content", None), len(out._group))
         return out
 
     def __getstate__(self):
-- 
2.43.0


From 8fda14cd4ae727bcbd8e2c3a31811081f66c9130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:25 +0000
Subject: [PATCH 31/36] fix: the last bin of a regular axis ends at the high
 edge of the axis

---
 histbook/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index 309ce98..2114f40 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -773,7 +773,7 @@ class bin(FixedAxis, _RebinFactor, _RebinSplit):
     def keys(self, content=None):
         """Returns key labels in the order of the bin content, to index the content."""
         def i2x(i):
-            return (float(i) / float(self._numbins)) * float(self._high - self._low) + float(self._low)
+            return float(self._high) if i == self._numbins else (float(i) / float(self._numbins)) * float(self._high - self._low) + float(self._low)
         return IntervalTuple(([Interval(float("-inf"), float(self._low), closedlow=True, closedhigh=(not self._closedlow))] if self.underflow else []) +
                              [Interval(i2x(i), i2x(i + 1), closedlow=self._closedlow, closedhigh=(not self._closedlow)) for i in range(self._numbins)] +
                              ([Interval(float(self._high), float("inf"), closedlow=self._closedlow, closedhigh=True)] if self.overflow else []) +
-- 
2.43.0


From d9eaa61a3b19987f6b6abd15b31169633cf86637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:25 +0000
Subject: [PATCH 32/36] fix: plots keep combined plots apart, label cuts and
 integers alike in data and legend, place error bars of labelled bins

---
 histbook/vega.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/histbook/vega.py b/histbook/vega.py
index 8b37bbe..7c9b7ef 100644
--- a/histbook/vega.py
+++ b/histbook/vega.py
@@ -36,6 +36,9 @@ import numpy
 
 import histbook.axis
 
+def _label(key):
+    return ("pass" if key else "fail") if isinstance(key, (bool, numpy.bool_)) else str(key)
+
 class Channel(object):
     """Abstract class for graphical channels in a Vega-Lite plot."""
 
@@ -541,7 +544,7 @@ class Plotable1d(PlotableFrontends):
         lastj = projectedorder.index(self._last.axis)
 
         data = []
-        domains = {}
+        domains = dict((x, set()) for x in projectedorder)
         if error and baseline:
             shifts = {}
 
@@ -558,12 +561,10 @@ class Plotable1d(PlotableFrontends):
 
             else:
                 axis = projectedorder[j]
-                if axis not in domains:
-                    domains[axis] = set()
-                domains[axis].update(axis.keys(content))
-
+                domain = domains[axis]
                 if isinstance(axis, histbook.axis.intbin):
                     axis = axis.bin()
+                domain.update(axis.keys(content))
 
                 for i, (n, x) in enumerate(axis.items(content)):
                     if isinstance(n, histbook.axis.Interval):
@@ -647,18 +648,18 @@ class Plotable1d(PlotableFrontends):
             elif len(values) > 1:
                 return "if(datum.{0} === {1}, {2}, {3})".format(var, repr(values[0]), i, makeorder(i + 1, var, values[1:]))
             else:
-                raise AssertionError(values)
+                return str(i)
 
         encoding = {"x": {"field": varname + str(axis.index(self._last.axis)), "type": xtype, "scale": {"zero": False}, "axis": {"title": xtitle}},
                     "y": {"field": varname + str(len(axis)), "type": "quantitative", "axis": {"title": ytitle}}}
         for channel in self._chain[:-1]:
             if isinstance(channel, OverlayChannel):
-                overlayorder = [str(x) for x in sorted(domains[channel.axis])]
+                overlayorder = [_label(x) for x in sorted(domains[channel.axis])]
                 encoding["color"] = {"field": varname + str(axis.index(channel.axis)), "type": "nominal", "legend": {"title": channel.axis.expr}, "scale": {"domain": overlayorder}}
 
             elif isinstance(channel, StackChannel):
                 if channel.order is None:
-                    stackorder = [str(x) for x in sorted(domains[channel.axis])]
+                    stackorder = [_label(x) for x in sorted(domains[channel.axis])]
                 else:
                     stackorder = channel.order
                 encoding["color"] = {"field": varname + str(axis.index(channel.axis)), "type": "nominal", "legend": {"title": channel.axis.expr}, "scale": {"domain": list(reversed(stackorder))}}
@@ -707,7 +708,7 @@ class Plotable1d(PlotableFrontends):
             else:
                 errx = varname + str(axis.index(self._last.axis))
 
-            encoding2 = {"x": {"field": errx, "type": "quantitative"},
+            encoding2 = {"x": {"field": errx, "type": xtype},
                          "y": {"field": "error-down", "type": "quantitative"},
                          "y2": {"field": "error-up", "type": "quantitative"}}
 
@@ -834,7 +835,7 @@ class Plotable2d(PlotableFrontends):
             ybin = {"extent": [self._last.yaxis.low, self._last.yaxis.high], "minstep": self._last.yaxis.binwidth, "maxbins": self._last.yaxis.numbins + 1, "nice": False}
         elif isinstance(self._last.yaxis, histbook.axis.intbin):
             ytype = "quantitative"
-            ybin = {"extent": [self._last.yaxis.min - 0.5, self._last.yaxis.may + 0.5], "minstep": self._last.yaxis.binwidth, "maxbins": self._last.yaxis.numbins + 1, "nice": False}
+            ybin = {"extent": [self._last.yaxis.min - 0.5, self._last.yaxis.max + 0.5], "minstep": self._last.yaxis.binwidth, "maxbins": self._last.yaxis.numbins + 1, "nice": False}
         elif isinstance(self._last.yaxis, histbook.axis.split):
             raise NotImplementedError("Vega-Lite doesn't support heatmaps of explicit axis splitting (yet?)")
         else:
@@ -1040,7 +1041,7 @@ class beside(Combination):
                 if len(marks) == 1:
                     tofill.append(plotable._options({"mark": marks[0], "encoding": encodings[0], "transform": transforms[0] + thislayer}, config=False))
                 else:
-                    tofill.append({"layer": [plotable._options({"mark": m, "encoding": e, "transform": t}, config=False) for m, e, t in zip(marks, encodings, transforms)]})
+                    tofill.append({"layer": [plotable._options({"mark": m, "encoding": e, "transform": t + thislayer}, config=False) for m, e, t in zip(marks, encodings, transforms)]})
                 i += 1
 
         return i
@@ -1081,7 +1082,7 @@ class below(Combination):
                 if len(marks) == 1:
                     tofill.append(plotable._options({"mark": marks[0], "encoding": encodings[0], "transform": transforms[0] + thislayer}, config=False))
                 else:
-                    tofill.append({"layer": [plotable._options({"mark": m, "encoding": e, "transform": t}, config=False) for m, e, t in zip(marks, encodings, transforms)]})
+                    tofill.append({"layer": [plotable._options({"mark": m, "encoding": e, "transform": t + thislayer}, config=False) for m, e, t in zip(marks, encodings, transforms)]})
                 i += 1
 
         return i
@@ -1123,7 +1124,7 @@ class grid(Combination):
                     tofill[-1]["hconcat"].append(plotable._options({"mark": marks[0], "encoding": encodings[0], "transform": transforms[0] + thislayer}, config=False))
 
                 else:
-                    tofill[-1]["hconcat"].append({"layer": [plotable._options({"mark": m, "encoding": e, "transform": t}, config=False) for m, e, t in zip(marks, encodings, transforms)]})
+                    tofill[-1]["hconcat"].append({"layer": [plotable._options({"mark": m, "encoding": e, "transform": t + thislayer}, config=False) for m, e, t in zip(marks, encodings, transforms)]})
 
                 i += 1
 
-- 
2.43.0


From f847cb4742496d2bc867cfc9a906524a9434dcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:48 +0000
Subject: [PATCH 33/36] fix: intervals and constants are totally ordered,
 consistently with equality

---
 histbook/axis.py |  4 ++--
 histbook/expr.py | 21 +++++++++++++--------
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index 2114f40..2a64311 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -85,7 +85,7 @@ class Interval(object):
             if isinstance(other, IntervalNaN):
                 return True
             else:
-                return self._low < other._low
+                return (self._low, not self._closedlow, self._high, self._closedhigh) < (other._low, not other._closedlow, other._high, other._closedhigh)
         else:
             return self.__class__ < other.__class__
 
@@ -144,7 +144,7 @@ class IntervalNaN(Interval):
 
     def __lt__(self, other):
         if isinstance(other, Interval):
-            return isinstance(other, IntervalNaN)
+            return False
         else:
             return self.__class__ < other.__class__
 
diff --git a/histbook/expr.py b/histbook/expr.py
index 7fe0fe0..dded41e 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -32,6 +32,7 @@ import ast
 import functools
 import itertools
 import math
+import numbers
 import sys
 import types
 try:
@@ -490,6 +491,10 @@ _recognize(numpy, "where", "where")
 # "uint8"
 # "unsafe_cast"
 
+def _typename(value):
+    # numbers are equal whatever their type, so they are ordered by value
+    return "number" if isinstance(value, numbers.Real) else type(value).__name__
+
 class Const(Expr):
     """Represents a literal constant in the expression tree, such as a number, boolean, or ``None``."""
 
@@ -501,13 +506,13 @@ class Const(Expr):
 
     def __str__(self):
         if isinstance(self.value, set):
-            return "{" + ", ".join(str(Const(x)) for x in sorted(self.value)) + "}"
+            return "{" + ", ".join(str(Const(x)) for x in sorted(self.value, key=Const)) + "}"
         else:
             return repr(self.value)
 
     def __hash__(self):
         if isinstance(self.value, set):
-            value = (set, tuple(sorted(self.value)))
+            value = (set, tuple(sorted(self.value, key=Const)))
         else:
             value = self.value
         return hash((Const, value))
@@ -517,12 +522,12 @@ class Const(Expr):
 
     def __lt__(self, other):
         if self.__class__.__name__ == other.__class__.__name__:
-            if type(self.value).__name__ == type(other.value).__name__:
+            if _typename(self.value) == _typename(other.value):
                 if isinstance(self.value, set):
-                    return sorted(self.value) < sorted(other.value)    # for sets, < would be the subset relation
+                    return [Const(x) for x in sorted(self.value, key=Const)] < [Const(x) for x in sorted(other.value, key=Const)]    # for sets, < would be the subset relation
                 return self.value < other.value
             else:
-                return type(self.value).__name__ < type(other.value).__name__
+                return _typename(self.value) < _typename(other.value)
         else:
             return self.__class__.__name__ < other.__class__.__name__
 
@@ -575,7 +580,7 @@ class BroadcastConst(Name):
 
     def __hash__(self):
         if isinstance(self.value, set):
-            value = (set, tuple(sorted(self.value)))
+            value = (set, tuple(sorted(self.value, key=Const)))
         else:
             value = self.value
         return hash((Const, self.name, value))
@@ -587,10 +592,10 @@ class BroadcastConst(Name):
         if self.__class__.__name__ == other.__class__.__name__:
             if type(self.name).__name__ == type(other.name).__name__:
                 if self.name == other.name:
-                    if type(self.value).__name__ == type(other.value).__name__:
+                    if _typename(self.value) == _typename(other.value):
                         return self.value < other.value
                     else:
-                        return type(self.value).__name__ < type(other.value).__name__
+                        return _typename(self.value) < _typename(other.value)
                 else:
                     return self.name < other.name
             else:
-- 
2.43.0


From f0918e82895524f3f554e0eb0c5d8398db445de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:45 +0000
Subject: [PATCH 34/36] fix: a refused fill leaves an unfilled histogram
 unfilled, arrays that are not one-dimensional are refused before anything is
 counted

---
 histbook/book.py | 2 +-
 histbook/fill.py | 2 ++
 histbook/hist.py | 2 +-
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/histbook/book.py b/histbook/book.py
index 8545bd1..0b4f26f 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -622,9 +622,9 @@ class Book(GenericBook, histbook.fill.Fillable):
             else:
                 arrays = histbook.util.ChainedDict(arrays, more)
 
+            length = self._fill(arrays)
             for x in self._hists():
                 x._prefill()
-            length = self._fill(arrays)
             for x in self._hists():
                 x._postfill(arrays, length)
 
diff --git a/histbook/fill.py b/histbook/fill.py
index 821c0e2..2f4bbe5 100644
--- a/histbook/fill.py
+++ b/histbook/fill.py
@@ -140,6 +140,8 @@ class Fillable(object):
                 if array.shape == ():
                     array = full(length, array)
 
+                if len(array.shape) != 1:
+                    raise ValueError("array {0} is not one-dimensional".format(repr(str(instruction.extern))))
                 if length != array.shape[0]:
                     raise ValueError("array {0} has len {1} but other arrays have len {2}".format(repr(str(instruction.extern)), len(array), length))
 
diff --git a/histbook/hist.py b/histbook/hist.py
index 69a6dd5..e5bea9e 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -368,8 +368,8 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             else:
                 arrays = histbook.util.ChainedDict(arrays, more)
 
-            self._prefill()
             length = self._fill(arrays)
+            self._prefill()
             self._postfill(arrays, length)
 
     def _copynow(self):
-- 
2.43.0


From 589df41e08ac370bad143ba8a627c61c51aa88eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:51 +0000
Subject: [PATCH 35/36] fix: data frames keep the fractions of histograms with
 only cuts and groups, NaN groups and histograms without axes, ROOT histograms
 of irregular axes have their edges

---
 histbook/export.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/histbook/export.py b/histbook/export.py
index fe38c83..df4e869 100644
--- a/histbook/export.py
+++ b/histbook/export.py
@@ -67,13 +67,13 @@ class Exportable(object):
         else:
             raise TypeError("selected axis must be all profiles (for table) or all cuts (for fraction)")
 
-        names = [None for x in allaxis]
+        names = [str(x.expr) for x in allaxis]
         arrays = []
         keys = [[] for x in allaxis]
 
         def index(j, content, key):
             if j == len(allaxis):
-                if len(self._fixed) == 0:
+                if all(isinstance(x, histbook.axis.GroupAxis) for x in allaxis):
                     arrays.append(numpy.array([content]))
 
                 for j, k in enumerate(key):
@@ -81,7 +81,6 @@ class Exportable(object):
 
             else:
                 axis = allaxis[j]
-                names[j] = str(axis.expr)
 
                 if isinstance(axis, histbook.axis.groupby):
                     for n in sorted(content):
@@ -89,11 +88,10 @@ class Exportable(object):
 
                 elif isinstance(axis, histbook.axis.groupbin):
                     closed = "left" if axis.closedlow else "right"
-                    for n in sorted(content):
-                        if n == "NaN":
-                            index(j + 1, content[n], key + ("{NaN}",))
-                        else:
-                            index(j + 1, content[n], key + (pd.Interval(n, n + float(axis.binwidth), closed=closed),))
+                    for n in sorted(x for x in content if x != "NaN"):
+                        index(j + 1, content[n], key + (pd.Interval(n, n + float(axis.binwidth), closed=closed),))
+                    if "NaN" in content:
+                        index(j + 1, content["NaN"], key + ("{NaN}",))
 
                 else:
                     if content is not None:
@@ -105,7 +103,7 @@ class Exportable(object):
                             index(j + 1, None, key + (pd.Interval(float("-inf"), axis.low, closed=closed),))
                         last = axis.low
                         for i in range(axis.numbins):
-                            this = (float(i + 1) / float(axis.numbins)) * float(axis.high - axis.low) + float(axis.low)
+                            this = float(axis.high) if i + 1 == axis.numbins else (float(i + 1) / float(axis.numbins)) * float(axis.high - axis.low) + float(axis.low)
                             index(j + 1, None, key + (pd.Interval(last, this, closed=closed),))
                             last = this
                         if axis.overflow:
@@ -146,14 +144,16 @@ class Exportable(object):
 
         index(0, content, ())
 
+        rows = pd.MultiIndex.from_arrays(keys, names=names) if len(allaxis) > 0 else None
+
         if len(arrays) == 0:
-            return pd.DataFrame(index=pd.MultiIndex.from_arrays(keys, names=names),
+            return pd.DataFrame(index=rows,
                                 columns=columns)
         else:
             arrays = numpy.concatenate(arrays)
-            return pd.DataFrame(index=pd.MultiIndex.from_arrays(keys, names=names),
+            return pd.DataFrame(index=rows,
                                 columns=arrays.dtype.names,
-                                data=arrays.view(arrays.dtype[arrays.dtype.names[0]]).reshape(len(keys[0]), -1))
+                                data=arrays.view(arrays.dtype[arrays.dtype.names[0]]).reshape(len(keys[0]) if len(keys) > 0 else 1, -1))
 
     def root(self, *axis, **opts):
         """
@@ -252,9 +252,13 @@ class Exportable(object):
 
         elif len(binaxis) == 1:
             xaxis = binaxis[0]
+            if isinstance(xaxis, histbook.axis.split):
+                binning = (numpy.array(xaxis.edges, dtype=numpy.float64),)
+            else:
+                binning = (xaxis.low, xaxis.high)
 
             if profile is None:
-                out = ROOT.TH1D(name, title, xaxis.numbins, xaxis.low, xaxis.high)
+                out = ROOT.TH1D(name, title, xaxis.numbins, *binning)
 
                 entries = numpy.zeros(xaxis.numbins + 2, dtype=numpy.float64)
                 entries[(0 if xaxis.underflow else 1) : (None if xaxis.overflow else -1)] = content["count()"][: (-1 if xaxis.nanflow else None)]
@@ -267,7 +271,7 @@ class Exportable(object):
                     out.SetError(errors)
 
             else:
-                out = ROOT.TProfile(name, title, xaxis.numbins, xaxis.low, xaxis.high)
+                out = ROOT.TProfile(name, title, xaxis.numbins, *binning)
 
                 entries = numpy.zeros(xaxis.numbins + 2, dtype=numpy.float64)
                 entries[(0 if xaxis.underflow else 1) : (None if xaxis.overflow else -1)] = content[content.dtype.names[0]][: (-1 if xaxis.nanflow else None)]
-- 
2.43.0


From 276299d68846a10e33d5b563d3fea8a9a8dfade2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:01 +0000
Subject: [PATCH 36/36] fix: refused expressions raise ExpressionError again (a
 local import hid the histbook module)

---
 histbook/expr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/histbook/expr.py b/histbook/expr.py
index dded41e..1b308dc 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -324,8 +324,8 @@ class Expr(object):
 
                 out = Call(fcn, *[recurse(x, relations=(i == 0 and fcn == "where")) for i, x in enumerate(node.args)])
                 if len(out.args) > 0 and all(isinstance(x, Const) for x in out.args):     # no field to compute it from when filling
-                    import histbook.calc
-                    return Const(histbook.calc.library[fcn](*[numpy.array([x.value]) for x in out.args])[0].item())
+                    from histbook.calc import library
+                    return Const(library[fcn](*[numpy.array([x.value]) for x in out.args])[0].item())
                 else:
                     return out
 
-- 
2.43.0

