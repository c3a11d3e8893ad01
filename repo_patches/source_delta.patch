From d162ebb9e0f1a13b3639bdb02b604028cfc11347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:27 +0000
Subject: [PATCH 001/180] fix: Gomoku and Pente count only legal moves, so that
 draws are declared exactly when the board is full

---
 pybrain/rl/environments/twoplayergames/gomoku.py | 4 ++--
 pybrain/rl/environments/twoplayergames/pente.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pybrain/rl/environments/twoplayergames/gomoku.py b/pybrain/rl/environments/twoplayergames/gomoku.py
index c9d6bdb..451b940 100644
--- a/pybrain/rl/environments/twoplayergames/gomoku.py
+++ b/pybrain/rl/environments/twoplayergames/gomoku.py
@@ -79,10 +79,10 @@ class GomokuGame(TwoPlayerGame):
     def doMove(self, c, pos):
         """ the action is a (color, position) tuple, for the next stone to move.
         returns True if the move was legal. """
-        self.movesDone += 1
         if not self.isLegal(c, pos):
             return False
-        elif self._fiveRow(c, pos):
+        self.movesDone += 1
+        if self._fiveRow(c, pos):
             self.winner = c
             self.b[pos] = 'x'
             return True
diff --git a/pybrain/rl/environments/twoplayergames/pente.py b/pybrain/rl/environments/twoplayergames/pente.py
index e02190a..cb95185 100644
--- a/pybrain/rl/environments/twoplayergames/pente.py
+++ b/pybrain/rl/environments/twoplayergames/pente.py
@@ -50,10 +50,10 @@ class PenteGame(GomokuGame):
     def doMove(self, c, pos):
         """ the action is a (color, position) tuple, for the next stone to move.
         returns True if the move was legal. """
-        self.movesDone += 1
         if not self.isLegal(c, pos):
             return False
-        elif self._fiveRow(c, pos):
+        self.movesDone += 1
+        if self._fiveRow(c, pos):
             self.winner = c
             self.b[pos] = 'x'
             return True
-- 
2.43.0


From 5792f3b99674659d7c91474c15740cd5a3dc4f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:46 +0000
Subject: [PATCH 002/180] fix: sequence indices are integers, so that sequences
 can be read, removed and gone to

---
 pybrain/datasets/sequential.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pybrain/datasets/sequential.py b/pybrain/datasets/sequential.py
index 03b2144..0b04d93 100644
--- a/pybrain/datasets/sequential.py
+++ b/pybrain/datasets/sequential.py
@@ -46,7 +46,7 @@ class SequentialDataSet(SupervisedDataSet):
         if len(seq) < index + 1:
             # sequence index beyond number of sequences. raise exception
             raise IndexError('sequence does not exist.')
-        return self.getField(field)[seq[index]:seq[index + 1]]
+        return self.getField(field)[int(seq[index]):int(seq[index + 1])]
 
     def getSequence(self, index):
         """Returns the sequence given by `index`.
@@ -80,7 +80,7 @@ class SequentialDataSet(SupervisedDataSet):
     def gotoSequence(self, index):
         """Move the internal marker to the beginning of sequence `index`."""
         try:
-            self.index = ravel(self.getField('sequence_index'))[index]
+            self.index = int(ravel(self.getField('sequence_index'))[index])
         except IndexError:
             raise IndexError('sequence does not exist')
 
@@ -114,7 +114,7 @@ class SequentialDataSet(SupervisedDataSet):
             # sequence doesn't exist, raise exception
             raise IndexError('sequence does not exist.')
         sequences = ravel(self.getField('sequence_index'))
-        seqstart = sequences[index]
+        seqstart = int(sequences[index])
         if index == self.getNumSequences() - 1:
             # last sequence is going to be removed
             lastSeqDeleted = True
@@ -122,7 +122,7 @@ class SequentialDataSet(SupervisedDataSet):
         else:
             lastSeqDeleted = False
             # sequence to remove is not last one (sequence_index exists)
-            seqend = sequences[index + 1]
+            seqend = int(sequences[index + 1])
 
         # cut out data from all fields
         for label in self.link:
@@ -154,7 +154,7 @@ class SequentialDataSet(SupervisedDataSet):
             # move sequence marker to the new sequence at position 'index'
             self.currentSeq = index
             # move sample marker to beginning of sequence at position 'index'
-            self.index = ravel(self.getField('sequence_index'))[index]
+            self.index = int(ravel(self.getField('sequence_index'))[index])
 
 
     def clear(self):
-- 
2.43.0


From b9173ac9ee2a72e8206f9e1b02e56fe49a4a1c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:46 +0000
Subject: [PATCH 003/180] fix: the length of a dataset without links is that of
 its longest field

---
 pybrain/datasets/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/datasets/dataset.py b/pybrain/datasets/dataset.py
index 6a11890..4d673ad 100644
--- a/pybrain/datasets/dataset.py
+++ b/pybrain/datasets/dataset.py
@@ -160,7 +160,7 @@ class DataSet(Serializable):
         return the length of the longest field."""
         if self.link == []:
             try:
-                length = self.endmarker[max(self.endmarker)]
+                length = max(self.endmarker.values())
             except ValueError:
                 return 0
             return length
-- 
2.43.0


From b92bcf353dad88badb06c32b25bf9322fad8336d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:47 +0000
Subject: [PATCH 004/180] fix: converting a field does not turn its unused
 buffer rows into data

---
 pybrain/datasets/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/datasets/dataset.py b/pybrain/datasets/dataset.py
index 4d673ad..83da8bf 100644
--- a/pybrain/datasets/dataset.py
+++ b/pybrain/datasets/dataset.py
@@ -261,7 +261,7 @@ class DataSet(Serializable):
     def convertField(self, label, newtype):
         """Convert the given field to a different data type."""
         try:
-            self.setField(label, self.data[label].astype(newtype))
+            self.setField(label, self.data[label][:self.endmarker[label]].astype(newtype))
         except KeyError:
             raise KeyError('convertField: dataset field %s not found.' % label)
 
-- 
2.43.0


From 4a0744a92e4327fe3eb98d12f0f714858b37beb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:47 +0000
Subject: [PATCH 005/180] fix: a rejected linked append leaves all linked
 fields unchanged

---
 pybrain/datasets/dataset.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pybrain/datasets/dataset.py b/pybrain/datasets/dataset.py
index 83da8bf..7c379c6 100644
--- a/pybrain/datasets/dataset.py
+++ b/pybrain/datasets/dataset.py
@@ -212,8 +212,14 @@ class DataSet(Serializable):
     def appendLinked(self, *args):
         """Add rows to all linked fields at once."""
         assert len(args) == len(self.link)
-        for i, l in enumerate(self.link):
-            self._appendUnlinked(l, args[i])
+        marks = dict((l, self.endmarker[l]) for l in self.link)
+        try:
+            for i, l in enumerate(self.link):
+                self._appendUnlinked(l, args[i])
+        except Exception:
+            # keep the linked fields in sync
+            self.endmarker.update(marks)
+            raise
 
     def getLinked(self, index=None):
         """Access the dataset randomly or sequential.
-- 
2.43.0


From 39cfcfc5d84c04f943a10f91be2ded7e93e7d08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:47 +0000
Subject: [PATCH 006/180] fix: reading past the end does not move the marker,
 and rows are counted from the end of the data rather than of the buffer

---
 pybrain/datasets/dataset.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pybrain/datasets/dataset.py b/pybrain/datasets/dataset.py
index 7c379c6..5cdcef8 100644
--- a/pybrain/datasets/dataset.py
+++ b/pybrain/datasets/dataset.py
@@ -234,12 +234,12 @@ class DataSet(Serializable):
         if index == None:
             # no index given, return the currently marked line and step marker one line forward
             index = self.index
-            self.index += 1
-        else:
-            # return the indexed line and move marker to next line
-            self.index = index + 1
-        if index >= self.getLength():
+        elif index < 0:
+            index += self.getLength()
+        if not 0 <= index < self.getLength():
             raise IndexError('index out of bounds of the dataset.')
+        # move marker to next line
+        self.index = index + 1
 
         return [self._convert(self.data[l][index]) for l in self.link]
 
-- 
2.43.0


From fce67cda23ea91c210f5f6b9fae63af46a2bbdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:47 +0000
Subject: [PATCH 007/180] fix: plain datasets can be pickled

---
 pybrain/datasets/dataset.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pybrain/datasets/dataset.py b/pybrain/datasets/dataset.py
index 5cdcef8..7eac752 100644
--- a/pybrain/datasets/dataset.py
+++ b/pybrain/datasets/dataset.py
@@ -16,6 +16,12 @@ class VectorFormatError(Exception): pass
 class NoLinkedFieldsError(Exception): pass
 
 
+def _createDataSet(cls, vectorformat):
+    obj = cls()
+    obj.vectorformat = vectorformat
+    return obj
+
+
 class DataSet(Serializable):
     """DataSet is a general base class for other data set classes
     (e.g. SupervisedDataSet, SequentialDataSet, ...). It consists of several
@@ -317,11 +323,8 @@ class DataSet(Serializable):
         Serializable.save_pickle(self, flo, protocol)
 
     def __reduce__(self):
-        def creator():
-            obj = self.__class__()
-            obj.vectorformat = self.vectorformat
-            return obj
-        args = tuple()
+        creator = _createDataSet
+        args = self.__class__, self.vectorformat
         state = {
             'data': self.data,
             'link': self.link,
-- 
2.43.0


From af4a33f74dcf6ed6578f1a8168dee018a9a61d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:47 +0000
Subject: [PATCH 008/180] fix: randomBatches really permutes the batches

---
 pybrain/datasets/dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/datasets/dataset.py b/pybrain/datasets/dataset.py
index 7eac752..96ad3d7 100644
--- a/pybrain/datasets/dataset.py
+++ b/pybrain/datasets/dataset.py
@@ -368,7 +368,8 @@ class DataSet(Serializable):
 
     def randomBatches(self, label, n):
         """Like .batches(), but the order is random."""
-        permutation = random.shuffle(list(range(len(self))))
+        permutation = list(range((len(self) + n - 1) // n))
+        random.shuffle(permutation)
         return self.batches(label, n, permutation)
 
     def replaceNansByMeans(self):
-- 
2.43.0


From 06369ca8cf63efbfb701111cc42bcbfff53e8642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:47 +0000
Subject: [PATCH 009/180] fix: importances may be given as arrays

---
 pybrain/datasets/importance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/datasets/importance.py b/pybrain/datasets/importance.py
index bd8235f..ecb5743 100644
--- a/pybrain/datasets/importance.py
+++ b/pybrain/datasets/importance.py
@@ -28,7 +28,7 @@ class ImportanceDataSet(SequentialDataSet):
             :key importance: the importance of the sample. If left None, the
                  importance will be set to 1.0
         """
-        if importance == None:
+        if importance is None:
             importance = ones(len(target))
         self.appendLinked(inp, target, importance)
 
-- 
2.43.0


From 174bb1acc60e24a748120d6bf6b61b70c0adfef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:47 +0000
Subject: [PATCH 010/180] fix: one-of-many targets use a valid integer type

---
 pybrain/datasets/classification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/datasets/classification.py b/pybrain/datasets/classification.py
index c2b52e5..81b7f16 100644
--- a/pybrain/datasets/classification.py
+++ b/pybrain/datasets/classification.py
@@ -139,7 +139,7 @@ class ClassificationDataSet(SupervisedDataSet):
         if self.nClasses <= 0:
             self.calculateStatistics()
         oldtarg = self.getField('target')
-        newtarg = zeros([len(self), self.nClasses], dtype='Int32') + bounds[0]
+        newtarg = zeros([len(self), self.nClasses], dtype='int32') + bounds[0]
         for i in range(len(self)):
             newtarg[i, int(oldtarg[i])] = bounds[1]
         self.setField('target', newtarg)
-- 
2.43.0


From 36ec2292e248fd560e31cc0c7fa9cd2584d98849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:47 +0000
Subject: [PATCH 011/180] fix: getSequenceClass and stratifiedSplit include the
 last sequence

---
 pybrain/datasets/classification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/datasets/classification.py b/pybrain/datasets/classification.py
index 81b7f16..ab37837 100644
--- a/pybrain/datasets/classification.py
+++ b/pybrain/datasets/classification.py
@@ -235,7 +235,7 @@ class SequenceClassificationDataSet(SequentialDataSet, ClassificationDataSet):
         It is assumed that the last target for each class is the class of the
         sequence. Also mind that the data will be sorted by class in the
         resulting data sets."""
-        lastidx = ravel(self['sequence_index'][1:] - 1).astype(int)
+        lastidx = r_[self['sequence_index'].astype(int)[1:, 0], len(self)] - 1
         classes = ravel(self['class'][lastidx])
         trnDs = self.copy()
         trnDs.clear()
-- 
2.43.0


From 8287fcadb15a4ba64296003678c7159d70214632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:37 +0000
Subject: [PATCH 012/180] fix: clearing a classification dataset also clears
 the class labels of its samples

---
 pybrain/datasets/classification.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pybrain/datasets/classification.py b/pybrain/datasets/classification.py
index ab37837..0b72102 100644
--- a/pybrain/datasets/classification.py
+++ b/pybrain/datasets/classification.py
@@ -97,6 +97,11 @@ class ClassificationDataSet(SupervisedDataSet):
             result.assignClasses()
         return result
 
+    def clear(self, unlinked=False):
+        """Clear the dataset, including the class labels of the samples."""
+        SupervisedDataSet.clear(self, unlinked)
+        self.setField('class', zeros((0, self.getDimension('class')), dtype=int))
+
     def assignClasses(self):
         """Ensure that the class field is properly defined and nClasses is set.
         """
-- 
2.43.0


From 7e507b1cd316f278f14c1b1eec0c12338924ade9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:37 +0000
Subject: [PATCH 013/180] fix: a refused removeSequence does not leave the
 class field linked

---
 pybrain/datasets/classification.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pybrain/datasets/classification.py b/pybrain/datasets/classification.py
index 0b72102..378a354 100644
--- a/pybrain/datasets/classification.py
+++ b/pybrain/datasets/classification.py
@@ -283,8 +283,10 @@ class SequenceClassificationDataSet(SequentialDataSet, ClassificationDataSet):
         """Remove sequence (including class field) from the dataset."""
         self.assignClasses()
         self.linkFields(['input', 'target', 'class'])
-        SequentialDataSet.removeSequence(self, index)
-        self.unlinkFields(['class'])
+        try:
+            SequentialDataSet.removeSequence(self, index)
+        finally:
+            self.unlinkFields(['class'])
 
     def save_netcdf(self, flo, **kwargs):
         """Save the current dataset to the given file as a netCDF dataset to be
-- 
2.43.0


From 11bdbfbc4d748ca6d8c99188df5ade823dc7ba8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:23 +0000
Subject: [PATCH 014/180] fix: splitByClass, stratifiedSplit and
 castToRegression bring the class field up to date before using it, instead of
 losing samples

---
 pybrain/datasets/classification.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pybrain/datasets/classification.py b/pybrain/datasets/classification.py
index 378a354..0109a79 100644
--- a/pybrain/datasets/classification.py
+++ b/pybrain/datasets/classification.py
@@ -168,6 +168,7 @@ class ClassificationDataSet(SupervisedDataSet):
         """Produce two new datasets, the first one comprising only the class
         selected (0..nClasses-1), the second one containing the remaining
         samples."""
+        self.assignClasses()
         leftIndices, dummy = where(self['class'] == cls_select)
         rightIndices, dummy = where(self['class'] != cls_select)
         leftDs = self.copy()
@@ -191,6 +192,7 @@ class ClassificationDataSet(SupervisedDataSet):
     def castToRegression(self, values):
         """Converts data set into a SupervisedDataSet for regression. Classes
         are used as indices into the value array given."""
+        self.assignClasses()
         regDs = SupervisedDataSet(self.indim, 1)
         fields = self.getFieldNames()
         fields.remove('target')
@@ -240,6 +242,7 @@ class SequenceClassificationDataSet(SequentialDataSet, ClassificationDataSet):
         It is assumed that the last target for each class is the class of the
         sequence. Also mind that the data will be sorted by class in the
         resulting data sets."""
+        self.assignClasses()
         lastidx = r_[self['sequence_index'].astype(int)[1:, 0], len(self)] - 1
         classes = ravel(self['class'][lastidx])
         trnDs = self.copy()
-- 
2.43.0


From edfab096f319f74b82597377a06765e960a1a3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:14 +0000
Subject: [PATCH 015/180] fix: components of copied and unpickled networks
 share the parameters and derivatives of their network

---
 pybrain/structure/networks/network.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pybrain/structure/networks/network.py b/pybrain/structure/networks/network.py
index d5c4d2f..211d814 100644
--- a/pybrain/structure/networks/network.py
+++ b/pybrain/structure/networks/network.py
@@ -258,6 +258,14 @@ class Network(Module, ParameterContainer):
         Module.__init__(self, self.indim, self.outdim, name=self.name)
         self.sorted = True
 
+    def __setstate__(self, state):
+        self.__dict__.update(state)
+        if self.sorted and self.paramdim > 0:
+            # the parameters and derivatives of the components are slices of
+            # those of the network, which neither copying nor pickling keeps
+            self._setParameters(self._params, self.owner)
+            self._setDerivatives(self._derivs, self.owner)
+
     def _resetBuffers(self, length=1):
         super(Network, self)._resetBuffers(length)
         for m in self.modules:
-- 
2.43.0


From 6b9e911ce6eaefaf2b04352e789cf0023f8045c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:14 +0000
Subject: [PATCH 016/180] fix: PermutationConnection propagates errors back
 through the inverse permutation

---
 pybrain/structure/connections/permutation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/structure/connections/permutation.py b/pybrain/structure/connections/permutation.py
index 7dda244..1156f61 100644
--- a/pybrain/structure/connections/permutation.py
+++ b/pybrain/structure/connections/permutation.py
@@ -24,7 +24,7 @@ class PermutationConnection(Connection):
                 (self.indim // blocksize), len(permutation)))
 
         self.permutation = array(permutation)
-        self.invpermutation = permute(list(range(len(permutation))), permutation)
+        self.invpermutation = self.permutation.argsort()
         self.blocksize = blocksize
 
     def _forwardImplementation(self, inbuf, outbuf):
-- 
2.43.0


From 6eefadb7038c2bf9804d2f79ef7d3948762db063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:14 +0000
Subject: [PATCH 017/180] fix: LinearConnection accumulates the derivatives of
 its parameters

---
 pybrain/structure/connections/linear.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/structure/connections/linear.py b/pybrain/structure/connections/linear.py
index 46f8559..8f89bb5 100644
--- a/pybrain/structure/connections/linear.py
+++ b/pybrain/structure/connections/linear.py
@@ -22,5 +22,6 @@ class LinearConnection(Connection, ParameterContainer):
         outbuf += inbuf * self.params
 
     def _backwardImplementation(self, outerr, inerr, inbuf):
-        #CHECKME: not setting derivatives -- this means the multiplicative weight is never updated!
         inerr += outerr * self.params
+        ds = self.derivs
+        ds += inbuf * outerr
-- 
2.43.0


From e0e34962788e9465a5c44f550dfb611f4a1e978b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:14 +0000
Subject: [PATCH 018/180] fix: the unused diagonal of a FullNotSelfConnection
 gets no derivatives

---
 pybrain/structure/connections/fullnotself.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/structure/connections/fullnotself.py b/pybrain/structure/connections/fullnotself.py
index 4d81bb2..4c682fe 100644
--- a/pybrain/structure/connections/fullnotself.py
+++ b/pybrain/structure/connections/fullnotself.py
@@ -26,4 +26,4 @@ class FullNotSelfConnection(FullConnection):
         p = reshape(self.params, (self.outdim, self.indim)) * (1-eye(self.outdim))
         inerr += dot(p.T, outerr)
         ds = self.derivs
-        ds += outer(inbuf, outerr).T.flatten()
+        ds += (outer(inbuf, outerr).T * (1-eye(self.outdim))).flatten()
-- 
2.43.0


From 0316ed6cfce14132e193a7d458abd686a6c92bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:14 +0000
Subject: [PATCH 019/180] fix: gate layers do not add to their previous output
 and error when used repeatedly without a reset

---
 pybrain/structure/modules/gate.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/pybrain/structure/modules/gate.py b/pybrain/structure/modules/gate.py
index 99eceb9..d2ae4c9 100644
--- a/pybrain/structure/modules/gate.py
+++ b/pybrain/structure/modules/gate.py
@@ -18,11 +18,11 @@ class MultiplicationLayer(NeuronLayer):
         self.setArgs(dim=dim, name=self.name)
 
     def _forwardImplementation(self, inbuf, outbuf):
-        outbuf += inbuf[:self.outdim] * inbuf[self.outdim:]
+        outbuf[:] = inbuf[:self.outdim] * inbuf[self.outdim:]
 
     def _backwardImplementation(self, outerr, inerr, outbuf, inbuf):
-        inerr[:self.outdim] += inbuf[self.outdim:] * outerr
-        inerr[self.outdim:] += inbuf[:self.outdim] * outerr
+        inerr[:self.outdim] = inbuf[self.outdim:] * outerr
+        inerr[self.outdim:] = inbuf[:self.outdim] * outerr
 
 
 class GateLayer(NeuronLayer):
@@ -38,13 +38,13 @@ class GateLayer(NeuronLayer):
         self.setArgs(dim=dim, name=self.name)
 
     def _forwardImplementation(self, inbuf, outbuf):
-        outbuf += sigmoid(inbuf[:self.outdim]) * inbuf[self.outdim:]
+        outbuf[:] = sigmoid(inbuf[:self.outdim]) * inbuf[self.outdim:]
 
     def _backwardImplementation(self, outerr, inerr, outbuf, inbuf):
-        inerr[:self.outdim] += (sigmoidPrime(inbuf[:self.outdim])
+        inerr[:self.outdim] = (sigmoidPrime(inbuf[:self.outdim])
                                 * inbuf[self.outdim:]
                                 * outerr)
-        inerr[self.outdim:] += (sigmoid(inbuf[:self.outdim])
+        inerr[self.outdim:] = (sigmoid(inbuf[:self.outdim])
                                 * outerr)
 
 
@@ -62,8 +62,8 @@ class DoubleGateLayer(NeuronLayer):
 
     def _forwardImplementation(self, inbuf, outbuf):
         dim = self.indim // 2
-        outbuf[:dim] += sigmoid(inbuf[:dim]) * inbuf[dim:]
-        outbuf[dim:] += (1 - sigmoid(inbuf[:dim])) * inbuf[dim:]
+        outbuf[:dim] = sigmoid(inbuf[:dim]) * inbuf[dim:]
+        outbuf[dim:] = (1 - sigmoid(inbuf[:dim])) * inbuf[dim:]
 
     def _backwardImplementation(self, outerr, inerr, outbuf, inbuf):
         dim = self.indim // 2
@@ -71,8 +71,8 @@ class DoubleGateLayer(NeuronLayer):
         in1 = inbuf[dim:]
         out0 = outerr[:dim]
         out1 = outerr[dim:]
-        inerr[:dim] += sigmoidPrime(in0) * in1 * out0
-        inerr[dim:] += sigmoid(in0) * out0
+        inerr[:dim] = sigmoidPrime(in0) * in1 * out0
+        inerr[dim:] = sigmoid(in0) * out0
 
         inerr[:dim] -= sigmoidPrime(in0) * in1 * out1
         inerr[dim:] += (1 - sigmoid(in0)) * out1
@@ -87,11 +87,11 @@ class SwitchLayer(NeuronLayer):
         self.setArgs(dim=dim, name=self.name)
 
     def _forwardImplementation(self, inbuf, outbuf):
-        outbuf[:self.indim] += sigmoid(inbuf)
-        outbuf[self.indim:] += 1 - sigmoid(inbuf)
+        outbuf[:self.indim] = sigmoid(inbuf)
+        outbuf[self.indim:] = 1 - sigmoid(inbuf)
 
     def _backwardImplementation(self, outerr, inerr, outbuf, inbuf):
-        inerr += sigmoidPrime(inbuf) * outerr[:self.indim]
+        inerr[:] = sigmoidPrime(inbuf) * outerr[:self.indim]
         inerr -= sigmoidPrime(inbuf) * outerr[self.indim:]
 
 
-- 
2.43.0


From a5f97177c59aa97fa0b13d48b4ffbbfc3901a665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:14 +0000
Subject: [PATCH 020/180] fix: PartialSoftmaxLayer normalises its slices

---
 pybrain/structure/modules/softmax.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pybrain/structure/modules/softmax.py b/pybrain/structure/modules/softmax.py
index 0d28f4f..0f71249 100644
--- a/pybrain/structure/modules/softmax.py
+++ b/pybrain/structure/modules/softmax.py
@@ -30,9 +30,9 @@ class PartialSoftmaxLayer(NeuronLayer):
 
     def _forwardImplementation(self, inbuf, outbuf):
         outbuf[:] = safeExp(inbuf)
-        outbuf.shape = scipy.size(outbuf) / self.slicelength, self.slicelength
-        s = outbuf.sum(axis=1)
-        outbuf = (outbuf.T / s).T.flatten()
+        slices = outbuf.reshape(scipy.size(outbuf) // self.slicelength, self.slicelength)
+        s = slices.sum(axis=1)
+        outbuf[:] = (slices.T / s).T.flatten()
 
     def _backwardImplementation(self, outerr, inerr, outbuf, inbuf):
         inerr[:] = outerr
-- 
2.43.0


From 6018fa877242e5525cb5116b0c0d2068f2cea1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:14 +0000
Subject: [PATCH 021/180] fix: Table is activated with integer coordinates

---
 pybrain/structure/modules/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/structure/modules/table.py b/pybrain/structure/modules/table.py
index 73ee811..cebca9a 100644
--- a/pybrain/structure/modules/table.py
+++ b/pybrain/structure/modules/table.py
@@ -23,7 +23,7 @@ class Table(Module, ParameterContainer):
         """ takes two coordinates, row and column, and returns the
             value in the table.
         """
-        outbuf[0] = self.params.reshape(self.numRows, self.numColumns)[inbuf[0], inbuf[1]]
+        outbuf[0] = self.params.reshape(self.numRows, self.numColumns)[int(inbuf[0]), int(inbuf[1])]
 
     def updateValue(self, row, column, value):
         """ set the value at a certain location in the table. """
-- 
2.43.0


From d6a6acb7726ddef5d8299b7e02c15967566ac573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:14 +0000
Subject: [PATCH 022/180] fix: KohonenMap trains with an integer neighbourhood

---
 pybrain/structure/modules/kohonen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/structure/modules/kohonen.py b/pybrain/structure/modules/kohonen.py
index 2fcc477..b727b74 100644
--- a/pybrain/structure/modules/kohonen.py
+++ b/pybrain/structure/modules/kohonen.py
@@ -58,7 +58,7 @@ class KohonenMap(Module):
             closest neuron and its neighbours closer to the input pattern. """
 
         # calculate neighbourhood and limit to edge of matrix
-        n = floor(self.neighbours)
+        n = int(floor(self.neighbours))
         self.neighbours *= self.neighbourdecay
         tl = (self.winner - n)
         br = (self.winner + n + 1)
-- 
2.43.0


From e32b711d43e1a6c82eaee23bf8eb50358a3e23ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:15 +0000
Subject: [PATCH 023/180] fix: slices of module slices

---
 pybrain/structure/moduleslice.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pybrain/structure/moduleslice.py b/pybrain/structure/moduleslice.py
index 762d24a..c58bd20 100644
--- a/pybrain/structure/moduleslice.py
+++ b/pybrain/structure/moduleslice.py
@@ -13,12 +13,12 @@ class ModuleSlice(Named):
         if isinstance(base, ModuleSlice):
             # tolerantly handle the case of a slice of another slice
             self.base = base.base
-            self.inOffset = inSliceFrom + base.inSliceFrom
-            self.outOffset = outSliceFrom + base.outSliceFrom
+            self.inOffset = inSliceFrom + base.inOffset
+            self.outOffset = outSliceFrom + base.outOffset
             if inSliceTo == None:
-                inSliceTo = self.base.indim + base.inSliceFrom
+                inSliceTo = base.indim
             if outSliceTo == None:
-                outSliceTo = self.base.outdim + base.outSliceFrom
+                outSliceTo = base.outdim
             self.name = base.base.name
         else:
             self.base = base
-- 
2.43.0


From a454ac209dd69bf04e6ac4303316510c9a43c475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:15 +0000
Subject: [PATCH 024/180] fix: feed-forward networks inside recurrent ones use
 the buffers of the current time step

---
 pybrain/structure/networks/feedforward.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/structure/networks/feedforward.py b/pybrain/structure/networks/feedforward.py
index c833af2..eeeb41f 100644
--- a/pybrain/structure/networks/feedforward.py
+++ b/pybrain/structure/networks/feedforward.py
@@ -29,7 +29,7 @@ class FeedForwardNetworkComponent(object):
         for m in self.modulesSorted:
             m.forward()
             for c in self.connections[m]:
-                c.forward()
+                c.forward(offset, offset)
 
         index = 0
         for m in self.outmodules:
@@ -46,7 +46,7 @@ class FeedForwardNetworkComponent(object):
 
         for m in reversed(self.modulesSorted):
             for c in self.connections[m]:
-                c.backward()
+                c.backward(offset, offset)
             m.backward()
 
         index = 0
-- 
2.43.0


From d161f0aece826f578dd75b1813a07651b7ede5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:15 +0000
Subject: [PATCH 025/180] fix: GaussianLayer accumulates derivatives instead of
 rescaling those of earlier samples

---
 pybrain/structure/modules/gaussianlayer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pybrain/structure/modules/gaussianlayer.py b/pybrain/structure/modules/gaussianlayer.py
index 499a4fa..ef82b7d 100644
--- a/pybrain/structure/modules/gaussianlayer.py
+++ b/pybrain/structure/modules/gaussianlayer.py
@@ -33,9 +33,10 @@ class GaussianLayer(NeuronLayer, ParameterContainer):
 
     def _backwardImplementation(self, outerr, inerr, outbuf, inbuf):
         expln_params = expln(self.params)
-        self._derivs += ((outbuf - inbuf)**2 - expln_params**2) / expln_params * explnPrime(self.params)
+        derivs = ((outbuf - inbuf)**2 - expln_params**2) / expln_params * explnPrime(self.params)
         inerr[:] = (outbuf - inbuf)
 
         if not self.autoalpha:
             inerr /= expln_params**2
-            self._derivs /= expln_params**2
+            derivs /= expln_params**2
+        self._derivs += derivs
-- 
2.43.0


From d740232bc5a0150e03e73ea407903d577051ce22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:00 +0000
Subject: [PATCH 026/180] fix: shifting the buffers of a network shifts those
 of its modules

---
 pybrain/structure/networks/network.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pybrain/structure/networks/network.py b/pybrain/structure/networks/network.py
index 211d814..991801a 100644
--- a/pybrain/structure/networks/network.py
+++ b/pybrain/structure/networks/network.py
@@ -149,6 +149,12 @@ class Network(Module, ParameterContainer):
         for m in self.modules:
             m.reset()
 
+    def shift(self, items):
+        """Shift the buffers of all component modules and of the network."""
+        for m in self.modules:
+            m.shift(items)
+        super(Network, self).shift(items)
+
     def _setParameters(self, p, owner=None):
         """ put slices of this array back into the modules """
         ParameterContainer._setParameters(self, p, owner)
-- 
2.43.0


From 4755df1c11082875fe30335c7a942d618e6291e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:06 +0000
Subject: [PATCH 027/180] fix: networks and components refuse parameter vectors
 of the wrong length

---
 pybrain/structure/parametercontainer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pybrain/structure/parametercontainer.py b/pybrain/structure/parametercontainer.py
index c88d6bf..d92e405 100644
--- a/pybrain/structure/parametercontainer.py
+++ b/pybrain/structure/parametercontainer.py
@@ -53,6 +53,7 @@ class ParameterContainer(Evolvable):
         if isinstance(p, list):
             p = array(p)
         assert isinstance(p, ndarray)
+        assert size(p) == self.paramdim, 'Wrong number of parameters.'
 
         if self.owner == self:
             # the object owns it parameter array, which means it cannot be set,
-- 
2.43.0


From 69cded3224187ee5cbd1711b7a37365878700013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:06 +0000
Subject: [PATCH 028/180] fix: RecurrentNetwork accepts the forget option

---
 pybrain/structure/networks/recurrent.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pybrain/structure/networks/recurrent.py b/pybrain/structure/networks/recurrent.py
index c814b03..e1e3384 100644
--- a/pybrain/structure/networks/recurrent.py
+++ b/pybrain/structure/networks/recurrent.py
@@ -19,6 +19,8 @@ class RecurrentNetworkComponent(object):
         self.recurrentConns = []
         self.maxoffset = 0
         self.forget = forget
+        if forget:
+            self.setArgs(forget=forget)
 
     def __str__(self):
         s = super(RecurrentNetworkComponent, self).__str__()
@@ -147,9 +149,6 @@ class RecurrentNetwork(RecurrentNetworkComponent, Network):
     bufferlist = Network.bufferlist
 
     def __init__(self, *args, **kwargs):
+        forget = kwargs.pop('forget', False)
         Network.__init__(self, *args, **kwargs)
-        if 'forget' in kwargs:
-            forget = kwargs['forget']
-        else:
-            forget = False
         RecurrentNetworkComponent.__init__(self, forget, *args, **kwargs)
-- 
2.43.0


From 7242984dfc687ebd07f07e6a4541b0b8a13ab2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:06 +0000
Subject: [PATCH 029/180] fix: all layers and connections record the arguments
 needed to restore them from XML

---
 pybrain/structure/connections/permutation.py | 2 ++
 pybrain/structure/modules/gaussianlayer.py   | 3 ++-
 pybrain/structure/modules/mixturedensity.py  | 2 ++
 pybrain/structure/modules/softmax.py         | 7 +++++--
 pybrain/structure/modules/table.py           | 2 ++
 pybrain/tools/customxml/networkwriter.py     | 2 +-
 6 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/pybrain/structure/connections/permutation.py b/pybrain/structure/connections/permutation.py
index 1156f61..2b7eb79 100644
--- a/pybrain/structure/connections/permutation.py
+++ b/pybrain/structure/connections/permutation.py
@@ -26,6 +26,8 @@ class PermutationConnection(Connection):
         self.permutation = array(permutation)
         self.invpermutation = self.permutation.argsort()
         self.blocksize = blocksize
+        # arguments for xml
+        self.argdict.update(permutation=self.permutation.tolist(), blocksize=blocksize)
 
     def _forwardImplementation(self, inbuf, outbuf):
         inbuf = inbuf.reshape(self.indim // self.blocksize, self.blocksize)
diff --git a/pybrain/structure/modules/gaussianlayer.py b/pybrain/structure/modules/gaussianlayer.py
index ef82b7d..574aca0 100644
--- a/pybrain/structure/modules/gaussianlayer.py
+++ b/pybrain/structure/modules/gaussianlayer.py
@@ -13,7 +13,8 @@ class GaussianLayer(NeuronLayer, ParameterContainer):
     def __init__(self, dim, name=None):
         NeuronLayer.__init__(self, dim, name)
         # initialize sigmas to 0
-        ParameterContainer.__init__(self, dim, stdParams = 0)
+        self.stdParams = 0
+        ParameterContainer.__init__(self, dim)
         # if autoalpha is set to True, alpha_sigma = alpha_mu = alpha*sigma^2
         self.autoalpha = False
         self.enabled = True
diff --git a/pybrain/structure/modules/mixturedensity.py b/pybrain/structure/modules/mixturedensity.py
index e7809f3..f889f47 100644
--- a/pybrain/structure/modules/mixturedensity.py
+++ b/pybrain/structure/modules/mixturedensity.py
@@ -20,6 +20,8 @@ class MixtureDensityLayer(NeuronLayer):
         NeuronLayer.__init__(self, nUnits, name)
         self.nGaussians = mix
         self.nDims = dim
+        # the argument 'dim' is not the attribute of the same name
+        self.argdict.update(dim=dim, mix=mix)
         
     def _forwardImplementation(self, inbuf, outbuf):
         """Calculate layer outputs (Gaussian parameters etc., not function 
diff --git a/pybrain/structure/modules/softmax.py b/pybrain/structure/modules/softmax.py
index 0f71249..51e676a 100644
--- a/pybrain/structure/modules/softmax.py
+++ b/pybrain/structure/modules/softmax.py
@@ -24,9 +24,12 @@ class SoftmaxLayer(NeuronLayer):
 class PartialSoftmaxLayer(NeuronLayer):
     """Layer implementing a softmax distribution over slices of the input."""
 
-    def __init__(self, size, slicelength):
-        super(PartialSoftmaxLayer, self).__init__(size)
+    def __init__(self, size, slicelength, name=None):
+        super(PartialSoftmaxLayer, self).__init__(size, name)
         self.slicelength = slicelength
+        # arguments for xml
+        del self.argdict['dim']
+        self.argdict.update(size=size, slicelength=slicelength)
 
     def _forwardImplementation(self, inbuf, outbuf):
         outbuf[:] = safeExp(inbuf)
diff --git a/pybrain/structure/modules/table.py b/pybrain/structure/modules/table.py
index cebca9a..cfb8f73 100644
--- a/pybrain/structure/modules/table.py
+++ b/pybrain/structure/modules/table.py
@@ -18,6 +18,8 @@ class Table(Module, ParameterContainer):
 
         self.numRows = numRows
         self.numColumns = numColumns
+        # arguments for xml
+        self.setArgs(numRows=numRows, numColumns=numColumns)
 
     def _forwardImplementation(self, inbuf, outbuf):
         """ takes two coordinates, row and column, and returns the
diff --git a/pybrain/tools/customxml/networkwriter.py b/pybrain/tools/customxml/networkwriter.py
index c5ffc52..db4fcdc 100644
--- a/pybrain/tools/customxml/networkwriter.py
+++ b/pybrain/tools/customxml/networkwriter.py
@@ -100,7 +100,7 @@ class NetworkWriter(XMLHandling):
             if val != None:
                 tmp = self.newChild(node, name)
                 if isclass(val):
-                    s = canonicClassString(val)
+                    s = val.__module__ + '.' + val.__name__
                 else:
                     s = getattr(val, 'name', repr(val))
                 tmp.setAttribute('val', s)
-- 
2.43.0


From 287931278da09a096ec8431fb977bbbd28b591dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:06 +0000
Subject: [PATCH 030/180] fix: names in an XML file only refer to modules of
 the same network

---
 pybrain/tools/customxml/networkreader.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pybrain/tools/customxml/networkreader.py b/pybrain/tools/customxml/networkreader.py
index 9462a51..ce1e65e 100644
--- a/pybrain/tools/customxml/networkreader.py
+++ b/pybrain/tools/customxml/networkreader.py
@@ -19,9 +19,6 @@ except ImportError:
 class NetworkReader(XMLHandling):
     """ A class that can take read a network from an XML file """
 
-    mothers = {}
-    modules = {}
-
     @staticmethod
     def readFrom(filename, name = None, index = 0):
         """ append the network to an existing xml file
@@ -30,6 +27,7 @@ class NetworkReader(XMLHandling):
         :key index: which network in the file shall be read (if there is more than one)
         """
         r = NetworkReader(filename, newfile = False)
+        r.modules, r.mothers = {}, {}
         if name:
             netroot = r.findNamedNode('Network', name)
         else:
@@ -41,6 +39,9 @@ class NetworkReader(XMLHandling):
         # TODO: why is this necessary?
         import pybrain.structure.networks.custom #@Reimport @UnusedImport
         nclass = eval(str(node.getAttribute('class')))
+        # the names used inside a (nested) network are those of its own components
+        outer = self.modules, self.mothers
+        self.modules, self.mothers = {}, {}
         argdict = self.readArgs(node)
         n = nclass(**argdict)
         n.name = node.getAttribute('name')
@@ -68,6 +69,7 @@ class NetworkReader(XMLHandling):
                 n.addConnection(c)
 
         n.sortModules()
+        self.modules, self.mothers = outer
         return n
 
     def readModule(self, mnode):
-- 
2.43.0


From b80695cf2eeaadf43ba7e6e4e336c949fd2c2c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:06 +0000
Subject: [PATCH 031/180] fix: modules that are both input and output stay so
 in XML files

---
 pybrain/tools/customxml/networkreader.py | 4 ++--
 pybrain/tools/customxml/networkwriter.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pybrain/tools/customxml/networkreader.py b/pybrain/tools/customxml/networkreader.py
index ce1e65e..573a3a5 100644
--- a/pybrain/tools/customxml/networkreader.py
+++ b/pybrain/tools/customxml/networkreader.py
@@ -50,9 +50,9 @@ class NetworkReader(XMLHandling):
             m, inmodule, outmodule = self.readModule(mnode)
             if inmodule:
                 n.addInputModule(m)
-            elif outmodule:
+            if outmodule:
                 n.addOutputModule(m)
-            else:
+            if not inmodule and not outmodule:
                 n.addModule(m)
 
         mconns = self.getChild(node, 'MotherConnections')
diff --git a/pybrain/tools/customxml/networkwriter.py b/pybrain/tools/customxml/networkwriter.py
index db4fcdc..e2d96fd 100644
--- a/pybrain/tools/customxml/networkwriter.py
+++ b/pybrain/tools/customxml/networkwriter.py
@@ -74,7 +74,7 @@ class NetworkWriter(XMLHandling):
             mnode = self.writeBuildable(rootnode, m)
         if inmodule:
             mnode.setAttribute('inmodule', 'True')
-        elif outmodule:
+        if outmodule:
             mnode.setAttribute('outmodule', 'True')
 
     def writeConnection(self, rootnode, c, recurrent):
-- 
2.43.0


From 7a42aa5f2790234748c6b2ac350fcd23e6c8601c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:06 +0000
Subject: [PATCH 032/180] fix: reading lists of numbers from XML works in
 Python 3

---
 pybrain/tools/customxml/handling.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pybrain/tools/customxml/handling.py b/pybrain/tools/customxml/handling.py
index 237cbad..2a9336d 100644
--- a/pybrain/tools/customxml/handling.py
+++ b/pybrain/tools/customxml/handling.py
@@ -3,7 +3,6 @@ __author__ = 'Tom Schaul, tom@idsia.ch'
 from xml.dom.minidom import parse, getDOMImplementation
 from pybrain.utilities import fListToString
 from scipy import zeros
-import string
 
 class XMLHandling:
     """ general purpose methods for reading, writing and editing XML files.
@@ -113,7 +112,7 @@ class XMLHandling:
             self.writeDoubles(r, row, precision)
 
     def readDoubles(self, node):
-        dstrings = string.split(node.firstChild.data)
+        dstrings = node.firstChild.data.split()
         return [float(s) for s in dstrings]
 
     def readMatrix(self, node):
-- 
2.43.0


From d97784943fb4a20a670156aea86779d4516a7811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:00 +0000
Subject: [PATCH 033/180] fix: outputs keep their order in XML files when a
 module is both input and output

---
 pybrain/tools/customxml/networkreader.py | 4 ++++
 pybrain/tools/customxml/networkwriter.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pybrain/tools/customxml/networkreader.py b/pybrain/tools/customxml/networkreader.py
index 573a3a5..4d1df18 100644
--- a/pybrain/tools/customxml/networkreader.py
+++ b/pybrain/tools/customxml/networkreader.py
@@ -55,6 +55,10 @@ class NetworkReader(XMLHandling):
             if not inmodule and not outmodule:
                 n.addModule(m)
 
+        if node.hasAttribute('outorder'):
+            outorder = eval(node.getAttribute('outorder'))
+            n.outmodules.sort(key=lambda m: outorder.index(m.name))
+
         mconns = self.getChild(node, 'MotherConnections')
         if mconns:
             for mcnode in self.getChildrenOf(mconns):
diff --git a/pybrain/tools/customxml/networkwriter.py b/pybrain/tools/customxml/networkwriter.py
index e2d96fd..cdccf89 100644
--- a/pybrain/tools/customxml/networkwriter.py
+++ b/pybrain/tools/customxml/networkwriter.py
@@ -50,6 +50,10 @@ class NetworkWriter(XMLHandling):
         for m in net.modulesSorted:
             if m not in net.inmodules and m not in net.outmodules:
                 self.writeModule(mods, m, False, False)
+        # modules that are also inputs may not be written in the order of the outputs
+        written = [m for m in net.inmodules + net.outmodules if m in net.outmodules]
+        if [m for i, m in enumerate(written) if m not in written[:i]] != net.outmodules:
+            netroot.setAttribute('outorder', repr([str(m.name) for m in net.outmodules]))
 
         # the motherconnections
         if len(net.motherconnections) > 0:
-- 
2.43.0


From d6ae50d19e5600060814b3b57fbd78fcc01f04f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:00 +0000
Subject: [PATCH 034/180] fix: networks whose class builds its own structure
 can be read from XML

---
 pybrain/structure/networks/bidirectional.py | 4 ++--
 pybrain/structure/networks/convolutional.py | 1 +
 pybrain/tools/customxml/networkreader.py    | 3 +++
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pybrain/structure/networks/bidirectional.py b/pybrain/structure/networks/bidirectional.py
index ca92e9b..36d39cd 100644
--- a/pybrain/structure/networks/bidirectional.py
+++ b/pybrain/structure/networks/bidirectional.py
@@ -71,8 +71,8 @@ class BidirectionalNetwork(FeedForwardNetwork):
             outconnb = outconnf
         else:
             backwardconn = MotherConnection(hiddenmesh.componentIndim * hiddenmesh.componentOutdim, name='bconn')
-            inconnb = MotherConnection(inmesh.componentOutdim * hiddenmesh.componentIndim, name='inconn')
-            outconnb = MotherConnection(outmesh.componentIndim * hiddenmesh.componentOutdim, name='outconn')
+            inconnb = MotherConnection(inmesh.componentOutdim * hiddenmesh.componentIndim, name='inconnb')
+            outconnb = MotherConnection(outmesh.componentIndim * hiddenmesh.componentOutdim, name='outconnb')
 
         # build the connections
         for i in range(self.seqlen):
diff --git a/pybrain/structure/networks/convolutional.py b/pybrain/structure/networks/convolutional.py
index f53af1d..ac04e01 100644
--- a/pybrain/structure/networks/convolutional.py
+++ b/pybrain/structure/networks/convolutional.py
@@ -19,6 +19,7 @@ class SimpleConvolutionalNetwork(FeedForwardNetwork):
 
     def __init__(self, inputdim, insize, convSize, numFeatureMaps, **args):
         FeedForwardNetwork.__init__(self, **args)
+        self.argdict = dict(args, inputdim=inputdim, insize=insize, convSize=convSize, numFeatureMaps=numFeatureMaps)
         inlayer = LinearLayer(inputdim * insize * insize)
         self.addInputModule(inlayer)
         self._buildStructure(inputdim, insize, inlayer, convSize, numFeatureMaps)
diff --git a/pybrain/tools/customxml/networkreader.py b/pybrain/tools/customxml/networkreader.py
index 4d1df18..6370b53 100644
--- a/pybrain/tools/customxml/networkreader.py
+++ b/pybrain/tools/customxml/networkreader.py
@@ -45,6 +45,9 @@ class NetworkReader(XMLHandling):
         argdict = self.readArgs(node)
         n = nclass(**argdict)
         n.name = node.getAttribute('name')
+        # the structure is that of the file, even if the constructor has already built one
+        n.modules, n.connections, n.motherconnections = set(), {}, []
+        n.inmodules, n.outmodules = [], []
 
         for mnode in self.getChildrenOf(self.getChild(node, 'Modules')):
             m, inmodule, outmodule = self.readModule(mnode)
-- 
2.43.0


From d5265e9d8b01700b14e980180def3edd650eabbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:10 +0000
Subject: [PATCH 035/180] fix: convolutional board networks can be read from
 XML

---
 pybrain/structure/networks/custom/convboard.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pybrain/structure/networks/custom/convboard.py b/pybrain/structure/networks/custom/convboard.py
index 175aef0..d12a736 100644
--- a/pybrain/structure/networks/custom/convboard.py
+++ b/pybrain/structure/networks/custom/convboard.py
@@ -18,6 +18,7 @@ class ConvolutionalBoardNetwork(SimpleConvolutionalNetwork):
     def __init__(self, boardSize, convSize, numFeatureMaps, **args):
         inputdim = 2
         FeedForwardNetwork.__init__(self, **args)
+        self.argdict = dict(args, boardSize=boardSize, convSize=convSize, numFeatureMaps=numFeatureMaps)
         inlayer = LinearLayer(inputdim*boardSize*boardSize, name = 'in')
         self.addInputModule(inlayer)
 
-- 
2.43.0


From 7b88b999bd954ce99c17cb65c74fa990f07deaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:02 +0000
Subject: [PATCH 036/180] fix: the forget mode of recurrent networks is written
 to XML files

---
 pybrain/structure/networks/recurrent.py  | 2 --
 pybrain/tools/customxml/networkwriter.py | 7 +++++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/pybrain/structure/networks/recurrent.py b/pybrain/structure/networks/recurrent.py
index e1e3384..fa5c4d5 100644
--- a/pybrain/structure/networks/recurrent.py
+++ b/pybrain/structure/networks/recurrent.py
@@ -19,8 +19,6 @@ class RecurrentNetworkComponent(object):
         self.recurrentConns = []
         self.maxoffset = 0
         self.forget = forget
-        if forget:
-            self.setArgs(forget=forget)
 
     def __str__(self):
         s = super(RecurrentNetworkComponent, self).__str__()
diff --git a/pybrain/tools/customxml/networkwriter.py b/pybrain/tools/customxml/networkwriter.py
index cdccf89..53327ce 100644
--- a/pybrain/tools/customxml/networkwriter.py
+++ b/pybrain/tools/customxml/networkwriter.py
@@ -34,8 +34,11 @@ class NetworkWriter(XMLHandling):
         """ write a Network into a new XML node """
         netroot.setAttribute('name', net.name)
         netroot.setAttribute('class', canonicClassString(net))
-        if net.argdict:
-            self.writeArgs(netroot, net.argdict)
+        args = dict(net.argdict or {})
+        if getattr(net, 'forget', None):
+            args['forget'] = net.forget
+        if args:
+            self.writeArgs(netroot, args)
 
         # the modules
         mods = self.newChild(netroot, 'Modules')
-- 
2.43.0


From 0da0394ef6d218fc02e786dff2cf94221b3b508b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:18 +0000
Subject: [PATCH 037/180] fix: refusing to back-propagate in forget mode leaves
 the network usable

---
 pybrain/structure/networks/recurrent.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pybrain/structure/networks/recurrent.py b/pybrain/structure/networks/recurrent.py
index fa5c4d5..a1c044f 100644
--- a/pybrain/structure/networks/recurrent.py
+++ b/pybrain/structure/networks/recurrent.py
@@ -70,6 +70,7 @@ class RecurrentNetworkComponent(object):
 
     def backward(self):
         """Produce the input error from the output error."""
+        assert not self.forget, "Cannot back propagate a forgetful network"
         self.offset -= 1
         super(RecurrentNetworkComponent, self).backward()
 
-- 
2.43.0


From b7ea2a95b7a63d8cb8ed1402d3da9c744dcef8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:56 +0000
Subject: [PATCH 038/180] fix: LSTM layers can back-propagate outside of a
 recurrent network

---
 pybrain/structure/modules/lstm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/structure/modules/lstm.py b/pybrain/structure/modules/lstm.py
index 599d7e2..06d95ed 100644
--- a/pybrain/structure/modules/lstm.py
+++ b/pybrain/structure/modules/lstm.py
@@ -77,7 +77,7 @@ class LSTMLayer(NeuronLayer, ParameterContainer):
 
     def _isLastTimestep(self):
         """Tell wether the current offset is the maximum offset."""
-        return self.maxoffset == self.offset
+        return self.maxoffset == self.offset + 1
 
     def _forwardImplementation(self, inbuf, outbuf):
         self.maxoffset = max(self.offset + 1, self.maxoffset)
-- 
2.43.0


From 2b323cc32e04808b587636645c6fe6a7e060f226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:56 +0000
Subject: [PATCH 039/180] fix: state-dependent layers of more than one unit can
 be activated

---
 pybrain/structure/modules/statedependentlayer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/structure/modules/statedependentlayer.py b/pybrain/structure/modules/statedependentlayer.py
index 920bb70..3abd03d 100644
--- a/pybrain/structure/modules/statedependentlayer.py
+++ b/pybrain/structure/modules/statedependentlayer.py
@@ -39,7 +39,7 @@ class StateDependentLayer(NeuronLayer, ParameterContainer):
             random.normal(0, expln(self.params), self.module.paramdim))
 
     def _forwardImplementation(self, inbuf, outbuf):
-        assert self.exploration != None
+        assert self.exploration is not None
         if not self.enabled:
             outbuf[:] = inbuf
         else:
-- 
2.43.0


From 639286aba0055212e9b7bf3cdb6cc9ac6254b8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:56 +0000
Subject: [PATCH 040/180] fix: state-dependent layers accumulate the derivative
 of each pass

---
 pybrain/structure/modules/statedependentlayer.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pybrain/structure/modules/statedependentlayer.py b/pybrain/structure/modules/statedependentlayer.py
index 3abd03d..dfe532d 100644
--- a/pybrain/structure/modules/statedependentlayer.py
+++ b/pybrain/structure/modules/statedependentlayer.py
@@ -51,7 +51,7 @@ class StateDependentLayer(NeuronLayer, ParameterContainer):
             # algorithm for one global sigma for all mu's
             expln_params = expln(self.params)
             sumxsquared = dot(self.state, self.state)
-            self._derivs += (
+            derivs = (
                 sum((outbuf - inbuf) ** 2 - expln_params ** 2 * sumxsquared)
                 / expln_params * explnPrime(self.params)
             )
@@ -59,7 +59,8 @@ class StateDependentLayer(NeuronLayer, ParameterContainer):
 
             if not self.autoalpha and sumxsquared != 0:
                 inerr /= expln_params ** 2 * sumxsquared
-                self._derivs /= expln_params ** 2 * sumxsquared
+                derivs /= expln_params ** 2 * sumxsquared
+            self._derivs += derivs
         else:
             # Algorithm for seperate sigma for each mu
             expln_params = expln(self.params
@@ -71,10 +72,11 @@ class StateDependentLayer(NeuronLayer, ParameterContainer):
             for j in range(len(outbuf)):
                 sigma_subst2 = dot(self.state ** 2, expln_params[j, :]**2)
                 for i in range(len(self.state)):
-                    self._derivs[idx] = ((outbuf[j] - inbuf[j]) ** 2 - sigma_subst2) / sigma_subst2 * \
+                    deriv = ((outbuf[j] - inbuf[j]) ** 2 - sigma_subst2) / sigma_subst2 * \
                         self.state[i] ** 2 * expln_params[j, i] * explnPrime_params[j, i]
-                    if self.autoalpha and sigma_subst2 != 0:
-                        self._derivs[idx] /= sigma_subst2
+                    if not self.autoalpha and sigma_subst2 != 0:
+                        deriv /= sigma_subst2
+                    self._derivs[idx] += deriv
                     idx += 1
                 inerr[j] = (outbuf[j] - inbuf[j])
                 if not self.autoalpha and sigma_subst2 != 0:
-- 
2.43.0


From 1838d8a96d06da350da6d0e820ca7f007c470bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:51 +0000
Subject: [PATCH 041/180] fix: crossproduct of an empty set is empty

The reduce() over no elements raised a TypeError, e.g. when building a
board network with a convolution of size 1.
---
 pybrain/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index 21ac18f..f8d3068 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -488,7 +488,7 @@ def crossproduct(ss, row=None, level=0):
         row = []
     if len(ss) > 1:
         return reduce(operator.add,
-                      [crossproduct(ss[1:], row + [i], level + 1) for i in ss[0]])
+                      [crossproduct(ss[1:], row + [i], level + 1) for i in ss[0]], [])
     else:
         return [row + [i] for i in ss[0]]
 
-- 
2.43.0


From 94143eb7a788122de936ba8c7efc12f411b81beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:51 +0000
Subject: [PATCH 042/180] fix: a flat network can be built with an LSTM hidden
 class

There is no hidden layer to connect recurrently in that case.
---
 pybrain/tools/shortcuts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/tools/shortcuts.py b/pybrain/tools/shortcuts.py
index 27edca2..26c53d8 100644
--- a/pybrain/tools/shortcuts.py
+++ b/pybrain/tools/shortcuts.py
@@ -100,7 +100,7 @@ def buildNetwork(*layers, **options):
         n.addConnection(FullConnection(n['hidden%i' % (len(layers) - 3)], n['out']))
 
     # recurrent connections
-    if issubclass(opt['hiddenclass'], LSTMLayer):
+    if issubclass(opt['hiddenclass'], LSTMLayer) and len(layers) > 2:
         if len(layers) > 3:
             errorexit("LSTM networks with > 1 hidden layers are not supported!")
         n.addRecurrentConnection(FullConnection(n['hidden0'], n['hidden0']))
-- 
2.43.0


From f38e07c4948a31f6f9383187dcd18880e98dc0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:51 +0000
Subject: [PATCH 043/180] fix: border weights of several hidden units can be
 extrapolated

Comparing an array to None is ambiguous for more than one element.
---
 pybrain/structure/networks/borderswiping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/structure/networks/borderswiping.py b/pybrain/structure/networks/borderswiping.py
index ab3d4ef..0e98d1b 100644
--- a/pybrain/structure/networks/borderswiping.py
+++ b/pybrain/structure/networks/borderswiping.py
@@ -55,7 +55,7 @@ class BorderSwipingNetwork(SwipingNetwork):
                         tmp[t] = MotherConnection(hiddenmesh.componentIndim, name = 'bconn'+str(dim)+str(t))
                         if self.extrapolateBorderValues:
                             p = self._extrapolateBorderAt(t, self.predefined['bordconns'][dim])
-                            if p != None:
+                            if p is not None:
                                 tmp[t].params[:] = p
                 self.predefined['bordconns'][dim] = tmp
 
-- 
2.43.0


From ed51717858ee5ece0f8740aca45f96f1c3cf9e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:40 +0000
Subject: [PATCH 044/180] fix: a direct link can be built in a capture-game
 network

The name of a mother connection is a keyword argument.
---
 pybrain/structure/networks/custom/capturegame.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/structure/networks/custom/capturegame.py b/pybrain/structure/networks/custom/capturegame.py
index 3702ce0..77274cb 100644
--- a/pybrain/structure/networks/custom/capturegame.py
+++ b/pybrain/structure/networks/custom/capturegame.py
@@ -94,7 +94,7 @@ class CaptureGameNetwork(BorderSwipingNetwork):
 
     def _buildDirectLink(self, inmesh, outmesh):
         if not 'directconn' in self.predefined:
-            self.predefined['directconn'] = MotherConnection(inmesh.componentOutdim*outmesh.componentIndim, 'inconn')
+            self.predefined['directconn'] = MotherConnection(inmesh.componentOutdim*outmesh.componentIndim, name='directconn')
         for unit in self._iterateOverUnits():
             self.addConnection(SharedFullConnection(self.predefined['directconn'], inmesh[unit], outmesh[unit]))
 
-- 
2.43.0


From 0f313a8413ca3faef80ebbf7fef3537fce5d1c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:40 +0000
Subject: [PATCH 045/180] fix: peephole weights belong to a neuron of their
 layer

The decomposition raised a KeyError for layers with several parameters per
neuron.
---
 pybrain/structure/networks/neurondecomposable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/structure/networks/neurondecomposable.py b/pybrain/structure/networks/neurondecomposable.py
index 42fc0ed..22bdf63 100644
--- a/pybrain/structure/networks/neurondecomposable.py
+++ b/pybrain/structure/networks/neurondecomposable.py
@@ -58,7 +58,7 @@ class NeuronDecomposableNetwork(object):
                                                (x.outmod, x.outmod.whichNeuron(inputIndex=outbuf)))
             elif isinstance(x, NeuronLayer):
                 for n in range(x.paramdim):
-                    self.paramInfo[index + n] = ((x, n), (x, n))
+                    self.paramInfo[index + n] = ((x, n % x.dim), (x, n % x.dim))
             else:
                 raise
             index += x.paramdim
-- 
2.43.0


From ece1945221e8b3bc5beb5c74dab314c172797744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:40 +0000
Subject: [PATCH 046/180] fix: the states of MDLSTM cells are connected per
 dimension

The slot of a state connection was a running index over the outgoing
connections of its source, so at the borders the states of two predecessors
ended up (summed) in the same slot and the other one stayed empty.
---
 .../structure/networks/custom/capturegame.py  | 14 +++----------
 .../structure/networks/multidimensional.py    | 14 +++----------
 pybrain/structure/networks/swiping.py         | 20 +++++++++++++++++++
 3 files changed, 26 insertions(+), 22 deletions(-)

diff --git a/pybrain/structure/networks/custom/capturegame.py b/pybrain/structure/networks/custom/capturegame.py
index 77274cb..395386a 100644
--- a/pybrain/structure/networks/custom/capturegame.py
+++ b/pybrain/structure/networks/custom/capturegame.py
@@ -2,7 +2,7 @@ __author__ = 'Tom Schaul, tom@idsia.ch'
 
 import random
 
-from pybrain import SharedFullConnection, MotherConnection, MDLSTMLayer, IdentityConnection
+from pybrain import SharedFullConnection, MotherConnection, MDLSTMLayer
 from pybrain import ModuleMesh, LinearLayer, TanhLayer, SigmoidLayer
 from pybrain.structure.networks import BorderSwipingNetwork
 
@@ -70,16 +70,8 @@ class CaptureGameNetwork(BorderSwipingNetwork):
         self._buildBorderStructure(inmesh, hiddenmesh, outmesh)
 
         # add the identity connections for the states
-        for m in self.modules:
-            if isinstance(m, MDLSTMLayer):
-                tmp = m.stateSlice()
-                index = 0
-                for c in list(self.connections[m]):
-                    if isinstance(c.outmod, MDLSTMLayer):
-                        self.addConnection(IdentityConnection(tmp, c.outmod.stateSlice(),
-                                                              outSliceFrom = self.hsize*(index),
-                                                              outSliceTo = self.hsize*(index+1)))
-                        index += 1
+        if self.componentclass is MDLSTMLayer:
+            self._addStateConnections(hiddenmesh)
         # direct connections between input and output
         if self.directlink:
             self._buildDirectLink(inmesh, outmesh)
diff --git a/pybrain/structure/networks/multidimensional.py b/pybrain/structure/networks/multidimensional.py
index 16b8fde..570330d 100644
--- a/pybrain/structure/networks/multidimensional.py
+++ b/pybrain/structure/networks/multidimensional.py
@@ -1,7 +1,7 @@
 __author__ = 'Tom Schaul, tom@idsia.ch'
 
 from pybrain.structure.networks.swiping import SwipingNetwork
-from pybrain import MDLSTMLayer, IdentityConnection
+from pybrain import MDLSTMLayer
 from pybrain import ModuleMesh, LinearLayer, TanhLayer, SigmoidLayer
 from scipy import product
 
@@ -39,16 +39,8 @@ class MultiDimensionalRNN(SwipingNetwork):
         self._buildSwipingStructure(inmesh, hiddenmesh, outmesh)
 
         # add the identity connections for the states
-        for m in self.modules:
-            if isinstance(m, MDLSTMLayer):
-                tmp = m.stateSlice()
-                index = 0
-                for c in list(self.connections[m]):
-                    if isinstance(c.outmod, MDLSTMLayer):
-                        self.addConnection(IdentityConnection(tmp, c.outmod.stateSlice(),
-                                                              outSliceFrom = self.hsize*(index),
-                                                              outSliceTo = self.hsize*(index+1)))
-                        index += 1
+        if self.componentclass is MDLSTMLayer:
+            self._addStateConnections(hiddenmesh)
 
         self.sortModules()
 
diff --git a/pybrain/structure/networks/swiping.py b/pybrain/structure/networks/swiping.py
index 945a274..6dbb1e5 100644
--- a/pybrain/structure/networks/swiping.py
+++ b/pybrain/structure/networks/swiping.py
@@ -3,6 +3,7 @@ from __future__ import print_function
 __author__ = 'Tom Schaul, tom@idsia.ch'
 
 from pybrain.structure.networks.feedforward import FeedForwardNetwork
+from pybrain.structure.connections.identity import IdentityConnection
 from pybrain.structure.connections.shared import MotherConnection, SharedFullConnection
 from pybrain.utilities import iterCombinations
 
@@ -117,6 +118,25 @@ class SwipingNetwork(FeedForwardNetwork):
                     if previousunit[dim] >= 0 and previousunit[dim] < maxval:
                         self.addConnection(SharedFullConnection(hconn, hiddenmesh[previousunit], hiddenmesh[hunit]))
 
+    def _addStateConnections(self, hiddenmesh):
+        """ add the identity connections for the states of MDLSTM cells:
+        the D-th part of the incoming state is the state of the previous cell along dimension D.
+
+        :key hiddenmesh: a mesh of slices of MDLSTMLayers
+        """
+        for unit in self._iterateOverUnits():
+            for swipe in range(self.swipes):
+                hunit = tuple(list(unit) + [swipe])
+                cell = hiddenmesh[hunit].base
+                for dim, maxval in enumerate(self.dims):
+                    previousunit = list(hunit)
+                    previousunit[dim] += -1 if (swipe // 2 ** dim) % 2 == 0 else 1
+                    if 0 <= previousunit[dim] < maxval:
+                        previous = hiddenmesh[tuple(previousunit)].base
+                        self.addConnection(IdentityConnection(previous.stateSlice(), cell.stateSlice(),
+                                                              outSliceFrom=cell.dim * dim,
+                                                              outSliceTo=cell.dim * (dim + 1)))
+
     def _iterateOverUnits(self):
         """ iterate over the coordinates defines by the ranges of self.dims. """
         return iterCombinations(self.dims)
-- 
2.43.0


From 8f4d398490b0b28bdd167e29bc0538ca3226ed08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:09 +0000
Subject: [PATCH 047/180] fix: RProp leaves the gradient array of the caller
 unmodified

---
 pybrain/auxiliary/gradientdescent.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/auxiliary/gradientdescent.py b/pybrain/auxiliary/gradientdescent.py
index 4b8b0bb..dc4cdb2 100644
--- a/pybrain/auxiliary/gradientdescent.py
+++ b/pybrain/auxiliary/gradientdescent.py
@@ -2,7 +2,7 @@ __author__ = ('Thomas Rueckstiess, ruecksti@in.tum.de'
               'Justin Bayer, bayer.justin@googlemail.com')
 
 
-from scipy import zeros, asarray, sign, array, cov, dot, clip, ndarray
+from scipy import zeros, sign, array, cov, dot, clip, ndarray
 from scipy.linalg import inv
 
 
@@ -55,7 +55,7 @@ class GradientDescent(object):
         """ calculates parameter change based on given gradient and returns updated parameters """
         # check if gradient has correct dimensionality, then make array """
         assert len(gradient) == len(self.values)
-        gradient_arr = asarray(gradient)
+        gradient_arr = array(gradient)
 
         if self.rprop:
             rprop_theta = self.rprop_theta
-- 
2.43.0


From 5dce04048019219e8649576e681221c6125f6dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:09 +0000
Subject: [PATCH 048/180] fix: the natural gradient starts a new set of samples
 after every update

---
 pybrain/auxiliary/gradientdescent.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pybrain/auxiliary/gradientdescent.py b/pybrain/auxiliary/gradientdescent.py
index dc4cdb2..91cde55 100644
--- a/pybrain/auxiliary/gradientdescent.py
+++ b/pybrain/auxiliary/gradientdescent.py
@@ -116,6 +116,7 @@ class NaturalGradient(object):
         # After all the samples have been put into a single array, we can
         # delete them.
         gradientarray = array(self.samples).T
+        self.samples = []
         inv_covar = inv(cov(gradientarray))
         self.values += dot(inv_covar, gradientarray.sum(axis=1))
         return self.values
-- 
2.43.0


From 68a85b8fd330e62dd2686f2439c4cb0e3bc05aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:09 +0000
Subject: [PATCH 049/180] fix: batch learning applies the weight decay

---
 pybrain/supervised/trainers/backprop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/supervised/trainers/backprop.py b/pybrain/supervised/trainers/backprop.py
index b4c9f5f..b0a1b3c 100644
--- a/pybrain/supervised/trainers/backprop.py
+++ b/pybrain/supervised/trainers/backprop.py
@@ -71,7 +71,8 @@ class BackpropTrainer(Trainer):
         if self.verbose:
             print("Total error: {z: .12g}".format(z=errors / ponderation))
         if self.batchlearning:
-            self.module._setParameters(self.descent(self.module.derivs))
+            gradient = self.module.derivs - self.weightdecay * self.module.params
+            self.module._setParameters(self.descent(gradient))
         self.epoch += 1
         self.totalepochs += 1
         return errors / ponderation
-- 
2.43.0


From 63d7e3663cea92d8073d4074e25b7b9fef774370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:09 +0000
Subject: [PATCH 050/180] fix: an epoch of back-propagation training starts
 from the current weights of the module

---
 pybrain/supervised/trainers/backprop.py | 6 ++++++
 pybrain/supervised/trainers/rprop.py    | 1 +
 2 files changed, 7 insertions(+)

diff --git a/pybrain/supervised/trainers/backprop.py b/pybrain/supervised/trainers/backprop.py
index b0a1b3c..db4352b 100644
--- a/pybrain/supervised/trainers/backprop.py
+++ b/pybrain/supervised/trainers/backprop.py
@@ -50,6 +50,7 @@ class BackpropTrainer(Trainer):
     def train(self):
         """Train the associated module for one epoch."""
         assert len(self.ds) > 0, "Dataset cannot be empty."
+        self._syncDescent()
         self.module.resetDerivatives()
         errors = 0
         ponderation = 0.
@@ -78,6 +79,11 @@ class BackpropTrainer(Trainer):
         return errors / ponderation
 
 
+    def _syncDescent(self):
+        """Let the descent continue from the current weights of the module,
+        which may have been changed since the last epoch."""
+        self.descent.values = self.module.params.copy()
+
     def _calcDerivs(self, seq):
         """Calculate error function and backpropagate output errors to yield
         the gradient."""
diff --git a/pybrain/supervised/trainers/rprop.py b/pybrain/supervised/trainers/rprop.py
index 885b0c8..d8007b8 100644
--- a/pybrain/supervised/trainers/rprop.py
+++ b/pybrain/supervised/trainers/rprop.py
@@ -37,6 +37,7 @@ class RPropMinusTrainer(BackpropTrainer):
 
     def train(self):
         """ Train the network for one epoch """
+        self._syncDescent()
         self.module.resetDerivatives()
         errors = 0
         ponderation = 0
-- 
2.43.0


From 2eb6741522a16988172753da4e63a517047b45f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:23 +0000
Subject: [PATCH 051/180] fix: trainUntilConvergence trains at most maxEpochs
 epochs

---
 pybrain/supervised/trainers/backprop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/supervised/trainers/backprop.py b/pybrain/supervised/trainers/backprop.py
index db4352b..e2f0895 100644
--- a/pybrain/supervised/trainers/backprop.py
+++ b/pybrain/supervised/trainers/backprop.py
@@ -242,10 +242,10 @@ class BackpropTrainer(Trainer):
                 bestweights = self.module.params.copy()
                 bestepoch = epochs
 
+            epochs += 1
             if maxEpochs != None and epochs >= maxEpochs:
                 self.module.params[:] = bestweights
                 break
-            epochs += 1
 
             if len(self.validationErrors) >= continueEpochs * 2:
                 # have the validation errors started going up again?
-- 
2.43.0


From 1879b24952f11692b2607adb209620c64419b1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:23 +0000
Subject: [PATCH 052/180] fix: validation errors that only cancel out do not
 count as converged

---
 pybrain/supervised/trainers/backprop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/supervised/trainers/backprop.py b/pybrain/supervised/trainers/backprop.py
index e2f0895..f7e6506 100644
--- a/pybrain/supervised/trainers/backprop.py
+++ b/pybrain/supervised/trainers/backprop.py
@@ -256,7 +256,7 @@ class BackpropTrainer(Trainer):
                     self.module.params[:] = bestweights
                     break
                 lastnew = round(new[-1], convergence_threshold)
-                if sum(round(y, convergence_threshold) - lastnew for y in new) == 0:
+                if all(round(y, convergence_threshold) == lastnew for y in new):
                     self.module.params[:] = bestweights
                     break
         #self.trainingErrors.append(self.testOnData(trainingData))
-- 
2.43.0


From 6e0c4cc2813fefa28906f818f1333c7e921885d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:21 +0000
Subject: [PATCH 053/180] fix: the ends of the sequences of a dataset are
 integer indices

---
 pybrain/tools/validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/tools/validation.py b/pybrain/tools/validation.py
index 5fdb1f6..8246363 100644
--- a/pybrain/tools/validation.py
+++ b/pybrain/tools/validation.py
@@ -117,7 +117,7 @@ class SequenceHelper(object):
         sequence_ends = delete(dataset.getField('sequence_index') - 1, 0)
         sequence_ends = append(sequence_ends, dataset.getLength() - 1)
 #        print(sequence_ends; exit())
-        sequence_ends = array(sequence_ends)
+        sequence_ends = array(sequence_ends, dtype=int)
         return sequence_ends
 
     @classmethod
-- 
2.43.0


From 724dd93f7d6dbee5e6f744146c3d6811656bf603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:29 +0000
Subject: [PATCH 054/180] fix: logging agents accept observations and actions
 of more than one value

---
 pybrain/rl/agents/logging.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pybrain/rl/agents/logging.py b/pybrain/rl/agents/logging.py
index c13e356..745b7ba 100644
--- a/pybrain/rl/agents/logging.py
+++ b/pybrain/rl/agents/logging.py
@@ -41,9 +41,9 @@ class LoggingAgent(Agent):
 
     def getAction(self):
         """Step 2: store the action in a temporary variable until reward is given. """
-        assert self.lastobs != None
-        assert self.lastaction == None
-        assert self.lastreward == None
+        assert self.lastobs is not None
+        assert self.lastaction is None
+        assert self.lastreward is None
 
         # implement getAction in subclass and set self.lastaction
 
@@ -51,9 +51,9 @@ class LoggingAgent(Agent):
     def giveReward(self, r):
         """Step 3: store observation, action and reward in the history dataset. """
         # step 3: assume that state and action have been set
-        assert self.lastobs != None
-        assert self.lastaction != None
-        assert self.lastreward == None
+        assert self.lastobs is not None
+        assert self.lastaction is not None
+        assert self.lastreward is None
 
         self.lastreward = r
 
-- 
2.43.0


From 016b7f088c0684dfcb301dd7c0afa12aa374f9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:29 +0000
Subject: [PATCH 055/180] fix: normalized sensors are clipped to their limits

---
 pybrain/rl/environments/task.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pybrain/rl/environments/task.py b/pybrain/rl/environments/task.py
index e771044..261c0ee 100644
--- a/pybrain/rl/environments/task.py
+++ b/pybrain/rl/environments/task.py
@@ -52,9 +52,10 @@ class Task(object):
             if not l:
                 result.append(s)
             else:
-                result.append((s - l[0]) / (l[1] - l[0]) * 2 - 1.0)
-        if self.clipping:
-            clip(result, -1, 1)
+                r = (s - l[0]) / (l[1] - l[0]) * 2 - 1.0
+                if self.clipping:
+                    r = clip(r, -1, 1)
+                result.append(r)
         return asarray(result)
 
     def denormalize(self, actors):
-- 
2.43.0


From 89b36eb98261abe4f3ceb7548b9b33b9f4e43cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:26 +0000
Subject: [PATCH 056/180] fix: Q keeps its last sample between online learning
 steps

---
 pybrain/rl/learners/valuebased/q.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pybrain/rl/learners/valuebased/q.py b/pybrain/rl/learners/valuebased/q.py
index 9c7fc3f..5795040 100644
--- a/pybrain/rl/learners/valuebased/q.py
+++ b/pybrain/rl/learners/valuebased/q.py
@@ -17,6 +17,15 @@ class Q(ValueBasedLearner):
         self.laststate = None
         self.lastaction = None
 
+    def newEpisode(self):
+        """ The last sample of the finished episode does not lead to the first one of the next. """
+        ValueBasedLearner.newEpisode(self)
+        self.laststate = None
+
+    def reset(self):
+        ValueBasedLearner.reset(self)
+        self.laststate = None
+
     def learn(self):
         """ Learn on the current dataset, either for many timesteps and
             even episodes (batchMode = True) or for a single timestep
@@ -37,9 +46,10 @@ class Q(ValueBasedLearner):
         for seq in samples:
             # information from the previous episode (sequence)
             # should not influence the training on this episode
-            self.laststate = None
-            self.lastaction = None
-            self.lastreward = None
+            if self.batchMode:
+                self.laststate = None
+                self.lastaction = None
+                self.lastreward = None
 
             for state, action, reward in seq:
 
-- 
2.43.0


From 4f4d5f7b650ec4b4f66302f3a001dff5ffe89ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:26 +0000
Subject: [PATCH 057/180] fix: SARSA keeps its last sample between online
 learning steps

---
 pybrain/rl/learners/valuebased/sarsa.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pybrain/rl/learners/valuebased/sarsa.py b/pybrain/rl/learners/valuebased/sarsa.py
index 226a40e..071ae8b 100644
--- a/pybrain/rl/learners/valuebased/sarsa.py
+++ b/pybrain/rl/learners/valuebased/sarsa.py
@@ -24,6 +24,15 @@ class SARSA(ValueBasedLearner):
         self.laststate = None
         self.lastaction = None
 
+    def newEpisode(self):
+        """ The last sample of the finished episode does not lead to the first one of the next. """
+        ValueBasedLearner.newEpisode(self)
+        self.laststate = None
+
+    def reset(self):
+        ValueBasedLearner.reset(self)
+        self.laststate = None
+
     def learn(self):
         if self.batchMode:
             samples = self.dataset
@@ -33,9 +42,10 @@ class SARSA(ValueBasedLearner):
         for seq in samples:
             # information from the previous episode (sequence)
             # should not influence the training on this episode
-            self.laststate = None
-            self.lastaction = None
-            self.lastreward = None
+            if self.batchMode:
+                self.laststate = None
+                self.lastaction = None
+                self.lastreward = None
             for state, action, reward in seq:
 
                 state = int(state)
-- 
2.43.0


From 7c334804bfd190cc5f40a98756d677ed00dace19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:26 +0000
Subject: [PATCH 058/180] fix: QLambda does not truncate rewards to integers

---
 pybrain/rl/learners/valuebased/qlambda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/learners/valuebased/qlambda.py b/pybrain/rl/learners/valuebased/qlambda.py
index 1c6a507..ef4f510 100644
--- a/pybrain/rl/learners/valuebased/qlambda.py
+++ b/pybrain/rl/learners/valuebased/qlambda.py
@@ -35,7 +35,7 @@ class QLambda(ValueBasedLearner):
             laststate = int(states[i - 1])
             # action = int(actions[i])
             lastaction = int(actions[i - 1])
-            lastreward = int(rewards[i - 1])
+            lastreward = float(rewards[i - 1])
 
             qvalue = self.module.getValue(laststate, lastaction)
             maxnext = self.module.getValue(state, self.module.getMaxAction(state))
-- 
2.43.0


From ed217769fedf486e51137c1407f3f448f40789db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:26 +0000
Subject: [PATCH 059/180] fix: QLambda does not learn transitions from one
 episode to the next

---
 pybrain/rl/learners/valuebased/qlambda.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pybrain/rl/learners/valuebased/qlambda.py b/pybrain/rl/learners/valuebased/qlambda.py
index ef4f510..38fd5ae 100644
--- a/pybrain/rl/learners/valuebased/qlambda.py
+++ b/pybrain/rl/learners/valuebased/qlambda.py
@@ -21,9 +21,11 @@ class QLambda(ValueBasedLearner):
 
 
     def learn(self):
-        states = self.dataset['state']
-        actions = self.dataset['action']
-        rewards = self.dataset['reward']
+        if self.dataset.getNumSequences() == 0:
+            return
+
+        # only the current episode: its first state does not follow the end of the previous one
+        states, actions, rewards = self.dataset.getSequence(self.dataset.getNumSequences() - 1)
 
         for i in range(states.shape[0] - 1, 0, -1):
             lbda = self.qlambda ** (states.shape[0] - 1 - i)
-- 
2.43.0


From c13468e258d4a4e8a54841e36e6496d32006402f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:26 +0000
Subject: [PATCH 060/180] fix: action values of a table for the state as the
 agent observes it

---
 pybrain/rl/learners/valuebased/interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/learners/valuebased/interface.py b/pybrain/rl/learners/valuebased/interface.py
index c4a6ae1..cbf1aa0 100644
--- a/pybrain/rl/learners/valuebased/interface.py
+++ b/pybrain/rl/learners/valuebased/interface.py
@@ -56,7 +56,7 @@ class ActionValueTable(Table, ActionValueInterface):
         return action
 
     def getActionValues(self, state):
-        return self.params.reshape(self.numRows, self.numColumns)[state, :].flatten()
+        return self.params.reshape(self.numRows, self.numColumns)[int(asarray(state)), :].flatten()
 
     def initialize(self, value=0.0):
         """ Initialize the whole table with the given value. """
-- 
2.43.0


From 8de126dd8b545d4cf56b2d52eb762fe85d9cdbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:28 +0000
Subject: [PATCH 061/180] fix: NFQ accepts the actions recorded in a
 reinforcement dataset

---
 pybrain/rl/learners/valuebased/nfq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/learners/valuebased/nfq.py b/pybrain/rl/learners/valuebased/nfq.py
index 2332026..f71d794 100644
--- a/pybrain/rl/learners/valuebased/nfq.py
+++ b/pybrain/rl/learners/valuebased/nfq.py
@@ -30,9 +30,9 @@ class NFQ(ValueBasedLearner):
                 # use experience from last timestep to do Q update
                 (state_, action_, reward_) = lastexperience
 
-                Q = self.module.getValue(state_, action_[0])
+                Q = self.module.getValue(state_, int(action_[0]))
 
-                inp = r_[state_, one_to_n(action_[0], self.module.numActions)]
+                inp = r_[state_, one_to_n(int(action_[0]), self.module.numActions)]
                 tgt = Q + 0.5*(reward_ + self.gamma * max(self.module.getActionValues(state)) - Q)
                 supervised.addSample(inp, tgt)
 
-- 
2.43.0


From de6a4d939d6233c2baf048d1df1cfd1912cb4b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:49 +0000
Subject: [PATCH 062/180] fix: random deterministic policies choose an action
 for every state

---
 pybrain/rl/learners/modelbased/policyiteration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/learners/modelbased/policyiteration.py b/pybrain/rl/learners/modelbased/policyiteration.py
index e04a668..bcb0845 100644
--- a/pybrain/rl/learners/modelbased/policyiteration.py
+++ b/pybrain/rl/learners/modelbased/policyiteration.py
@@ -113,7 +113,7 @@ def randomDeterministic(Ts):
     dim = len(Ts[0])
     choices = (rand(dim) * numA).astype(int)
     policy = zeros((dim, numA))
-    for si, a in choices:
+    for si, a in enumerate(choices):
         policy[si, a] = 1
     return policy, collapsedTransitions(Ts, policy)
 
-- 
2.43.0


From e9b09fb9ca24e4af7839078567d1b4708097ed94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:21 +0000
Subject: [PATCH 063/180] fix: the observations of MDPMazeTask are distinct for
 mazes that are wider than high

---
 pybrain/rl/environments/mazes/tasks/mdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/mazes/tasks/mdp.py b/pybrain/rl/environments/mazes/tasks/mdp.py
index 23a97ec..0d32a0f 100644
--- a/pybrain/rl/environments/mazes/tasks/mdp.py
+++ b/pybrain/rl/environments/mazes/tasks/mdp.py
@@ -28,7 +28,7 @@ class MDPMazeTask(Task):
         """ The agent receives its position in the maze, to make this a fully observable
             MDP problem.
         """
-        obs = array([self.env.perseus[0] * self.env.mazeTable.shape[0] + self.env.perseus[1]])
+        obs = array([self.env.perseus[0] * self.env.mazeTable.shape[1] + self.env.perseus[1]])
         return obs
 
 
-- 
2.43.0


From e2346d6aa6a748e1d75dfb5e78b155e1166bd954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:21 +0000
Subject: [PATCH 064/180] fix: TMaze does not turn the wrong choice into the
 goal when asked for the reward twice

---
 pybrain/rl/environments/mazes/tasks/tmaze.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pybrain/rl/environments/mazes/tasks/tmaze.py b/pybrain/rl/environments/mazes/tasks/tmaze.py
index 6dda091..9042c31 100644
--- a/pybrain/rl/environments/mazes/tasks/tmaze.py
+++ b/pybrain/rl/environments/mazes/tasks/tmaze.py
@@ -58,10 +58,14 @@ class TMaze(MazeTask):
             res[3] = 1
         return res
 
+    def _badChoice(self):
+        return (self.env.perseus[1] == self.length + 1
+                and abs(self.env.perseus[0] - self.env.goal[0]) == 2)
+
+    def isFinished(self):
+        return self._badChoice() or MazeTask.isFinished(self)
+
     def getReward(self):
-        if self.env.perseus[1] == self.length + 1:
-            if abs(self.env.perseus[0] - self.env.goal[0]) == 2:
-                # bad choice taken
-                self.env.perseus = self.env.goal
-                return self.bangPenalty
+        if self._badChoice():
+            return self.bangPenalty
         return MazeTask.getReward(self)
-- 
2.43.0


From 8df5a34b29f95e5708750c231fc66958f043a4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:21 +0000
Subject: [PATCH 065/180] fix: the noise of FourByThreeMaze never executes the
 opposite action

---
 pybrain/rl/environments/mazes/tasks/maze4x3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/mazes/tasks/maze4x3.py b/pybrain/rl/environments/mazes/tasks/maze4x3.py
index 5fbfe30..63d802a 100644
--- a/pybrain/rl/environments/mazes/tasks/maze4x3.py
+++ b/pybrain/rl/environments/mazes/tasks/maze4x3.py
@@ -40,7 +40,7 @@ class FourByThreeMaze(MazeTask):
     def performAction(self, action):
         poss = []
         for a in range(self.actions):
-            if action - a % 4 != 2:
+            if (action - a) % 4 != 2:
                 poss.append(a)
         if random() < self.stochAction * len(poss):
             MazeTask.performAction(self, choice(poss))
-- 
2.43.0


From fe52f6ba1257fc07c6fc2e4cde0964a5894a8429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:21 +0000
Subject: [PATCH 066/180] fix: the bad spot of FourByThreeMaze is absorbing and
 gives its negative reward

---
 pybrain/rl/environments/mazes/tasks/maze4x3.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pybrain/rl/environments/mazes/tasks/maze4x3.py b/pybrain/rl/environments/mazes/tasks/maze4x3.py
index 63d802a..62c6670 100644
--- a/pybrain/rl/environments/mazes/tasks/maze4x3.py
+++ b/pybrain/rl/environments/mazes/tasks/maze4x3.py
@@ -32,10 +32,19 @@ class FourByThreeMaze(MazeTask):
                       [1, 0, 0, 0, 0, 1],
                       [1] * 6, ])
     goal = (3, 4)
+    badSpot = (2, 4)
+    badReward = -1
 
-    def reset(self):
-        MazeTask.reset(self)
-        self.bad = False
+    def __init__(self, **args):
+        MazeTask.__init__(self, **args)
+        self.minReward = min(self.minReward, self.badReward)
+
+    @property
+    def bad(self):
+        return self.env.perseus == self.badSpot
+
+    def isFinished(self):
+        return self.bad or MazeTask.isFinished(self)
 
     def performAction(self, action):
         poss = []
@@ -49,7 +58,7 @@ class FourByThreeMaze(MazeTask):
 
     def getReward(self):
         if self.bad:
-            return self.minReward
+            return self.badReward
         else:
             return MazeTask.getReward(self)
 
-- 
2.43.0


From a82a3085d341b09f720502fa9ae86dcd4a04b763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:21 +0000
Subject: [PATCH 067/180] fix: moving forward in ShuttleDocking moves the
 shuttle

---
 pybrain/rl/environments/mazes/tasks/shuttle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/mazes/tasks/shuttle.py b/pybrain/rl/environments/mazes/tasks/shuttle.py
index f13a6fe..da5859f 100644
--- a/pybrain/rl/environments/mazes/tasks/shuttle.py
+++ b/pybrain/rl/environments/mazes/tasks/shuttle.py
@@ -91,7 +91,7 @@ class ShuttleDocking(MazeTask):
 
     def _forward(self):
         old = self.env.perseus
-        self.env.performAction(PolarMaze.TurnAround)
+        self.env.performAction(PolarMaze.Forward)
         if self.env.perseus == self.env.goal or self.env.perseus == self.env.initPos[0]:
             self.env.perseus = old
             self.env.bang = True
-- 
2.43.0


From 2a9bc11644843d9e7d95616de58c063105c92afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:21 +0000
Subject: [PATCH 068/180] fix: ShuttleDocking forgets the last bump when a
 noisy backup fails

---
 pybrain/rl/environments/mazes/tasks/shuttle.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pybrain/rl/environments/mazes/tasks/shuttle.py b/pybrain/rl/environments/mazes/tasks/shuttle.py
index da5859f..5232f57 100644
--- a/pybrain/rl/environments/mazes/tasks/shuttle.py
+++ b/pybrain/rl/environments/mazes/tasks/shuttle.py
@@ -57,6 +57,7 @@ class ShuttleDocking(MazeTask):
 
     def performAction(self, action):
         self.steps += 1
+        self.env.bang = False
         if action == self.TurnAround:
             self._turn()
         elif action == self.Forward:
-- 
2.43.0


From e593f3114950365db2bcdfbd47536848c2ad4b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:21 +0000
Subject: [PATCH 069/180] fix: ShuttleDocking and TigerTask add up the rewards
 of an episode

---
 pybrain/rl/environments/mazes/tasks/shuttle.py | 2 ++
 pybrain/rl/environments/mazes/tasks/tiger.py   | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/pybrain/rl/environments/mazes/tasks/shuttle.py b/pybrain/rl/environments/mazes/tasks/shuttle.py
index 5232f57..efed3b8 100644
--- a/pybrain/rl/environments/mazes/tasks/shuttle.py
+++ b/pybrain/rl/environments/mazes/tasks/shuttle.py
@@ -81,6 +81,8 @@ class ShuttleDocking(MazeTask):
                 # close to station, back to station
                 if r < 0.7:
                     self._backup()
+        self.samples += 1
+        self.addReward()
 
     def _backup(self):
         self.env.performAction(PolarMaze.TurnAround)
diff --git a/pybrain/rl/environments/mazes/tasks/tiger.py b/pybrain/rl/environments/mazes/tasks/tiger.py
index 6d0b056..fd17510 100644
--- a/pybrain/rl/environments/mazes/tasks/tiger.py
+++ b/pybrain/rl/environments/mazes/tasks/tiger.py
@@ -25,6 +25,7 @@ class TigerTask(POMDPTask):
     def reset(self):
         self.steps = 0
         self.cumreward = 0
+        self.samples = 0
         self.tigerLeft = choice([True, False])
         self.done = False
         self.nextReward = -1
@@ -38,6 +39,8 @@ class TigerTask(POMDPTask):
                 self.nextReward = -100
             else:
                 self.nextReward = 10
+        self.samples += 1
+        self.addReward()
 
     def getObservation(self):
         """ do we think we heard something on the left or on the right?  """
-- 
2.43.0


From b31189469e773b19788243fc25c2739f8e55a027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:58 +0000
Subject: [PATCH 070/180] fix: tournaments record draws as draws

---
 pybrain/rl/experiments/tournament.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pybrain/rl/experiments/tournament.py b/pybrain/rl/experiments/tournament.py
index d298311..b972fb1 100644
--- a/pybrain/rl/experiments/tournament.py
+++ b/pybrain/rl/experiments/tournament.py
@@ -66,8 +66,10 @@ class Tournament(Named):
         wincolor = self.env.getWinner()
         if wincolor == p1.color:
             winner = p1
-        else:
+        elif wincolor == p2.color:
             winner = p2
+        else:
+            winner = self.env.DRAW
         self.results[players].append(winner)
 
     def organize(self, repeat=1):
-- 
2.43.0


From 4ea44b14c2780d255cf6df93a280dda0aa36d598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:58 +0000
Subject: [PATCH 071/180] fix: the legal moves of the capture game exclude
 suicide when it is disabled

---
 pybrain/rl/environments/twoplayergames/capturegame.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/twoplayergames/capturegame.py b/pybrain/rl/environments/twoplayergames/capturegame.py
index 9dd9660..9b9f93b 100644
--- a/pybrain/rl/environments/twoplayergames/capturegame.py
+++ b/pybrain/rl/environments/twoplayergames/capturegame.py
@@ -202,7 +202,7 @@ class CaptureGame(TwoPlayerGame):
 
     def getLegals(self, c):
         """ return all the legal positions for a color """
-        return [p for p in self._iterPos() if self.b[p] == self.EMPTY]
+        return [p for p in self._iterPos() if self.isLegal(c, p)]
 
     def getAcceptable(self, c):
         """ return all legal positions for a color that don't commit suicide. """
-- 
2.43.0


From 4a2de4c51330a486c31905a11aa41acf0c6b6cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:58 +0000
Subject: [PATCH 072/180] fix: module-deciding Go-Moku players handle boards
 that are not square

---
 .../twoplayergames/gomokuplayers/moduledecision.py            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/environments/twoplayergames/gomokuplayers/moduledecision.py b/pybrain/rl/environments/twoplayergames/gomokuplayers/moduledecision.py
index d6ad145..8642178 100644
--- a/pybrain/rl/environments/twoplayergames/gomokuplayers/moduledecision.py
+++ b/pybrain/rl/environments/twoplayergames/gomokuplayers/moduledecision.py
@@ -59,10 +59,10 @@ class ModuleDecidingPlayer(RandomGomokuPlayer):
         return drawn
 
     def _convertIndexToPos(self, i):
-        return (i//self.game.size[0], i%self.game.size[0])
+        return (i//self.game.size[1], i%self.game.size[1])
 
     def _convertPosToIndex(self, p):
-        return p[0]*self.game.size[0]+p[1]
+        return p[0]*self.game.size[1]+p[1]
 
     def integrateObservation(self, obs = None):
         pass
-- 
2.43.0


From 0f1113b18e58a8eb405e4635d52821d3a54eab67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:58 +0000
Subject: [PATCH 073/180] fix: Go-Moku and Pente tasks make their opponent play
 the game of the task

---
 pybrain/rl/environments/twoplayergames/tasks/gomokutask.py | 2 ++
 pybrain/rl/environments/twoplayergames/tasks/pentetask.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pybrain/rl/environments/twoplayergames/tasks/gomokutask.py b/pybrain/rl/environments/twoplayergames/tasks/gomokutask.py
index 3c0296d..8355563 100644
--- a/pybrain/rl/environments/twoplayergames/tasks/gomokutask.py
+++ b/pybrain/rl/environments/twoplayergames/tasks/gomokutask.py
@@ -38,6 +38,8 @@ class GomokuTask(EpisodicTask, Named):
         elif isclass(opponent):
             # assume the agent can be initialized without arguments then.
             opponent = opponent(self.env)
+        else:
+            opponent.game = self.env
         if not self.opponentStart:
             opponent.color = GomokuGame.WHITE
         self.opponent = opponent
diff --git a/pybrain/rl/environments/twoplayergames/tasks/pentetask.py b/pybrain/rl/environments/twoplayergames/tasks/pentetask.py
index daa5338..65767a6 100644
--- a/pybrain/rl/environments/twoplayergames/tasks/pentetask.py
+++ b/pybrain/rl/environments/twoplayergames/tasks/pentetask.py
@@ -19,6 +19,8 @@ class PenteTask(GomokuTask):
         elif isclass(opponent):
             # assume the agent can be initialized without arguments then.
             opponent = opponent(self.env)
+        else:
+            opponent.game = self.env
         if not self.opponentStart:
             opponent.color = PenteGame.WHITE
         self.opponent = opponent
-- 
2.43.0


From 25dc14cf3ebb85cdc87a2f20579161b1224d4acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:58 +0000
Subject: [PATCH 074/180] fix: a draw is not a defeat in the relative Go-Moku
 task

---
 .../rl/environments/twoplayergames/tasks/relativegomokutask.py  | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pybrain/rl/environments/twoplayergames/tasks/relativegomokutask.py b/pybrain/rl/environments/twoplayergames/tasks/relativegomokutask.py
index bcf49d1..ac98e5c 100644
--- a/pybrain/rl/environments/twoplayergames/tasks/relativegomokutask.py
+++ b/pybrain/rl/environments/twoplayergames/tasks/relativegomokutask.py
@@ -106,6 +106,8 @@ class RelativeGomokuTask(GomokuTask):
             self.env.playToTheEnd(self.opponent, self.player)
         else:
             self.env.playToTheEnd(self.player, self.opponent)
+        if self.env.winner == self.env.DRAW:
+            return 0.
         moves = self.env.movesDone
         win = self.env.winner == self.player.color
         if self.verbose:
-- 
2.43.0


From 6a1c469d3c704cc539ab9f32b40e30d18b6c9a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:57 +0000
Subject: [PATCH 075/180] fix: divide large sets of items at an integer index
 in the non-dominated front

---
 pybrain/tools/nondominated.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pybrain/tools/nondominated.py b/pybrain/tools/nondominated.py
index 9f0fb7d..9ba0fcb 100644
--- a/pybrain/tools/nondominated.py
+++ b/pybrain/tools/nondominated.py
@@ -150,9 +150,9 @@ def _non_dominated_front_merge_arr(iterable, key=lambda x: x, allowequality=True
     items = list(iterable)
     l = len(items)
     if l > 100:
-        part1 = list(_non_dominated_front_merge_arr(items[:l / 2], key, allowequality))
-        part2 = list(_non_dominated_front_merge_arr(items[l / 2:], key, allowequality))
-        if len(part1) >= l / 3 or len(part2) >= l / 3:
+        part1 = list(_non_dominated_front_merge_arr(items[:l // 2], key, allowequality))
+        part2 = list(_non_dominated_front_merge_arr(items[l // 2:], key, allowequality))
+        if len(part1) >= l // 3 or len(part2) >= l // 3:
             return _non_dominated_front_arr(part1 + part2, key, allowequality)
         else:
             return _non_dominated_front_merge_arr(part1 + part2, key, allowequality)
-- 
2.43.0


From bbb1475188c69e15eb7e6ead16b227c70d3af604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:57 +0000
Subject: [PATCH 076/180] fix: crowding distances ignore an objective in which
 all individuals are equal

---
 pybrain/tools/nondominated.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/tools/nondominated.py b/pybrain/tools/nondominated.py
index 9ba0fcb..c74c609 100644
--- a/pybrain/tools/nondominated.py
+++ b/pybrain/tools/nondominated.py
@@ -14,7 +14,7 @@ def crowding_distance(individuals, fitnesses):
     for i in range(n_obj):
         individuals.sort(key=lambda x: fitnesses[x][i])
         # normalization between 0 and 1.
-        normalization = float(fitnesses[individuals[0]][i] - fitnesses[individuals[-1]][i])
+        normalization = float(fitnesses[individuals[0]][i] - fitnesses[individuals[-1]][i]) or 1.
         # Make sure the boundary points are always selected.
         distances[individuals[0]] = 1e100
         distances[individuals[-1]] = 1e100
@@ -263,7 +263,7 @@ def const_crowding_distance(individuals, fitnesses):
     for i in range(n_obj):
         individuals.sort(key=lambda x: fitnesses[x][0][i])
         # normalization between 0 and 1.
-        normalization = float(fitnesses[individuals[0]][0][i] - fitnesses[individuals[-1]][0][i])
+        normalization = float(fitnesses[individuals[0]][0][i] - fitnesses[individuals[-1]][0][i]) or 1.
         # Make sure the boundary points are always selected.
         distances[individuals[0]] = 1e100
         distances[individuals[-1]] = 1e100
-- 
2.43.0


From 71985b38174d60fbd727244f37a269caa8940516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:57 +0000
Subject: [PATCH 077/180] fix: the multi-objective GAs work without elitism

---
 .../populationbased/multiobjective/constnsga2.py       | 10 +++++++---
 .../populationbased/multiobjective/nsga2.py            | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/pybrain/optimization/populationbased/multiobjective/constnsga2.py b/pybrain/optimization/populationbased/multiobjective/constnsga2.py
index c346362..4c1c734 100644
--- a/pybrain/optimization/populationbased/multiobjective/constnsga2.py
+++ b/pybrain/optimization/populationbased/multiobjective/constnsga2.py
@@ -41,15 +41,19 @@ class ConstMultiObjectiveGA(GA):
         if self.storeAllPopulations:
             self._allGenerations.append((self.currentpop, self.fitnesses))
 
+        candidates = dict(self.fitnesses)
         if self.elitism:
             self.bestEvaluable = list(const_non_dominated_front(list(map(tuple, self.currentpop)),
                                                           key=lambda x: self.fitnesses[x],
                                                           allowequality = self.allowEquality))
         else:
-            self.bestEvaluable = list(const_non_dominated_front(list(map(tuple, self.currentpop))+self.bestEvaluable,
-                                                          key=lambda x: self.fitnesses[x],
+            # the best individuals so far may have left the population
+            if self.bestEvaluation is not None:
+                candidates.update(list(zip(self.bestEvaluable, self.bestEvaluation)))
+            self.bestEvaluable = list(const_non_dominated_front(candidates,
+                                                          key=lambda x: candidates[x],
                                                           allowequality = self.allowEquality))
-        self.bestEvaluation = [self.fitnesses[indiv] for indiv in self.bestEvaluable]
+        self.bestEvaluation = [candidates[indiv] for indiv in self.bestEvaluable]
 #        self.eliteProportion = float(len(self.bestEvaluable))/self.populationSize
 #        number_of_feasible = const_number_of_feasible_pop(map(tuple, self.currentpop),
 #                                                          key=lambda x: self.fitnesses[x],
diff --git a/pybrain/optimization/populationbased/multiobjective/nsga2.py b/pybrain/optimization/populationbased/multiobjective/nsga2.py
index 3cc7fba..a1a5474 100644
--- a/pybrain/optimization/populationbased/multiobjective/nsga2.py
+++ b/pybrain/optimization/populationbased/multiobjective/nsga2.py
@@ -43,15 +43,19 @@ class MultiObjectiveGA(GA):
         if self.storeAllPopulations:
             self._allGenerations.append((self.currentpop, self.fitnesses))
 
+        candidates = dict(self.fitnesses)
         if self.elitism:
             self.bestEvaluable = list(non_dominated_front(list(map(tuple, self.currentpop)),
                                                           key=lambda x: self.fitnesses[x],
                                                           allowequality = self.allowEquality))
         else:
-            self.bestEvaluable = list(non_dominated_front(list(map(tuple, self.currentpop))+self.bestEvaluable,
-                                                          key=lambda x: self.fitnesses[x],
+            # the best individuals so far may have left the population
+            if self.bestEvaluation is not None:
+                candidates.update(list(zip(self.bestEvaluable, self.bestEvaluation)))
+            self.bestEvaluable = list(non_dominated_front(candidates,
+                                                          key=lambda x: candidates[x],
                                                           allowequality = self.allowEquality))
-        self.bestEvaluation = [self.fitnesses[indiv] for indiv in self.bestEvaluable]
+        self.bestEvaluation = [candidates[indiv] for indiv in self.bestEvaluable]
 
         self.produceOffspring()
 
-- 
2.43.0


From 06c175a96e3ea30ed990d290124083fe3e9603b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:57 +0000
Subject: [PATCH 078/180] fix: a GA with a single parent produces copies of it

---
 pybrain/optimization/populationbased/ga.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pybrain/optimization/populationbased/ga.py b/pybrain/optimization/populationbased/ga.py
index 083c7f2..53c0d40 100644
--- a/pybrain/optimization/populationbased/ga.py
+++ b/pybrain/optimization/populationbased/ga.py
@@ -112,6 +112,9 @@ class GA(ContinuousOptimizer, Evolution):
                 res[:point] = p2[:point]
                 res[point:] = p1[point:]
                 children.append(res)
+        if not children:
+            # a single parent can not be crossed with another one
+            children = list(parents)
         shuffle(children)
         if len(children) > nbChildren:
             children = children[:nbChildren]  
-- 
2.43.0


From 86337d626f499b97f09769070ef96a5cd77bed40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:57 +0000
Subject: [PATCH 079/180] fix: the GA fills up the population when there are
 fewer distinct parents than the elite

---
 pybrain/optimization/populationbased/ga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/optimization/populationbased/ga.py b/pybrain/optimization/populationbased/ga.py
index 53c0d40..4cc87bd 100644
--- a/pybrain/optimization/populationbased/ga.py
+++ b/pybrain/optimization/populationbased/ga.py
@@ -207,7 +207,7 @@ class GA(ContinuousOptimizer, Evolution):
         es = min(self.eliteSize, self.selectionSize)
         self.currentpop = parents[:es]
         '''Modified by JPQ '''
-        nbchildren = self.populationSize - es
+        nbchildren = self.populationSize - len(self.currentpop)
         if self.populationSize - es <= 0:
             nbchildren = len(parents)
         for child in self.crossOver(parents, nbchildren ):
-- 
2.43.0


From acd5d54f989abbded1fab9bc8356dfa8e2627c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:42 +0000
Subject: [PATCH 080/180] fix: ES divides its population size as an integer

---
 pybrain/optimization/populationbased/es.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/optimization/populationbased/es.py b/pybrain/optimization/populationbased/es.py
index c2405b7..473dbd6 100644
--- a/pybrain/optimization/populationbased/es.py
+++ b/pybrain/optimization/populationbased/es.py
@@ -49,7 +49,7 @@ class ES(BlackBoxOptimizer):
             self._sortPopulation(noHallOfFame = True)
 
         # produce offspring from the the mu best ones
-        self.population = self.population[:self.mu] * (self._popsize/self.mu)
+        self.population = self.population[:self.mu] * (self._popsize//self.mu)
 
         # mutate the offspring
         if self.elitism:
-- 
2.43.0


From 3c152cd7c06aad97a157b44806257634b277a35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:42 +0000
Subject: [PATCH 081/180] fix: setting the evaluator does not discard the best
 of the initial evaluations

---
 pybrain/optimization/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/optimization/optimizer.py b/pybrain/optimization/optimizer.py
index d6faf3f..d811559 100644
--- a/pybrain/optimization/optimizer.py
+++ b/pybrain/optimization/optimizer.py
@@ -152,8 +152,8 @@ class BlackBoxOptimizer(DirectSearchLearner):
         #set the starting point for optimization (as provided, or randomly)
         self._setInitEvaluable(initEvaluable)        
         self.bestEvaluation = None
-        self._additionalInit()
         self.bestEvaluable = self._initEvaluable
+        self._additionalInit()
         
     def _flipDirection(self):
         self.__evaluator = oppositeFunction(self.__evaluator)
-- 
2.43.0


From bba0e568b4c80a64d8858121de04989924813934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:42 +0000
Subject: [PATCH 082/180] fix: triangular (un)packing and the NES family use
 integer sizes

---
 pybrain/optimization/distributionbased/fem.py |  6 +++---
 pybrain/optimization/distributionbased/ves.py | 10 +++++-----
 pybrain/utilities.py                          |  2 +-
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/pybrain/optimization/distributionbased/fem.py b/pybrain/optimization/distributionbased/fem.py
index 86edfb9..c5faee6 100644
--- a/pybrain/optimization/distributionbased/fem.py
+++ b/pybrain/optimization/distributionbased/fem.py
@@ -59,11 +59,11 @@ class FEM(DistributionBasedOptimizer):
         self.mus = []
         self.sigmas = []
 
-        if self.rangemins == None:
+        if self.rangemins is None:
             self.rangemins = -ones(xdim)
-        if self.rangemaxs == None:
+        if self.rangemaxs is None:
             self.rangemaxs = ones(xdim)
-        if self.initCovariances == None:
+        if self.initCovariances is None:
             if self.diagonalOnly:
                 self.initCovariances = ones(xdim)
             else:
diff --git a/pybrain/optimization/distributionbased/ves.py b/pybrain/optimization/distributionbased/ves.py
index 4851294..f339c4e 100644
--- a/pybrain/optimization/distributionbased/ves.py
+++ b/pybrain/optimization/distributionbased/ves.py
@@ -47,7 +47,7 @@ class VanillaGradientEvolutionStrategies(DistributionBasedOptimizer):
     def _additionalInit(self):
         xdim = self.numParameters
         assert not self.diagonalOnly, 'Diagonal-only not yet supported'
-        self.numDistrParams = xdim + xdim * (xdim + 1) / 2
+        self.numDistrParams = xdim + xdim * (xdim + 1) // 2
 
         if self.momentum != None:
             self.momentumVector = zeros(self.numDistrParams)
@@ -56,11 +56,11 @@ class VanillaGradientEvolutionStrategies(DistributionBasedOptimizer):
         if self.batchSize is None:
             self.batchSize = 10 * self.numParameters
 
-        if self.rangemins == None:
+        if self.rangemins is None:
             self.rangemins = -ones(xdim)
-        if self.rangemaxs == None:
+        if self.rangemaxs is None:
             self.rangemaxs = ones(xdim)
-        if self.initCovariances == None:
+        if self.initCovariances is None:
             if self.diagonalOnly:
                 self.initCovariances = ones(xdim)
             else:
@@ -86,7 +86,7 @@ class VanillaGradientEvolutionStrategies(DistributionBasedOptimizer):
             self._allDistributions = [(self.x.copy(), self.sigma.copy())]
 
     def _produceNewSample(self, z=None):
-        if z == None:
+        if z is None:
             p = randn(self.numParameters)
             z = dot(self.factorSigma.T, p) + self.x
         self.allSamples.append(z)
diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index f8d3068..161dfb0 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -557,7 +557,7 @@ def triu2flat(m):
     """ Flattens an upper triangular matrix, returning a vector of the
     non-zero elements. """
     dim = m.shape[0]
-    res = zeros(dim * (dim + 1) / 2)
+    res = zeros(dim * (dim + 1) // 2)
     index = 0
     for row in range(dim):
         res[index:index + dim - row] = m[row, row:]
-- 
2.43.0


From 1b51a6ad49fdde4425ec0c13f02056e0664be439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:42 +0000
Subject: [PATCH 083/180] fix: an optimizer stops exactly at its maximal number
 of learning steps

---
 pybrain/optimization/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/optimization/optimizer.py b/pybrain/optimization/optimizer.py
index d811559..9863bdb 100644
--- a/pybrain/optimization/optimizer.py
+++ b/pybrain/optimization/optimizer.py
@@ -195,7 +195,7 @@ class BlackBoxOptimizer(DirectSearchLearner):
         """ The main loop that does the learning. """
         assert self.__evaluator is not None, "No evaluator has been set. Learning cannot start."
         if additionalLearningSteps is not None:
-            self.maxLearningSteps = self.numLearningSteps + additionalLearningSteps - 1
+            self.maxLearningSteps = self.numLearningSteps + additionalLearningSteps
         while not self._stoppingCriterion():
             try:
                 self._learnStep()
@@ -287,7 +287,7 @@ class BlackBoxOptimizer(DirectSearchLearner):
             if ((self.minimize and self.bestEvaluation <= self.desiredEvaluation)
                 or (not self.minimize and self.bestEvaluation >= self.desiredEvaluation)):
                 return True
-        if self.maxLearningSteps is not None and self.numLearningSteps > self.maxLearningSteps:
+        if self.maxLearningSteps is not None and self.numLearningSteps >= self.maxLearningSteps:
             return True
         return False
     
-- 
2.43.0


From ea8f58e862b2287bc2d8d804a020c8def07cdcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:42 +0000
Subject: [PATCH 084/180] fix: PGPE's global exploration uses the perturbation
 of the step

---
 pybrain/optimization/finitedifference/pgpe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/optimization/finitedifference/pgpe.py b/pybrain/optimization/finitedifference/pgpe.py
index c6da77d..1264cd6 100644
--- a/pybrain/optimization/finitedifference/pgpe.py
+++ b/pybrain/optimization/finitedifference/pgpe.py
@@ -72,7 +72,7 @@ class PGPE(FiniteDifferences):
         if fakt2 > 0.: #for sigma adaption alg. follows only positive gradients
             if self.exploration == "global":         
                 #apply sigma update globally        
-                self.sigList = self.gdSig(fakt2 * ((self.deltas ** 2).sum() - (self.sigList ** 2).sum())
+                self.sigList = self.gdSig(fakt2 * ((deltas ** 2).sum() - (self.sigList ** 2).sum())
                                           / (self.sigList * float(self.numParameters)))
             elif self.exploration == "local":
                 #apply sigma update locally
-- 
2.43.0


From 413062d368f932ce3e9fae0c6b360117a41adef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:42 +0000
Subject: [PATCH 085/180] fix: all coevolution modules can be imported

---
 .../populationbased/coevolution/competitivecoevolution.py       | 2 +-
 .../populationbased/coevolution/multipopulationcoevolution.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/optimization/populationbased/coevolution/competitivecoevolution.py b/pybrain/optimization/populationbased/coevolution/competitivecoevolution.py
index 39c27bd..f9da56b 100644
--- a/pybrain/optimization/populationbased/coevolution/competitivecoevolution.py
+++ b/pybrain/optimization/populationbased/coevolution/competitivecoevolution.py
@@ -2,7 +2,7 @@ from __future__ import print_function
 
 __author__ = 'Tom Schaul, tom@idsia.ch'
 
-from pybrain.optimization.coevolution.coevolution import Coevolution
+from pybrain.optimization.populationbased.coevolution.coevolution import Coevolution
 
 
 class CompetitiveCoevolution(Coevolution):
diff --git a/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py b/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py
index 9d0895a..321a2fb 100644
--- a/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py
+++ b/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py
@@ -2,7 +2,7 @@ __author__ = 'Tom Schaul, tom@idsia.ch'
 
 from random import choice
 
-from pybrain.optimization.coevolution.coevolution import Coevolution
+from pybrain.optimization.populationbased.coevolution.coevolution import Coevolution
 
 
 class MultiPopulationCoevolution(Coevolution):
-- 
2.43.0


From ab51a5695150f03a8d870a04441b2f5fad5ae1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:42 +0000
Subject: [PATCH 086/180] fix: particles are attracted by the best position
 that was evaluated

---
 pybrain/optimization/populationbased/pso.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pybrain/optimization/populationbased/pso.py b/pybrain/optimization/populationbased/pso.py
index 8bf5e09..3139155 100644
--- a/pybrain/optimization/populationbased/pso.py
+++ b/pybrain/optimization/populationbased/pso.py
@@ -84,8 +84,11 @@ class ParticleSwarmOptimizer(ContinuousOptimizer):
         for particle in self.particles:
             particle.fitness = self._oneEvaluation(particle.position.copy())
 
+        # the positions that were evaluated, before any particle moves
+        positions = dict((p, p.position.copy()) for p in self.particles)
+
         for particle in self.particles:
-            bestPosition = self.best(self.neighbours[particle]).position
+            bestPosition = positions[self.best(self.neighbours[particle])]
             diff_social = self.sociality \
                           * scipy.random.random() \
                           * (bestPosition - particle.position)
-- 
2.43.0


From 31c025f84d888cf76b9d255b5188936d5beaaea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:42 +0000
Subject: [PATCH 087/180] fix: coevolution without elitism averages children
 with their parents

---
 pybrain/optimization/populationbased/coevolution/coevolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/optimization/populationbased/coevolution/coevolution.py b/pybrain/optimization/populationbased/coevolution/coevolution.py
index b7f3aa6..bd21b0d 100644
--- a/pybrain/optimization/populationbased/coevolution/coevolution.py
+++ b/pybrain/optimization/populationbased/coevolution/coevolution.py
@@ -169,7 +169,7 @@ class Coevolution(Named):
             newpop = self._extendPopulation(selected, self.populationSize
                                             + self._numSelected()) [self._numSelected():]
             if self.parentChildAverage < 1:
-                self._averageWithParents(newpop[self._numSelected():], self.parentChildAverage)
+                self._averageWithParents(newpop, self.parentChildAverage)
         return newpop
 
     def _beats(self, h, p):
-- 
2.43.0


From 74bdea6387d1104ef198521873301cf8bf550f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:27 +0000
Subject: [PATCH 088/180] fix: memetic searches always restore the mutation
 operators they interchange

---
 .../memetic/innerinversememetic.py            |  6 ++-
 pybrain/optimization/memetic/innermemetic.py  |  6 ++-
 .../optimization/memetic/inversememetic.py    |  6 ++-
 pybrain/optimization/memetic/memetic.py       | 46 ++++++++++---------
 4 files changed, 37 insertions(+), 27 deletions(-)

diff --git a/pybrain/optimization/memetic/innerinversememetic.py b/pybrain/optimization/memetic/innerinversememetic.py
index 61e4c83..725cbde 100644
--- a/pybrain/optimization/memetic/innerinversememetic.py
+++ b/pybrain/optimization/memetic/innerinversememetic.py
@@ -8,5 +8,7 @@ class InnerInverseMemeticSearch(InnerMemeticSearch, InverseMemeticSearch):
 
     def _learnStep(self):
         self.switchMutations()
-        InnerMemeticSearch._learnStep(self)
-        self.switchMutations()
\ No newline at end of file
+        try:
+            InnerMemeticSearch._learnStep(self)
+        finally:
+            self.switchMutations()
\ No newline at end of file
diff --git a/pybrain/optimization/memetic/innermemetic.py b/pybrain/optimization/memetic/innermemetic.py
index 4f98bc7..bbb93cb 100644
--- a/pybrain/optimization/memetic/innermemetic.py
+++ b/pybrain/optimization/memetic/innermemetic.py
@@ -12,8 +12,10 @@ class InnerMemeticSearch(ES, MemeticSearch):
 
     def _learnStep(self):
         self.switchMutations()
-        ES._learnStep(self)
-        self.switchMutations()
+        try:
+            ES._learnStep(self)
+        finally:
+            self.switchMutations()
 
     @property
     def batchSize(self):
diff --git a/pybrain/optimization/memetic/inversememetic.py b/pybrain/optimization/memetic/inversememetic.py
index 053e35d..0253734 100644
--- a/pybrain/optimization/memetic/inversememetic.py
+++ b/pybrain/optimization/memetic/inversememetic.py
@@ -8,5 +8,7 @@ class InverseMemeticSearch(MemeticSearch):
 
     def _learnStep(self):
         self.switchMutations()
-        MemeticSearch._learnStep(self)
-        self.switchMutations()
+        try:
+            MemeticSearch._learnStep(self)
+        finally:
+            self.switchMutations()
diff --git a/pybrain/optimization/memetic/memetic.py b/pybrain/optimization/memetic/memetic.py
index 74ab11e..077d415 100644
--- a/pybrain/optimization/memetic/memetic.py
+++ b/pybrain/optimization/memetic/memetic.py
@@ -26,31 +26,35 @@ class MemeticSearch(HillClimber, TopologyOptimizer):
             return BlackBoxOptimizer._oneEvaluation(self, evaluable)
         else:
             self.switchMutations()
-            if isinstance(evaluable, MaskedParameters):
-                evaluable.returnZeros = False
-                x0 = evaluable.params
-                evaluable.returnZeros = True
-                def f(x):
-                    evaluable._setParameters(x)
-                    return BlackBoxOptimizer._oneEvaluation(self, evaluable)
-            else:
-                f = lambda x: BlackBoxOptimizer._oneEvaluation(self, x)
-                x0 = evaluable
-            outsourced = self.localSearch(f, x0,
-                                          maxEvaluations = self.localSteps,
-                                          desiredEvaluation = self.desiredEvaluation,
-                                          minimize = self.minimize,
-                                          **self.localSearchArgs)
-            assert self.localSteps > outsourced.batchSize, 'localSteps too small ('+str(self.localSteps)+\
-                                                '), because local search has a batch size of '+str(outsourced.batchSize)
-            _, fitness = outsourced.learn()
-            self.switchMutations()
+            try:
+                if isinstance(evaluable, MaskedParameters):
+                    evaluable.returnZeros = False
+                    x0 = evaluable.params
+                    evaluable.returnZeros = True
+                    def f(x):
+                        evaluable._setParameters(x)
+                        return BlackBoxOptimizer._oneEvaluation(self, evaluable)
+                else:
+                    f = lambda x: BlackBoxOptimizer._oneEvaluation(self, x)
+                    x0 = evaluable
+                outsourced = self.localSearch(f, x0,
+                                              maxEvaluations = self.localSteps,
+                                              desiredEvaluation = self.desiredEvaluation,
+                                              minimize = self.minimize,
+                                              **self.localSearchArgs)
+                assert self.localSteps > outsourced.batchSize, 'localSteps too small ('+str(self.localSteps)+\
+                                                    '), because local search has a batch size of '+str(outsourced.batchSize)
+                _, fitness = outsourced.learn()
+            finally:
+                self.switchMutations()
             return fitness
 
     def _learnStep(self):
         self.switchMutations()
-        HillClimber._learnStep(self)
-        self.switchMutations()
+        try:
+            HillClimber._learnStep(self)
+        finally:
+            self.switchMutations()
 
     def _notify(self):
         HillClimber._notify(self)
-- 
2.43.0


From d162214ec12f6d76aac718ac89dfa48a7b3f26e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:31 +0000
Subject: [PATCH 089/180] fix: copies of masked parameters have a parameter
 container of their own

---
 pybrain/structure/evolvables/maskedparameters.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pybrain/structure/evolvables/maskedparameters.py b/pybrain/structure/evolvables/maskedparameters.py
index caf0020..528b844 100644
--- a/pybrain/structure/evolvables/maskedparameters.py
+++ b/pybrain/structure/evolvables/maskedparameters.py
@@ -32,6 +32,12 @@ class MaskedParameters(TopologyEvolvable):
         self.maskableParams = self.pcontainer.params.copy()
         self._applyMask()
 
+    def copy(self):
+        """ copy everything, including the container the mask is applied to. """
+        cp = TopologyEvolvable.copy(self)
+        cp.pcontainer = self.pcontainer.copy()
+        return cp
+
     def _applyMask(self):
         """ apply the mask to the module. """
         self.pcontainer._params[:] = self.mask*self.maskableParams
-- 
2.43.0


From 560d45849e47bfff9795763a1b7cf9d7d28c9720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:31 +0000
Subject: [PATCH 090/180] fix: masked parameters start with the parameters of
 their container

---
 pybrain/structure/evolvables/maskedparameters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/structure/evolvables/maskedparameters.py b/pybrain/structure/evolvables/maskedparameters.py
index 528b844..061fd24 100644
--- a/pybrain/structure/evolvables/maskedparameters.py
+++ b/pybrain/structure/evolvables/maskedparameters.py
@@ -28,8 +28,9 @@ class MaskedParameters(TopologyEvolvable):
         TopologyEvolvable.__init__(self, pcontainer, **args)
         if self.maxComplexity == None:
             self.maxComplexity = self.pcontainer.paramdim
+        initParams = self.pcontainer.params.copy()
         self.randomize()
-        self.maskableParams = self.pcontainer.params.copy()
+        self.maskableParams = initParams
         self._applyMask()
 
     def copy(self):
-- 
2.43.0


From e853125d2dd55b24c1271af624eba4e2c7c68cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:31 +0000
Subject: [PATCH 091/180] fix: topology optimizers mask a copy of the initial
 evaluable

---
 pybrain/optimization/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/optimization/optimizer.py b/pybrain/optimization/optimizer.py
index 9863bdb..8e7c740 100644
--- a/pybrain/optimization/optimizer.py
+++ b/pybrain/optimization/optimizer.py
@@ -337,8 +337,8 @@ class TopologyOptimizer(BlackBoxOptimizer):
         # distinguish modules from parameter containers.
         if not isinstance(evaluable, TopologyEvolvable):
             if isinstance(evaluable, Module):
-                self._initEvaluable = MaskedModule(self._initEvaluable)
+                self._initEvaluable = MaskedModule(self._initEvaluable.copy())
             else:
-                self._initEvaluable = MaskedParameters(self._initEvaluable, returnZeros = True)   
+                self._initEvaluable = MaskedParameters(self._initEvaluable.copy(), returnZeros = True)   
     
      
-- 
2.43.0


From ee89db722ff927e5e88ba90d10ea9044c51ab939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:31 +0000
Subject: [PATCH 092/180] fix: importance mixing of XNES compares points and
 does not need the stored distributions

---
 pybrain/optimization/distributionbased/xnes.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pybrain/optimization/distributionbased/xnes.py b/pybrain/optimization/distributionbased/xnes.py
index 245ebe3..f4189fc 100644
--- a/pybrain/optimization/distributionbased/xnes.py
+++ b/pybrain/optimization/distributionbased/xnes.py
@@ -70,6 +70,8 @@ class XNES(DistributionBasedOptimizer):
 
         self._lastLogDetA = self._logDetA
         self._lastInvA = self._invA
+        self._lastA = self._A.copy()
+        self._lastCenter = self._center.copy()
 
         self._center += self.centerLearningRate * dot(self._A, dCenter)
         self._A = dot(self._A, expm(dA))
@@ -78,10 +80,6 @@ class XNES(DistributionBasedOptimizer):
         if self.storeAllDistributions:
             self._allDistributions.append((self._center.copy(), self._A.copy()))
 
-    @property
-    def _lastA(self): return self._allDistributions[-2][1]
-    @property
-    def _lastCenter(self): return self._allDistributions[-2][0]
     @property
     def _population(self):
         if self._wasUnwrapped:
@@ -125,7 +123,7 @@ class XNES(DistributionBasedOptimizer):
             [self._oneEvaluation(self._sample2base(self._produceSample())) for _ in range(self.batchSize)]
             self._pointers = list(range(len(self._allEvaluated)-self.batchSize, len(self._allEvaluated)))
         else:
-            reuseindices, newpoints = importanceMixing(list(map(self._base2sample, self._currentEvaluations)),
+            reuseindices, newpoints = importanceMixing(list(map(self._base2sample, self._population)),
                                                        self._oldpdf, self._newpdf, self._produceSample, self.forcedRefresh)
             [self._oneEvaluation(self._sample2base(s)) for s in newpoints]
             self._pointers = ([self._pointers[i] for i in reuseindices]+
-- 
2.43.0


From b33b6eedacf3e87d64d109b2787ff178a6a18fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:22 +0000
Subject: [PATCH 093/180] fix: finite differences descend when minimising

---
 pybrain/optimization/finitedifference/fd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pybrain/optimization/finitedifference/fd.py b/pybrain/optimization/finitedifference/fd.py
index ad64f9c..4e160d2 100644
--- a/pybrain/optimization/finitedifference/fd.py
+++ b/pybrain/optimization/finitedifference/fd.py
@@ -20,6 +20,9 @@ class FiniteDifferences(ContinuousOptimizer):
     momentum = 0.0
     rprop = False
 
+    # the gradient is always followed upwards
+    mustMaximize = True
+
     def _setInitEvaluable(self, evaluable):
         ContinuousOptimizer._setInitEvaluable(self, evaluable)
         self.current = self._initEvaluable
-- 
2.43.0


From d43c7c99912adc1e8716c1af86614a8ef59d5d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:22 +0000
Subject: [PATCH 094/180] fix: the GA accepts the scalar bound of function
 environments

---
 pybrain/optimization/populationbased/ga.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pybrain/optimization/populationbased/ga.py b/pybrain/optimization/populationbased/ga.py
index 4cc87bd..5da7789 100644
--- a/pybrain/optimization/populationbased/ga.py
+++ b/pybrain/optimization/populationbased/ga.py
@@ -1,6 +1,6 @@
 __author__ = 'Tom Schaul, tom@idsia.ch'
 
-from scipy import randn, zeros
+from scipy import randn, zeros, isscalar
 from scipy import random as rd, array
 from random import choice, random, gauss, shuffle, sample
 from numpy import ndarray
@@ -34,6 +34,9 @@ class GA(ContinuousOptimizer, Evolution):
 
     '''added by JPQ'''
     def initBoundaries(self):
+        if isscalar(self.xBound):
+            # the same symmetric bound in all dimensions
+            self.xBound = [(-self.xBound, self.xBound)] * self.numParameters
         assert len(self.xBound) == self.numParameters
         self.mins = array([min_ for min_, max_ in self.xBound])
         self.maxs = array([max_ for min_, max_ in self.xBound])
-- 
2.43.0


From 55dfd9c0555939f42fe2266c719960a0797b7699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:40 +0000
Subject: [PATCH 095/180] fix: the batch of a noisy comma-ES includes the
 re-evaluated parents

---
 pybrain/optimization/populationbased/es.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/optimization/populationbased/es.py b/pybrain/optimization/populationbased/es.py
index 473dbd6..ba0e320 100644
--- a/pybrain/optimization/populationbased/es.py
+++ b/pybrain/optimization/populationbased/es.py
@@ -70,7 +70,7 @@ class ES(BlackBoxOptimizer):
     @property
     def batchSize(self):
         if self.evaluatorIsNoisy:
-            return self._popsize
+            return self.mu + self.lambada
         else:
             return self.lambada
 
-- 
2.43.0


From e671ea7cedc68aed31cf9c619c438266306ceab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:54 +0000
Subject: [PATCH 096/180] fix: permuteToBlocks indexes with integers

---
 pybrain/utilities.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index 161dfb0..0b2cfe5 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -542,12 +542,12 @@ def permuteToBlocks2d(arr, blockheight, blockwidth):
     arr = arr.flatten()
     new = zeros(size(arr))
     for i in range(size(arr)):
-        blockx = (i % width) / blockwidth
-        blocky = i / width / blockheight
-        blockoffset = blocky * width / blockwidth + blockx
+        blockx = (i % width) // blockwidth
+        blocky = i // width // blockheight
+        blockoffset = blocky * width // blockwidth + blockx
         blockoffset *= blockwidth * blockheight
         inblockx = i % blockwidth
-        inblocky = (i / width) % blockheight
+        inblocky = (i // width) % blockheight
         j = blockoffset + inblocky * blockwidth + inblockx
         new[j] = arr[i]
     return new
-- 
2.43.0


From 6bbd5747ee6468a769cd23d7bcc19a856a36dd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:54 +0000
Subject: [PATCH 097/180] fix: blockCombine allocates rows by columns

---
 pybrain/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index 0b2cfe5..08c0e5e 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -596,7 +596,7 @@ def blockCombine(l):
     hs = sum(hdims)
     vdims = [row[0].shape[0] for row in l]
     vs = sum(vdims)
-    res = zeros((hs, vs))
+    res = zeros((vs, hs))
     vindex = 0
     for i, row in enumerate(l):
         hindex = 0
-- 
2.43.0


From 3bd29da76f54323ccb38dd767740376c1fdb0902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:54 +0000
Subject: [PATCH 098/180] fix: reachable leaves the caller's start positions
 alone and handles several of them

---
 pybrain/utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index 08c0e5e..4294a27 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -426,11 +426,12 @@ def reachable(stepFunction, start, destinations, _alreadyseen=None):
     for s in start:
         if s in destinations:
             res[s] = 0
-            start.remove(s)
 
     # do one step
     new = set()
     for s in start:
+        if s in res:
+            continue
         new.update(stepFunction(s))
     new.difference_update(_alreadyseen)
     ndestinations = list(destinations)
-- 
2.43.0


From e5c4b087a4db4434b414a641da8f7112b923ddc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:54 +0000
Subject: [PATCH 099/180] fix: drawIndex leaves the caller's probabilities
 alone and never draws an impossible index

---
 pybrain/utilities.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index 4294a27..7ab39b9 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -38,7 +38,7 @@ def drawIndex(probs, tolerant=False):
     :key tolerant: if set to True, the array is normalized to sum to 1.  """
     if not sum(probs) < 1.00001 or not sum(probs) > 0.99999:
         if tolerant:
-            probs /= sum(probs)
+            probs = array(probs) / float(sum(probs))
         else:
             print((probs, 1 - sum(probs)))
             raise ValueError()
@@ -48,7 +48,8 @@ def drawIndex(probs, tolerant=False):
         s += p
         if s > r:
             return i
-    return choice(list(range(len(probs))))
+    # only rounding leads here
+    return choice([i for i, p in enumerate(probs) if p > 0])
 
 
 def drawGibbs(vals, temperature=1.):
-- 
2.43.0


From 9372287f83f06eb50e63203ccb6e14c08a8f18d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:54 +0000
Subject: [PATCH 100/180] fix: linscale scales to the interval

---
 pybrain/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index 7ab39b9..5ac5446 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -109,7 +109,7 @@ def setAllArgs(obj, argdict):
 
 def linscale(d, lim):
     """ utility function to linearly scale array d to the interval defined by lim """
-    return (d - d.min())*(lim[1] - lim[0]) + lim[0]
+    return (d - d.min())*(lim[1] - lim[0])/float(d.max() - d.min()) + lim[0]
 
 
 def percentError(out, true):
-- 
2.43.0


From 88998e723a6cf4522f659d309f2b8fb63c1e94ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:54 +0000
Subject: [PATCH 101/180] fix: binArr2int handles arrays whose length is not a
 multiple of 8

---
 pybrain/utilities.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index 5ac5446..2eb4a1e 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -740,8 +740,9 @@ def xhash(arr):
 def binArr2int(arr):
     """ Convert a binary array into its (long) integer representation. """
     from numpy import packbits
-    tmp2 = packbits(arr.astype(int))
-    return sum(val * 256 ** i for i, val in enumerate(tmp2[::-1])) 
+    # packbits fills up the last byte from the right, but zeros belong on the left
+    tmp2 = packbits(array([0] * (-len(arr) % 8) + list(arr.astype(int))))
+    return sum(int(val) * 256 ** i for i, val in enumerate(tmp2[::-1]))
         
 def uniqueArrays(vs):
     """ create a set of arrays """
-- 
2.43.0


From 094582f87f82585f5993e2e15d9dce2ccf7d0c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:54 +0000
Subject: [PATCH 102/180] fix: the Fisher information accepts a given inverse
 and factor

---
 pybrain/tools/fisher.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pybrain/tools/fisher.py b/pybrain/tools/fisher.py
index 1169ad3..6178e5e 100644
--- a/pybrain/tools/fisher.py
+++ b/pybrain/tools/fisher.py
@@ -10,9 +10,9 @@ def calcFisherInformation(sigma, invSigma=None, factorSigma=None):
     """ Compute the exact Fisher Information Matrix of a Gaussian distribution,
     given its covariance matrix.
     Returns a list of the diagonal blocks. """
-    if invSigma == None:
+    if invSigma is None:
         invSigma = inv(sigma)
-    if factorSigma == None:
+    if factorSigma is None:
         factorSigma = cholesky(sigma)
     dim = sigma.shape[0]
     fim = [invSigma]
@@ -27,9 +27,9 @@ def calcFisherInformation(sigma, invSigma=None, factorSigma=None):
 def calcInvFisher(sigma, invSigma=None, factorSigma=None):
     """ Efficiently compute the exact inverse of the FIM of a Gaussian.
     Returns a list of the diagonal blocks. """
-    if invSigma == None:
+    if invSigma is None:
         invSigma = inv(sigma)
-    if factorSigma == None:
+    if factorSigma is None:
         factorSigma = cholesky(sigma)
     dim = sigma.shape[0]
 
-- 
2.43.0


From 7bccada9b0cc737820f34550cb4e8d764c8b5780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:54 +0000
Subject: [PATCH 103/180] fix: ranking works without cmp

---
 pybrain/tools/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/tools/functions.py b/pybrain/tools/functions.py
index 9c0d847..2ab13bd 100644
--- a/pybrain/tools/functions.py
+++ b/pybrain/tools/functions.py
@@ -70,8 +70,8 @@ def tanhPrime(x):
 
 def ranking(R):
     """ Produces a linear ranking of the values in R. """
-    l = sorted(list(enumerate(R)), cmp=lambda a, b: cmp(a[1], b[1]))
-    l = sorted(list(enumerate(l)), cmp=lambda a, b: cmp(a[1], b[1]))
+    l = sorted(list(enumerate(R)), key=lambda a: a[1])
+    l = sorted(list(enumerate(l)), key=lambda a: a[1][0])
     return array([kv[0] for kv in l])
 
 
-- 
2.43.0


From f6a0086207407cf1fc0ebab5d1b008c7b915d2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:54 +0000
Subject: [PATCH 104/180] fix: tournament selection counts the winners, not
 their places in the tournament

---
 pybrain/tools/rankingfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/tools/rankingfunctions.py b/pybrain/tools/rankingfunctions.py
index ea9a923..185f348 100644
--- a/pybrain/tools/rankingfunctions.py
+++ b/pybrain/tools/rankingfunctions.py
@@ -58,7 +58,7 @@ class TournamentSelection(RankingFunction):
                     randindex = randint(0, len(R) - 1)
                 l.append(randindex)
             fits = [R[x] for x in l]
-            res[argmax(fits)] += 1
+            res[l[argmax(fits)]] += 1
         return res
 
 
-- 
2.43.0


From a5402221797e0089b6ba86077525f3c8c19129c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:54 +0000
Subject: [PATCH 105/180] fix: the linear ranking of a single selected fitness
 is defined

---
 pybrain/tools/rankingfunctions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pybrain/tools/rankingfunctions.py b/pybrain/tools/rankingfunctions.py
index 185f348..3c2330a 100644
--- a/pybrain/tools/rankingfunctions.py
+++ b/pybrain/tools/rankingfunctions.py
@@ -132,6 +132,9 @@ class TopLinearRanking(TopSelection):
                 res[i] = ranks[i] - cutoff
             else:
                 res[i] = 0.0
+        if max(res) == 0:
+            # only the best one was selected
+            return array(ranks == max(ranks), float)
         res /= max(res)
         return res
 
-- 
2.43.0


From 7c26ff5723735bbc005e56b5a611b3826ea6afb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:54 +0000
Subject: [PATCH 106/180] fix: grid search counts its steps with integers

---
 pybrain/tools/gridsearch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/tools/gridsearch.py b/pybrain/tools/gridsearch.py
index 7faa298..6116f4e 100644
--- a/pybrain/tools/gridsearch.py
+++ b/pybrain/tools/gridsearch.py
@@ -99,7 +99,7 @@ class GridSearch2D:
         for i in range(ndim):
             linspaces.append(
                 self._permuteSequence(
-                    list(linspace(self._min_params[i], self._max_params[i], self._n_steps[i]))))
+                    list(linspace(self._min_params[i], self._max_params[i], int(self._n_steps[i])))))
 #        print(linspaces; exit(0))
 #        linspaces = array(linspaces,float)
         nr_c = len(linspaces[0])
-- 
2.43.0


From 7d0b788d1dbdccd7eab227907a86ed5c005ab79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:55 +0000
Subject: [PATCH 107/180] fix: no individuals are the worst 0 of a population

---
 pybrain/supervised/evolino/gpopulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pybrain/supervised/evolino/gpopulation.py b/pybrain/supervised/evolino/gpopulation.py
index 0b689bd..3cdb12c 100644
--- a/pybrain/supervised/evolino/gpopulation.py
+++ b/pybrain/supervised/evolino/gpopulation.py
@@ -125,6 +125,8 @@ class SimplePopulation(Population):
             If n is greater than the number of individuals inside the population
             all individuals are returned.
         """
+        if n == 0:
+            return set()
         return set(self.getSortedIndividualList()[-n:])
 
     def removeWorstIndividuals(self, n):
-- 
2.43.0


From 20a858a58de6696841f001bbba2e1e7f0243deb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:55 +0000
Subject: [PATCH 108/180] fix: getMaxFitness looks up a single individual

---
 pybrain/supervised/evolino/gpopulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/supervised/evolino/gpopulation.py b/pybrain/supervised/evolino/gpopulation.py
index 3cdb12c..9e125ce 100644
--- a/pybrain/supervised/evolino/gpopulation.py
+++ b/pybrain/supervised/evolino/gpopulation.py
@@ -105,7 +105,7 @@ class SimplePopulation(Population):
 
     def getMaxFitness(self):
         """ Returns the maximal fitness value """
-        return self.getIndividualFitness(self.getBestIndividuals(1))
+        return self.getIndividualFitness(self.getBestIndividualsSorted(1)[0])
 
 
 
-- 
2.43.0


From 29e7dbb04ee3d18e1998be609cb711ca8e375281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:55 +0000
Subject: [PATCH 109/180] fix: evolino selection keeps at least one parent

---
 pybrain/supervised/evolino/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/supervised/evolino/filter.py b/pybrain/supervised/evolino/filter.py
index 127f447..6c8d9c6 100644
--- a/pybrain/supervised/evolino/filter.py
+++ b/pybrain/supervised/evolino/filter.py
@@ -224,7 +224,7 @@ class EvolinoSubSelection(Filter):
 
         n = population.getIndividualsN()
         if self.nParents is None:
-            nKeep = n // 4
+            nKeep = max(1, n // 4)
         else:
             nKeep = self.nParents
 
-- 
2.43.0


From c636a288d230c88911f081e2739f1da32cbe94bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:04 +0000
Subject: [PATCH 110/180] fix: dictCombinations accepts keys that are not
 strings

---
 pybrain/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index 2eb4a1e..f4c58b4 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -678,9 +678,9 @@ def dictCombinations(listdict):
     k, vs = listdict.popitem()
     res = dictCombinations(listdict)
     if isinstance(vs, list) or isinstance(vs, tuple):
-        res = [dict(d, **{k:v}) for d in res for v in sorted(set(vs))]
+        res = [dict(list(d.items()) + [(k, v)]) for d in res for v in sorted(set(vs))]
     else:
-        res = [dict(d, **{k:vs}) for d in res]
+        res = [dict(list(d.items()) + [(k, vs)]) for d in res]
     return res
 
 
-- 
2.43.0


From b95f1893b0d411cc4ac9b0d9835192456fda15f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:04 +0000
Subject: [PATCH 111/180] fix: flood accepts an empty collection of relevant
 elements

---
 pybrain/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index f4c58b4..9680423 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -466,7 +466,7 @@ def flood(stepFunction, fullSet, initSet, relevant=None):
         flooded = full.intersection(set(initSet))
         if relevant is None:
             relevant = full.copy()
-    if relevant:
+    if relevant is not None:
         relevant = set(relevant)
 
     change = flooded.copy()
-- 
2.43.0


From df90cda034d70ece857fd166a8d5b110d8531822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:54 +0000
Subject: [PATCH 112/180] fix: dictCombinations accepts values of several types

---
 pybrain/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index 9680423..9704ac6 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -678,7 +678,7 @@ def dictCombinations(listdict):
     k, vs = listdict.popitem()
     res = dictCombinations(listdict)
     if isinstance(vs, list) or isinstance(vs, tuple):
-        res = [dict(list(d.items()) + [(k, v)]) for d in res for v in sorted(set(vs))]
+        res = [dict(list(d.items()) + [(k, v)]) for d in res for v in sorted(set(vs), key=lambda v: (type(v).__name__, v))]
     else:
         res = [dict(list(d.items()) + [(k, vs)]) for d in res]
     return res
-- 
2.43.0


From e663b34a5dd437b83a4db5b00be8bc21965d2f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:08 +0000
Subject: [PATCH 113/180] fix: coevolution with elitism keeps its elite when
 averaging children with parents

---
 .../optimization/populationbased/coevolution/coevolution.py   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pybrain/optimization/populationbased/coevolution/coevolution.py b/pybrain/optimization/populationbased/coevolution/coevolution.py
index bd21b0d..3fbdd60 100644
--- a/pybrain/optimization/populationbased/coevolution/coevolution.py
+++ b/pybrain/optimization/populationbased/coevolution/coevolution.py
@@ -164,7 +164,9 @@ class Coevolution(Named):
         if self.elitism:
             newpop = self._extendPopulation(selected, self.populationSize)
             if self.parentChildAverage < 1:
-                self._averageWithParents(newpop, self.parentChildAverage)
+                children = newpop[self._numSelected():]
+                self._averageWithParents(children, self.parentChildAverage)
+                newpop[self._numSelected():] = children
         else:
             newpop = self._extendPopulation(selected, self.populationSize
                                             + self._numSelected()) [self._numSelected():]
-- 
2.43.0


From b826eee80ed44d1a2e2914eae6f148d4537ac4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:08 +0000
Subject: [PATCH 114/180] fix: multi-population coevolution counts the
 evaluations of a generation

---
 .../coevolution/multipopulationcoevolution.py             | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py b/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py
index 321a2fb..19926fb 100644
--- a/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py
+++ b/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py
@@ -17,6 +17,7 @@ class MultiPopulationCoevolution(Coevolution):
         """ one part of the seeds for each population, if there's not enough: randomize. """
         for s in seeds:
             s.parent = None
+        seeds = seeds[:]
         while len(seeds) < self.numPops:
             tmp = choice(seeds).copy()
             tmp.randomize()
@@ -61,7 +62,6 @@ class MultiPopulationCoevolution(Coevolution):
         self.pop = self.pops[self.mainpop]
 
     def _stepsPerGeneration(self):
-        if self.tournamentSize == None:
-            return 2 * self.populationSize** 2
-        else:
-            return Coevolution._stepsPerGeneration(self)
+        # everybody meets some of the best part of each other population
+        opponents = min(self.tournamentSize, max(1, self.populationSize // 2))
+        return self.populationSize * opponents * (self.numPops - 1) * 2
-- 
2.43.0


From 795b5ddcaf04de99865b4f43340a2d012c43ed13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:46 +0000
Subject: [PATCH 115/180] fix: competitive coevolution shares samples relative
 to the hosts the opponents have met

---
 .../populationbased/coevolution/competitivecoevolution.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/optimization/populationbased/coevolution/competitivecoevolution.py b/pybrain/optimization/populationbased/coevolution/competitivecoevolution.py
index f9da56b..3006108 100644
--- a/pybrain/optimization/populationbased/coevolution/competitivecoevolution.py
+++ b/pybrain/optimization/populationbased/coevolution/competitivecoevolution.py
@@ -67,7 +67,7 @@ class CompetitiveCoevolution(Coevolution):
         hoFtournSize = min(self.generation, int(self.tournamentSize * self.hallOfFameEvaluation))
         tournSize = self.tournamentSize - hoFtournSize
         if self.useSharedSampling and self.generation > 2:
-            opponents = self._sharedSampling(tournSize, self.parasitePop, self.oldPops[-2])
+            opponents = self._sharedSampling(tournSize, self.parasitePop, self.oldPops[-1])
         else:
             opponents = self.parasitePop
         if len(opponents) < tournSize:
-- 
2.43.0


From 667ebbc5c41f6441360e7069055551f700b1d7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:09 +0000
Subject: [PATCH 116/180] fix: policy gradient learners index episodes with
 integers

---
 pybrain/rl/learners/directsearch/enac.py      | 2 +-
 pybrain/rl/learners/directsearch/reinforce.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/learners/directsearch/enac.py b/pybrain/rl/learners/directsearch/enac.py
index 397bd9b..7ae1618 100644
--- a/pybrain/rl/learners/directsearch/enac.py
+++ b/pybrain/rl/learners/directsearch/enac.py
@@ -24,7 +24,7 @@ class ENAC(PolicyGradientLearner):
         print((self.dataset.getNumSequences()))
         for n in range(self.dataset.getNumSequences()):
             _state, _action, reward = self.dataset.getSequence(n)
-            seqidx = ravel(self.dataset['sequence_index'])
+            seqidx = ravel(self.dataset['sequence_index']).astype(int)
             if n == self.dataset.getNumSequences() - 1:
                 # last sequence until end of dataset
                 loglh = self.loglh['loglh'][seqidx[n]:, :]
diff --git a/pybrain/rl/learners/directsearch/reinforce.py b/pybrain/rl/learners/directsearch/reinforce.py
index 5f4217f..a0020a6 100644
--- a/pybrain/rl/learners/directsearch/reinforce.py
+++ b/pybrain/rl/learners/directsearch/reinforce.py
@@ -17,7 +17,7 @@ class Reinforce(PolicyGradientLearner):
 
         # initialize variables
         returns = self.dataset.getSumOverSequences('reward')
-        seqidx = ravel(self.dataset['sequence_index'])
+        seqidx = ravel(self.dataset['sequence_index']).astype(int)
 
         # sum of sequences up to n-1
         loglhs = [sum(self.loglh['loglh'][seqidx[n]:seqidx[n + 1], :]) for n in range(self.dataset.getNumSequences() - 1)]
-- 
2.43.0


From 7c811bd964431887d16829a189e7fdc4967cde25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:11 +0000
Subject: [PATCH 117/180] fix: policy gradient learners store the log
 likelihood of each action alone and REINFORCE ascends it

---
 pybrain/rl/learners/directsearch/policygradient.py | 3 ++-
 pybrain/rl/learners/directsearch/reinforce.py      | 3 +--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pybrain/rl/learners/directsearch/policygradient.py b/pybrain/rl/learners/directsearch/policygradient.py
index 5699179..07ce253 100644
--- a/pybrain/rl/learners/directsearch/policygradient.py
+++ b/pybrain/rl/learners/directsearch/policygradient.py
@@ -121,7 +121,8 @@ class PolicyGradientLearner(DirectSearchLearner, DataSetLearner, ExploringLearne
         # forward pass of exploration
         explorative = ExploringLearner.explore(self, state, action)
 
-        # backward pass through network and store derivs
+        # backward pass through network and store derivs of this action only
+        self.network.resetDerivatives()
         self.network.backward()
         self.loglh.appendLinked(self.network.derivs.copy())
 
diff --git a/pybrain/rl/learners/directsearch/reinforce.py b/pybrain/rl/learners/directsearch/reinforce.py
index a0020a6..7eb7f12 100644
--- a/pybrain/rl/learners/directsearch/reinforce.py
+++ b/pybrain/rl/learners/directsearch/reinforce.py
@@ -26,8 +26,7 @@ class Reinforce(PolicyGradientLearner):
         loglhs = array(loglhs)
 
         baselines = mean(loglhs ** 2 * returns, 0) / mean(loglhs ** 2, 0)
-        # TODO: why gradient negative?
-        gradient = -mean(loglhs * (returns - baselines), 0)
+        gradient = mean(loglhs * (returns - baselines), 0)
 
         return gradient
 
-- 
2.43.0


From 519151094019de066f949b9be2f5cf0d2b8154ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:11 +0000
Subject: [PATCH 118/180] fix: policy gradient learners start from the current
 parameters and limit gradients of either sign

---
 pybrain/rl/learners/directsearch/policygradient.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pybrain/rl/learners/directsearch/policygradient.py b/pybrain/rl/learners/directsearch/policygradient.py
index 07ce253..e37deda 100644
--- a/pybrain/rl/learners/directsearch/policygradient.py
+++ b/pybrain/rl/learners/directsearch/policygradient.py
@@ -109,10 +109,13 @@ class PolicyGradientLearner(DirectSearchLearner, DataSetLearner, ExploringLearne
         gradient = self.calculateGradient()
 
         # scale gradient if it has too large values
-        if max(gradient) > 1000:
-            gradient = gradient / max(gradient) * 1000
+        largest = max(abs(gradient))
+        if largest > 1000:
+            gradient = gradient / largest * 1000
 
-        # update the parameters of the module
+        # update the parameters of the module, which may have been changed
+        # since the last step
+        self.gd.values = self.network.params.copy()
         p = self.gd(gradient.flatten())
         self.network._setParameters(p)
         self.network.reset()
-- 
2.43.0


From 18cac33b646be48ff22e0742aff0708426a0cf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:11 +0000
Subject: [PATCH 119/180] fix: REINFORCE keeps parameters that the actions did
 not depend on

---
 pybrain/rl/learners/directsearch/reinforce.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pybrain/rl/learners/directsearch/reinforce.py b/pybrain/rl/learners/directsearch/reinforce.py
index 7eb7f12..6085b29 100644
--- a/pybrain/rl/learners/directsearch/reinforce.py
+++ b/pybrain/rl/learners/directsearch/reinforce.py
@@ -25,7 +25,10 @@ class Reinforce(PolicyGradientLearner):
         loglhs.append(sum(self.loglh['loglh'][seqidx[-1]:, :]))
         loglhs = array(loglhs)
 
-        baselines = mean(loglhs ** 2 * returns, 0) / mean(loglhs ** 2, 0)
+        weights = mean(loglhs ** 2, 0)
+        # a parameter without any influence needs no baseline
+        weights[weights == 0] = 1.
+        baselines = mean(loglhs ** 2 * returns, 0) / weights
         gradient = mean(loglhs * (returns - baselines), 0)
 
         return gradient
-- 
2.43.0


From a2eec0afcfcfa419f8a0556720dafbd6a72c953e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:11 +0000
Subject: [PATCH 120/180] fix: ENAC does not print the number of episodes

---
 pybrain/rl/learners/directsearch/enac.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pybrain/rl/learners/directsearch/enac.py b/pybrain/rl/learners/directsearch/enac.py
index 7ae1618..72b7743 100644
--- a/pybrain/rl/learners/directsearch/enac.py
+++ b/pybrain/rl/learners/directsearch/enac.py
@@ -1,5 +1,3 @@
-from __future__ import print_function
-
 __author__ = 'Thomas Rueckstiess, ruecksti@in.tum.de'
 
 from pybrain.rl.learners.directsearch.policygradient import PolicyGradientLearner
@@ -21,7 +19,6 @@ class ENAC(PolicyGradientLearner):
         X = ones((self.dataset.getNumSequences(), self.loglh.getDimension('loglh') + 1), float)
 
         # collect sufficient statistics
-        print((self.dataset.getNumSequences()))
         for n in range(self.dataset.getNumSequences()):
             _state, _action, reward = self.dataset.getSequence(n)
             seqidx = ravel(self.dataset['sequence_index']).astype(int)
-- 
2.43.0


From 06ad40cc7f9526c6be96961ae884c1877cf564ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:11 +0000
Subject: [PATCH 121/180] fix: StateDependentExplorer works for states of any
 dimension and accumulates its derivatives

---
 pybrain/rl/explorers/continuous/sde.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/pybrain/rl/explorers/continuous/sde.py b/pybrain/rl/explorers/continuous/sde.py
index e45373d..0468d78 100644
--- a/pybrain/rl/explorers/continuous/sde.py
+++ b/pybrain/rl/explorers/continuous/sde.py
@@ -61,20 +61,18 @@ class StateDependentExplorer(Explorer, ParameterContainer):
         outbuf[:] = inbuf + dot(self.state, self.explmatrix)
 
     def _backwardImplementation(self, outerr, inerr, outbuf, inbuf):
-        expln_params = expln(self.params
-                        ).reshape(len(outbuf), len(self.state))
-        explnPrime_params = explnPrime(self.params
-                        ).reshape(len(outbuf), len(self.state))
+        # all rows of the exploration matrix share the parameter of their action
+        expln_params = expln(self.params)
+        explnPrime_params = explnPrime(self.params)
 
-        idx = 0
+        state2 = dot(self.state, self.state)
         for j in range(len(outbuf)):
-            sigma_subst2 = dot(self.state ** 2, expln_params[j, :]**2)
-            for i in range(len(self.state)):
-                self._derivs[idx] = ((outbuf[j] - inbuf[j]) ** 2 - sigma_subst2) / sigma_subst2 * \
-                    self.state[i] ** 2 * expln_params[j, i] * explnPrime_params[j, i]
-                # if self.autoalpha and sigma_subst2 != 0:
-                # self._derivs[idx] /= sigma_subst2
-                idx += 1
+            sigma_subst2 = state2 * expln_params[j] ** 2
+            if sigma_subst2 != 0:
+                self._derivs[j] += ((outbuf[j] - inbuf[j]) ** 2 - sigma_subst2) / sigma_subst2 * \
+                    state2 * expln_params[j] * explnPrime_params[j]
+                # if self.autoalpha:
+                # self._derivs[j] /= sigma_subst2
             inerr[j] = (outbuf[j] - inbuf[j])
             # if not self.autoalpha and sigma_subst2 != 0:
             #     inerr[j] /= sigma_subst2
-- 
2.43.0


From 7a7ce41098272a78bdd0e60de71a64a6b69beb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:59 +0000
Subject: [PATCH 122/180] fix: RWR accepts its documented parameters

---
 pybrain/rl/learners/directsearch/rwr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/learners/directsearch/rwr.py b/pybrain/rl/learners/directsearch/rwr.py
index 6a712a9..ffea751 100644
--- a/pybrain/rl/learners/directsearch/rwr.py
+++ b/pybrain/rl/learners/directsearch/rwr.py
@@ -6,7 +6,7 @@ from scipy import zeros, array, mean, randn, exp, dot, argmax
 
 from pybrain.datasets import ReinforcementDataSet, ImportanceDataSet, SequentialDataSet
 from pybrain.supervised import BackpropTrainer
-from pybrain.utilities import drawIndex
+from pybrain.utilities import drawIndex, Named
 from pybrain.rl.learners.directsearch.directsearch import DirectSearchLearner
 
 
@@ -14,7 +14,7 @@ from pybrain.rl.learners.directsearch.directsearch import DirectSearchLearner
 # TODO: supervised: train-set, test-set, early stopping -> actual convergence!
 
 
-class RWR(DirectSearchLearner):
+class RWR(DirectSearchLearner, Named):
     """ Reward-weighted regression.
 
     The algorithm is currently limited to discrete-action episodic tasks, subclasses of POMDPTasks.
-- 
2.43.0


From 1133f9e61fc2ae947f8de201a700fa5e2806d860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:14 +0000
Subject: [PATCH 123/180] fix: RWR forgets the momentum of its trainers between
 batches

---
 pybrain/rl/learners/directsearch/rwr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/learners/directsearch/rwr.py b/pybrain/rl/learners/directsearch/rwr.py
index ffea751..d43b639 100644
--- a/pybrain/rl/learners/directsearch/rwr.py
+++ b/pybrain/rl/learners/directsearch/rwr.py
@@ -88,9 +88,9 @@ class RWR(DirectSearchLearner, Named):
         self.weightedDs.clear()
         self.valueDs.clear()
         self.rawDs.clear()
-        self.bp.momentumvector *= 0.0
+        self.bp.descent.momentumvector *= 0.0
         if self.vnet != None:
-            self.vbp.momentumvector *= 0.0
+            self.vbp.descent.momentumvector *= 0.0
             if self.resetAllWeights:
                 self.vnet.params[:] = randn(len(self.vnet.params)) * self.netweights
 
-- 
2.43.0


From 15cd83b25537113219bafb1d3300944e6ce7ef08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:28 +0000
Subject: [PATCH 124/180] fix: TranslateFunction takes array offsets and leaves
 the base function's optimum alone

---
 pybrain/rl/environments/functions/transformations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/environments/functions/transformations.py b/pybrain/rl/environments/functions/transformations.py
index d34f00f..dd8d2bc 100644
--- a/pybrain/rl/environments/functions/transformations.py
+++ b/pybrain/rl/environments/functions/transformations.py
@@ -39,12 +39,12 @@ class TranslateFunction(FunctionEnvironment):
     def __init__(self, basef, distance=0.1, offset=None):
         """ by default the offset is random, with a distance of 0.1 to the old one """
         FunctionEnvironment.__init__(self, basef.xdim, basef.xopt)
-        if offset == None:
+        if offset is None:
             self._offset = rand(basef.xdim)
             self._offset *= distance / norm(self._offset)
         else:
             self._offset = offset
-        self.xopt += self._offset
+        self.xopt = self.xopt + self._offset
         self.desiredValue = basef.desiredValue            
         self.toBeMinimized = basef.toBeMinimized
         def tf(x):
-- 
2.43.0


From a608ffe894763e49dd3c6a1384e3da34ccc760b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:28 +0000
Subject: [PATCH 125/180] fix: RotateFunction takes matrices and moves the
 optimum with them

---
 pybrain/rl/environments/functions/transformations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/environments/functions/transformations.py b/pybrain/rl/environments/functions/transformations.py
index dd8d2bc..4a735d2 100644
--- a/pybrain/rl/environments/functions/transformations.py
+++ b/pybrain/rl/environments/functions/transformations.py
@@ -61,14 +61,14 @@ class RotateFunction(FunctionEnvironment):
     def __init__(self, basef, rotMat=None):
         """ by default the rotation matrix is random. """
         FunctionEnvironment.__init__(self, basef.xdim, basef.xopt)
-        if rotMat == None:
+        if rotMat is None:
             # make a random orthogonal rotation matrix
             self._M = orth(rand(basef.xdim, basef.xdim))
         else:
             self._M = rotMat
         self.desiredValue = basef.desiredValue            
         self.toBeMinimized = basef.toBeMinimized   
-        self.xopt = dot(inv(self._M), self.xopt)
+        self.xopt = dot(self.xopt, inv(self._M))
         def rf(x):
             if isinstance(x, ParameterContainer):
                 x = x.params
-- 
2.43.0


From aeff2c6c8991294142c2511ebf21e739aec5d0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:28 +0000
Subject: [PATCH 126/180] fix: RosenbrockFunction takes an array as optimum and
 is initialised like the other functions

---
 pybrain/rl/environments/functions/unimodal.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pybrain/rl/environments/functions/unimodal.py b/pybrain/rl/environments/functions/unimodal.py
index b842619..d2c6dc2 100644
--- a/pybrain/rl/environments/functions/unimodal.py
+++ b/pybrain/rl/environments/functions/unimodal.py
@@ -106,13 +106,9 @@ class RosenbrockFunction(FunctionEnvironment):
     """ Banana-shaped function with a tricky optimum in the valley at 1,1.
     (has another, local optimum in higher dimensions)."""
     def __init__(self, xdim = 2, xopt = None):
-        assert xdim >= self.xdimMin and not (self.xdimMax != None and xdim > self.xdimMax)
-        self.xdim = xdim
-        if xopt == None:
-            self.xopt = ones(self.xdim)
-        else:
-            self.xopt = xopt
-        self.reset()
+        if xopt is None:
+            xopt = ones(xdim)
+        FunctionEnvironment.__init__(self, xdim, xopt)
 
     def f(self, x):
         return sum(100*(x[:-1]**2-x[1:])**2 + (x[:-1]-1)**2)
-- 
2.43.0


From 42ec80a2f5801bb9741b4f62a8fcf8ca348cb797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:28 +0000
Subject: [PATCH 127/180] fix: BoundedLinear and BucheRastriginFunction do not
 modify the evaluated point

---
 pybrain/rl/environments/functions/multimodal.py | 4 ++--
 pybrain/rl/environments/functions/unimodal.py   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pybrain/rl/environments/functions/multimodal.py b/pybrain/rl/environments/functions/multimodal.py
index f8d746e..75f9ee6 100644
--- a/pybrain/rl/environments/functions/multimodal.py
+++ b/pybrain/rl/environments/functions/multimodal.py
@@ -4,7 +4,7 @@ from __future__ import print_function
 
 __author__ = 'Tom Schaul, tom@idsia.ch'
 
-from scipy import power, exp, cos, sqrt, rand, sin, floor, dot, ones, sign, randn, prod
+from scipy import array, power, exp, cos, sqrt, rand, sin, floor, dot, ones, sign, randn, prod
 from scipy.linalg import orth
 from math import pi
 from random import shuffle
@@ -86,7 +86,7 @@ class BucheRastriginFunction(MultiModalFunction):
     """ Deceptive and highly multi-modal."""
     
     def f(self, x):
-        z = x[:]
+        z = array(x, dtype=float)
         for i in range(self.xdim):
             e = i/(self.xdim-1.)/2.
             if x[i] <= 0 or i%2==0:
diff --git a/pybrain/rl/environments/functions/unimodal.py b/pybrain/rl/environments/functions/unimodal.py
index d2c6dc2..84246d6 100644
--- a/pybrain/rl/environments/functions/unimodal.py
+++ b/pybrain/rl/environments/functions/unimodal.py
@@ -136,7 +136,7 @@ class BoundedLinear(FunctionEnvironment):
         self._signs = sign(randn(self.xdim))       
     
     def f(self, x):
-        x_ = x[:]
+        x_ = x.copy()
         for i, xi in enumerate(x):
             if xi*self._signs[i] > 5:
                 x_[i] = self._signs[i]*5
-- 
2.43.0


From 1ec038fd636749b919d494c531272aea29c2fa6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:28 +0000
Subject: [PATCH 128/180] fix: functions that scale by dimension need two of
 them, or do not divide by zero

---
 pybrain/rl/environments/functions/transformations.py | 4 ++--
 pybrain/rl/environments/functions/unimodal.py        | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/environments/functions/transformations.py b/pybrain/rl/environments/functions/transformations.py
index 4a735d2..2ffc80e 100644
--- a/pybrain/rl/environments/functions/transformations.py
+++ b/pybrain/rl/environments/functions/transformations.py
@@ -108,7 +108,7 @@ class SoftConstrainedFunction(FunctionEnvironment):
     
     
 def generateDiags(alpha, dim, shuffled=False):    
-    diags = [power(alpha, i / (2 * dim - 2.)) for i in range(dim)]
+    diags = [power(alpha, i / max(2 * dim - 2., 1.)) for i in range(dim)]
     if shuffled:
         shuffle(diags)
     return diag(diags)
@@ -233,7 +233,7 @@ class BBOBTransformationFunction(FunctionEnvironment):
     @staticmethod
     def asymmetrify(x, beta=0.2):
         dim = len(x)
-        return x * (x<=0) + (x>0) * exp((1+beta*arange(dim)/(dim-1.)*sqrt(abs(x))) * log(abs(x)+1e-100))
+        return x * (x<=0) + (x>0) * exp((1+beta*arange(dim)/max(dim-1., 1.)*sqrt(abs(x))) * log(abs(x)+1e-100))
         #res = x.copy()
         #for i, xi in enumerate(x):
         #    if xi > 0:
diff --git a/pybrain/rl/environments/functions/unimodal.py b/pybrain/rl/environments/functions/unimodal.py
index 84246d6..69019dd 100644
--- a/pybrain/rl/environments/functions/unimodal.py
+++ b/pybrain/rl/environments/functions/unimodal.py
@@ -40,6 +40,7 @@ class TabletFunction(FunctionEnvironment):
 
 class ElliFunction(FunctionEnvironment):
     """ Ellipsoid. """
+    xdimMin = 2
         
     a = 1000
     
@@ -92,6 +93,7 @@ class DiffPowFunction(FunctionEnvironment):
     """ Different powers.
     Standard setting: a=10 (other variants: a=4)
     """
+    xdimMin = 2
     
     a = 10
     
@@ -129,6 +131,7 @@ class GlasmachersFunction(FunctionEnvironment):
 class BoundedLinear(FunctionEnvironment):
     """ Linear function within the domain [-5,5], constant from the 
     best corner onwards. """
+    xdimMin = 2
     
     def __init__(self, *args, **kwargs):
         FunctionEnvironment.__init__(self, *args, **kwargs)
-- 
2.43.0


From 2f75b6442a71baff40c435868a44c094eaf30959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:28 +0000
Subject: [PATCH 129/180] fix: RastriginFunction has a valid default dimension

---
 pybrain/rl/environments/functions/multimodal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/functions/multimodal.py b/pybrain/rl/environments/functions/multimodal.py
index 75f9ee6..2f0e455 100644
--- a/pybrain/rl/environments/functions/multimodal.py
+++ b/pybrain/rl/environments/functions/multimodal.py
@@ -30,7 +30,7 @@ class FunnelFunction(MultiModalFunction):
 
 class RastriginFunction(MultiModalFunction):
     """ A classical multimodal benchmark with plenty of local minima, globally arranged on a bowl. """
-    def __init__(self, xdim=1, a=1, xopt=None):
+    def __init__(self, xdim=None, a=1, xopt=None):
         # additional parameter
         self.a = a
         FunctionEnvironment.__init__(self, xdim, xopt)
-- 
2.43.0


From 325c9b288b9833ae4e9856fc965a1d706a91e46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:28 +0000
Subject: [PATCH 130/180] fix: the desired value of multi-modal functions can
 be reached

---
 pybrain/rl/environments/functions/multimodal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/functions/multimodal.py b/pybrain/rl/environments/functions/multimodal.py
index 2f0e455..91cb0d6 100644
--- a/pybrain/rl/environments/functions/multimodal.py
+++ b/pybrain/rl/environments/functions/multimodal.py
@@ -16,7 +16,7 @@ from pybrain.rl.environments.functions.transformations import penalize, generate
 class MultiModalFunction(FunctionEnvironment):
     """ A function with more than one local optima. """
     xdimMin = 2
-    desiredValue = -1e-3
+    desiredValue = 1e-3
 
 class FunnelFunction(MultiModalFunction):
     funnelSize = 1.0
-- 
2.43.0


From ce175033ecf815febce42fa2d895725761698de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:28 +0000
Subject: [PATCH 131/180] fix: SchwefelFunction depends on all coordinates

---
 pybrain/rl/environments/functions/unimodal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/functions/unimodal.py b/pybrain/rl/environments/functions/unimodal.py
index 69019dd..90ee87e 100644
--- a/pybrain/rl/environments/functions/unimodal.py
+++ b/pybrain/rl/environments/functions/unimodal.py
@@ -18,7 +18,7 @@ class SchwefelFunction(FunctionEnvironment):
     def f(self, x):
         s = 0
         for i in range(len(x)):
-            s += sum(x[:i])**2
+            s += sum(x[:i + 1])**2
         return s
 
 
-- 
2.43.0


From 48058d388edcfe8ac1523077917b581934a30096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:28 +0000
Subject: [PATCH 132/180] fix: benchmark functions have their minimum at the
 declared optimum, and BBOB transformations keep it

---
 .../rl/environments/functions/multimodal.py   | 19 +++++++++++++++++--
 .../environments/functions/transformations.py |  2 +-
 pybrain/rl/environments/functions/unimodal.py |  6 ++++--
 3 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/pybrain/rl/environments/functions/multimodal.py b/pybrain/rl/environments/functions/multimodal.py
index 91cb0d6..740e858 100644
--- a/pybrain/rl/environments/functions/multimodal.py
+++ b/pybrain/rl/environments/functions/multimodal.py
@@ -22,6 +22,10 @@ class FunnelFunction(MultiModalFunction):
     funnelSize = 1.0
     funnelDepth = 1.
 
+    def __init__(self, *args, **kwargs):
+        MultiModalFunction.__init__(self, *args, **kwargs)
+        self.xopt = 2.5 * ones(self.xdim)
+
     def f(self, x):
         return min(dot(x - 2.5 * ones(self.xdim), x - 2.5 * ones(self.xdim)), \
             self.funnelDepth * self.xdim + self.funnelSize * dot(x + 2.5 * ones(self.xdim), x + 2.5 * ones(self.xdim)))
@@ -97,6 +101,10 @@ class BucheRastriginFunction(MultiModalFunction):
 class GriewankRosenbrockFunction(MultiModalFunction):
     """ Composite between the two. """
     
+    def __init__(self, *args, **kwargs):
+        MultiModalFunction.__init__(self, *args, **kwargs)
+        self.xopt = ones(self.xdim)
+
     def f(self, x):
         s = 100 * (x[:-1] ** 2 - x[1:]) ** 2 + (x[:-1] - 1) ** 2
         return 1/(self.xdim-1.) * sum(s / 4000. - cos(s)) +1
@@ -109,6 +117,7 @@ class Schwefel_2_13Function(MultiModalFunction):
         self.A = floor(rand(self.xdim, self.xdim) * 200) - 100
         self.B = floor(rand(self.xdim, self.xdim) * 200) - 100
         self.alphas = 2 * pi * rand(self.xdim) - pi
+        self.xopt = self.alphas
 
     def f(self, x):
         res = 0
@@ -134,8 +143,8 @@ class Schwefel20Function(MultiModalFunction):
         
     def f(self, x):
         z = 2* x * self._signs        
-        z[1:] += (z[:-1]-self.xopt[:-1]) * 0.25
-        z = 100 * (dot(self._diags, (z-self.xopt)) + self.xopt)
+        z[1:] += (z[:-1] - 2 * self._k2) * 0.25
+        z = 100 * (dot(self._diags, (z - 2 * self._k2)) + 2 * self._k2)
         return - 1. / float(self.xdim) * sum(z * sin(sqrt(abs(z)))) + self._k + 100 * penalize(z / 100.)
         
     
@@ -150,6 +159,7 @@ class GallagherGauss101MeFunction(MultiModalFunction):
         MultiModalFunction.__init__(self, *args, **kwargs)
         print((self.numPeaks, self.xdim))
         self._opts = [(rand(self.xdim) - 0.5) * 8]
+        self.xopt = self._opts[0]
         self._opts.extend([(rand(self.xdim) - 0.5) * 9.8 for _ in range(self.numPeaks-1)])
         alphas = [power(self.maxCond, 2 * i / float(self.numPeaks - 2)) for i in range(self.numPeaks - 1)]
         shuffle(alphas)
@@ -190,6 +200,7 @@ class LunacekBiRastriginFunction(MultiModalFunction):
         self._s = 1 - 1 / (2 * sqrt(self.xdim + 20) - 8.2)
         self._mu1 = -sqrt((self._mu0 ** 2 - 1) / self._s)
         self._signs = sign(randn(self.xdim))
+        self.xopt = self._mu0 / 2 * self._signs
         self._R1 = orth(rand(self.xdim, self.xdim))
         self._R2 = orth(rand(self.xdim, self.xdim))
         self._diags = generateDiags(100, self.xdim)
@@ -220,6 +231,10 @@ class BraninFunction(MultiModalFunction):
 
     _globalOptima = [[-pi, 12.275], [pi, 2.275], [9.42478, 2.475]]
 
+    def __init__(self, *args, **kwargs):
+        MultiModalFunction.__init__(self, *args, **kwargs)
+        self.xopt = array(self._globalOptima[0])
+
     def f(self, x):
         return self._a * (x[1] - self._b * x[0] ** 2 + self._c * x[0] - self._d) ** 2 + self._e * ((1 - self._f) * cos(x[0]) + 1) - self.vopt
 
diff --git a/pybrain/rl/environments/functions/transformations.py b/pybrain/rl/environments/functions/transformations.py
index 2ffc80e..efc754b 100644
--- a/pybrain/rl/environments/functions/transformations.py
+++ b/pybrain/rl/environments/functions/transformations.py
@@ -226,7 +226,7 @@ class BBOBTransformationFunction(FunctionEnvironment):
         else:
             tmp4 = lambda x: dot(prefix, tmp3(x - self.xopt))
                             
-        self.f = lambda x: (noisetrans(basef.f(tmp4(x))) 
+        self.f = lambda x: (noisetrans(basef.f(basef.xopt + tmp4(x))) 
                             + penalized * penalize(x))
         
 
diff --git a/pybrain/rl/environments/functions/unimodal.py b/pybrain/rl/environments/functions/unimodal.py
index 90ee87e..6d90bd1 100644
--- a/pybrain/rl/environments/functions/unimodal.py
+++ b/pybrain/rl/environments/functions/unimodal.py
@@ -77,8 +77,9 @@ class AttractiveSectorFunction(FunctionEnvironment):
     
     def f(self, x):
         from .transformations import BBOBTransformationFunction
-        quad = (x*self.xopt > 0)
-        sz = 100 * x * quad + x * (quad==False)         
+        z = x - self.xopt
+        quad = (z*self.xopt > 0)
+        sz = 100 * z * quad + z * (quad==False)         
         return power(BBOBTransformationFunction.oscillatify(dot(sz, sz)), 0.9)
         
         
@@ -137,6 +138,7 @@ class BoundedLinear(FunctionEnvironment):
         FunctionEnvironment.__init__(self, *args, **kwargs)
         self._w = [power(10, i/(self.xdim-1.)) for i in range(self.xdim)]        
         self._signs = sign(randn(self.xdim))       
+        self.xopt = 5. * self._signs
     
     def f(self, x):
         x_ = x.copy()
-- 
2.43.0


From deaca487e72c4cec24a0d69c32e3de61204de61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:28 +0000
Subject: [PATCH 133/180] fix: Gallagher's functions do not print when
 constructed

---
 pybrain/rl/environments/functions/multimodal.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pybrain/rl/environments/functions/multimodal.py b/pybrain/rl/environments/functions/multimodal.py
index 740e858..9007c8e 100644
--- a/pybrain/rl/environments/functions/multimodal.py
+++ b/pybrain/rl/environments/functions/multimodal.py
@@ -1,5 +1,3 @@
-from __future__ import print_function
-
 """ The functions implemented here are standard benchmarks from literature. """
 
 __author__ = 'Tom Schaul, tom@idsia.ch'
@@ -157,7 +155,6 @@ class GallagherGauss101MeFunction(MultiModalFunction):
 
     def __init__(self, *args, **kwargs):
         MultiModalFunction.__init__(self, *args, **kwargs)
-        print((self.numPeaks, self.xdim))
         self._opts = [(rand(self.xdim) - 0.5) * 8]
         self.xopt = self._opts[0]
         self._opts.extend([(rand(self.xdim) - 0.5) * 9.8 for _ in range(self.numPeaks-1)])
-- 
2.43.0


From ae53dd0d00914df73bf663d0136779b86b6304fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:28 +0000
Subject: [PATCH 134/180] fix: oscillation keeps the sign of each coordinate

---
 pybrain/rl/environments/functions/transformations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pybrain/rl/environments/functions/transformations.py b/pybrain/rl/environments/functions/transformations.py
index efc754b..b797d97 100644
--- a/pybrain/rl/environments/functions/transformations.py
+++ b/pybrain/rl/environments/functions/transformations.py
@@ -1,7 +1,7 @@
 __author__ = 'Tom Schaul, tom@idsia.ch'
 
 
-from scipy import rand, dot, power, diag, eye, sqrt, sin, log, exp, ravel, clip, arange
+from scipy import rand, dot, power, diag, eye, sqrt, sin, log, exp, ravel, clip, arange, sign
 from scipy.linalg import orth, norm, inv
 from random import shuffle, random, gauss
 
@@ -254,7 +254,7 @@ class BBOBTransformationFunction(FunctionEnvironment):
                 c1 = 10
                 c2 = 7.9
             else:
-                s = 1
+                s = -1
                 c1 = 5.5
                 c2 = 3.1
             res[i] = s * exp(log(abs(xi)) + 0.049 * (sin(c1 * xi) + sin(c2 * xi)))
@@ -265,7 +265,7 @@ class BBOBTransformationFunction(FunctionEnvironment):
 
     @staticmethod
     def oscillatify(x):
-        return exp(log(abs(x)+1e-100)
+        return sign(x) * exp(log(abs(x)+1e-100)
                    + (x>0) * 0.049 * (sin(10 * x) + sin(7.9 * x))
                    + (x<0) * 0.049 * (sin(5.5 * x) + sin(3.1 * x)))
         
\ No newline at end of file
-- 
2.43.0


From c77e535a27f2186c85d25f6927bae6d2c5ef01c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:28 +0000
Subject: [PATCH 135/180] fix: the opposite of a multi-objective function
 reports its feasibility and dimensions

---
 pybrain/rl/environments/functions/transformations.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/environments/functions/transformations.py b/pybrain/rl/environments/functions/transformations.py
index b797d97..e60b481 100644
--- a/pybrain/rl/environments/functions/transformations.py
+++ b/pybrain/rl/environments/functions/transformations.py
@@ -18,13 +18,18 @@ def oppositeFunction(basef):
         if isinstance(basef, FunctionEnvironment):
             ''' added by JPQ '''
             if isinstance(basef, MultiObjectiveFunction):
-                res = MultiObjectiveFunction()
+                res = MultiObjectiveFunction(basef.xdim, basef.xopt, basef.xbound, constrained=basef.constrained)
             else:
             # ---
                 res = FunctionEnvironment(basef.xdim, basef.xopt)
         else:
             res = FitnessEvaluator()        
-        res.f = lambda x:-basef.f(x)
+        def opposite(x):
+            value = -basef.f(x)
+            if isinstance(basef, MultiObjectiveFunction):
+                res.feasible, res.violation = basef.feasible, basef.violation
+            return value
+        res.f = opposite
         if not basef.desiredValue is None:
             res.desiredValue = -basef.desiredValue
         res.toBeMinimized = not basef.toBeMinimized
-- 
2.43.0


From b0f5634fef1c8e864304c45dbb8913105c2cd6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:28 +0000
Subject: [PATCH 136/180] fix: LennardJones example configurations can be built

---
 pybrain/rl/environments/functions/lennardjones.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/functions/lennardjones.py b/pybrain/rl/environments/functions/lennardjones.py
index 861ccde..74d550d 100644
--- a/pybrain/rl/environments/functions/lennardjones.py
+++ b/pybrain/rl/environments/functions/lennardjones.py
@@ -19,7 +19,7 @@ class LennardJones(MultiModalFunction):
     def _exampleConfig(self, numatoms, noise=0.05, edge=2.):
         """ Arranged in an approximate cube of certain edge length. """
         assert numatoms % 8 == 0
-        x0 = randn(3, 2, 2, 2, numatoms / 8) * noise * edge - edge / 2
+        x0 = randn(3, 2, 2, 2, numatoms // 8) * noise * edge - edge / 2
         x0[0, 0] += edge
         x0[1, :, 0] += edge
         x0[2, :, :, 0] += edge
-- 
2.43.0


From 01e89a684b6f3bbb4a929e6879acc7ccaed639e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:09 +0000
Subject: [PATCH 137/180] fix: Schwefel20Function is scaled so that its optimum
 has the value 0

---
 pybrain/rl/environments/functions/multimodal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/functions/multimodal.py b/pybrain/rl/environments/functions/multimodal.py
index 9007c8e..9b16e1f 100644
--- a/pybrain/rl/environments/functions/multimodal.py
+++ b/pybrain/rl/environments/functions/multimodal.py
@@ -143,7 +143,7 @@ class Schwefel20Function(MultiModalFunction):
         z = 2* x * self._signs        
         z[1:] += (z[:-1] - 2 * self._k2) * 0.25
         z = 100 * (dot(self._diags, (z - 2 * self._k2)) + 2 * self._k2)
-        return - 1. / float(self.xdim) * sum(z * sin(sqrt(abs(z)))) + self._k + 100 * penalize(z / 100.)
+        return - 0.01 / float(self.xdim) * sum(z * sin(sqrt(abs(z)))) + self._k + 100 * penalize(z / 100.)
         
     
 class GallagherGauss101MeFunction(MultiModalFunction):
-- 
2.43.0


From 13349f30489a4c424d443968fa2836bbce85e372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:42 +0000
Subject: [PATCH 138/180] fix: the feasibility of a constrained function is not
 reported by other multi-objective functions

---
 .../rl/environments/functions/multiobjective.py   | 15 ---------------
 1 file changed, 15 deletions(-)

diff --git a/pybrain/rl/environments/functions/multiobjective.py b/pybrain/rl/environments/functions/multiobjective.py
index c5006ae..dead188 100644
--- a/pybrain/rl/environments/functions/multiobjective.py
+++ b/pybrain/rl/environments/functions/multiobjective.py
@@ -114,13 +114,6 @@ class ConstDeb(MultiObjectiveFunction):
         return False,array([g1,g2])
     def f(self, x):
         self.feasible,self.violation = self.g(x)
-        ''' 
-        not nice, due to the fact that oppositeFunction does not used
-        the instance of this class for the evaluator but creates a new instance
-        of class MultiObjectiveFunction
-        '''
-        MultiObjectiveFunction.feasible = self.feasible
-        MultiObjectiveFunction.violation = self.violation
         f1 = x[0]
         f2 = (1+x[1])/x[0]
         return -array([f1, f2])
@@ -164,8 +157,6 @@ class ConstSrn(MultiObjectiveFunction):
         return False,array([g1,g2])
     def f(self, x):
         self.feasible,self.violation = self.g(x)
-        MultiObjectiveFunction.feasible = self.feasible
-        MultiObjectiveFunction.violation = self.violation
         f1 = 2+(x[0]-2)**2+(x[1]-1)**2
         f2 = 9*x[0]-(x[1]-1)**2
         return -array([f1, f2])
@@ -196,8 +187,6 @@ class ConstOsy(MultiObjectiveFunction):
         return False,array([g1,g2,g3,g4,g5,g6])
     def f(self, x):
         self.feasible,self.violation = self.g(x)
-        MultiObjectiveFunction.feasible = self.feasible
-        MultiObjectiveFunction.violation = self.violation
         f1 = -(25.0*(x[0]-2.0)**2+(x[1]-2.0)**2+(x[2]-1.0)**2+(x[3]-4.0)**2+(x[4]-1.0)**2)
         f2 = x[0]**2+x[1]**2+x[2]**2+x[3]**2+x[4]**2+x[5]**2
         return -array([f1, f2])
@@ -224,8 +213,6 @@ class ConstTnk(MultiObjectiveFunction):
         return False,array([g1,g2])
     def f(self, x):
         self.feasible,self.violation = self.g(x)
-        MultiObjectiveFunction.feasible = self.feasible
-        MultiObjectiveFunction.violation = self.violation
         f1 = x[0]
         f2 = x[1]
         return -array([f1, f2])
@@ -248,8 +235,6 @@ class ConstBnh(MultiObjectiveFunction):
         return False,array([g1,g2])
     def f(self, x):
         self.feasible,self.violation = self.g(x)
-        MultiObjectiveFunction.feasible = self.feasible
-        MultiObjectiveFunction.violation = self.violation
         f1 = 4*x[0]**2 + 4*x[1]**2
         f2 = (x[0]-5)**2 + (x[1]-5)**2
         return -array([f1, f2])
-- 
2.43.0


From c66768486f88b0a4405102e528e5e01a73476c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:59 +0000
Subject: [PATCH 139/180] fix: Evolino splits sequences by the declared
 washout/training ratio, which may be a pair

---
 pybrain/supervised/evolino/filter.py   | 5 +++++
 pybrain/supervised/trainers/evolino.py | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/pybrain/supervised/evolino/filter.py b/pybrain/supervised/evolino/filter.py
index 6c8d9c6..62ac263 100644
--- a/pybrain/supervised/evolino/filter.py
+++ b/pybrain/supervised/evolino/filter.py
@@ -51,6 +51,11 @@ class EvolinoEvaluation(Filter):
             :key wtRatio: See __init__
         """
 
+        # a pair of lengths stands for the fraction of the first of them
+        wtRatio = array(wtRatio, float)
+        if wtRatio.size == 2:
+            wtRatio = wtRatio[0] / sum(wtRatio)
+
         # === extract sequences from dataset ===
         numSequences = dataset.getNumSequences()
         washout_sequences = []
diff --git a/pybrain/supervised/trainers/evolino.py b/pybrain/supervised/trainers/evolino.py
index 865c9de..d8cd7c5 100644
--- a/pybrain/supervised/trainers/evolino.py
+++ b/pybrain/supervised/trainers/evolino.py
@@ -88,7 +88,7 @@ class EvolinoTrainer(Trainer):
         ap.add('selection', default=EvolinoSelection())
         ap.add('reproduction', default=EvolinoReproduction(mutationVariate=self.mutationVariate))
         ap.add('burstMutation', default=EvolinoBurstMutation())
-        ap.add('evaluation', default=EvolinoEvaluation(evolino_network, self.ds, **kwargs))
+        ap.add('evaluation', default=EvolinoEvaluation(evolino_network, self.ds, **dict(kwargs, wtRatio=self.wtRatio)))
 
         self.selection.nParents = self.nParents
 
-- 
2.43.0


From f7af27b46460ed8207e566d91e4cdd73bbb260f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:35 +0000
Subject: [PATCH 140/180] fix: the cart-pole environments do without the
 Runge-Kutta integration removed from matplotlib

---
 pybrain/rl/environments/cartpole/cartpole.py | 22 ++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/environments/cartpole/cartpole.py b/pybrain/rl/environments/cartpole/cartpole.py
index 7a69572..7587c79 100644
--- a/pybrain/rl/environments/cartpole/cartpole.py
+++ b/pybrain/rl/environments/cartpole/cartpole.py
@@ -1,13 +1,31 @@
 __author__ = 'Thomas Rueckstiess, ruecksti@in.tum.de'
 
-from matplotlib.mlab import rk4
 from math import sin, cos
 import time
-from scipy import eye, matrix, random, asarray
+from scipy import eye, matrix, random, asarray, zeros
 
 from pybrain.rl.environments.graphical import GraphicalEnvironment
 
 
+def rk4(derivs, y0, t):
+    """ Integrate a system of ordinary differential equations with the 4th order Runge-Kutta method.
+
+        :arg derivs: returns the derivatives, called as derivs(y, t)
+        :arg y0: initial state
+        :arg t: times at which the states are computed
+        :return: array with one state per time in t """
+    res = zeros((len(t), len(y0)))
+    res[0] = y0
+    for i in range(len(t) - 1):
+        y, dt = res[i], t[i + 1] - t[i]
+        k1 = asarray(derivs(y, t[i]))
+        k2 = asarray(derivs(y + k1 * dt / 2., t[i] + dt / 2.))
+        k3 = asarray(derivs(y + k2 * dt / 2., t[i] + dt / 2.))
+        k4 = asarray(derivs(y + k3 * dt, t[i] + dt))
+        res[i + 1] = y + (k1 + 2 * k2 + 2 * k3 + k4) * dt / 6.
+    return res
+
+
 class CartPoleEnvironment(GraphicalEnvironment):
     """ This environment implements the cart pole balancing benchmark, as stated in:
         Riedmiller, Peters, Schaal: "Evaluation of Policy Gradient Methods and
-- 
2.43.0


From 62afd6f1e19748b1ea3a2b1c4c15e0f2b42c18e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:35 +0000
Subject: [PATCH 141/180] fix: the linearized cart-pole applies its transition
 matrix, not the transposed one

---
 pybrain/rl/environments/cartpole/cartpole.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/cartpole/cartpole.py b/pybrain/rl/environments/cartpole/cartpole.py
index 7587c79..285de04 100644
--- a/pybrain/rl/environments/cartpole/cartpole.py
+++ b/pybrain/rl/environments/cartpole/cartpole.py
@@ -138,7 +138,7 @@ class CartPoleLinEnvironment(CartPoleEnvironment):
 
 
     def step(self):
-        self.sensors = random.normal(loc=self.sensors * self.A + self.action * self.b, scale=0.001).flatten()
+        self.sensors = random.normal(loc=self.sensors * self.A.T + self.action * self.b, scale=0.001).flatten()
         if self.hasRenderer():
             self.getRenderer().updateData(self.sensors)
             if self.delay:
-- 
2.43.0


From 8780a88f96c2b0df4dc6446f4154d10cd021ea05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:35 +0000
Subject: [PATCH 142/180] fix: the double-pole environment declares the number
 of its sensors

---
 pybrain/rl/environments/cartpole/doublepole.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/cartpole/doublepole.py b/pybrain/rl/environments/cartpole/doublepole.py
index ed6409a..e5c1415 100644
--- a/pybrain/rl/environments/cartpole/doublepole.py
+++ b/pybrain/rl/environments/cartpole/doublepole.py
@@ -8,7 +8,7 @@ class DoublePoleEnvironment(Environment):
     """ two poles to be balanced from the same cart. """
 
     indim = 1
-    ooutdim = 6
+    outdim = 6
 
     def __init__(self):
         self.p1 = CartPoleEnvironment()
-- 
2.43.0


From 00fcebe551735df7bae0574e5ab2eedb97384f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:35 +0000
Subject: [PATCH 143/180] fix: pole angles and cart position of the double pole
 are those after the last action

---
 pybrain/rl/environments/cartpole/doublepole.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pybrain/rl/environments/cartpole/doublepole.py b/pybrain/rl/environments/cartpole/doublepole.py
index e5c1415..bb7e80a 100644
--- a/pybrain/rl/environments/cartpole/doublepole.py
+++ b/pybrain/rl/environments/cartpole/doublepole.py
@@ -42,6 +42,7 @@ class DoublePoleEnvironment(Environment):
         """
         self.p1.performAction(action)
         self.p2.performAction(action)
+        DoublePoleEnvironment.getSensors(self)
 
     def getCartPosition(self):
         """ auxiliary access to just the cart position, to be used by BalanceTask """
-- 
2.43.0


From 6ba066974d6ef0469ee0a0a85935a178808e19de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:36 +0000
Subject: [PATCH 144/180] fix: non-Markov pole environments report the cart
 position and angles of their full state

---
 pybrain/rl/environments/cartpole/nonmarkovdoublepole.py | 8 --------
 pybrain/rl/environments/cartpole/nonmarkovpole.py       | 5 -----
 2 files changed, 13 deletions(-)

diff --git a/pybrain/rl/environments/cartpole/nonmarkovdoublepole.py b/pybrain/rl/environments/cartpole/nonmarkovdoublepole.py
index 6011946..ef26999 100644
--- a/pybrain/rl/environments/cartpole/nonmarkovdoublepole.py
+++ b/pybrain/rl/environments/cartpole/nonmarkovdoublepole.py
@@ -18,12 +18,4 @@ class NonMarkovDoublePoleEnvironment(DoublePoleEnvironment, NonMarkovPoleEnviron
         tmp = DoublePoleEnvironment.getSensors(self)
         return (tmp[0], tmp[2], tmp[4])
 
-    def getPoleAngles(self):
-        """ auxiliary access to just the pole angle(s), to be used by BalanceTask """
-        return [self.sensors[0], self.sensors[1]]
-
-    def getCartPosition(self):
-        """ auxiliary access to just the cart position, to be used by BalanceTask """
-        return self.sensors[2]
-
 
diff --git a/pybrain/rl/environments/cartpole/nonmarkovpole.py b/pybrain/rl/environments/cartpole/nonmarkovpole.py
index 301a592..e5c481f 100644
--- a/pybrain/rl/environments/cartpole/nonmarkovpole.py
+++ b/pybrain/rl/environments/cartpole/nonmarkovpole.py
@@ -17,8 +17,3 @@ class NonMarkovPoleEnvironment(CartPoleEnvironment):
         tmp = CartPoleEnvironment.getSensors(self)
         return (tmp[0], tmp[2])
 
-    def getCartPosition(self):
-        """ auxiliary access to just the cart position, to be used by BalanceTask """
-        return self.sensors[1]
-
-
-- 
2.43.0


From 99a51485fb692aeb3e23e86a89e07baa10d42ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:36 +0000
Subject: [PATCH 145/180] fix: the total reward of the mountain car starts at 0
 in every episode

---
 pybrain/rl/environments/classic/mountaincar.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pybrain/rl/environments/classic/mountaincar.py b/pybrain/rl/environments/classic/mountaincar.py
index 4f4cc2f..94c4f01 100644
--- a/pybrain/rl/environments/classic/mountaincar.py
+++ b/pybrain/rl/environments/classic/mountaincar.py
@@ -42,6 +42,7 @@ class MountainCar(EpisodicTask):
 
     def reset(self):
         self.state = self.GetInitialState()
+        self.cumreward = 0
     
     def getObservation(self):    
         #print(array([self.state[0], self.state[1] * 100, 1]))
-- 
2.43.0


From 7d1da1333bea898022ee17aa24be7a8f620330ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:36 +0000
Subject: [PATCH 146/180] fix: the total reward of the acrobot starts at 0 in
 every episode

---
 pybrain/rl/environments/classic/acrobot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pybrain/rl/environments/classic/acrobot.py b/pybrain/rl/environments/classic/acrobot.py
index d778884..217370f 100644
--- a/pybrain/rl/environments/classic/acrobot.py
+++ b/pybrain/rl/environments/classic/acrobot.py
@@ -70,6 +70,7 @@ class AcrobotTask(EpisodicTask):
             
     def reset(self):
         self.state = self.GetInitialState()
+        self.cumreward = 0
             
     def getReward(self):
         return self.r
-- 
2.43.0


From d779adc17af64c3ad910a3e23459f4aecaa7c74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:36 +0000
Subject: [PATCH 147/180] fix: the single arm swinger observes the angle of its
 free arm

---
 pybrain/rl/environments/classic/acrobot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/classic/acrobot.py b/pybrain/rl/environments/classic/acrobot.py
index 217370f..ae1c38d 100644
--- a/pybrain/rl/environments/classic/acrobot.py
+++ b/pybrain/rl/environments/classic/acrobot.py
@@ -206,7 +206,7 @@ class SingleArmSwinger(AcrobotTask):
         return  s
     
     def getObservation(self):    
-        return array(self.state[2:] + [pi])/(pi)
+        return array([self.state[1], self.state[3], pi])/(pi)
         
     def performAction(self, action):
         AcrobotTask.performAction(self, action)
-- 
2.43.0


From 36827cd50eebc7a0e86659ba25308b48ebc12d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:36 +0000
Subject: [PATCH 148/180] fix: the XOR tasks produce integer observations

---
 pybrain/rl/environments/classic/xor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/environments/classic/xor.py b/pybrain/rl/environments/classic/xor.py
index 98ef395..cfb551c 100644
--- a/pybrain/rl/environments/classic/xor.py
+++ b/pybrain/rl/environments/classic/xor.py
@@ -26,7 +26,7 @@ class XORTask(EpisodicTask):
         if self.randomorder:
             self.obs = array([randint(0,1), randint(0,1), 1])
         else:
-            self.obs = array([self._counter%2, (self._counter/2)%2, 1])    
+            self.obs = array([self._counter%2, (self._counter//2)%2, 1])    
         self._counter += 1    
         return self.obs
         
@@ -64,7 +64,7 @@ class XORChainTask(XORTask):
         self.state = 0
         
     def getObservation(self):
-        self.obs = array([self.state%2, (self.state/2)%2, 1])    
+        self.obs = array([self.state%2, (self.state//2)%2, 1])    
         return self.obs
         
     def performAction(self, action):
-- 
2.43.0


From 39b1a670d99ceb4c1a1da098fbca8f03cded2d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:36 +0000
Subject: [PATCH 149/180] fix: the simple environment applies each action once,
 and adds its noise to the state

---
 pybrain/rl/environments/simple/environment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/simple/environment.py b/pybrain/rl/environments/simple/environment.py
index e0af3ac..b10056c 100644
--- a/pybrain/rl/environments/simple/environment.py
+++ b/pybrain/rl/environments/simple/environment.py
@@ -28,7 +28,8 @@ class SimpleEnvironment(Environment):
     def update(self):
         self.state = [s + 0.1 * a for s, a in zip(self.state, self.action)]
         if self.noise:
-            self.state += random.normal(0, self.noise, self.dim)
+            self.state = [s + n for s, n in zip(self.state, random.normal(0, self.noise, self.dim))]
+        self.updated = True
 
     def f(self, x):
         return [v ** 2 for v in x]
-- 
2.43.0


From 58ec652f5de95cc8295e52bc0d1329a42085ad6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:36 +0000
Subject: [PATCH 150/180] fix: the minimize task accumulates the reward of the
 action just performed

---
 pybrain/rl/environments/simple/tasks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/simple/tasks.py b/pybrain/rl/environments/simple/tasks.py
index 7419880..6e91f1c 100644
--- a/pybrain/rl/environments/simple/tasks.py
+++ b/pybrain/rl/environments/simple/tasks.py
@@ -28,8 +28,8 @@ class MinimizeTask(EpisodicTask):
         return self.state
 
     def performAction(self, action):
-        EpisodicTask.performAction(self, action)
         self.action = action
+        EpisodicTask.performAction(self, action)
 
     def getReward(self):
         # sleep(0.01)
-- 
2.43.0


From 216aae710cdf19017c604f7a4f4655b73d8bd2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:49 +0000
Subject: [PATCH 151/180] fix: the cart-pole package does not look for the
 Runge-Kutta function removed from matplotlib

---
 pybrain/rl/environments/cartpole/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/cartpole/__init__.py b/pybrain/rl/environments/cartpole/__init__.py
index 2549343..f7a7803 100644
--- a/pybrain/rl/environments/cartpole/__init__.py
+++ b/pybrain/rl/environments/cartpole/__init__.py
@@ -1,6 +1,6 @@
 # try importing the external dependencies
 try:
-    from matplotlib.mlab import rk4
+    import matplotlib
 except ImportError:
     raise ImportError('This environment needs the matplotlib library installed.')
 
-- 
2.43.0


From 9f7b43ba050d91042a6ccd2dd72392df069c40c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:07 +0000
Subject: [PATCH 152/180] fix: the force on the cart-pole is the number in the
 action vector

---
 pybrain/rl/environments/cartpole/cartpole.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/cartpole/cartpole.py b/pybrain/rl/environments/cartpole/cartpole.py
index 285de04..321e9e1 100644
--- a/pybrain/rl/environments/cartpole/cartpole.py
+++ b/pybrain/rl/environments/cartpole/cartpole.py
@@ -94,7 +94,7 @@ class CartPoleEnvironment(GraphicalEnvironment):
             derivatives of the state variables given in x. for each variable in x, it returns the first order
             derivative at time t.
         """
-        F = self.action
+        F = asarray(self.action).item()
         (theta, theta_, _s, s_) = x
         u = theta_
         sin_theta = sin(theta)
-- 
2.43.0


From e0adb8e641c8e0a667cefbdf4fef3bb9837ebede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:09 +0000
Subject: [PATCH 153/180] fix: a restricted Boltzmann machine finds its layers
 without relying on their names

---
 pybrain/structure/networks/rbm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/structure/networks/rbm.py b/pybrain/structure/networks/rbm.py
index f7f58b9..a8f057d 100644
--- a/pybrain/structure/networks/rbm.py
+++ b/pybrain/structure/networks/rbm.py
@@ -33,8 +33,8 @@ class Rbm(object):
         self.net.sortModules()
         self.bias = [i for i in self.net.modules if isinstance(i, BiasUnit)][0]
         self.biascon = self.net.connections[self.bias][0]
-        self.visible = net['visible']
-        self.hidden = net['hidden']
+        self.visible = net.inmodules[0]
+        self.hidden = net.outmodules[0]
         self.con = self.net.connections[self.visible][0]
 
     @classmethod
-- 
2.43.0


From 36b6f09e7c82c5c29a3be06920a4d1f1f2938de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:09 +0000
Subject: [PATCH 154/180] fix: an inverted restricted Boltzmann machine has the
 transposed weight matrix

---
 pybrain/structure/networks/rbm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/structure/networks/rbm.py b/pybrain/structure/networks/rbm.py
index a8f057d..08f612d 100644
--- a/pybrain/structure/networks/rbm.py
+++ b/pybrain/structure/networks/rbm.py
@@ -73,9 +73,9 @@ class Rbm(object):
 
     def invert(self):
         """Return the inverse rbm."""
-        # TODO: check if shape is correct
+        params = self.params.reshape((self.hiddenDim, self.visibleDim))
         return self.__class__.fromDims(self.hiddenDim, self.visibleDim,
-                                       params=self.params)
+                                       params=params.T.flatten())
 
     def activate(self, inpt):
         return self.net.activate(inpt)
-- 
2.43.0


From df8a4594865686697626d22235876b08464849ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:09 +0000
Subject: [PATCH 155/180] fix: contrastive divergence updates the weight of the
 units it was computed for

---
 pybrain/unsupervised/trainers/rbm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/unsupervised/trainers/rbm.py b/pybrain/unsupervised/trainers/rbm.py
index 74a2f18..c6cffba 100644
--- a/pybrain/unsupervised/trainers/rbm.py
+++ b/pybrain/unsupervised/trainers/rbm.py
@@ -60,7 +60,8 @@ class RbmGibbsTrainer(Trainer):
                 #print("*** Iteration %2d **************************************" % t)
 
                 params = self.rbm.params
-                params = params.reshape((self.rbm.visibleDim, self.rbm.hiddenDim))
+                # (a full connection stores one row per hidden unit)
+                params = params.reshape((self.rbm.hiddenDim, self.rbm.visibleDim)).T
                 biasParams = self.rbm.biasParams
 
                 mm = cfg.iniMm if t < cfg.mmSwitchIter else cfg.finMm
-- 
2.43.0


From 1ac8acba67ccc28d3cb0c4aa20e55b9f937df7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:48 +0000
Subject: [PATCH 156/180] fix: the rbms of a deep network take their input as
 it is and share the parameters of the network

---
 pybrain/unsupervised/trainers/deepbelief.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pybrain/unsupervised/trainers/deepbelief.py b/pybrain/unsupervised/trainers/deepbelief.py
index 24125d1..6ace810 100644
--- a/pybrain/unsupervised/trainers/deepbelief.py
+++ b/pybrain/unsupervised/trainers/deepbelief.py
@@ -7,7 +7,8 @@ __version__ = '$Id$'
 import copy
 
 from pybrain.datasets import SupervisedDataSet, UnsupervisedDataSet
-from pybrain.structure import BiasUnit, FeedForwardNetwork, FullConnection
+from pybrain.structure import (BiasUnit, FeedForwardNetwork, FullConnection,
+                               LinearLayer)
 from pybrain.structure.networks.rbm import Rbm
 from pybrain.structure.modules.neuronlayer import NeuronLayer
 from pybrain.supervised.trainers import Trainer
@@ -66,8 +67,15 @@ class DeepBeliefTrainer(Trainer):
         biascons.sort(key=lambda c: layers.index(c.outmod))
         modules = list(zip(layers, layers[1:], layercons, biascons))
         for visible, hidden, layercon, biascon in modules:
+            # An rbm gets its input as it is: the nonlinearity of the visible
+            # layer has already been applied. The parameters are (and remain)
+            # slices of those of the network.
+            visible, bias = LinearLayer(visible.outdim), BiasUnit()
             rbm = Rbm.fromModules(visible, hidden, bias,
-                                  layercon, biascon)
+                                  FullConnection(visible, hidden),
+                                  FullConnection(bias, hidden))
+            rbm.con._setParameters(layercon.params, rbm.net)
+            rbm.biascon._setParameters(biascon.params, rbm.net)
             yield rbm
 
     def train(self):
-- 
2.43.0


From 593f8bb5a071236ce67354ecadb4c1877d6a09ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:48 +0000
Subject: [PATCH 157/180] fix: every layer of a deep network is trained on what
 the layers below make of the dataset

---
 pybrain/unsupervised/trainers/deepbelief.py | 42 ++++-----------------
 1 file changed, 8 insertions(+), 34 deletions(-)

diff --git a/pybrain/unsupervised/trainers/deepbelief.py b/pybrain/unsupervised/trainers/deepbelief.py
index 6ace810..5bd8d5e 100644
--- a/pybrain/unsupervised/trainers/deepbelief.py
+++ b/pybrain/unsupervised/trainers/deepbelief.py
@@ -4,11 +4,8 @@ __author__ = 'Justin S Bayer, bayer.justin@googlemail.com'
 __version__ = '$Id$'
 
 
-import copy
-
 from pybrain.datasets import SupervisedDataSet, UnsupervisedDataSet
-from pybrain.structure import (BiasUnit, FeedForwardNetwork, FullConnection,
-                               LinearLayer)
+from pybrain.structure import BiasUnit, FullConnection, LinearLayer
 from pybrain.structure.networks.rbm import Rbm
 from pybrain.structure.modules.neuronlayer import NeuronLayer
 from pybrain.supervised.trainers import Trainer
@@ -79,18 +76,9 @@ class DeepBeliefTrainer(Trainer):
             yield rbm
 
     def train(self):
-        # We will build up a network piecewise in order to create a new dataset
-        # for each layer.
+        # We will create a new dataset for each layer.
         dataset = self.dataset
-        piecenet = FeedForwardNetwork()
-        piecenet.addInputModule(copy.deepcopy(self.net.inmodules[0]))
-        # Add a bias
-        bias = BiasUnit()
-        piecenet.addModule(bias)
-        # Add the first visible layer
-        firstRbm = next(self.iterRbms())
-        visible = copy.deepcopy(firstRbm.visible)
-        piecenet.addModule(visible)
+        datasetfield = self.datasetfield
         # For saving the rbms and their inverses
         self.invRbms = []
         self.rbms = []
@@ -102,23 +90,9 @@ class DeepBeliefTrainer(Trainer):
                 trainer.train()
             self.invRbms.append(trainer.invRbm)
             self.rbms.append(rbm)
-            # Add the connections and the hidden layer of the rbm to the net.
-            hidden = copy.deepcopy(rbm.hidden)
-            biascon = FullConnection(bias, hidden)
-            biascon.params[:] = rbm.biasWeights
-            con = FullConnection(visible, hidden)
-            con.params[:] = rbm.weights
-
-            piecenet.addConnection(biascon)
-            piecenet.addConnection(con)
-            piecenet.addModule(hidden)
-            # Overwrite old outputs
-            piecenet.outmodules = [hidden]
-            piecenet.outdim = rbm.hiddenDim
-            piecenet.sortModules()
-
+            # The output of this rbm is what the next one is trained on.
+            samples = dataset[datasetfield]
             dataset = UnsupervisedDataSet(rbm.hiddenDim)
-            for sample, in self.dataset:
-                new_sample = piecenet.activate(sample)
-                dataset.addSample(new_sample)
-            visible = hidden
+            datasetfield = 'sample'
+            for sample in samples:
+                dataset.addSample(rbm.activate(sample))
-- 
2.43.0


From 742b471ea6c22fb6a0f24df2e993f393af842651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:48 +0000
Subject: [PATCH 158/180] fix: the density of a Gaussian in several dimensions
 is normalised by a power of its deviation

---
 pybrain/supervised/trainers/mixturedensity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/supervised/trainers/mixturedensity.py b/pybrain/supervised/trainers/mixturedensity.py
index 85214d7..92cf1d1 100644
--- a/pybrain/supervised/trainers/mixturedensity.py
+++ b/pybrain/supervised/trainers/mixturedensity.py
@@ -9,7 +9,7 @@ def gaussian(x, mean, stddev):
     """ return value of homogenous Gaussian at given vector point 
     x: vector, mean: vector, stddev: scalar """
     tmp = -0.5 * sum(((x-mean)/stddev)**2)
-    return np.exp(tmp) / (np.power(2.*np.pi, 0.5*len(x)) * stddev)
+    return np.exp(tmp) / (np.power(2.*np.pi, 0.5*len(x)) * stddev**len(x))
     
 
 class BackpropTrainerMix(BackpropTrainer):
-- 
2.43.0


From a3f4b038cd4914e59715284c17825665c9efa89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:48 +0000
Subject: [PATCH 159/180] fix: the mixture density gradient is taken with
 respect to what the layer exponentiates

---
 pybrain/supervised/trainers/mixturedensity.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pybrain/supervised/trainers/mixturedensity.py b/pybrain/supervised/trainers/mixturedensity.py
index 92cf1d1..973aa03 100644
--- a/pybrain/supervised/trainers/mixturedensity.py
+++ b/pybrain/supervised/trainers/mixturedensity.py
@@ -61,18 +61,18 @@ class BackpropTrainerMix(BackpropTrainer):
             gamma = np.array(gamma)/sumg
             
             invvariance = 1./par[nGauss:2*nGauss]**2
-            invstddev = 1./np.array(stddevs)
-            
+
             # calculate gradient wrt. mixture coefficients
             grad_c = par[0:nGauss] - gamma
 
-            # calculate gradient wrt. standard deviations
+            # calculate gradient wrt. logarithms of the standard deviations
+            # (the layer passes errors through to before its exponential)
             grad_m = []
             grad_s = []
             for k in range(nGauss):
                 delta = means[k]-target
                 grad_m.append(gamma[k]*delta*invvariance[k])
-                grad_s.append(-gamma[k]*(np.dot(delta,delta)*invvariance[k]*invstddev[k] - invstddev[k]))
+                grad_s.append(-gamma[k]*(np.dot(delta,delta)*invvariance[k] - nDims))
             
             self.module.outputerror[time] = -np.r_[grad_c,grad_s,np.array(grad_m).flatten()]
             self.module.backward()
-- 
2.43.0


From 8146a51151be0adf2d75baa3fdca62c6179b262d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:15 +0000
Subject: [PATCH 160/180] fix: iterating over the layers of a deep network does
 not reorder its parameters

---
 pybrain/unsupervised/trainers/deepbelief.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/unsupervised/trainers/deepbelief.py b/pybrain/unsupervised/trainers/deepbelief.py
index 5bd8d5e..0db985b 100644
--- a/pybrain/unsupervised/trainers/deepbelief.py
+++ b/pybrain/unsupervised/trainers/deepbelief.py
@@ -60,8 +60,8 @@ class DeepBeliefTrainer(Trainer):
         layercons = (self.net.connections[i][0] for i in layers)
         # The biascons will not be sorted; we have to sort them to zip nicely
         # with the corresponding layers.
-        biascons = self.net.connections[bias]
-        biascons.sort(key=lambda c: layers.index(c.outmod))
+        biascons = sorted(self.net.connections[bias],
+                          key=lambda c: layers.index(c.outmod))
         modules = list(zip(layers, layers[1:], layercons, biascons))
         for visible, hidden, layercon, biascon in modules:
             # An rbm gets its input as it is: the nonlinearity of the visible
-- 
2.43.0


From 753a3ae438413b547feb8f79b6952435f32948b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:46 +0000
Subject: [PATCH 161/180] fix: training tools without a convergence criterion
 train for the given number of epochs

---
 pybrain/tools/neuralnets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/tools/neuralnets.py b/pybrain/tools/neuralnets.py
index 8a76667..3c049b5 100644
--- a/pybrain/tools/neuralnets.py
+++ b/pybrain/tools/neuralnets.py
@@ -141,7 +141,7 @@ class NNregression(NNtools):
                     self.Graph.addData(1, epoch, err_tst)
 
                 # check if convegence criterion is fulfilled (no improvement after N epoincs)
-                if convtest >= convergence:
+                if convergence > 0 and convtest >= convergence:
                     converged = True
 
             if self.Graph is not None:
@@ -270,7 +270,7 @@ class NNclassifier(NNtools):
                     self.Graph.addData(1, epoch, r_tst)
 
                 # check if convegence criterion is fulfilled (no improvement after N epoincs)
-                if convtest >= convergence:
+                if convergence > 0 and convtest >= convergence:
                     converged = True
 
             if self.Graph is not None:
-- 
2.43.0


From ffe885e07a27a365210a57be2ec69ca92d136049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:46 +0000
Subject: [PATCH 162/180] fix: training tools evaluate the final weights when
 no best ones are known

---
 pybrain/tools/neuralnets.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pybrain/tools/neuralnets.py b/pybrain/tools/neuralnets.py
index 3c049b5..7ae5b1f 100644
--- a/pybrain/tools/neuralnets.py
+++ b/pybrain/tools/neuralnets.py
@@ -108,6 +108,7 @@ class NNregression(NNtools):
         inc = self.epoinc
         best_error = Infinity
         best_epoch = 0
+        bestweights = None
         learncurve_x = [0]
         learncurve_y = [0.0]
         valcurve_y = [0.0]
@@ -152,7 +153,8 @@ class NNregression(NNtools):
         logging.info("Best epoch: %6d, with error: %10g" % (best_epoch, best_error))
         if self.VDS is not None:
             # calculate same errors on VALIDATION data
-            self.Trainer.module.params[:] = bestweights.copy()
+            if bestweights is not None:
+                self.Trainer.module.params[:] = bestweights.copy()
             err_val = ModuleValidator.validate(Validator.MSE, self.Trainer.module, self.VDS)
             logging.info("Result on evaluation data: %10g" % err_val)
         # store training curve for saving into file
@@ -226,8 +228,9 @@ class NNclassifier(NNtools):
             self.Graph.setLegend(['training', 'test'], loc='lower right')
         epoch = 0
         inc = self.epoinc
-        best_error = 100.0
+        best_error = Infinity
         best_epoch = 0
+        bestweights = None
         learncurve_x = [0]
         learncurve_y = [0.0]
         valcurve_y = [0.0]
@@ -280,7 +283,8 @@ class NNclassifier(NNtools):
         logging.info("Best epoch: %6d, with error: %5.2f%%" % (best_epoch, best_error))
         if self.VDS is not None:
             # calculate errors on VALIDATION data
-            self.Trainer.module.params[:] = bestweights.copy()
+            if bestweights is not None:
+                self.Trainer.module.params[:] = bestweights.copy()
             if isinstance(self.DS, SequentialDataSet):
                 r_val = 100. * (1.0 - testOnSequenceData(self.Trainer.module, self.VDS))
             else:
-- 
2.43.0


From 01862cf91e4110965453c0cf238a3a9e7dd6614f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:46 +0000
Subject: [PATCH 163/180] fix: training curves are saved completely, with or
 without a test set

---
 pybrain/tools/neuralnets.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pybrain/tools/neuralnets.py b/pybrain/tools/neuralnets.py
index 7ae5b1f..ced903c 100644
--- a/pybrain/tools/neuralnets.py
+++ b/pybrain/tools/neuralnets.py
@@ -65,11 +65,12 @@ class NNtools(object):
         logging.info('Saving training curves into ' + learnfname)
         if self.trainCurve is None:
             logging.error('No training curve available for saving!')
-        learnf = open(learnfname, "wb")
+        learnf = open(learnfname, "w", newline="")
         writer = csv.writer(learnf, dialect='excel')
-        nDataSets = len(self.trainCurve)
-        for i in range(1, len(self.trainCurve[0]) - 1):
-            writer.writerow([self.trainCurve[k][i] for k in range(nDataSets)])
+        # without a test data set there is no curve of its errors
+        curves = [c for c in self.trainCurve if len(c) == len(self.trainCurve[0])]
+        for i in range(1, len(self.trainCurve[0])):
+            writer.writerow([c[i] for c in curves])
         learnf.close()
 
     def saveNetwork(self, fname):
-- 
2.43.0


From c6edeea39df28df4e49154a3c3e95a4a41bb104a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:46 +0000
Subject: [PATCH 164/180] fix: the last complete time window of a sequence is
 kept

---
 pybrain/tools/datasettools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/tools/datasettools.py b/pybrain/tools/datasettools.py
index 39a54b7..5f6dc2b 100644
--- a/pybrain/tools/datasettools.py
+++ b/pybrain/tools/datasettools.py
@@ -29,7 +29,7 @@ def convertSequenceToTimeWindows(DSseq, NewClass, winsize):
         target = DSseq['target'][si[i]:si[i + 1], :]
         nseqs += 1
         # cut this sequence into windows, assuming class is given at the last step of each sequence
-        for k in range(winsize, input.shape[0], winsize):
+        for k in range(winsize, input.shape[0] + 1, winsize):
             inp_win = input[k - winsize:k, :]
             tar_win = target[k - 1, :]
             DSwin.addSample(inp_win.flatten(), tar_win.flatten())
-- 
2.43.0


From ec4ab7cfee669b006451f60721d90961c2ab1c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:46 +0000
Subject: [PATCH 165/180] fix: normalization parameters survive saving and
 loading

---
 pybrain/tools/datasettools.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pybrain/tools/datasettools.py b/pybrain/tools/datasettools.py
index 5f6dc2b..0c19259 100644
--- a/pybrain/tools/datasettools.py
+++ b/pybrain/tools/datasettools.py
@@ -88,7 +88,7 @@ class DataSetNormalizer(object):
         # the first line determines whether we interpret the file as
         # giving min/max of features or mean/std
         x = f.readline()
-        self.meanstd = False if x == 'x' else True
+        self.meanstd = False if x.strip() == 'x' else True
 
         # the next line gives the normalization bounds
         bounds = array(f.readline().split()).astype(float)
@@ -104,10 +104,10 @@ class DataSetNormalizer(object):
 
     def save(self, fname):
         f = open(fname, "w+")
-        f.write('x\n')
-        f.write('%g %g' % (self.newmin, self.newmax))
+        f.write('meanstd\n' if self.meanstd else 'x\n')
+        f.write('%g %g\n' % (self.newmin, self.newmax))
         for i in range(self.dim):
-            f.write('%d %g %g' % (i + 1, self.par1[i], self.par2[i]))
+            f.write('%d %g %g\n' % (i + 1, self.par1[i], self.par2[i]))
         f.close()
 
     def normalizePattern(self, y):
-- 
2.43.0


From 8eb6113840f898ddce836071714f30f079234b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:46 +0000
Subject: [PATCH 166/180] fix: single patterns are normalized like the patterns
 of a dataset

---
 pybrain/tools/datasettools.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pybrain/tools/datasettools.py b/pybrain/tools/datasettools.py
index 0c19259..7c71568 100644
--- a/pybrain/tools/datasettools.py
+++ b/pybrain/tools/datasettools.py
@@ -4,7 +4,7 @@ from __future__ import print_function
 # to be used for supervised training.
 __author__ = "Martin Felder"
 
-from numpy import r_, array, isfinite
+from numpy import r_, array, isfinite, where
 from pybrain.datasets import SequentialDataSet
 
 
@@ -111,7 +111,9 @@ class DataSetNormalizer(object):
         f.close()
 
     def normalizePattern(self, y):
-        return (y - self.par1) * self.scale + self.newmin
+        if self.meanstd:
+            return (y - self.par1) / where(self.par2 > 0, self.par2, 1.0)
+        return (y - self.par1) * where(isfinite(self.scale), self.scale, 1.0) + self.newmin
 
     def normalize(self, ds, field='input'):
         """ normalize dataset or vector wrt. to stored min and max """
-- 
2.43.0


From d25d0b1e3f3644adeb65fd75edd62aebfd335ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:46 +0000
Subject: [PATCH 167/180] fix: pickles are read and written as binary files

---
 pybrain/tools/filehandling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/tools/filehandling.py b/pybrain/tools/filehandling.py
index 2c6be9b..ac9ebd7 100644
--- a/pybrain/tools/filehandling.py
+++ b/pybrain/tools/filehandling.py
@@ -42,7 +42,7 @@ def selectSome(strings, requiredsubstrings=[], requireAll=True):
 def pickleDumpDict(name, d):
     """ pickle-dump a variable into a file """
     try:
-        f = open(name + '.pickle', 'w')
+        f = open(name + '.pickle', 'wb')
         pickle.dump(d, f)
         f.close()
         return True
@@ -54,7 +54,7 @@ def pickleDumpDict(name, d):
 def pickleReadDict(name):
     """ pickle-read a (default: dictionnary) variable from a file """
     try:
-        f = open(name + '.pickle')
+        f = open(name + '.pickle', 'rb')
         val = pickle.load(f)
         f.close()
     except Exception as e:
-- 
2.43.0


From 2c4620819f7368713ce00175106990c2687e8d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:24 +0000
Subject: [PATCH 168/180] fix: sequences are cut into windows at integer
 indices

---
 pybrain/tools/datasettools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/tools/datasettools.py b/pybrain/tools/datasettools.py
index 7c71568..8e00f82 100644
--- a/pybrain/tools/datasettools.py
+++ b/pybrain/tools/datasettools.py
@@ -22,7 +22,7 @@ def convertSequenceToTimeWindows(DSseq, NewClass, winsize):
     DSwin = NewClass(DSseq.indim * winsize, DSseq.outdim)
     nsamples = 0
     nseqs = 0
-    si = r_[DSseq['sequence_index'].flatten(), DSseq.endmarker['sequence_index']]
+    si = r_[DSseq['sequence_index'].flatten(), DSseq.endmarker['sequence_index']].astype(int)
     for i in range(DSseq.getNumSequences()):
         # get one sequence as arrays
         input = DSseq['input'][si[i]:si[i + 1], :]
-- 
2.43.0


From 4f48a9be055ef2a7ed54420ca0465645f42c819d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:24 +0000
Subject: [PATCH 169/180] fix: SVM data sets list their targets

---
 pybrain/tools/svmdata.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/pybrain/tools/svmdata.py b/pybrain/tools/svmdata.py
index b9761cb..5470373 100644
--- a/pybrain/tools/svmdata.py
+++ b/pybrain/tools/svmdata.py
@@ -131,14 +131,7 @@ class SVMData(SupervisedDataSet):
 
     def getTargets(self):
         """ return the targets of the dataset, preserving the current sample pointer """
-        self.storePointer()
-        self.reset()
-        targets = []
-        while not self.endOfSequences():
-            input, target, dummy = self.getSample()
-            targets.append(target)
-        self.recallPointer()
-        return targets
+        return list(self.getField('target').copy())
 
     def getFileName(self):
         return self.filename
-- 
2.43.0


From bd85f675b981ea731985462bf159017efaafc2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:24 +0000
Subject: [PATCH 170/180] fix: SVM data sets count the samples and classes of
 the file last loaded

---
 pybrain/tools/svmdata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pybrain/tools/svmdata.py b/pybrain/tools/svmdata.py
index 5470373..388d69d 100644
--- a/pybrain/tools/svmdata.py
+++ b/pybrain/tools/svmdata.py
@@ -34,11 +34,13 @@ class SVMData(SupervisedDataSet):
         SupervisedDataSet.__init__(self, len(x[0]), 1)
         self.setField('input'  , x)
         self.setField('target' , y)
+        self.nSamples = len(x)
 
         flat_labels = list(self.getField('target').flatten())
         classes = list(set(flat_labels))
         self._classes = classes
         self.nClasses = len(classes)
+        self.classHist = {}
         for class_ in classes:
             self.classHist[class_] = flat_labels.count(class_)
 
@@ -99,6 +101,7 @@ class SVMData(SupervisedDataSet):
                 xi.append(0.)
 
         self._setDataFields(x, y)
+        self.nCls = self.nClasses
 
 
     def loadRawData(self, fname):
-- 
2.43.0


From 95f0e6c6d7723e84a603a5d9fb3a43855652741e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:24 +0000
Subject: [PATCH 171/180] fix: MNIST labels are read as bytes

---
 pybrain/tools/datasets/mnist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/tools/datasets/mnist.py b/pybrain/tools/datasets/mnist.py
index 2f0e990..261c021 100644
--- a/pybrain/tools/datasets/mnist.py
+++ b/pybrain/tools/datasets/mnist.py
@@ -7,7 +7,7 @@ from pybrain.datasets import SupervisedDataSet
 
 
 def labels(filename):
-    fp = open(filename)
+    fp = open(filename, 'rb')
     magicnumber, length = struct.unpack('>ii', fp.read(8))
     assert magicnumber in (2049, 2051), ("Not an MNIST file: %i" % magicnumber)
     for _ in range(length):
-- 
2.43.0


From 6c4bf87002bd8389281091b43fe7471e2e8a3fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:03 +0000
Subject: [PATCH 172/180] fix: the last sequence is cut into time windows too

---
 pybrain/tools/datasettools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/tools/datasettools.py b/pybrain/tools/datasettools.py
index 8e00f82..f9af890 100644
--- a/pybrain/tools/datasettools.py
+++ b/pybrain/tools/datasettools.py
@@ -22,7 +22,7 @@ def convertSequenceToTimeWindows(DSseq, NewClass, winsize):
     DSwin = NewClass(DSseq.indim * winsize, DSseq.outdim)
     nsamples = 0
     nseqs = 0
-    si = r_[DSseq['sequence_index'].flatten(), DSseq.endmarker['sequence_index']].astype(int)
+    si = r_[DSseq['sequence_index'].flatten(), len(DSseq)].astype(int)
     for i in range(DSseq.getNumSequences()):
         # get one sequence as arrays
         input = DSseq['input'][si[i]:si[i + 1], :]
-- 
2.43.0


From c80cbd538c5a0404a7f499f1bc57d1b4361de71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:42 +0000
Subject: [PATCH 173/180] fix: principal components of one-dimensional data

---
 pybrain/auxiliary/pca.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/auxiliary/pca.py b/pybrain/auxiliary/pca.py
index 47887e3..b63469f 100644
--- a/pybrain/auxiliary/pca.py
+++ b/pybrain/auxiliary/pca.py
@@ -8,7 +8,7 @@ of a dataset."""
 __author__ = 'Justin S Bayer, bayerj@in.tum.de'
 
 
-from scipy import asmatrix, cov
+from scipy import asmatrix, atleast_2d, cov
 from scipy.linalg import inv, eig
 from numpy.random import standard_normal
 
@@ -47,7 +47,7 @@ def pca(data, dim):
     # We have to make a copy of the original data and substract the mean
     # of every entry
     data = makeCentered(data)
-    cm = cov(data.T)
+    cm = atleast_2d(cov(data.T))
 
     # OPT only calculate the dim first eigenvectors here
     # The following calculation may seem a bit "weird" but also correct to me.
-- 
2.43.0


From 79b429384dea4fb793c007beaa8e778351555d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:42 +0000
Subject: [PATCH 174/180] fix: Gaussian processes build their sampling grid

---
 pybrain/auxiliary/gaussprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/auxiliary/gaussprocess.py b/pybrain/auxiliary/gaussprocess.py
index 0deda60..c705d74 100644
--- a/pybrain/auxiliary/gaussprocess.py
+++ b/pybrain/auxiliary/gaussprocess.py
@@ -59,7 +59,7 @@ class GaussianProcess:
             assert len(start) == len(stop) == len(step)
             dimstr = ["start[%i]:stop[%i]:step[%i], " % (i, i, i) for i in range(len(start))]
             dimstr = ''.join(dimstr)
-        return eval('c_[map(ravel, mgrid[' + dimstr + '])]').T
+        return eval('c_[list(map(ravel, mgrid[' + dimstr + ']))]').T
 
     def _buildCov(self, a, b):
         K = zeros((len(a), len(b)), float)
-- 
2.43.0


From a8fb510b228d7b62205410a0b9c8c6baa5618aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:42 +0000
Subject: [PATCH 175/180] fix: untrained Gaussian processes predict for the
 points they are asked about

---
 pybrain/auxiliary/gaussprocess.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pybrain/auxiliary/gaussprocess.py b/pybrain/auxiliary/gaussprocess.py
index c705d74..ac05b10 100644
--- a/pybrain/auxiliary/gaussprocess.py
+++ b/pybrain/auxiliary/gaussprocess.py
@@ -110,6 +110,8 @@ class GaussianProcess:
     def _calculate(self):
         # calculate only of necessary
         if len(self.trainx) == 0:
+            self.pred_mean = zeros(len(self.testx))
+            self.pred_cov = eye(len(self.testx))
             return
 
         # build covariance matrices
-- 
2.43.0


From b1fc67a48e533b25a8cbee75f1fdbcdc6aa5ae0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:42 +0000
Subject: [PATCH 176/180] fix: universal search allows for complexities without
 programs

---
 pybrain/rl/learners/meta/levinsearch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/learners/meta/levinsearch.py b/pybrain/rl/learners/meta/levinsearch.py
index 53d5611..8de1d3a 100644
--- a/pybrain/rl/learners/meta/levinsearch.py
+++ b/pybrain/rl/learners/meta/levinsearch.py
@@ -41,7 +41,7 @@ class LevinSeach:
             # execute all programs, but with a set time-limit:
             # every phase the total time used doubles (= 2**maxLevin)
             for c in range(maxLevin):
-                for p in complexities[c]:
+                for p in complexities.get(c, []):
                     boundP = timeBoundExecution(p, 2**(maxLevin-c)/maxLevin)
                     res = boundP.run(input)
                     if self.stoppingCriterion(res):
-- 
2.43.0


From cfdaffd925bbfaa5366897096f02566ba2a0c853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:42 +0000
Subject: [PATCH 177/180] fix: the initial mixture of Gaussians has uniform
 weights that add up to one

---
 pybrain/tools/mixtures/mogpuremax.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pybrain/tools/mixtures/mogpuremax.py b/pybrain/tools/mixtures/mogpuremax.py
index 9d2eac1..e710455 100644
--- a/pybrain/tools/mixtures/mogpuremax.py
+++ b/pybrain/tools/mixtures/mogpuremax.py
@@ -32,6 +32,7 @@ class MixtureOfGaussians:
         self.alpha = ones(self.numOGaus)
         self.sigma *= self.epsilon
         self.alpha /= float(self.numOGaus)
+        self.alpha = self.invSigmo(self.alpha)
         for i in range(self.numOGaus):
             self.mue[i] = self.distRange * float(i) * self.distFakt + self.rangeMin
         self.baseline = 0.0
-- 
2.43.0


From ff20bba202aa8b3d201f63e81d304496e0fdb2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:42 +0000
Subject: [PATCH 178/180] fix: weights and results of experiments are pickled
 to binary files

---
 pybrain/tools/example_tools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pybrain/tools/example_tools.py b/pybrain/tools/example_tools.py
index 37065a1..a97b7a2 100644
--- a/pybrain/tools/example_tools.py
+++ b/pybrain/tools/example_tools.py
@@ -28,7 +28,7 @@ class ExTools():
 
     # Method for loading a weight matrix and initialize the network
     def loadWeights(self, filename):
-        filepointer = open(filename)
+        filepointer = open(filename, 'rb')
         self.agent.learner.current = load(filepointer)
         filepointer.close()
         self.agent.learner.gd.init(self.agent.learner.current)
@@ -37,13 +37,13 @@ class ExTools():
 
     # Method for saving the weight matrix    
     def saveWeights(self, filename, w):
-        filepointer = open(filename, 'w+')
+        filepointer = open(filename, 'wb')
         dump(w, filepointer)
         filepointer.close()
 
     # Method for saving the weight matrix    
     def saveResults(self, filename, results):
-        filepointer = open(filename, 'w+')
+        filepointer = open(filename, 'wb')
         dump(results, filepointer)
         filepointer.close()
 
-- 
2.43.0


From 02562403d31a86434849898541bebee09472d08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:42 +0000
Subject: [PATCH 179/180] fix: every experiment keeps its own lists of results

---
 pybrain/tools/example_tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pybrain/tools/example_tools.py b/pybrain/tools/example_tools.py
index a97b7a2..ffa56fb 100644
--- a/pybrain/tools/example_tools.py
+++ b/pybrain/tools/example_tools.py
@@ -25,6 +25,8 @@ class ExTools():
         self.batch = batch
         self.prnts = prnts
         self.kind = kind
+        self.rl = []
+        self.rll = []
 
     # Method for loading a weight matrix and initialize the network
     def loadWeights(self, filename):
-- 
2.43.0


From 5f533bfd7b5bba665494a4d3e374544e83c18ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:23 +0000
Subject: [PATCH 180/180] fix: principal components are orthonormal also when
 variances coincide

---
 pybrain/auxiliary/pca.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pybrain/auxiliary/pca.py b/pybrain/auxiliary/pca.py
index b63469f..efbb148 100644
--- a/pybrain/auxiliary/pca.py
+++ b/pybrain/auxiliary/pca.py
@@ -9,7 +9,7 @@ __author__ = 'Justin S Bayer, bayerj@in.tum.de'
 
 
 from scipy import asmatrix, atleast_2d, cov
-from scipy.linalg import inv, eig
+from scipy.linalg import inv, schur
 from numpy.random import standard_normal
 
 
@@ -54,8 +54,10 @@ def pca(data, dim):
     # The eigenvectors with the dim highest eigenvalues have to be selected
     # We keep track of the indexes via enumerate to restore the right ordering
     # later.
-    eigval, eigvec = eig(cm)
-    eigval = [(val, ind) for ind, val  in enumerate(eigval)]
+    # The covariance matrix is symmetric, so its Schur vectors are orthonormal
+    # eigenvectors (those found by eig need not be orthogonal, or even real).
+    eigval, eigvec = schur(cm)
+    eigval = [(val, ind) for ind, val  in enumerate(eigval.diagonal())]
     eigval.sort()
     eigval[:-dim] = []  # remove all but the highest dim elements
 
-- 
2.43.0

