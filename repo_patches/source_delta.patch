From ff86146e14d8d6ebd179d4a7178a105cacb8a5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:38:29 +0000
Subject: [PATCH 01/35] fix: don't admit a nonconforming individual when setup
 gives up

---
 ade/population.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ade/population.py b/ade/population.py
index 75a3a24..9413f56 100644
--- a/ade/population.py
+++ b/ade/population.py
@@ -817,6 +817,8 @@ class Population(object):
             k = 0
             while running() and needMore():
                 i = getIndividual()
+                # No conforming individual if that resulted in an abort
+                if not running(): break
                 if blank:
                     i.SSE = np.inf
                     addIndividual(i)
-- 
2.43.0


From 754f524761d8e71f079586454ebfbe8c8ea4b63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:44:43 +0000
Subject: [PATCH 02/35] fix: don't admit individuals with NaN fitness during
 setup

---
 ade/population.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/population.py b/ade/population.py
index 9413f56..b887072 100644
--- a/ade/population.py
+++ b/ade/population.py
@@ -809,7 +809,7 @@ class Population(object):
                 self.abort()
                 return
             self.reporter(i)
-            isFinite = not np.isinf(float(i.SSE))
+            isFinite = np.isfinite(float(i.SSE))
             if isFinite and needMore(): addIndividual(i)
 
         @defer.inlineCallbacks
-- 
2.43.0


From a95c3340b74e21cc34fc8d6e9a5cbb3dff10e4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:14:52 +0000
Subject: [PATCH 03/35] fix: compare the best individual, not the bound method,
 with goalSSE

---
 ade/de.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/de.py b/ade/de.py
index ed8b67e..748fec5 100644
--- a/ade/de.py
+++ b/ade/de.py
@@ -608,7 +608,7 @@ class DifferentialEvolution(object):
                 if result is None:
                     self.shutdown()
             if not self.running: break
-            if self.goalSSE and self.p.best < self.goalSSE:
+            if self.goalSSE and self.p.best() < self.goalSSE:
                 msg(-1,
                     "Goal SSE of {:.5g} has been met, stopped.", self.goalSSE)
                 break
-- 
2.43.0


From 2c4d21ad9b7ef578706beeee655d1bac2c038a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:39 +0000
Subject: [PATCH 04/35] fix: make hash of an individual consistent with its
 equality

An SSE beyond single-precision range made hashing raise OverflowError.
Equal individuals could also hash differently, e.g., in another process
after unpickling or with values of -0.0 vs 0.0.
---
 ade/individual.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ade/individual.py b/ade/individual.py
index 7ffe76d..ef77935 100644
--- a/ade/individual.py
+++ b/ade/individual.py
@@ -31,7 +31,7 @@ L{Population} set up a population full of them, and have
 L{DifferentialEvolution} create challengers as it does its thing.
 """
 
-import random, pickle, time, struct
+import random, pickle, time
 
 import numpy as np
 from twisted.internet import defer, task
@@ -187,8 +187,9 @@ class Individual(object):
         return SSE >= 0
 
     def __hash__(self):
-        return hash(
-            struct.pack('<f', self.SSE) + np.array(self.values).tobytes())
+        SSE = float(self.SSE)
+        if np.isnan(SSE): SSE = float('-inf')
+        return hash((SSE,) + tuple(float(x) for x in self.values))
     
     def __eq__(self, other):
         """
-- 
2.43.0


From 44fe953c4d579047f62e10969068df064fa3a925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:39 +0000
Subject: [PATCH 05/35] fix: accumulate elapsed time in EvalTimer, not absolute
 time

---
 ade/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/util.py b/ade/util.py
index 97c8586..638aee3 100644
--- a/ade/util.py
+++ b/ade/util.py
@@ -163,7 +163,7 @@ class EvalTimer(Picklable):
         """
         def done(result):
             ID = args[self.k]
-            self.times[ID] = self.times.get(ID, 0) + time.time()
+            self.times[ID] = self.times.get(ID, 0) + time.time() - t0
             self.Ns[ID] = self.Ns.get(ID, 0) + 1
             return result
         
-- 
2.43.0


From 51e4f0eca2b41e0b4309aa4406d06c4785620e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:05 +0000
Subject: [PATCH 06/35] fix: give each constraint wrapper its own parameters

The wrappers yielded by one iteration shared a dict of parameters, so a
method could get stale values, or linear ones in place of log-space ones.
They also shared the loop variables, so that all wrappers in a list of
them called the last method.
---
 ade/constraints.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/ade/constraints.py b/ade/constraints.py
index 10e3203..4b425c7 100644
--- a/ade/constraints.py
+++ b/ade/constraints.py
@@ -134,27 +134,27 @@ class Constraints(object):
         iteration and appending. But you can't get or set individual
         items by index.
         """
-        def wrapper(params):
-            if linearParams:
-                if not linearParams.issubset(params):
-                    return True
-                for name in linearParams:
-                    if name not in newParams:
+        def wrap(func, linearParams, logParams):
+            def wrapper(params):
+                newParams = {}
+                if linearParams:
+                    if not linearParams.issubset(params):
+                        return True
+                    for name in linearParams:
                         newParams[name] = params[name]
-            if logParams:
-                if not logParams.issubset(params):
-                    return True
-                for name in logParams:
-                    if name not in newParams:
+                if logParams:
+                    if not logParams.issubset(params):
+                        return True
+                    for name in logParams:
                         newParams[name] = np.power(10.0, params[name])
-            result = func(newParams)
-            if self.debug:
-                print(sub("BOGUS: {}, {}", func.__name__, newParams))
-            return result
+                result = func(newParams)
+                if self.debug:
+                    print(sub("BOGUS: {}, {}", func.__name__, newParams))
+                return result
+            return wrapper
         
-        newParams = {}
         for func, linearParams, logParams in self.cList:
-            yield wrapper
+            yield wrap(func, linearParams, logParams)
         for func in self.fList:
             yield func
 
-- 
2.43.0


From 937a4567480632ea26fa5bc513380d7788986570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:01 +0000
Subject: [PATCH 07/35] fix: always pick an unallocated row for a new history
 record

With unallocated rows between just two records, or before the last row, a
row that was already in use could get picked and its record overwritten.
---
 ade/history.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/ade/history.py b/ade/history.py
index e5255e3..196eb1b 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -991,16 +991,12 @@ class History(object):
         #--- Pick a row index for the new record ------------------------------
         # Sort local array version of K in place
         K.sort()
-        for kk, kr in enumerate(K[1:-1]):
-            if kr == 0: continue
-            if kr == N-1: break
-            if K[kk] != kr-1:
-                return k, kr-1
-            if K[kk+2] != kr+1:
+        for kk, kr in enumerate(K[:-1]):
+            if K[kk+1] != kr+1:
                 return k, kr+1
         if K[0] > 0:
             return k, K[0]-1
-        return k, min([N, K[-1]+1])
+        return k, K[-1]+1
 
     @defer.inlineCallbacks
     def add(self, i, neverInPop=False):
-- 
2.43.0


From 5872b29b85dcf7f901cce4d8c7db1121095b58a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:01 +0000
Subject: [PATCH 08/35] fix: don't fail if there's no history record to be
 bumped

Adding to a roster full of current population members raised an exception
with the lock held, so that no further history operation would proceed.
---
 ade/history.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ade/history.py b/ade/history.py
index 196eb1b..30f2e4e 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -792,6 +792,8 @@ class ClosestPairFinder(object):
         """
         # The number of active rows
         Nr = len(self.K)
+        if Nr == 0:
+            return defer.succeed(None)
         if Nr == 1:
             return defer.succeed(list(self.K)[0])
         if Np is None: Np = self.Np_max
@@ -1057,8 +1059,12 @@ class History(object):
                 # in the current population are protected and exempt)
                 # before adding
                 kr = yield self.cpf()
-                if kr is not None: self.purge(kr)
-                k, kr = self.kkr(SSE, N)
+                if kr is None:
+                    # Nobody can be bumped
+                    self.dLock.release()
+                    defer.returnValue(None)
+                self.purge(kr)
+                k, kr = self.kkr(SSE, N) if self.K else (0, kr)
             writeRecord(k, kr)
             self.dLock.release()
         else: kr = None
-- 
2.43.0


From 3f8aab75ec389f94573c1ee095d4c38665334922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:01 +0000
Subject: [PATCH 09/35] fix: ignore individuals beyond single precision in
 history

Their records got infinite values, which made the closest pair finder
raise an exception with the lock held.
---
 ade/history.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ade/history.py b/ade/history.py
index 30f2e4e..0a8e9bd 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -1024,7 +1024,6 @@ class History(object):
             array, and inserts the row index I{kr} into my I{K} list
             at position I{k}.
             """
-            SV = np.array([i.SSE] + list(i.values))
             self.X[kr,:] = SV
             self.K.insert(k, kr)
             self.N_total += 1           # Add to the lifetime total count
@@ -1044,7 +1043,9 @@ class History(object):
                 self.kr[hash(i)] = kr
 
         SSE = i.SSE
-        if np.isfinite(SSE):
+        SV = np.array([SSE] + list(i.values))
+        # The record must be finite in the precision it gets stored with
+        if np.all(np.isfinite(SV.astype('f4'))):
             yield self.dLock.acquire()
             N = len(self.K)
             if N == 0:
-- 
2.43.0


From a708c6cef12ed955bf8ce79dda2fc99ea830afff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:17 +0000
Subject: [PATCH 10/35] fix: keep track of duplicate population members in
 history

Equal members shared one entry of the map from individuals to records, so
only one of their records could ever cease to be that of a member.
---
 ade/history.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ade/history.py b/ade/history.py
index 0a8e9bd..e0626c7 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -1039,8 +1039,11 @@ class History(object):
                 # have cpf initially disregard it
                 self.cpf.clearRow(kr)
                 # Add to the individual-row map so it can be removed
-                # from the population later
-                self.kr[hash(i)] = kr
+                # from the population later, with a key of its own if
+                # it's a duplicate
+                key = hash(i)
+                while key in self.kr: key += 1
+                self.kr[key] = kr
 
         SSE = i.SSE
         SV = np.array([SSE] + list(i.values))
@@ -1106,6 +1109,7 @@ class History(object):
                 # Must be an Individual
                 key = hash(x)
                 if key not in self.kr: return
+                while key+1 in self.kr: key += 1
                 kr = self.kr.pop(key)
             self.Kp.discard(kr)
             # This row is no longer a population member and is thus
-- 
2.43.0


From 0abe184d3658bf1ba3b97304408e1344fb331d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:17 +0000
Subject: [PATCH 11/35] fix: recognize any integer as a history row index

After loading, row indices are 16-bit unsigned integers, which were taken
for individuals.
---
 ade/history.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ade/history.py b/ade/history.py
index e0626c7..d6dbbff 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -1100,10 +1100,10 @@ class History(object):
         from being considered part of the current population.
         """
         def gotLock():
-            if isinstance(x, (int, np.int64)):
+            if isinstance(x, (int, np.integer)):
                 # This was tricky to find; sometimes shows up as int,
-                # sometimes as np.int64, and Py3 distinguishes between
-                # them
+                # sometimes as np.int64 (or np.uint16 after loading),
+                # and Py3 distinguishes between them
                 kr = x
             else:
                 # Must be an Individual
-- 
2.43.0


From 228ce33216fa0fd542382be70fc042ddaa4c43ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:17 +0000
Subject: [PATCH 12/35] fix: don't protect the history record of a blacklisted
 individual

Its record stayed that of a current member forever, because the changed
fitness made the individual unrecognizable when it got replaced.
---
 ade/history.py    | 13 ++++++++-----
 ade/individual.py |  1 +
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/ade/history.py b/ade/history.py
index d6dbbff..3c148ba 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -1100,21 +1100,24 @@ class History(object):
         from being considered part of the current population.
         """
         def gotLock():
-            if isinstance(x, (int, np.integer)):
+            if key is None:
                 # This was tricky to find; sometimes shows up as int,
                 # sometimes as np.int64 (or np.uint16 after loading),
                 # and Py3 distinguishes between them
                 kr = x
             else:
                 # Must be an Individual
-                key = hash(x)
-                if key not in self.kr: return
-                while key+1 in self.kr: key += 1
-                kr = self.kr.pop(key)
+                k = key
+                if k not in self.kr: return
+                while k+1 in self.kr: k += 1
+                kr = self.kr.pop(k)
             self.Kp.discard(kr)
             # This row is no longer a population member and is thus
             # expendable, so have cpf start considering it
             self.cpf.setRow(kr, self.X[kr,:])
+
+        # An individual's hash may have changed when the lock is acquired
+        key = None if isinstance(x, (int, np.integer)) else hash(x)
         return self.dLock.run(gotLock)
 
     def purgePop(self):
diff --git a/ade/individual.py b/ade/individual.py
index ef77935..bf8583c 100644
--- a/ade/individual.py
+++ b/ade/individual.py
@@ -247,6 +247,7 @@ class Individual(object):
         Sets my SSE to the worst possible value and forces my population
         to update its sorting to account for my degraded status.
         """
+        self.p.history.notInPop(self)
         self.SSE = float('+inf')
         del self.p.KS
     
-- 
2.43.0


From 1bc03f6437ff8ba52867772f006d9568011365fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:47 +0000
Subject: [PATCH 13/35] fix: include the best records in history queries if
 their SSE is zero

The ratio of zero to zero isn't a number, so they were excluded.
---
 ade/history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/history.py b/ade/history.py
index 3c148ba..d39513b 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -232,7 +232,7 @@ class Analysis(object):
         elif kw.get('neverInPop', False):
             K = [k for k in self.K if k in self.Kn]
         else: K = self.K
-        KK = np.flatnonzero(self.X[K,0]/SSE_best <= maxRatio)
+        KK = np.flatnonzero(self.X[K,0] <= maxRatio*SSE_best)
         K = np.array(K)[KK]
         result = [subset(0)]
         for name in names:
-- 
2.43.0


From 8ca6259132abeaeb74b3e532ac39db5e318b525d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:30 +0000
Subject: [PATCH 14/35] fix: let any valid individual replace a NaN one as best
 reported

---
 ade/report.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/ade/report.py b/ade/report.py
index b9c0e34..1af67ee 100644
--- a/ade/report.py
+++ b/ade/report.py
@@ -114,6 +114,19 @@ class Reporter(object):
         ratio = float(betterSSE) / float(worseSSE)
         return abs(ratio - 1.0) < self.minDiff 
 
+    def isBetter(self, i):
+        """
+        Returns C{True} if the L{Individual} I{i} is better than my
+        I{iBest}, which a bogus one (SSE is C{np.nan}) never is unless
+        it's the first.
+        """
+        def isNan(x):
+            return x.SSE != x.SSE
+
+        if self.iBest is None: return True
+        if isNan(self.iBest): return not isNan(i)
+        return i < self.iBest
+
     def runCallbacks(self, i, iPrevBest=None):
         """
         Queues up a report for the supplied L{Individual} I{i}, calling
@@ -241,7 +254,7 @@ class Reporter(object):
             # is considered equivalent.
             return not self.isEquivSSE(i, self.iLastReported)
         
-        if self.iBest is None or i < self.iBest:
+        if self.isBetter(i):
             # Register new best, regardless of whether it gets reported
             self.iBest = i
             isBest = True
@@ -443,7 +456,7 @@ class Reporter(object):
                 self.newBest(i, force)
                 progressChar("*")
                 return
-            if i < self.iBest or force:
+            if self.isBetter(i) or force:
                 # Better than (former) best, so make best. The "ratio"
                 # of how much worse than best will be 0
                 self.newBest(i, force)
@@ -457,7 +470,7 @@ class Reporter(object):
         # is other, because ratio is other SSE vs this SSE
         rir = self.msgRatio(iOther, i, noProgress=noProgress)
         # If better than best (or first), make new best
-        if self.iBest is None or i < self.iBest:
+        if self.isBetter(i):
             self.newBest(i, force)
             progressChar("+")
             # Bonus rir
-- 
2.43.0


From a0355d2acb9477e7555b0a019a783d4bb7923f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:30 +0000
Subject: [PATCH 15/35] fix: restore the previous best individual when a
 callback complains

---
 ade/report.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ade/report.py b/ade/report.py
index 1af67ee..b285023 100644
--- a/ade/report.py
+++ b/ade/report.py
@@ -67,6 +67,7 @@ class Reporter(object):
         self.complaintCallback = complaintCallback
         self.pm = self.p.pm
         self.iBest = None
+        self.iPrevBests = []
         self.iLastReported = None
         self.callbacks = []
         self.cbrInProgress = False
@@ -194,11 +195,13 @@ class Reporter(object):
                         # Modify the individual in-place to never again be
                         # winner of a challenge or basis for new individuals
                         i.blacklist()
-                        if iPrevBest and iPrevBest < self.iBest:
-                            self.iBest = iPrevBest
+                        for iPrevBest in self.iPrevBests:
+                            if self.isBetter(iPrevBest):
+                                self.iBest = iPrevBest
             if msg.lineWritten(): self.progressChar()
             self.cbrInProgress = False
 
+        if iPrevBest is not None: self.iPrevBests.append(iPrevBest)
         self.cbrScheduled(i)
         if self.cbrInProgress:
             return
@@ -254,6 +257,7 @@ class Reporter(object):
             # is considered equivalent.
             return not self.isEquivSSE(i, self.iLastReported)
         
+        iBackupBest = self.iBest
         if self.isBetter(i):
             # Register new best, regardless of whether it gets reported
             self.iBest = i
@@ -263,7 +267,6 @@ class Reporter(object):
             if self.p.debug:
                 msg(0, "{}\n\t--->\n{}\n", self.iBest, i)
             self.iLastReported = i
-            iBackupBest = self.iBest
             self.runCallbacks(i, iBackupBest)
         
     def msgRatio(self, iNum, iDenom, bogus_char="!", noProgress=False):
-- 
2.43.0


From 66e890f4eabc4097f1b917d0aa34dbd6ffbd74d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:30 +0000
Subject: [PATCH 16/35] fix: ignore any trailing comment in specs

---
 ade/specs.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ade/specs.py b/ade/specs.py
index 3e56f5d..2318519 100644
--- a/ade/specs.py
+++ b/ade/specs.py
@@ -218,8 +218,9 @@ class SpecsLoader(object):
         dictDef = False
         dictName = None
         for k, line in enumerate(fh):
-            line = line.strip()
-            if not line or line.startswith('#'):
+            line = line.split('#')[0].strip()
+            if not line:
+                # Blank or just a comment
                 continue
             if line.startswith('--'):
                 # Start or end of a dict definition
@@ -253,9 +254,6 @@ class SpecsLoader(object):
                 tokens.pop(0)
             seq = []
             for token in tokens:
-                if token.startswith('#'):
-                    # Trailing comment
-                    break
                 seq.append(self.parseValue(token.rstrip(',')))
             if len(seq) == 1:
                 # A single value token is its own attribute, not part
-- 
2.43.0


From fefa0b423807df98eae5ff6cb11cee5dcc088087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:30 +0000
Subject: [PATCH 17/35] fix: don't fail on an empty specs file

---
 ade/specs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ade/specs.py b/ade/specs.py
index 2318519..e75e289 100644
--- a/ade/specs.py
+++ b/ade/specs.py
@@ -217,6 +217,7 @@ class SpecsLoader(object):
         """
         dictDef = False
         dictName = None
+        k = -1
         for k, line in enumerate(fh):
             line = line.split('#')[0].strip()
             if not line:
-- 
2.43.0


From 8ca287c11577917e8feba7c7e70a626f4b00dbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:30 +0000
Subject: [PATCH 18/35] fix: return an empty dict for a nonexistent entry of
 specs

---
 ade/specs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ade/specs.py b/ade/specs.py
index e75e289..0251c52 100644
--- a/ade/specs.py
+++ b/ade/specs.py
@@ -144,14 +144,14 @@ class Specs(object):
             dct = kw['dct']
             if first in dct:
                 obj = dct[first]
-                if names and isinstance(obj, dict):
-                    kw['dct'] = obj
+                if names:
+                    kw['dct'] = obj if isinstance(obj, dict) else {}
                     return self.get(*names, **kw)
                 return obj
             return {}
         obj = getattr(self, first, {})
-        if names and isinstance(obj, dict):
-            kw['dct'] = obj
+        if names:
+            kw['dct'] = obj if isinstance(obj, dict) else {}
             return self.get(*names, **kw)
         return obj
     
-- 
2.43.0


From df3eb7f67557c9e9bd1f36ad2c58f26fed87196a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:47 +0000
Subject: [PATCH 19/35] fix: invalidate the sort when setup adds an individual

---
 ade/population.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ade/population.py b/ade/population.py
index b887072..cc5b404 100644
--- a/ade/population.py
+++ b/ade/population.py
@@ -797,6 +797,8 @@ class Population(object):
             is manipulated.
             """
             self.iList.append(i)
+            # Invalidate sorting
+            del self.KS
             self.dLocks.append(defer.DeferredLock())
             self.history.add(i)
 
-- 
2.43.0


From 2f556e494d5fe2e4d3c35a61fbb477ed5ded53af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:15:57 +0000
Subject: [PATCH 20/35] fix: use the last row of each Latin hypercube in setup

---
 ade/population.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/population.py b/ade/population.py
index cc5b404..541e122 100644
--- a/ade/population.py
+++ b/ade/population.py
@@ -774,7 +774,7 @@ class Population(object):
 
         def getNextIV():
             k, IV = kIV
-            if k+1 == IV.shape[0]:
+            if k == IV.shape[0]:
                 refreshIV()
                 k, IV = kIV
             kIV[0] += 1
-- 
2.43.0


From 20c5c6ecf8314cca549af8dfa78737fd5933e12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:15:57 +0000
Subject: [PATCH 21/35] fix: acquire no locks for a request of the same lock
 twice

---
 ade/population.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ade/population.py b/ade/population.py
index 541e122..3541978 100644
--- a/ade/population.py
+++ b/ade/population.py
@@ -1141,11 +1141,11 @@ class Population(object):
         """
         if self.running is False:
             return defer.succeed(None)
+        if len(set(indices)) < len(indices):
+            raise ValueError(
+                "Requesting the same lock twice will result in deadlock!")
         dList = []
         for k in indices:
-            if indices.count(k) > 1:
-                raise ValueError(
-                    "Requesting the same lock twice will result in deadlock!")
             if k >= len(self.dLocks):
                 # Invalid index, we must be shutting down
                 self.release()
-- 
2.43.0


From 9215d977aa07183d371f5de57c17c279f8a82fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:19:40 +0000
Subject: [PATCH 22/35] fix: have lineWritten tell that a line was written

---
 ade/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/util.py b/ade/util.py
index 638aee3..745fb9b 100644
--- a/ade/util.py
+++ b/ade/util.py
@@ -231,7 +231,7 @@ class Messenger(object):
         """
         if not self.fh:
             return
-        self._lineWritten = True
+        self._lineWasWritten = True
         try:
             if self.newlineNeeded:
                 self.fh.write("\n")
-- 
2.43.0


From 20f8f10f7e5a17978f0eb79e6264b989951bb04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:19:47 +0000
Subject: [PATCH 23/35] fix: return the file handle from a message after a
 blank line

---
 ade/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/util.py b/ade/util.py
index 745fb9b..ec83ddf 100644
--- a/ade/util.py
+++ b/ade/util.py
@@ -275,7 +275,7 @@ class Messenger(object):
             return fhSet(sys.stdout if arg else None)
         if isinstance(arg, int):
             self.writeLine("\n"*arg)
-            return
+            return self.fh
         return fhSet(None)
 
     def lineWritten(self):
-- 
2.43.0


From c4ff26c68f6b672d4c2b3861c61d060dd9663be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:19:56 +0000
Subject: [PATCH 24/35] fix: stop logging to a file that can't even be closed

---
 ade/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ade/util.py b/ade/util.py
index ec83ddf..dd66546 100644
--- a/ade/util.py
+++ b/ade/util.py
@@ -264,9 +264,10 @@ class Messenger(object):
             if fh is self.fh:
                 return fh
             fhPrev = self.fh
-            if self.fh and self.fh is not sys.stdout:
-                self.fh.close()
             self.fh = fh
+            if fhPrev and fhPrev is not sys.stdout:
+                try: fhPrev.close()
+                except: pass
             return fhPrev 
         
         if hasattr(arg, 'write'):
-- 
2.43.0


From 358b9e2a4f5ec384cc8a7c8b25ce2c50e0134c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:30:27 +0000
Subject: [PATCH 25/35] fix: valid regular expressions for numbers in lgg

---
 ade/scripts/lgg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ade/scripts/lgg.py b/ade/scripts/lgg.py
index 5d6b1d6..a7c0c8a 100644
--- a/ade/scripts/lgg.py
+++ b/ade/scripts/lgg.py
@@ -100,7 +100,7 @@ class RowManager(object):
         for k, name in enumerate(self.names):
             self.indices[name] = k
             self.rp[name] = re.compile(sub(
-                r'(^|\s){}\=([\+\-]?[0-9][0-9\.e\E\-\+]*)(\**)(\s|\>|$)', name))
+                r'(^|\s){}\=([\+\-]?[0-9][0-9\.eE\-\+]*)(\**)(\s|\>|$)', name))
         self.SSE = []
         self.values = []
         self.stars = []
@@ -207,7 +207,7 @@ class Grepper(object):
     reSSE = re.compile(r'SSE\=([\d\.eE\-\+]+)')
     reParam = re.compile(
         r'(^|\s)([a-zA-Z]+[_a-zA-Z0-9]*)\='+\
-        r'([\+\-]?[0-9][0-9\.e\E\-\+]*)(\**)(\s|\>|$)')
+        r'([\+\-]?[0-9][0-9\.eE\-\+]*)(\**)(\s|\>|$)')
 
     def __init__(self, filePath, args):
         self.filePath = filePath
-- 
2.43.0


From 69639d00eefca50c1b31b5f4f7da21abf48e0a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:30:47 +0000
Subject: [PATCH 26/35] fix: have lgg accept ranges of parameters

---
 ade/scripts/lgg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/scripts/lgg.py b/ade/scripts/lgg.py
index a7c0c8a..78927c1 100644
--- a/ade/scripts/lgg.py
+++ b/ade/scripts/lgg.py
@@ -215,7 +215,7 @@ class Grepper(object):
             names = self.starredNames()
         else:
             names = []
-            for pattern in args:
+            for pattern in RowManager(args).names:
                 for name in self.globNames(pattern):
                     if name not in names:
                         names.append(name)
-- 
2.43.0


From 728ba7f77817d60b8fcde5e5917a5912b4cf0613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:30:47 +0000
Subject: [PATCH 27/35] fix: compare negative values in lgg by their relative
 difference

---
 ade/scripts/lgg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/scripts/lgg.py b/ade/scripts/lgg.py
index 78927c1..1624aa1 100644
--- a/ade/scripts/lgg.py
+++ b/ade/scripts/lgg.py
@@ -177,7 +177,7 @@ class RowManager(object):
         def diffEnough(a, b):
             if b == 0:
                 return abs(a) > maxDiff
-            return abs(a-b)/b > maxDiff
+            return abs(a-b) > maxDiff*abs(b)
         
         K = np.argsort(self.SSE)
         bestSSE = np.min(self.SSE)
-- 
2.43.0


From 7d4eacc00abcca4acf49d04fbf5c5589e2255886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:30:47 +0000
Subject: [PATCH 28/35] fix: keep the best entries in lgg

---
 ade/scripts/lgg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/scripts/lgg.py b/ade/scripts/lgg.py
index 1624aa1..2c840c0 100644
--- a/ade/scripts/lgg.py
+++ b/ade/scripts/lgg.py
@@ -191,7 +191,7 @@ class RowManager(object):
                         break
                 else: continue
             KS.append(k)
-        KS = list(reversed(KS[-maxRows:]))
+        KS = list(reversed(KS[:maxRows]))
         self.SSE = self.SSE[KS]
         self.values = self.values[KS]
         self.stars = self.stars[KS]
-- 
2.43.0


From 4ffa6bfb0b195040c23d532de6fed3031775408d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:48:30 +0000
Subject: [PATCH 29/35] fix: record no individual for a nonexistent position

---
 ade/population.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ade/population.py b/ade/population.py
index 3541978..94a7a02 100644
--- a/ade/population.py
+++ b/ade/population.py
@@ -537,9 +537,8 @@ class Population(object):
         # updates its internals properly, so no need to keep track of
         # the deferreds that get returned from the notInPop and add
         # method calls.
-        if len(self.iList) > k:
-            iPrev = self.iList[k]
-            self.history.notInPop(iPrev)
+        iPrev = self.iList[k]
+        self.history.notInPop(iPrev)
         self.history.add(i)
         # Here is the only place iList should ever be set directly
         self.iList[k] = i
-- 
2.43.0


From 6df14aec42673205cb5fc72a7f5eddac796c6526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:53:20 +0000
Subject: [PATCH 30/35] fix: whole number of subplots when plotting correlated
 parameters

---
 ade/history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/history.py b/ade/history.py
index d39513b..2bede88 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -515,7 +515,7 @@ class Analysis(object):
             your convenience.
         """
         Np = self.X.shape[1] - 1
-        Ncombos = Np*(Np-1)/2
+        Ncombos = Np*(Np-1)//2
         if Ncombos == 0: return
         if Ncombos < N: N = Ncombos
         pt = self.makePlotter(N, dims=dims)
-- 
2.43.0


From 95713d6efbc7072b28c0fc59dcc813c1590f9c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:53:20 +0000
Subject: [PATCH 31/35] fix: plot all pairs that include the parameter asked
 for

---
 ade/history.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ade/history.py b/ade/history.py
index 2bede88..90b9517 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -523,7 +523,8 @@ class Analysis(object):
             count = 0
             for stuff in self.correlator():
                 k1, k2, R = stuff
-                if name and name != self.k2name(k1): continue
+                if name and name not in (
+                        self.k2name(k1), self.k2name(k2)): continue
                 corr = sub("R={:+.3f}", R)
                 sp.add_textBox("SE" if R > 0 else "NE", corr)
                 xName, yName, m, b = self.plotXY(k1, k2, sp)
-- 
2.43.0


From 99db351eb1d6bbd353a3fbb5bac8e55c8b0bf423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:53:20 +0000
Subject: [PATCH 32/35] fix: plot values with the subplot object given

---
 ade/history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/history.py b/ade/history.py
index 90b9517..025abbf 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -411,7 +411,7 @@ class Analysis(object):
         noShow = kw.pop('noShow', False)
         semilog = kw.pop('semilog', False)
         dims = kw.pop('dims', None)
-        sp = kw.pop('kw', None)
+        sp = kw.pop('sp', None)
         names = self.args2names(names)
         inPop = kw.get('inPop', False)
         kw['inPop'] = True
-- 
2.43.0


From 7e45eb178254c4cda134a4e8222518c6aa87f39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:43:45 +0000
Subject: [PATCH 33/35] fix: no positional arguments if none were provided for

Access to them raised TypeError unless the command line allows for
positional arguments.
---
 ade/args.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ade/args.py b/ade/args.py
index 0550b85..ce5926c 100644
--- a/ade/args.py
+++ b/ade/args.py
@@ -91,14 +91,14 @@ class Args(object):
         return text
 
     def __iter__(self):
-        for x in getattr(self, '_args_', []):
+        for x in self._args_ or []:
             yield x
 
     def __len__(self):
-        return len(getattr(self, '_args_', []))
+        return len(self._args_ or [])
 
     def __getitem__(self, k):
-        return getattr(self, '_args_', [])[k]
+        return (self._args_ or [])[k]
     
     def __getattr__(self, name):
         if self.args is None:
-- 
2.43.0


From c0c15ddb7855b918bf48d89e811cb5e796828331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:43:45 +0000
Subject: [PATCH 34/35] fix: show value plots of a population with a single
 parameter

The viewer raised instead if correlations were asked for as well, of
which there are none with a single parameter.
---
 ade/scripts/pv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ade/scripts/pv.py b/ade/scripts/pv.py
index e5d121c..1c773fe 100644
--- a/ade/scripts/pv.py
+++ b/ade/scripts/pv.py
@@ -108,10 +108,10 @@ def main():
             for name in names:
                 pt = analyzer.plotCorrelated(
                     name=name, N=args.N,
-                    noShow=True, verbose=args.v, dims=args.d)
+                    noShow=True, verbose=args.v, dims=args.d) or pt
         else:
             pt = analyzer.plotCorrelated(
-                N=args.N, noShow=True, verbose=args.v, dims=args.d)
+                N=args.N, noShow=True, verbose=args.v, dims=args.d) or pt
     if pt is None: raise RuntimeError("No analysis done!")
     pt.showAll()
 
-- 
2.43.0


From 8f744ae9bad3a9bf0898da52f9c8b4c48cd1381e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:45:33 +0000
Subject: [PATCH 35/35] fix: run image viewers with all of their arguments

Arguments without the image's name in them were left out.
---
 ade/image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/image.py b/ade/image.py
index f21d0cd..21f83bb 100644
--- a/ade/image.py
+++ b/ade/image.py
@@ -150,7 +150,7 @@ class ImageViewer(object):
                 for arg in ex[1:]:
                     if "{}" in arg:
                         arg = arg.replace("{}", os.path.basename(fp.path))
-                        args.append(arg)
+                    args.append(arg)
                 args.append(fp.path)
                 self.transport = reactor.spawnProcess(
                     self.ivp, exPath, args, env=None)
-- 
2.43.0

