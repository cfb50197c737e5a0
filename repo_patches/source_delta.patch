From 18d94921d427b86bd8ba9ba4f4672c05767698ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:36:35 +0000
Subject: [PATCH 01/22] fix: compare the best individual with goalSSE

The end-of-generation test compared the bound method itself with the
goal, so any run with a goal set ended in a TypeError.
---
 ade/de.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/de.py b/ade/de.py
index ed8b67e..748fec5 100644
--- a/ade/de.py
+++ b/ade/de.py
@@ -608,7 +608,7 @@ class DifferentialEvolution(object):
                 if result is None:
                     self.shutdown()
             if not self.running: break
-            if self.goalSSE and self.p.best < self.goalSSE:
+            if self.goalSSE and self.p.best() < self.goalSSE:
                 msg(-1,
                     "Goal SSE of {:.5g} has been met, stopped.", self.goalSSE)
                 break
-- 
2.43.0


From a546115379167bfe85e7aa35808281a466513197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:36:35 +0000
Subject: [PATCH 02/22] fix: ignore a challenge result once the population is
 aborted

An evaluation that was in progress when the population got aborted could
still replace its target, because only the DE object's own running flag
was checked. Such a challenge now shuts the run down instead.
---
 ade/de.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ade/de.py b/ade/de.py
index 748fec5..5a51602 100644
--- a/ade/de.py
+++ b/ade/de.py
@@ -539,7 +539,8 @@ class DifferentialEvolution(object):
                     if self.xSSE:
                         yield iChallenger.evaluate(iTarget.SSE)
                     else: yield iChallenger.evaluate()
-                    if iChallenger and self.running:
+                    if iChallenger and self.running \
+                       and self.p.running is not False:
                         if iChallenger < iTarget:
                             # The challenger won the tournament, replace
                             # the target
-- 
2.43.0


From 626e36d537381a6cb63005e1f7dcac33b35c0b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:36:35 +0000
Subject: [PATCH 03/22] fix: have EvalTimer accumulate elapsed time

It added up absolute clock readings, so the parts were ordered by when
they ran instead of by how long they take.
---
 ade/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/util.py b/ade/util.py
index 97c8586..638aee3 100644
--- a/ade/util.py
+++ b/ade/util.py
@@ -163,7 +163,7 @@ class EvalTimer(Picklable):
         """
         def done(result):
             ID = args[self.k]
-            self.times[ID] = self.times.get(ID, 0) + time.time()
+            self.times[ID] = self.times.get(ID, 0) + time.time() - t0
             self.Ns[ID] = self.Ns.get(ID, 0) + 1
             return result
         
-- 
2.43.0


From 137f8bcb1011771e9e96dadf49cdc7d2eeecc1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:36:35 +0000
Subject: [PATCH 04/22] fix: treat an undefined SSE as infinite

A NaN passed the finiteness test of population setup. The individual
could then never be replaced, as no comparison with NaN is true, and the
reporter never let go of it once it was the best.
---
 ade/individual.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ade/individual.py b/ade/individual.py
index 7ffe76d..91c33ee 100644
--- a/ade/individual.py
+++ b/ade/individual.py
@@ -115,9 +115,9 @@ class Individual(object):
         """
         Property: My SSE value, which must at least behave like a
         float. Infinite if no SSE computed yet, a fatal error occurred
-        during evaluation, or was set to C{None}.
+        during evaluation, or was set to C{None} or C{NaN}.
         """
-        if self._SSE is None or self._SSE < 0:
+        if self._SSE is None or self._SSE < 0 or self._SSE != self._SSE:
             return float('+inf')
         return self._SSE #float(self._SSE)
     @SSE.setter
-- 
2.43.0


From 994852796450825a8bc1c4f369d398598e3ecfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:36:35 +0000
Subject: [PATCH 05/22] fix: don't loop forever sampling several with a low
 randomBase

The probability sampler only reaches the better part of the population
when randomBase is below 0.5. Asking for more samples than there are
members in that part never returned. Each drawn index is now taken out
of the running for the next draw.
---
 ade/population.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/population.py b/ade/population.py
index 75a3a24..3cee790 100644
--- a/ade/population.py
+++ b/ade/population.py
@@ -1108,7 +1108,7 @@ class Population(object):
             result = []
             while len(result) < N:
                 k = self.ps(K, rb)
-                if k in result: continue
+                K.remove(k)
                 result.append(k)
         return result[0] if N == 1 else result
 
-- 
2.43.0


From b1a16fadb4f4908f537aec135ade86c688b4ee2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:36:35 +0000
Subject: [PATCH 06/22] fix: don't use a nonconforming individual when setup
 gives up

After too many attempts at satisfying the constraints, setup aborts. But
it still went ahead with the last individual tried, possibly adding it to
the population.
---
 ade/population.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ade/population.py b/ade/population.py
index 3cee790..0a44f31 100644
--- a/ade/population.py
+++ b/ade/population.py
@@ -817,6 +817,7 @@ class Population(object):
             k = 0
             while running() and needMore():
                 i = getIndividual()
+                if not running(): break
                 if blank:
                     i.SSE = np.inf
                     addIndividual(i)
-- 
2.43.0


From 53b6d5296c7ed2e705e73023a4774b0b045a8b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:36:35 +0000
Subject: [PATCH 07/22] fix: let a loaded population be aborted

Only the constructor registered the abort callback, and that does not
run when a population is loaded from a file.
---
 ade/population.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ade/population.py b/ade/population.py
index 0a44f31..90d35e9 100644
--- a/ade/population.py
+++ b/ade/population.py
@@ -471,6 +471,7 @@ class Population(object):
             for i in p:
                 p.limit(i)
         p.reporter = Reporter(p, kw.get('complaintCallback', None))
+        abort.callOnAbort(p.abort)
         return p
         
     def __getstate__(self):
-- 
2.43.0


From 828761c16bd3ff33e429389ac12feb58d02c95bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:36:35 +0000
Subject: [PATCH 08/22] fix: keep the parameters of constraint checks apart

All wrappers of one iteration shared a dict of transformed parameters. A
parameter that one check wants in log space and another one doesn't was
presented to both in the form wanted by the first, and values stuck when
a wrapper was called again. Listing the wrappers before calling them made
all of them run the last check.
---
 ade/constraints.py | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/ade/constraints.py b/ade/constraints.py
index 10e3203..f29fe28 100644
--- a/ade/constraints.py
+++ b/ade/constraints.py
@@ -134,27 +134,29 @@ class Constraints(object):
         iteration and appending. But you can't get or set individual
         items by index.
         """
-        def wrapper(params):
-            if linearParams:
-                if not linearParams.issubset(params):
-                    return True
-                for name in linearParams:
-                    if name not in newParams:
-                        newParams[name] = params[name]
-            if logParams:
-                if not logParams.issubset(params):
-                    return True
-                for name in logParams:
-                    if name not in newParams:
-                        newParams[name] = np.power(10.0, params[name])
-            result = func(newParams)
-            if self.debug:
-                print(sub("BOGUS: {}, {}", func.__name__, newParams))
-            return result
+        def wrap(func, linearParams, logParams):
+            def wrapper(params):
+                newParams = {}
+                if linearParams:
+                    if not linearParams.issubset(params):
+                        return True
+                    for name in linearParams:
+                        if name not in newParams:
+                            newParams[name] = params[name]
+                if logParams:
+                    if not logParams.issubset(params):
+                        return True
+                    for name in logParams:
+                        if name not in newParams:
+                            newParams[name] = np.power(10.0, params[name])
+                result = func(newParams)
+                if self.debug:
+                    print(sub("BOGUS: {}, {}", func.__name__, newParams))
+                return result
+            return wrapper
         
-        newParams = {}
         for func, linearParams, logParams in self.cList:
-            yield wrapper
+            yield wrap(func, linearParams, logParams)
         for func in self.fList:
             yield func
 
-- 
2.43.0


From 457d4f345ceb0345a635db2210d52cd86aceb368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:36:35 +0000
Subject: [PATCH 09/22] fix: restore the previous best after a complaint

The backup was taken after the new best had already been registered, so
it was the new best itself. Once that got blacklisted, reports were
compared with its infinite SSE and worse individuals reported as best.
---
 ade/report.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ade/report.py b/ade/report.py
index b9c0e34..6ec686e 100644
--- a/ade/report.py
+++ b/ade/report.py
@@ -67,6 +67,7 @@ class Reporter(object):
         self.complaintCallback = complaintCallback
         self.pm = self.p.pm
         self.iBest = None
+        self.formerBests = []
         self.iLastReported = None
         self.callbacks = []
         self.cbrInProgress = False
@@ -183,6 +184,12 @@ class Reporter(object):
                         i.blacklist()
                         if iPrevBest and iPrevBest < self.iBest:
                             self.iBest = iPrevBest
+                        # The complaint may not be about the first
+                        # individual of this run of callbacks, or
+                        # there may have been more than one
+                        for iFormer in self.formerBests:
+                            if iFormer < self.iBest:
+                                self.iBest = iFormer
             if msg.lineWritten(): self.progressChar()
             self.cbrInProgress = False
 
@@ -241,16 +248,18 @@ class Reporter(object):
             # is considered equivalent.
             return not self.isEquivSSE(i, self.iLastReported)
         
+        iBackupBest = self.iBest
         if self.iBest is None or i < self.iBest:
             # Register new best, regardless of whether it gets reported
             self.iBest = i
             isBest = True
+            if iBackupBest is not None:
+                self.formerBests.append(iBackupBest)
         else: isBest = False
         if goAhead():
             if self.p.debug:
                 msg(0, "{}\n\t--->\n{}\n", self.iBest, i)
             self.iLastReported = i
-            iBackupBest = self.iBest
             self.runCallbacks(i, iBackupBest)
         
     def msgRatio(self, iNum, iDenom, bogus_char="!", noProgress=False):
-- 
2.43.0


From 5236cb6093e54267009cc22a240e497747e1c157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:38:50 +0000
Subject: [PATCH 10/22] fix: never give a new history record a row that is in
 use

With row 1 of 3 unallocated, or with a row index of N-1 coming up before
the first gap, kkr returned the row of an existing record. That record
then got overwritten and its row was listed twice.
---
 ade/history.py | 56 ++++++++++++--------------------------------------
 1 file changed, 13 insertions(+), 43 deletions(-)

diff --git a/ade/history.py b/ade/history.py
index e5255e3..295368b 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -951,56 +951,26 @@ class History(object):
 
         First, index I{k} is obtained, by seeing where the I{K}
         list points to a record with an SSE closest but above the
-        new one. Then each row index in the I{K} list is examined
-        to see if the previous row of my I{X} array is
-        unallocated. If so, that is the row index for the new
-        record. Otherwise, is the next row of my I{X} array is
-        unallocated, that is used instead. If both adjacent rows
-        of I{X} are already allocated, the next row index in the
-        I{K} list is examined.
-
-        If there are no row indices in I{K} that point to a row of
-        I{X} with an unallocated adjacent row, the row index is
-        determined to be the current length of I{k}.
-
-        B{Note}: With the original for-loop Python, the search for an
-        unallocated row was very CPU intensive when you get a big
-        history accumulated:::
-
-            # Pick a row index for the new record
-            for kr in self.K:
-                if kr > 0 and kr-1 not in self.K:
-                    return k, kr-1
-                if kr < N-1 and kr+1 not in self.K:
-                    return k, kr+1
-            return k, N
-
-        The reason is that the list was being searched for an item
-        with every iteration, twice!
-        
-        The optimized version does this same thing with much more
-        efficiently, by creating a local (array) copy of I{K} and
-        sorting it in place. Then only adjacent elements needs to be
-        inspected with each iteration. (It may be just as fast with a
-        local sorted list instead of a Numpy array.)
+        new one. Then the lowest row index that is not in the I{K}
+        list, and thus is unallocated, is picked for the new record.
+
+        Searching the list for each possible row index would be very
+        CPU intensive with a big history accumulated. So a local
+        (array) copy of I{K} is sorted in place, and then the first
+        row index in it that is greater than its position reveals the
+        lowest unallocated one.
         """
-        K = np.array(self.K)
+        K = np.array(self.K, dtype=int)
         # Find the index in K of the row index for the closest
         # recorded SSE above i.SSE
         k = np.searchsorted(self.X[K,0], SSE)
         #--- Pick a row index for the new record ------------------------------
         # Sort local array version of K in place
         K.sort()
-        for kk, kr in enumerate(K[1:-1]):
-            if kr == 0: continue
-            if kr == N-1: break
-            if K[kk] != kr-1:
-                return k, kr-1
-            if K[kk+2] != kr+1:
-                return k, kr+1
-        if K[0] > 0:
-            return k, K[0]-1
-        return k, min([N, K[-1]+1])
+        # The first unallocated row is where the sorted row indices
+        # get ahead of their position
+        gaps = np.flatnonzero(K != np.arange(len(K)))
+        return k, gaps[0] if len(gaps) else len(K)
 
     @defer.inlineCallbacks
     def add(self, i, neverInPop=False):
-- 
2.43.0


From 561ed86848dbc1def3bb2e493009b80d64d24df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:38:50 +0000
Subject: [PATCH 11/22] fix: make the hash of an individual work for any SSE in
 any process

Packing an SSE beyond single precision raised OverflowError, inside the
history's lock. And the hash of a bytes object differs between Python
processes, so the history of a population loaded by another process did
not recognize its members.
---
 ade/individual.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ade/individual.py b/ade/individual.py
index 91c33ee..65688a0 100644
--- a/ade/individual.py
+++ b/ade/individual.py
@@ -187,8 +187,7 @@ class Individual(object):
         return SSE >= 0
 
     def __hash__(self):
-        return hash(
-            struct.pack('<f', self.SSE) + np.array(self.values).tobytes())
+        return hash((float(self.SSE),) + tuple(self.values))
     
     def __eq__(self, other):
         """
-- 
2.43.0


From 591e7a9a28ba4c6c11d059a649d51965465b7c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:38:50 +0000
Subject: [PATCH 12/22] fix: record individuals in history as they are when
 added

If an individual was blacklisted while its addition awaited the lock, a
record with infinite SSE got written. The same happened with finite values
that are beyond single precision. Such a record can't be considered for
removal once its individual leaves the population.
---
 ade/history.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/ade/history.py b/ade/history.py
index 295368b..7d32b0b 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -976,8 +976,8 @@ class History(object):
     def add(self, i, neverInPop=False):
         """
         Adds the SSE and parameter values of the supplied individual I{i}
-        to my roster, unless it has an SSE of C{inf}, in which case it
-        is ignored.
+        to my roster, unless it has an SSE of C{inf} (or anything my
+        I{X} array can't represent), in which case it is ignored.
 
         If the roster is already full, bumps the record deemed most
         expendable before adding a record for I{i}. That determination
@@ -996,7 +996,6 @@ class History(object):
             array, and inserts the row index I{kr} into my I{K} list
             at position I{k}.
             """
-            SV = np.array([i.SSE] + list(i.values))
             self.X[kr,:] = SV
             self.K.insert(k, kr)
             self.N_total += 1           # Add to the lifetime total count
@@ -1013,10 +1012,15 @@ class History(object):
                 self.cpf.clearRow(kr)
                 # Add to the individual-row map so it can be removed
                 # from the population later
-                self.kr[hash(i)] = kr
+                self.kr[key] = kr
 
+        # The individual might get blacklisted while waiting for the
+        # lock, so everything about it gets determined now
         SSE = i.SSE
-        if np.isfinite(SSE):
+        key = hash(i)
+        with np.errstate(over='ignore'):
+            SV = np.array([SSE] + list(i.values)).astype(self.X.dtype)
+        if np.all(np.isfinite(SV)):
             yield self.dLock.acquire()
             N = len(self.K)
             if N == 0:
-- 
2.43.0


From 8ebed7ac08c40e502244e598d17e5e38e566278f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:38:50 +0000
Subject: [PATCH 13/22] fix: cope with a full history of population members
 only

With no record that could be dropped, the search for the most similar
pair raised an exception and left the history locked forever.
---
 ade/history.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ade/history.py b/ade/history.py
index 7d32b0b..fad9164 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -792,6 +792,8 @@ class ClosestPairFinder(object):
         """
         # The number of active rows
         Nr = len(self.K)
+        if Nr == 0:
+            return defer.succeed(None)
         if Nr == 1:
             return defer.succeed(list(self.K)[0])
         if Np is None: Np = self.Np_max
@@ -1033,11 +1035,13 @@ class History(object):
             else:
                 # Roster is full, we will need to bump somebody (those
                 # in the current population are protected and exempt)
-                # before adding
+                # before adding. With everybody protected, there's no
+                # room for a new record.
                 kr = yield self.cpf()
-                if kr is not None: self.purge(kr)
-                k, kr = self.kkr(SSE, N)
-            writeRecord(k, kr)
+                if kr is not None:
+                    self.purge(kr)
+                    k, kr = self.kkr(SSE, N)
+            if kr is not None: writeRecord(k, kr)
             self.dLock.release()
         else: kr = None
         defer.returnValue(kr)
-- 
2.43.0


From e08683fc39f14355f89730d453f31deab432cb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:38:50 +0000
Subject: [PATCH 14/22] fix: recognize modified members in history

Blacklisting a member changes its hash, as does limiting it to refined
bounds when loading a population. The history did not find its record
when the member was replaced later, and considered it part of the
population forever. The same happened with row indices of a loaded
history because they are unsigned.
---
 ade/history.py    | 24 +++++++++++++++++++-----
 ade/individual.py |  3 +++
 ade/population.py |  2 ++
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/ade/history.py b/ade/history.py
index fad9164..6842d93 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -1072,22 +1072,36 @@ class History(object):
         from being considered part of the current population.
         """
         def gotLock():
-            if isinstance(x, (int, np.int64)):
-                # This was tricky to find; sometimes shows up as int,
-                # sometimes as np.int64, and Py3 distinguishes between
-                # them
+            if key is None:
                 kr = x
             else:
                 # Must be an Individual
-                key = hash(x)
                 if key not in self.kr: return
                 kr = self.kr.pop(key)
             self.Kp.discard(kr)
             # This row is no longer a population member and is thus
             # expendable, so have cpf start considering it
             self.cpf.setRow(kr, self.X[kr,:])
+
+        # This was tricky to find; sometimes shows up as int,
+        # sometimes as some Numpy integer type, and Py3 distinguishes
+        # between them
+        key = None if isinstance(x, (int, np.integer)) else hash(x)
         return self.dLock.run(gotLock)
 
+    def rekey(self, key, i):
+        """
+        Call this when something about the individual I{i} has changed so
+        that its hash is no longer I{key}, to have me still recognize
+        it.
+        """
+        def gotLock():
+            if key in self.kr:
+                self.kr[newKey] = self.kr.pop(key)
+
+        newKey = hash(i)
+        return self.dLock.run(gotLock)
+        
     def purgePop(self):
         """
         Purges the history of all members of the current
diff --git a/ade/individual.py b/ade/individual.py
index 65688a0..21c5ab3 100644
--- a/ade/individual.py
+++ b/ade/individual.py
@@ -245,8 +245,11 @@ class Individual(object):
         Sets my SSE to the worst possible value and forces my population
         to update its sorting to account for my degraded status.
         """
+        key = hash(self)
         self.SSE = float('+inf')
         del self.p.KS
+        history = getattr(self.p, 'history', None)
+        if history is not None: history.rekey(key, self)
     
     def update(self, values):
         """
diff --git a/ade/population.py b/ade/population.py
index 90d35e9..3ba2a46 100644
--- a/ade/population.py
+++ b/ade/population.py
@@ -469,7 +469,9 @@ class Population(object):
         if bounds:
             p.pm.setup(bounds)
             for i in p:
+                key = hash(i)
                 p.limit(i)
+                p.history.rekey(key, i)
         p.reporter = Reporter(p, kw.get('complaintCallback', None))
         abort.callOnAbort(p.abort)
         return p
-- 
2.43.0


From 1df484cde0b5e6672715fdb5ae54d3e95e36b318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:38:50 +0000
Subject: [PATCH 15/22] fix: include perfect records in value_vs_SSE

With an SSE of zero for the best record, the ratio to it is undefined for
the record itself, which got left out. An empty history raised
IndexError.
---
 ade/history.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ade/history.py b/ade/history.py
index 6842d93..a038f3e 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -224,7 +224,7 @@ class Analysis(object):
         
         names = self.args2names(names)
         maxRatio = kw.get('maxRatio', 1000)
-        SSE_best = self.X[self.K[0],0]
+        SSE_best = self.X[self.K[0],0] if len(self.K) else 0
         if kw.get('inPop', False):
             K = [k for k in self.K if k in self.Kp]
         elif kw.get('notInPop', False):
@@ -232,7 +232,7 @@ class Analysis(object):
         elif kw.get('neverInPop', False):
             K = [k for k in self.K if k in self.Kn]
         else: K = self.K
-        KK = np.flatnonzero(self.X[K,0]/SSE_best <= maxRatio)
+        KK = np.flatnonzero(self.X[K,0] <= maxRatio*SSE_best)
         K = np.array(K)[KK]
         result = [subset(0)]
         for name in names:
-- 
2.43.0


From a71db15621ab514cc29332089d67d8486919e323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:40:07 +0000
Subject: [PATCH 16/22] fix: read empty specification files

The number of lines was undefined without any line to read.
---
 ade/specs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ade/specs.py b/ade/specs.py
index 3e56f5d..6340166 100644
--- a/ade/specs.py
+++ b/ade/specs.py
@@ -217,6 +217,7 @@ class SpecsLoader(object):
         """
         dictDef = False
         dictName = None
+        k = -1
         for k, line in enumerate(fh):
             line = line.strip()
             if not line or line.startswith('#'):
-- 
2.43.0


From a251becda02ab6ece6778ff15fdc2c6998bb31c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:40:07 +0000
Subject: [PATCH 17/22] fix: ignore trailing comments on any line of a
 specification

A dict name with a comment after it was taken as an attribute, and a
comment right after a value, without any space, as part of the value.
---
 ade/specs.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/ade/specs.py b/ade/specs.py
index 6340166..08f9d84 100644
--- a/ade/specs.py
+++ b/ade/specs.py
@@ -219,9 +219,9 @@ class SpecsLoader(object):
         dictName = None
         k = -1
         for k, line in enumerate(fh):
-            line = line.strip()
-            if not line or line.startswith('#'):
-                continue
+            # Disregard comment, if any
+            line = line.split('#')[0].strip()
+            if not line: continue
             if line.startswith('--'):
                 # Start or end of a dict definition
                 if dictDef:
@@ -254,9 +254,6 @@ class SpecsLoader(object):
                 tokens.pop(0)
             seq = []
             for token in tokens:
-                if token.startswith('#'):
-                    # Trailing comment
-                    break
                 seq.append(self.parseValue(token.rstrip(',')))
             if len(seq) == 1:
                 # A single value token is its own attribute, not part
-- 
2.43.0


From 15f63c8ce3786d815a4cdd057c03674ab9b920d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:40:07 +0000
Subject: [PATCH 18/22] fix: recognize all decimal numbers in specifications

Numbers like .5 or 5. were left as text.
---
 ade/specs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ade/specs.py b/ade/specs.py
index 08f9d84..71aff69 100644
--- a/ade/specs.py
+++ b/ade/specs.py
@@ -169,7 +169,8 @@ class SpecsLoader(object):
     Comments (lines beginning with '#', and trailing parts of a line
     after a '#') and blank lines are ignored.
     """
-    reNum = re.compile(r'[\+\-]?[0-9]+(\.[0-9]+)?([e][\+\-]?[0-9]+)?$')
+    reNum = re.compile(
+        r'[\+\-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)(e[\+\-]?[0-9]+)?$')
     
     def __init__(self, filePath):
         self.filePath = filePath
-- 
2.43.0


From 58634f75723aebb1f2dad5e8b47282b18c5d241a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:40:07 +0000
Subject: [PATCH 19/22] fix: refuse malformed specifications with a ValueError

A dict that is not ended was silently dropped, a dict name without its
dict ignored, and a name without value after an equals sign given an empty
list. Other malformed lines raised an IndexError or AttributeError.
---
 ade/specs.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/ade/specs.py b/ade/specs.py
index 71aff69..59d1fc4 100644
--- a/ade/specs.py
+++ b/ade/specs.py
@@ -49,6 +49,10 @@ class DictStacker(object):
         dct = self.dct
         while True:
             key = keys.pop(0)
+            isDict = isinstance(dct.get(key, None), dict)
+            if key in dct and isDict != bool(keys):
+                raise ValueError(sub(
+                    "Key '{}' is for both a value and a dict", key))
             if keys:
                 dct = dct.setdefault(key, {})
             else:
@@ -240,19 +244,26 @@ class SpecsLoader(object):
                     raise ValueError(
                         "Dict region must be preceded by a dict name")
                 continue
+            if dictName and not dictDef:
+                raise ValueError(sub(
+                    "No dict region follows dict name '{}'", dictName))
             tokens = line.split()
             nameParts = self.parseName(tokens)
             if not dictDef:
                 if len(nameParts) > 1:
                     raise ValueError(
                         "The name:key format is only for dicts inside a dict")
+                if not isinstance(nameParts[0], str) or not nameParts[0]:
+                    raise ValueError(sub("Invalid name in line '{}'", line))
                 if not tokens:
                     # A standalone name is the start of a dict definition
                     dictName = nameParts[0]
                     continue
-            if tokens[0] == "=":
+            if tokens and tokens[0] == "=":
                 # An equals sign is semantic fluff
                 tokens.pop(0)
+            if not tokens:
+                raise ValueError(sub("No value in line '{}'", line))
             seq = []
             for token in tokens:
                 seq.append(self.parseValue(token.rstrip(',')))
@@ -268,6 +279,9 @@ class SpecsLoader(object):
             # values). We know at this point that there is but a
             # single item in nameParts
             s.add(nameParts[0], seq)
+        if dictName:
+            raise ValueError(sub(
+                "Dict region for '{}' is missing or not ended", dictName))
         return k+1
         
     def __call__(self):
-- 
2.43.0


From 0154a49997ec12388ca8f9c7fd65185acb7293df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:50:50 +0000
Subject: [PATCH 20/22] fix: keep the ranking current while setup adds members

---
 ade/population.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ade/population.py b/ade/population.py
index 3ba2a46..cb58d05 100644
--- a/ade/population.py
+++ b/ade/population.py
@@ -802,6 +802,7 @@ class Population(object):
             self.iList.append(i)
             self.dLocks.append(defer.DeferredLock())
             self.history.add(i)
+            del self.KS
 
         def needMore():
             return len(self.iList) < self.Np
-- 
2.43.0


From 0b94160b41e812ab1142966b22e6955ef0fccc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:13 +0000
Subject: [PATCH 21/22] fix: leave members' history records alone when a loser
 is blacklisted

Blacklisting an individual outside the population renamed the history key
of any member with the same error and values. That member's record then
stayed marked as a population member after the member was replaced.
---
 ade/individual.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ade/individual.py b/ade/individual.py
index 21c5ab3..7f1007e 100644
--- a/ade/individual.py
+++ b/ade/individual.py
@@ -249,7 +249,8 @@ class Individual(object):
         self.SSE = float('+inf')
         del self.p.KS
         history = getattr(self.p, 'history', None)
-        if history is not None: history.rekey(key, self)
+        if history is not None and any(i is self for i in self.p):
+            history.rekey(key, self)
     
     def update(self, values):
         """
-- 
2.43.0


From 4fc2a18339610a502b8a3268c8959721ebcbe1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:10:33 +0000
Subject: [PATCH 22/22] fix: refuse duplicate lock requests before acquiring
 anything

A request naming one slot twice was refused only when the loop reached the
duplicate. Locks acquired before that stayed locked for good.
---
 ade/population.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ade/population.py b/ade/population.py
index cb58d05..b346c6e 100644
--- a/ade/population.py
+++ b/ade/population.py
@@ -1142,11 +1142,12 @@ class Population(object):
         """
         if self.running is False:
             return defer.succeed(None)
-        dList = []
         for k in indices:
             if indices.count(k) > 1:
                 raise ValueError(
                     "Requesting the same lock twice will result in deadlock!")
+        dList = []
+        for k in indices:
             if k >= len(self.dLocks):
                 # Invalid index, we must be shutting down
                 self.release()
-- 
2.43.0

