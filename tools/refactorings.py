"""
Behaviour-preserving rewrites of /repo, for finding out whether the checks
judge what the code does: python3 tools/refactorings.py [-j N] [-t] [ids] [Cxx ..]
runs the checks concerned (or those given) on a scratch copy with each of
them, and with -t the tests; nothing but silence is right.
Not used by any check.
"""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PYDV_REPO', '/repo')
WORKERS = os.environ.get('PYDV_WORKERS', '2')
R = {}


def r(name, path, *pairs, **kw):
    R.setdefault(name, []).append((path, pairs, kw.get('all', False)))


def rename(name, old, new, *files):
    """An attribute gets another name everywhere."""
    for f in files:
        r(name, f, (r'\b%s\b' % old, new), all=True)


# --- de.py ----------------------------------------------------------------
r('crossover-helper', 'ade/de.py', ('''        j = random.randint(0, self.p.Nd-1)
        for k in range(self.p.Nd):
            if k == j:
                # The mutant gets to keep at least this one value
                continue
            if self.CR < random.uniform(0, 1.0):
''', '''        j = random.randint(0, self.p.Nd-1)
        for k in range(self.p.Nd):
            if k != j and self._useParent():
'''), ('''    @defer.inlineCallbacks
    def challenge(self, kt, kb):
''', '''    def _useParent(self):
        return random.uniform(0, 1.0) > self.CR

    @defer.inlineCallbacks
    def challenge(self, kt, kb):
'''))
r('crossover-others', 'ade/de.py', ('''        j = random.randint(0, self.p.Nd-1)
        for k in range(self.p.Nd):
            if k == j:
                # The mutant gets to keep at least this one value
                continue
            if self.CR''', '''        N = self.p.Nd
        keep = random.randrange(N)
        others = [k for k in range(N) if k != keep]
        for k in others:
            if self.CR'''))
r('crossover-values', 'ade/de.py', ('''                mutant[k] = parent[k]
''', '''                mutant.values[k] = parent.values[k]
'''))
r('challenge-try-out', 'ade/de.py', ('''                if self.p.pm.passesConstraints(iChallenger.values):
                    # Passes constraints!
                    # Now the hard part: Evaluate fitness of the challenger
                    if self.xSSE:
                        yield iChallenger.evaluate(iTarget.SSE)
                    else: yield iChallenger.evaluate()
                    if iChallenger and self.running \\
                       and self.p.running is not False:
                        if iChallenger < iTarget:
                            # The challenger won the tournament, replace
                            # the target
                            self.p[kt] = iChallenger
                        elif not self.xSSE:
                            # Not doing partial evaluations with xSSE,
                            # so can make some use of failed challenge
                            # by recording its SSE in history
                            yield self.p.history.add(
                                iChallenger, neverInPop=True)
                        self.p.report(iChallenger, iTarget)
                    else:
                        # Oops! Fatal error occurred!
                        self.shutdown()
                else:
                    # Failed constraints
                    self.p.showFailedConstraint()
''', '''                if not self.p.pm.passesConstraints(iChallenger.values):
                    self.p.showFailedConstraint()
                else:
                    yield self._tournament(kt, iTarget, iChallenger)
'''), ('''    @defer.inlineCallbacks
    def _run(self, func):
''', '''    @defer.inlineCallbacks
    def _tournament(self, kt, iTarget, iChallenger):
        args = [iTarget.SSE] if self.xSSE else []
        yield iChallenger.evaluate(*args)
        fine = iChallenger and self.running and self.p.running is not False
        if not fine:
            self.shutdown()
            return
        if iChallenger < iTarget:
            self.p[kt] = iChallenger
        elif not self.xSSE:
            yield self.p.history.add(iChallenger, neverInPop=True)
        self.p.report(iChallenger, iTarget)

    @defer.inlineCallbacks
    def _run(self, func):
'''))
r('challenge-early-return', 'ade/de.py', ('''            yield self.p.lock(kt, kb, k0, k1)
            if self.running:
                sample = self.p.individuals(kt, kb, k0, k1)
            else: sample = None
            if sample is None:            
                # Shutting down!
                self.p.release()
            else:
''', '''            yield self.p.lock(kt, kb, k0, k1)
            sample = self.p.individuals(
                kt, kb, k0, k1) if self.running else None
            if sample is None:
                self.p.release()
                return
            if True:
'''))
r('challenge-mutation-in-steps', 'ade/de.py', ('''                iChallenger = iBase + (i0 - i1) * self.fm.get()
''', '''                F = self.fm.get()
                diff = i0 - i1
                scaled = diff * F
                iChallenger = iBase + scaled
'''))
r('challenge-direct-arithmetic', 'ade/de.py', ('''                iChallenger = iBase + (i0 - i1) * self.fm.get()
''', '''                F = self.fm.get()
                iChallenger = iBase.spawn(
                    iBase.values + F*(i0.values - i1.values))
'''))
r('challenge-release-one-by-one', 'ade/de.py', ('''                self.p.release(kb, k0, k1)
''', '''                for k in (k1, k0, kb):
                    self.p.release(k)
'''))
r('challenge-worse-first', 'ade/de.py', ('''                        if iChallenger < iTarget:
                            # The challenger won the tournament, replace
                            # the target
                            self.p[kt] = iChallenger
                        elif not self.xSSE:
                            # Not doing partial evaluations with xSSE,
                            # so can make some use of failed challenge
                            # by recording its SSE in history
                            yield self.p.history.add(
                                iChallenger, neverInPop=True)
''', '''                        won = float(iChallenger) < float(iTarget)
                        if not won and not self.xSSE:
                            yield self.p.history.add(
                                iChallenger, neverInPop=True)
                        elif won:
                            self.p[kt] = iChallenger
'''))
r('run-base-helper', 'ade/de.py', ('''                if self.randomBase or kt == self.p.kBest:
                    kb = self.p.sample(1, kt, randomBase=self.randomBase)
                else: kb = self.p.kBest
''', '''                kb = self._base(kt)
'''), ('''    @defer.inlineCallbacks
    def _run(self, func):
''', '''    def _base(self, kt):
        kBest = self.p.kBest
        if self.randomBase or kt == kBest:
            return self.p.sample(1, kt, randomBase=self.randomBase)
        return kBest

    @defer.inlineCallbacks
    def _run(self, func):
'''))
r('run-while', 'ade/de.py', ('''        for kg in range(self.maxiter):
            self.p.reporter.progressChar()
''', '''        kg = -1
        while kg + 1 < self.maxiter:
            kg += 1
            self.p.reporter.progressChar()
'''))
r('run-generation-helper', 'ade/de.py', ('''            dList = []
            iBest = self.p.best()
            for kt in range(self.p.Np):
                if self.randomBase or kt == self.p.kBest:
                    kb = self.p.sample(1, kt, randomBase=self.randomBase)
                else: kb = self.p.kBest
                if kb is None:
                    # We must be shutting down, abort loop now
                    self.shutdown()
                    break
                d = self.challenge(kt, kb)
                dList.append(d)
                if not self.running: break
            else:
''', '''            dList = self._challenges()
            if dList is not None:
'''), ('''    @defer.inlineCallbacks
    def _run(self, func):
''', '''    def _challenges(self):
        dList = []
        for kt in range(self.p.Np):
            if self.randomBase or kt == self.p.kBest:
                kb = self.p.sample(1, kt, randomBase=self.randomBase)
            else: kb = self.p.kBest
            if kb is None:
                self.shutdown()
                return
            dList.append(self.challenge(kt, kb))
            if not self.running: return
        return dList

    @defer.inlineCallbacks
    def _run(self, func):
'''))
r('run-enough-helper', 'ade/de.py', ('''            elif self.p.replacement():
                # There was enough overall improvement to warrant
                # scaling F back up a bit
                self.fm.up()
                self.dwellCount = 0
            else:
                # There was not enough overall improvement maintain the status
                # quo, so scale F down a bit
                self.fm.down()
                if not self.bitterEnd and self.fm.limited:
                    self.dwellCount += 1
                    if self.dwellCount > self.dwellByGrave:
                        msg(-1, "Challengers failing too much, stopped.")
                        break
''', '''            if self._enough():
                msg(-1, "Challengers failing too much, stopped.")
                break
'''), ('''    @defer.inlineCallbacks
    def _run(self, func):
''', '''    def _enough(self):
        if self.p.replacement():
            self.fm.up()
            self.dwellCount = 0
            return False
        self.fm.down()
        if self.bitterEnd or not self.fm.limited:
            return False
        self.dwellCount += 1
        return self.dwellCount > self.dwellByGrave

    @defer.inlineCallbacks
    def _run(self, func):
'''))
r('fm-down-reordered', 'ade/de.py', ('''        lowest = self.lowest
        proposedF = self.scales[0] * lowest
        if proposedF > self.criticalF:
            self.lowest = proposedF
            return
        if self.is_sequence:
            proposedF = self.scales[1] * self.highest
            if proposedF > self.minHighestVsLowest * lowest:
                self.highest = proposedF
                return
        self.limited = True
''', '''        low, high = self.lowest, self.highest
        newLow, newHigh = self.scales[0]*low, self.scales[1]*high
        if newLow > self.criticalF:
            self.lowest = newLow
        elif self.is_sequence and newHigh > self.minHighestVsLowest*low:
            self.highest = newHigh
        else:
            self.limited = True
'''))
r('fm-up-min', 'ade/de.py', ('''            return min([x*(scale**-self.scaleUpPower), upperLimit])
''', '''            y = x / scale**self.scaleUpPower
            if y > upperLimit: return upperLimit
            return y
'''))
r('fm-get', 'ade/de.py', ('''            return random.uniform(*self.F)
        return self.F
''', '''            lo, hi = self.F
            return random.uniform(lo, hi)
        else: return self.F
'''))
rename('rename-fm-limited', 'criticalF', 'F_crit', 'ade/de.py')
rename('rename-dwellCount', 'dwellCount', '_dwelled', 'ade/de.py')
rename('rename-dChallenges', 'dChallenges', '_dCurrent', 'ade/de.py')

# --- population.py --------------------------------------------------------
r('limit-clip-in-place', 'ade/population.py', ('''        values = np.where(values < self.mins, 2*self.mins - values, values)
        values = np.where(values > self.maxs, 2*self.maxs - values, values)
        return np.clip(values, self.mins, self.maxs)
''', '''        low, high = self.mins, self.maxs
        below = values < low
        values = np.where(below, 2*low - values, values)
        above = values > high
        values = np.where(above, 2*high - values, values)
        return np.minimum(np.maximum(values, low), high)
'''))
r('limit-loop', 'ade/population.py', ('''        values = np.where(values < self.mins, 2*self.mins - values, values)
        values = np.where(values > self.maxs, 2*self.maxs - values, values)
        return np.clip(values, self.mins, self.maxs)
''', '''        result = np.array(values, dtype=float)
        for k, (lo, hi) in enumerate(zip(self.mins, self.maxs)):
            x = result[k]
            if x < lo: x = 2*lo - x
            if x > hi: x = 2*hi - x
            result[k] = min(max(x, lo), hi)
        return result
'''))
r('passes-all', 'ade/population.py', ('''        if not self.constraints: return True
        params = {}
        for name, value in zip(self.names, values):
            params[name] = value
        for func in self.constraints:
            if not func(params):
                # This constraint was violated, bail out
                return False
        return True
''', '''        params = dict(zip(self.names, values))
        return all(func(params) for func in self.constraints)
'''))
r('passes-index', 'ade/population.py', ('''        for name, value in zip(self.names, values):
            params[name] = value
''', '''        for k in range(len(self.names)):
            params[self.names[k]] = values[k]
'''))
r('pm-setup', 'ade/population.py', ('''        self.mins = np.array([x[0] for x in bounds])
        self.maxs = np.array([x[1] for x in bounds])
''', '''        lows, highs = [], []
        for low, high in bounds:
            lows.append(low)
            highs.append(high)
        self.mins, self.maxs = np.array(lows), np.array(highs)
'''))
r('setitem-in-order', 'ade/population.py', ('''        if len(self.iList) > k:
            iPrev = self.iList[k]
            self.history.notInPop(iPrev)
        self.history.add(i)
        # Here is the only place iList should ever be set directly
        self.iList[k] = i
        # Invalidate sorting
        del self.KS
''', '''        iPrev = self.iList[k] if k < len(self.iList) else None
        self.iList[k] = i
        del self.KS
        if iPrev is not None: self.history.notInPop(iPrev)
        self.history.add(i)
'''))
r('KS-sorted', 'ade/population.py', ('''            self._KS = np.argsort([float(i.SSE) for i in self.iList])
''', '''            SSEs = [float(i.SSE) for i in self.iList]
            self._KS = sorted(range(len(SSEs)), key=lambda k: SSEs[k])
'''))
r('iSorted-map', 'ade/population.py', ('''        if self._KS is None or self._iSorted is None:
            if self.iList:
                self._iSorted = [self.iList[k] for k in self.KS]
        return self._iSorted
''', '''        stale = self._KS is None or self._iSorted is None
        if stale and self.iList:
            self._iSorted = list(map(self.iList.__getitem__, self.KS))
        return self._iSorted
'''))
r('setup-next-row', 'ade/population.py', ('''            k, IV = kIV
            if k+1 == IV.shape[0]:
                refreshIV()
                k, IV = kIV
            kIV[0] += 1
            return IV[k,:]
''', '''            if kIV[0]+1 >= len(kIV[1]): refreshIV()
            k, IV = kIV
            kIV[0] = k+1
            return IV[k]
'''))
r('setup-individual-while', 'ade/population.py', ('''            for k in range(self.maxTries):
                values = getNextIV()
                if self.pm.passesConstraints(values):
                    break
                self.showFailedConstraint()
            else:
                msg(0, "Couldn't generate a conforming Individual, aborting!")
                self.abort()
            return Individual(self, self.pm.limit(values))
''', '''            tries = 0
            while True:
                values = getNextIV()
                tries += 1
                if self.pm.passesConstraints(values):
                    break
                self.showFailedConstraint()
                if tries == self.maxTries:
                    msg(0, "Couldn't generate a conforming Individual, aborting!")
                    self.abort()
                    break
            i = Individual(self, values)
            self.limit(i)
            return i
'''))
r('setup-evaluated', 'ade/population.py', ('''            if not i:
                msg(0, "Bogus initial evaluation of {}, aborting", i)
                self.abort()
                return
            self.reporter(i)
            isFinite = not np.isinf(float(i.SSE))
            if isFinite and needMore(): addIndividual(i)
''', '''            if i:
                self.reporter(i)
                if needMore() and np.isfinite(float(i.SSE)):
                    addIndividual(i)
            else:
                msg(0, "Bogus initial evaluation of {}, aborting", i)
                self.abort()
'''))
r('setup-add-helper', 'ade/population.py', ('''            self.iList.append(i)
            self.dLocks.append(defer.DeferredLock())
            self.history.add(i)
            del self.KS
''', '''            self._append(i)
'''), ('''    def addCallback(self, func, *args, **kw):
''', '''    def _append(self, i):
        del self.KS
        self.dLocks.append(defer.DeferredLock())
        self.iList.append(i)
        self.history.add(i)

    def addCallback(self, func, *args, **kw):
'''))
r('keep-status-quo', 'ade/population.py', ('''        prob = 0.5 + 0.5*np.sin(np.pi*(x-0.5))
        return np.random.random_sample() < prob
''', '''        threshold = np.random.random_sample()
        prob = 0.5*(1 + np.sin(np.pi*x - 0.5*np.pi))
        return prob > threshold
'''))
r('replacement-split', 'ade/population.py', ('''        if rir is None:
            # Inquiry call, initialize score to zero
            score = self.replacementScore
            self.replacementScore = 0
            if score is None:
                # This is the first time ever called, so of course
                # status quo should be maintained
                return True
            return self._keepStatusQuo(score)
        # An adjustment call
        if self.replacementScore is not None:
            # 0 has a tiny weight, just 0.1
            # 1 has only 0.5 weight
            # 2 has 1.5, or 3x as much as 1
            # 3 has 2.5, or 5x as much as 1
            addition = 0.1 if rir == 0 else rir - 0.5
            self.replacementScore += addition
''', '''        if rir is not None:
            if self.replacementScore is None: return
            self.replacementScore += self._weight(rir)
            return
        score, self.replacementScore = self.replacementScore, 0
        return True if score is None else self._keepStatusQuo(score)

    @staticmethod
    def _weight(rir):
        if rir: return rir - 0.5
        return 0.1
'''))
r('report-flat', 'ade/population.py', ('''        if iNew is None and iOld is None:
            iNew = self.best()
            noProgress = True
            force = True
''', '''        if iNew is None and iOld is None:
            iNew, noProgress, force = self.best(), True, True
'''))
r('sample-set', 'ade/population.py', ('''        K = [k for k in self.KS if k not in exclude]
        rb''', '''        exclude = set(exclude)
        K = list(filter(lambda k: k not in exclude, self.KS))
        rb'''))
r('sample-for', 'ade/population.py', ('''            result = []
            while len(result) < N:
                k = self.ps(K, rb)
                K.remove(k)
                result.append(k)
''', '''            result = []
            for _ in range(N):
                result.append(self.ps(K, rb))
                K.remove(result[-1])
'''))
r('individuals-comprehension', 'ade/population.py', ('''        result = []
        for k in indices:
            if k >= len(self.iList): return
            result.append(self.iList[k])
        return result[0] if len(result) == 1 else result
''', '''        N = len(self.iList)
        if any(k >= N for k in indices): return
        result = [self.iList[k] for k in indices]
        if len(result) == 1: return result[0]
        return result
'''))
r('lock-set', 'ade/population.py', ('''        for k in indices:
            if indices.count(k) > 1:
                raise ValueError(
                    "Requesting the same lock twice will result in deadlock!")
        dList = []
        for k in indices:
            if k >= len(self.dLocks):
                # Invalid index, we must be shutting down
                self.release()
                return defer.succeed(None)
            dList.append(self.dLocks[k].acquire())
        return defer.DeferredList(dList).addErrback(oops)
''', '''        if len(set(indices)) < len(indices):
            raise ValueError(
                "Requesting the same lock twice will result in deadlock!")
        dList = []
        for k in indices:
            if k < len(self.dLocks):
                dList.append(self.dLocks[k].acquire())
                continue
            self.release()
            return defer.succeed(None)
        return defer.DeferredList(dList).addErrback(oops)
'''))
r('release-chosen', 'ade/population.py', ('''        if indices:
            for k in indices:
                tryRelease(self.dLocks[k])
            return
        for dLock in self.dLocks:
            tryRelease(dLock)
''', '''        chosen = [self.dLocks[k] for k in indices] if indices else self.dLocks
        for dLock in list(chosen):
            tryRelease(dLock)
'''))
r('abort-order', 'ade/population.py', ('''        self.running = False
        if not ignoreReporter:
            msg("Shutting down reporter")
            self.reporter.abort()
''', '''        self.running = False
        withReporter = not ignoreReporter
        if withReporter:
            msg("Shutting down reporter")
            self.reporter.abort()
'''))
r('clear-order', 'ade/population.py', ('''        self.counter = 0
        self.iList = []
        self.dLocks = []
        if hasattr(self, 'history'): self.history.clear()
        self.running = None
        self.replacementScore = None
        del self.KS
''', '''        self.running = self.replacementScore = None
        self.iList, self.dLocks = [], []
        self.counter = 0
        del self.KS
        if hasattr(self, 'history'): self.history.clear()
'''))
r('load-split', 'ade/population.py', ('''            p.pm.setup(bounds)
            for i in p:
                key = hash(i)
                p.limit(i)
                p.history.rekey(key, i)
''', '''            p.pm.setup(bounds)
            keys = [hash(i) for i in p]
            for i in p: p.limit(i)
            for key, i in zip(keys, p): p.history.rekey(key, i)
'''))
r('getstate-dict', 'ade/population.py', ('''        state = {}
        names = {
            # Bools
            'debug', 'running',
            # Scalars
            'Nd', 'Np', 'popsize', 'targetFraction', 'statusQuoScore',
            # Other
            'iList', 'kr', 'pm', 'history',
        }
        for name in names:
            if hasattr(self, name):
                state[name] = getattr(self, name)
        return state
''', '''        names = (
            'debug', 'running', 'Nd', 'Np', 'popsize', 'targetFraction',
            'statusQuoScore', 'iList', 'pm', 'history')
        return {x: getattr(self, x) for x in names if hasattr(self, x)}
'''))
r('evalFunc-kw', 'ade/population.py', ('''        if self.running is False:
            values = None
        if xSSE is None:
            return defer.maybeDeferred(self.func, values)
        return defer.maybeDeferred(self.func, values, xSSE=xSSE)
''', '''        kw = {} if xSSE is None else {'xSSE': xSSE}
        arg = None if self.running is False else values
        return defer.maybeDeferred(self.func, arg, **kw)
'''))
r('Np-if', 'ade/population.py', ('''        self.Np = max([
            self.Np_min, min([self.popsize * self.Nd, self.Np_max])])
''', '''        Np = self.popsize * self.Nd
        if Np > self.Np_max: Np = self.Np_max
        if Np < self.Np_min: Np = self.Np_min
        self.Np = Np
'''))
rename('rename-dLocks', 'dLocks', 'lockList', 'ade/population.py')
rename('rename-KS-cache', '_KS', '_sortedIndices', 'ade/population.py')
rename('rename-replacementScore', 'replacementScore', '_score',
       'ade/population.py')

# --- individual.py --------------------------------------------------------
r('SSE-try', 'ade/individual.py', ('''        if self._SSE is None or self._SSE < 0 or self._SSE != self._SSE:
            return float('+inf')
        return self._SSE #float(self._SSE)
''', '''        x = self._SSE
        bad = x is None or not x >= 0
        return float('inf') if bad else x
'''))
r('evaluate-both', 'ade/individual.py', ('''        def done(SSE):
            self.dt = time.time() - t0
            self.p.counter += 1
            self.SSE = SSE
            return self
''', '''        def done(SSE):
            self.SSE = SSE
            self.p.counter += 1
            self.dt = time.time() - t0
            return self
'''), ('''        if xSSE is None:
            d = self.p.evalFunc(self.values)
        else: d = self.p.evalFunc(self.values, xSSE=xSSE)
        d.addCallbacks(done, failed)
        return d
''', '''        kw = {} if xSSE is None else dict(xSSE=xSSE)
        return self.p.evalFunc(self.values, **kw).addCallbacks(done, failed)
'''))
r('bool-one-line', 'ade/individual.py', ('''        if self._SSE is None: return True
        SSE = float(self._SSE)
        if np.isnan(SSE): return True
        return SSE >= 0
''', '''        return self._SSE is None or not float(self._SSE) < 0
'''))
r('blacklist-order', 'ade/individual.py', ('''        key = hash(self)
        self.SSE = float('+inf')
        del self.p.KS
        history = getattr(self.p, 'history', None)
        if history is not None and any(i is self for i in self.p):
            history.rekey(key, self)
''', '''        key = hash(self)
        history = getattr(self.p, 'history', None)
        member = False
        for i in self.p:
            if i is self: member = True
        self.SSE = np.inf
        if member and history is not None:
            history.rekey(key, self)
        del self.p.KS
'''))
r('arithmetic-class', 'ade/individual.py', ('''        return self.spawn(self.values - other.values)
''', '''        return Individual(self.p, np.subtract(self.values, other.values))
'''), ('''        return self.spawn(self.values * F)
''', '''        return self.spawn(F * self.values)
'''))

# --- report.py ------------------------------------------------------------
r('report-loop-index', 'ade/report.py', ('''                for func, args, kw in self.callbacks:
                    if aborted(): break
''', '''                for entry in self.callbacks:
                    func, args, kw = entry
                    if self.p.running is False: break
'''))
r('report-complaint-helper', 'ade/report.py', ('''                        i.blacklist()
                        if iPrevBest and iPrevBest < self.iBest:
                            self.iBest = iPrevBest
                        # The complaint may not be about the first
                        # individual of this run of callbacks, or
                        # there may have been more than one
                        for iFormer in self.formerBests:
                            if iFormer < self.iBest:
                                self.iBest = iFormer
''', '''                        i.blacklist()
                        restore()
'''), ('''        @defer.inlineCallbacks
        def runUntilFree():
''', '''        def restore():
            candidates = list(self.formerBests)
            if iPrevBest: candidates.insert(0, iPrevBest)
            for iFormer in candidates:
                if iFormer < self.iBest:
                    self.iBest = iFormer

        @defer.inlineCallbacks
        def runUntilFree():
'''))
r('report-complaint-min', 'ade/report.py', ('''                        for iFormer in self.formerBests:
                            if iFormer < self.iBest:
                                self.iBest = iFormer
''', '''                        self.iBest = min(
                            [self.iBest] + self.formerBests, key=float)
'''))
r('newBest-goahead', 'ade/report.py', ('''            if self.iLastReported and i == self.iLastReported:
                # Don't just repeat the exact same report, ever.
                return False
            if force:
                # Unless the report would be an exact duplicate,
                # always proceed if forced.
                return True
            if not isBest:
                # Not best so nope.
                return False
            # Best and not forced, so reporting depends on whether SSE
            # is considered equivalent.
            return not self.isEquivSSE(i, self.iLastReported)
''', '''            same = self.iLastReported and i == self.iLastReported
            if same: return False
            return force or (
                isBest and not self.isEquivSSE(i, self.iLastReported))
'''))
r('newBest-flat', 'ade/report.py', ('''        iBackupBest = self.iBest
        if self.iBest is None or i < self.iBest:
            # Register new best, regardless of whether it gets reported
            self.iBest = i
            isBest = True
            if iBackupBest is not None:
                self.formerBests.append(iBackupBest)
        else: isBest = False
''', '''        iBackupBest = self.iBest
        isBest = iBackupBest is None or i < iBackupBest
        if isBest:
            if iBackupBest is not None:
                self.formerBests.append(iBackupBest)
            self.iBest = i
'''))
r('isEquiv-product', 'ade/report.py', ('''        ratio = float(betterSSE) / float(worseSSE)
        return abs(ratio - 1.0) < self.minDiff 
''', '''        ratio = float(betterSSE) / float(worseSSE)
        return 1.0 - self.minDiff < ratio < 1.0 + self.minDiff
'''))
r('msgRatio-bogus', 'ade/report.py', ('''            SSE = i.SSE
            if SSE is None: return True
            try:
                isNan = np.isnan(SSE)
            except: isNan = False
            if isNan: return True
            try:
                isInf = np.isinf(SSE)
            except: isInf = False
            return isInf
''', '''            SSE = i.SSE
            return SSE is None or not np.isfinite(float(SSE))
'''))
r('msgRatio-table', 'ade/report.py', ('''        elif bogus(iNum):
            if bogus(iDenom):
                ratio = 0
                sym = "%"
            else:
                ratio = 1000
                sym = bogus_char
        elif bogus(iDenom):
            ratio = 0
            sym = "#"
''', '''        elif bogus(iNum) or bogus(iDenom):
            ratio, sym = {
                (True, True): (0, "%"),
                (True, False): (1000, bogus_char),
                (False, True): (0, "#"),
            }[bool(bogus(iNum)), bool(bogus(iDenom))]
'''))
r('reporter-call-split', 'ade/report.py', ('''        if iOther is None:
            if not i:
''', '''        if iOther is None:
            return self._single(i, noProgress, force, progressChar)
        return self._double(i, iOther, noProgress, force, progressChar)

    def _single(self, i, noProgress, force, progressChar):
            if not i:
'''), ('''            return
        # Ratio is how much better this is than other. Thus, numerator
''', '''            return

    def _double(self, i, iOther, noProgress, force, progressChar):
        # Ratio is how much better this is than other. Thus, numerator
'''))
rename('rename-formerBests', 'formerBests', '_former', 'ade/report.py')
rename('rename-iLastReported', 'iLastReported', '_latest', 'ade/report.py')
rename('rename-cbr', 'cbrInProgress', '_busy', 'ade/report.py')

# --- history.py -----------------------------------------------------------
r('kkr-set', 'ade/history.py', ('''        K.sort()
        # The first unallocated row is where the sorted row indices
        # get ahead of their position
        gaps = np.flatnonzero(K != np.arange(len(K)))
        return k, gaps[0] if len(gaps) else len(K)
''', '''        taken = set(self.K)
        kr = 0
        while kr in taken: kr += 1
        return k, kr
'''))
r('kkr-bisect', 'ade/history.py', ('''        k = np.searchsorted(self.X[K,0], SSE)
''', '''        import bisect
        k = bisect.bisect_left(list(self.X[K,0]), SSE)
'''))
r('kkr-free-list', 'ade/history.py', ('''        K.sort()
        # The first unallocated row is where the sorted row indices
        # get ahead of their position
        gaps = np.flatnonzero(K != np.arange(len(K)))
        return k, gaps[0] if len(gaps) else len(K)
''', '''        free = sorted(set(range(self.N_max)) - set(self.K))
        return k, free[-1]
'''))
r('add-early-return', 'ade/history.py', ('''        if np.all(np.isfinite(SV)):
            yield self.dLock.acquire()
            N = len(self.K)
            if N == 0:
                # First addition
                k, kr = 0, 0
            elif N < self.N_max:
                # Roster not yet full, no need to search for somebody
                # to bump first
                k, kr = self.kkr(SSE, N)
            else:
                # Roster is full, we will need to bump somebody (those
                # in the current population are protected and exempt)
                # before adding. With everybody protected, there's no
                # room for a new record.
                kr = yield self.cpf()
                if kr is not None:
                    self.purge(kr)
                    k, kr = self.kkr(SSE, N)
            if kr is not None: writeRecord(k, kr)
            self.dLock.release()
        else: kr = None
        defer.returnValue(kr)
''', '''        if not np.all(np.isfinite(SV)):
            return None
        yield self.dLock.acquire()
        room = len(self.K) < self.N_max
        if not room:
            worst = yield self.cpf()
            if worst is not None:
                self.purge(worst)
                room = True
        kr = None
        if room:
            k, kr = self.kkr(SSE, len(self.K)) if self.K else (0, 0)
            writeRecord(k, kr)
        self.dLock.release()
        return kr
'''))
r('add-lock-run', 'ade/history.py', ('''            yield self.dLock.acquire()
            N = len(self.K)
            if N == 0:
                # First addition
                k, kr = 0, 0
            elif N < self.N_max:
                # Roster not yet full, no need to search for somebody
                # to bump first
                k, kr = self.kkr(SSE, N)
            else:
                # Roster is full, we will need to bump somebody (those
                # in the current population are protected and exempt)
                # before adding. With everybody protected, there's no
                # room for a new record.
                kr = yield self.cpf()
                if kr is not None:
                    self.purge(kr)
                    k, kr = self.kkr(SSE, N)
            if kr is not None: writeRecord(k, kr)
            self.dLock.release()
        else: kr = None
''', '''            @defer.inlineCallbacks
            def gotLock():
                N = len(self.K)
                if N == 0:
                    k, kr = 0, 0
                elif N < self.N_max:
                    k, kr = self.kkr(SSE, N)
                else:
                    kr = yield self.cpf()
                    if kr is not None:
                        self.purge(kr)
                        k, kr = self.kkr(SSE, N)
                if kr is not None: writeRecord(k, kr)
                defer.returnValue(kr)
            kr = yield self.dLock.run(gotLock)
        else: kr = None
'''))
r('write-record-order', 'ade/history.py', ('''            self.X[kr,:] = SV
            self.K.insert(k, kr)
            self.N_total += 1           # Add to the lifetime total count
''', '''            self.N_total += 1
            self.K[k:k] = [kr]
            for kc, x in enumerate(SV):
                self.X[kr,kc] = x
'''))
r('purge-order', 'ade/history.py', ('''        self.K.remove(kr)
        self.cpf.clearRow(kr)
        self.Kp.discard(kr)     # May already have been discarded with .pop
        self.Kn.discard(kr)
''', '''        for rows in (self.Kn, self.Kp):
            rows.discard(kr)
        self.cpf.clearRow(kr)
        del self.K[self.K.index(kr)]
'''))
r('notInPop-order', 'ade/history.py', ('''            if key is None:
                kr = x
            else:
                # Must be an Individual
                if key not in self.kr: return
                kr = self.kr.pop(key)
            self.Kp.discard(kr)
''', '''            kr = x if key is None else self.kr.pop(key, None)
            if kr is None: return
            self.Kp.discard(kr)
'''))
r('purgePop-list', 'ade/history.py', ('''            while self.Kp:
                kr = self.Kp.pop()
                self.purge(kr)
            self.kr.clear()
''', '''            for kr in sorted(self.Kp):
                self.purge(kr)
            self.kr.clear()
'''))
r('rekey-del', 'ade/history.py', ('''            if key in self.kr:
                self.kr[newKey] = self.kr.pop(key)
''', '''            kr = self.kr.pop(key, None)
            if kr is None: return
            self.kr[newKey] = kr
'''))
r('clear-slices', 'ade/history.py', ('''            del self.K[:]
            self.Kp.clear()
            self.Kn.clear()
            self.cpf.clear()
            self.kr.clear()
            self.N_total = 0
''', '''            self.N_total = 0
            self.K[:] = []
            for x in (self.Kp, self.Kn, self.cpf, self.kr):
                x.clear()
'''))
r('value-vs-SSE-mask', 'ade/history.py', ('''        if kw.get('inPop', False):
            K = [k for k in self.K if k in self.Kp]
        elif kw.get('notInPop', False):
            K = [k for k in self.K if k not in self.Kp and k not in self.Kn]
        elif kw.get('neverInPop', False):
            K = [k for k in self.K if k in self.Kn]
        else: K = self.K
        KK = np.flatnonzero(self.X[K,0] <= maxRatio*SSE_best)
        K = np.array(K)[KK]
''', '''        if kw.get('inPop', False):
            wanted = lambda k: k in self.Kp
        elif kw.get('notInPop', False):
            wanted = lambda k: not (k in self.Kp or k in self.Kn)
        elif kw.get('neverInPop', False):
            wanted = lambda k: k in self.Kn
        else: wanted = lambda k: True
        limit = maxRatio*SSE_best
        K = np.array([k for k in self.K if wanted(k) and
                      self.X[k,0] <= limit], dtype=int)
'''))
r('Kf12-mask', 'ade/history.py', ('''        I = np.logical_and(SSE >= fSSE(f1), SSE < fSSE(f2))
        return np.array(self.K)[np.flatnonzero(I)]
''', '''        I = (SSE >= fSSE(f1)) & (SSE < fSSE(f2))
        return np.array(self.K)[I]
'''))
r('initialize-loop', 'ade/history.py', ('''        for kr in self.K:
            if kr in self.Kp: continue
            self.cpf.setRow(kr, self.X[kr,:], neverInPop=(kr in self.Kn))
''', '''        outside = [kr for kr in self.K if kr not in self.Kp]
        for kr in outside:
            never = kr in self.Kn
            self.cpf.setRow(kr, self.X[kr], never)
'''))
r('history-setstate-loop', 'ade/history.py', ('''        self.names = state['names']
        self.N_max = state['N_max']
        self.N_total = state['N_total']
        self.X = bytes2array(state, 'X')
        self.K = list(bytes2array(state, 'K'))
        self.Kp = set(bytes2array(state, 'Kp'))
        self.Kn = set(bytes2array(state, 'Kn'))
        self.kr = state['kr']
''', '''        for name in ('names', 'N_max', 'N_total', 'kr'):
            setattr(self, name, state[name])
        for name, cls in (('K', list), ('Kp', set), ('Kn', set)):
            setattr(self, name, cls(bytes2array(state, name)))
        self.X = bytes2array(state, 'X')
'''))
r('cpf-clearRow', 'ade/history.py', ('''        if k in self.K:
            self.K.remove(k)
            self.Kn.discard(k)
            self.S = None
''', '''        if k not in self.K: return
        self.S = None
        self.Kn.discard(k)
        self.K.discard(k)
'''))
r('cpf-pairs', 'ade/history.py', ('''        K1, K2 = np.meshgrid(list(self.K), list(self.K), indexing='ij')
        K12 = np.column_stack([K1.flatten(), K2.flatten()]).astype(int)
        return K12[np.flatnonzero(K12[:,1] > K12[:,0])]
''', '''        rows = list(self.K)
        return np.array([
            [k1, k2] for k1 in rows for k2 in rows if k2 > k1], dtype=int)
'''))
rename('rename-kr-map', 'cpf', '_finder', 'ade/history.py')

# --- constraints.py, specs.py, util.py, abort.py ---------------------------
r('relations-items', 'ade/constraints.py', ('''        for xName in self.relations:
            x = params[xName]
            ys = self.relations[xName]
            for yName in ys:
                y = params[yName]
                m, b, yMaxErr = ys[yName]
                yr = m*x + b
                if abs(yr-y) > yMaxErr:
                    return False
        return True
''', '''        for xName, ys in self.relations.items():
            x = params[xName]
            for yName, (m, b, yMaxErr) in ys.items():
                err = params[yName] - (m*x + b)
                if err > yMaxErr or -err > yMaxErr: return False
        return True
'''))
r('wrap-missing', 'ade/constraints.py', ('''                newParams = {}
                if linearParams:
                    if not linearParams.issubset(params):
                        return True
                    for name in linearParams:
                        if name not in newParams:
                            newParams[name] = params[name]
                if logParams:
                    if not logParams.issubset(params):
                        return True
                    for name in logParams:
                        if name not in newParams:
                            newParams[name] = np.power(10.0, params[name])
''', '''                linear, log = linearParams or (), logParams or ()
                for name in list(linear) + list(log):
                    if name not in params: return True
                newParams = {x: np.power(10.0, params[x]) for x in log}
                newParams.update((x, params[x]) for x in linear)
'''))
r('constraints-flat', 'ade/constraints.py', ('''        for methodName in self.registry:
            func = getattr(self, methodName)
            self.cList.append([func]+list(self.registry[methodName]))
''', '''        for methodName, (linear, log) in self.registry.items():
            self.cList.append([getattr(self, methodName), linear, log])
'''))
r('specs-parse-value', 'ade/specs.py', ('''        for string, assignedValue in (
                ('none', None), ('true', True), ('false', False)):
            if value == string:
                return assignedValue
        match = self.reNum.match(value)
        if match:
            return float(value)
        return value
''', '''        special = {'none': None, 'true': True, 'false': False}
        if value in special: return special[value]
        return float(value) if self.reNum.match(value) else value
'''))
r('specs-strip', 'ade/specs.py', ('''            line = line.split('#')[0].strip()
''', '''            line = line.partition('#')[0].strip()
'''))
r('specs-region-helper', 'ade/specs.py', ('''                if dictDef:
                    # This is the end, as we are already in
                    # dict-definition mode
                    s.dict_done()
                    dictDef = False
                    dictName = None
                elif dictName:
                    # This must be the start of a dict definition
                    s.dict_start(dictName)
                    dictDef = True
                else:
                    # Whoops, neither, and that won't work
                    raise ValueError(
                        "Dict region must be preceded by a dict name")
                continue
''', '''                if not dictName:
                    raise ValueError(
                        "Dict region must be preceded by a dict name")
                if dictDef:
                    s.dict_done()
                    dictName = None
                else:
                    s.dict_start(dictName)
                dictDef = not dictDef
                continue
'''), ('''            seq = []
            for token in tokens:
                seq.append(self.parseValue(token.rstrip(',')))
''', '''            seq = [self.parseValue(x.rstrip(',')) for x in tokens]
'''))
r('specs-stack-recursive', 'ade/specs.py', ('''        dct = self.dct
        while True:
            key = keys.pop(0)
            isDict = isinstance(dct.get(key, None), dict)
            if key in dct and isDict != bool(keys):
                raise ValueError(sub(
                    "Key '{}' is for both a value and a dict", key))
            if keys:
                dct = dct.setdefault(key, {})
            else:
                dct[key] = value
                break
''', '''        self._place(self.dct, value, keys)

    def _place(self, dct, value, keys):
        key, rest = keys[0], keys[1:]
        if key in dct and isinstance(dct[key], dict) != bool(rest):
            raise ValueError(sub(
                "Key '{}' is for both a value and a dict", key))
        if rest:
            self._place(dct.setdefault(key, {}), value, rest)
        else:
            dct[key] = value
'''))
r('specs-get-loop', 'ade/specs.py', ('''        names = list(names)
        first = names.pop(0)
        if 'dct' in kw:
            dct = kw['dct']
            if first in dct:
                obj = dct[first]
                if names and isinstance(obj, dict):
                    kw['dct'] = obj
                    return self.get(*names, **kw)
                return obj
            return {}
        obj = getattr(self, first, {})
        if names and isinstance(obj, dict):
            kw['dct'] = obj
            return self.get(*names, **kw)
        return obj
''', '''        obj = getattr(self, names[0], {})
        for name in names[1:]:
            if not isinstance(obj, dict): break
            obj = obj.get(name, {})
        return obj
'''))
r('timer-dict', 'ade/util.py', ('''        pairs = []
        for ID in self.times:
            avgTime = self.times[ID] / self.Ns[ID]
            pairs.append([ID, avgTime])
        for ID, avgTime in sorted(pairs, key=lambda x: x[1]):
            yield ID
''', '''        averages = {ID: T/self.Ns[ID] for ID, T in self.times.items()}
        yield from sorted(averages, key=averages.get)
'''))
r('timer-totals', 'ade/util.py', ('''            ID = args[self.k]
            self.times[ID] = self.times.get(ID, 0) + time.time() - t0
            self.Ns[ID] = self.Ns.get(ID, 0) + 1
            return result
''', '''            elapsed = time.time() - t0
            ID = args[self.k]
            if ID not in self.times:
                self.times[ID], self.Ns[ID] = 0, 0
            self.times[ID] += elapsed
            self.Ns[ID] += 1
            return result
'''))
r('abort-list', 'ade/abort.py', ('''        while self.callbacks:
            func = self.callbacks.pop(0)
            func()
        self.shutdown()
''', '''        while True:
            if not self.callbacks: break
            self.callbacks.pop(0)()
        self.shutdown()
'''))
r('abort-deque', 'ade/abort.py', ('''        self.callbacks = []
''', '''        self.callbacks = deque()
'''), ('''            func = self.callbacks.pop(0)
''', '''            func = self.callbacks.popleft()
'''), ('''import signal
''', '''import signal
from collections import deque
'''))


def comments():
    for f in sorted(os.listdir(os.path.join(REPO, 'ade'))):
        if f.endswith('.py') and f != '__init__.py':
            text = open(os.path.join(REPO, 'ade', f)).read()
            out, n = [], 0
            for line in text.split('\n'):
                m = re.match(r'( *)(return|if|for|while|self\.)\b', line)
                if m and out and not out[-1].endswith('\\') and \
                   out[-1].strip().endswith(':'):
                    out.append(m.group(1) + '# (see above)')
                out.append(line)
            R['comments-' + f[:-3]] = [('ade/' + f, '\n'.join(out), None)]


def apply(name, repo):
    for path, pairs, everywhere in R[name]:
        f = os.path.join(repo, path)
        text = open(f).read()
        if isinstance(pairs, str):
            text = pairs
        else:
            for old, new in pairs:
                if everywhere:
                    text, n = re.subn(old, new, text)
                else:
                    n = text.count(old)
                    text = text.replace(old, new)
                if not n or (n > 1 and not everywhere):
                    raise SystemExit("%s: %d places in %s for %r" % (
                        name, n, path, old[:60]))
        compile(text, f, 'exec')
        open(f, 'w').write(text)


# The properties resting on each module
REST = {
    'population': '01 02 03 04 05 06 07 09 10 11 12 13 14 15 16',
    'individual': '01 02 03 04 05 06 07 09 12 14 16 22',
    'de': '01 02 03 04 05 06 08 10 11 12 16 17',
    'history': '10 11 12 20', 'report': '13 14 15 16', 'util': '13 21',
    'abort': '16', 'specs': '18', 'constraints': '02 19'}


def relevant(name):
    out = set()
    for path, pairs, _ in R[name]:
        module = os.path.basename(path)[:-3]
        out.update('C' + x for x in REST.get(module, '').split())
    return sorted(out)


def one(name, props, tests):
    props = relevant(name) if props is None else props
    scratch = tempfile.mkdtemp(prefix='ref-')
    try:
        repo = os.path.join(scratch, 'repo')
        shutil.copytree(REPO, repo, ignore=shutil.ignore_patterns('.git'))
        verif = os.path.join(scratch, 'verif')
        os.mkdir(verif)
        for x in ('check', 'check.py', 'selftest.py', 'pydv', 'contracts', 'properties.jsonl',
                  'MANIFEST.json', 'known-findings.txt', 'toys'):
            src = os.path.join(ROOT, x)
            if os.path.isdir(src):
                shutil.copytree(src, os.path.join(verif, x))
            elif os.path.exists(src):
                shutil.copy2(src, verif)
        apply(name, repo)
        bad = []
        if tests:
            p = subprocess.run(
                ['/opt/venv/bin/python', '-m', 'twisted.trial', 'ade'],
                cwd=repo, capture_output=True, text=True)
            last = p.stdout.strip().split('\n')[-1:]
            bad.append('tests: %s' % ' '.join(last))
        for prop in props:
            env = dict(os.environ, PYDV_REPO=repo, VERIF_SEED='1',
                       VERIF_TIER='quick', PYDV_WORKERS=WORKERS)
            p = subprocess.run(['./check', prop], cwd=verif, env=env,
                               capture_output=True, text=True)
            if p.returncode or p.stdout.strip():
                bad.append('%s %d %s' % (prop, p.returncode, (
                    p.stdout + p.stderr[-400:]).strip().replace(
                        scratch, '...')))
        return name, bad
    finally:
        shutil.rmtree(scratch)


if __name__ == '__main__':
    args = sys.argv[1:]
    jobs = 4
    if '-j' in args:
        k = args.index('-j')
        jobs = int(args[k+1])
        del args[k:k+2]
    tests = '-t' in args
    if tests: args.remove('-t')
    props = [a for a in args if re.match(r'C\d\d$', a)]
    only_tests = 'none' in args
    names = [a for a in args if a not in props and a != 'none']
    comments()
    props = [] if only_tests else props or None
    with ThreadPoolExecutor(jobs) as pool:
        for name, bad in pool.map(
                lambda n: one(n, props, tests), names or list(R)):
            print(name, 'quiet' if not bad else '', flush=True)
            for line in bad:
                print('    ' + line, flush=True)
