"""Small functions, right and wrong, for testing the verifier."""
import math, random

import numpy as np
from twisted.internet import defer


# Each pair: as it should be, and broken
def clip(x, lo, hi):
    return min(max(x, lo), hi)

def clip_bad(x, lo, hi):
    return max(min(x, hi), lo) if x < 0 else min(x, hi)

def reflect(values, lo, hi):
    values = np.where(values < lo, 2*lo - values, values)
    values = np.where(values > hi, 2*hi - values, values)
    return np.clip(values, lo, hi)

def reflect_bad(values, lo, hi):
    values = np.where(values < lo, 2*lo - values, values)
    return np.where(values > hi, 2*hi - values, values)

def total(n):
    s = 0
    for k in range(n):
        s += k
    return s

def total_bad(n):
    s = 0
    for k in range(n):
        if k == 7: continue
        s += k
    return s

def first_at_least(seq, x):
    for k, y in enumerate(seq):
        if y >= x:
            return k
    return None

def first_at_least_bad(seq, x):
    for k, y in enumerate(seq):
        if y > x:
            return k
    return None

def best(seq):
    return np.argsort(np.array([x for x in seq]))[0]

def best_bad(seq):
    return np.argsort(np.array([x for x in seq]))[-1]

def worse(a, b):
    return not a < b

def worse_bad(a, b):
    return a >= b

def average(a, b):
    return (a + b) / 2

def average_bad(a, b):
    return a + b / 2

class Account(object):
    def __init__(self):
        self.lock = defer.DeferredLock()
        self.balance = 0
    @defer.inlineCallbacks
    def deposit(self, d):
        yield self.lock.acquire()
        before = self.balance
        x = yield d
        self.balance = before + x
        self.lock.release()

class Account_bad(Account):
    @defer.inlineCallbacks
    def deposit(self, d):
        before = self.balance
        x = yield d
        self.balance = before + x


# For comparison with the interpreter
def mixed(a, b, c):
    out = []
    for x, y in zip((a, b, c), (b, c, a)):
        if x < y and not x == y:
            out.append(x - y)
        elif x > 2*y or x != x:
            out.append(abs(x)*y)
        else:
            out.append(-x)
    return out

def numbers(a, b):
    out = [a + b, a - b, a*b, a <= b, a == b, a != b, bool(a), not b,
           max(a, b), min(a, b), abs(a), -b, 3*a - b/4]
    if b:
        out.append(a/b)
    return out

def integers(a, b):
    out = [a + b, a*b - a, a <= b, max(a, b, 3), a == b]
    if b > 0:
        out.extend([a // b, a % b])
    return out

def sums(v):
    s, m = 0, None
    for x in v:
        s = s + x
        if m is None or x < m: m = x
    return [s, m, len(v), sorted(v)[0], max(v)]

def arrays(v, w):
    v, w = np.array(v), np.array(w)
    a = np.where(v < w, v, w)
    b = np.clip(v, 0, 1)
    c = np.minimum(v, w) + np.maximum(v, w)
    return [float_(x) for z in (a, b, c, v*2 - w) for x in z]

def float_(x):
    return x

def nonfinite(a):
    return [math.isinf(a) if a == a else None, a != a, a < a, a <= a,
            a > 5, np.isfinite(a)]
