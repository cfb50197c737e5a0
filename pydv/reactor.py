"""
A clock-driven stand-in for the Twisted reactor, installed before anything
imports the real one.  Nothing touches signals, file descriptors or stdin.
"""
import sys, types

from twisted.internet import task


class FakeReactor(task.Clock):
    def __init__(self):
        task.Clock.__init__(self)
        self.triggers = {}
        self.k = 0
        self.running = True

    def addSystemEventTrigger(self, phase, event, func, *a, **kw):
        self.k += 1
        self.triggers[self.k] = (phase, event, func, a, kw)
        return self.k

    def removeSystemEventTrigger(self, k):
        del self.triggers[k]

    def callWhenRunning(self, func, *a, **kw):
        func(*a, **kw)

    def fireSystemEvent(self, event):
        for k in list(self.triggers):
            if k in self.triggers:
                phase, ev, func, a, kw = self.triggers[k]
                if ev == event:
                    func(*a, **kw)

    def callFromThread(self, func, *a, **kw):
        self.callLater(0, func, *a, **kw)

    def callInThread(self, func, *a, **kw):
        raise RuntimeError("no threads here")

    def stop(self):
        pass

    def reset(self):
        for dc in list(self.getDelayedCalls()):
            try:
                dc.cancel()
            except Exception:
                pass
        self.calls[:] = []
        self.triggers.clear()

    def spin(self, until=None, limit=4000, dt=0.05):
        """Advances time until nothing is left or until() is true."""
        for _ in range(limit):
            if until is not None and until():
                return True
            if not self.calls:
                return until is None
            nxt = self.calls[0].getTime() - self.seconds()
            self.advance(max(nxt, 0))
        return until is not None and until()


class FakeTransport(object):
    def loseConnection(self):
        self.lost = True


class FakeStdio(object):
    def __init__(self, proto, *a, **kw):
        proto.transport = FakeTransport()


the = None


def install():
    global the
    if the is None:
        the = FakeReactor()
        sys.modules['twisted.internet.reactor'] = the
        import twisted.internet
        twisted.internet.reactor = the
        from twisted.internet import stdio
        stdio.StandardIO = FakeStdio
        import signal
        real = signal.signal
        def quiet(num, handler):
            return None
        signal.signal = quiet
    return the
