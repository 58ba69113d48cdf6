"""
An event loop with virtual time: every iteration takes TICK seconds, and the time
jumps to the next timer when there is nothing else to do.
"""
import asyncio
import selectors

TICK = 0.002


class _Selector:
    def __init__(self):
        self._sel = selectors.DefaultSelector()
        self.now = 1000.

    def select(self, timeout=None):
        self.now += TICK
        if timeout is None:
            # nothing to do at all: something from outside (a thread) may come
            return self._sel.select(0.05)
        if timeout > 0:
            events = self._sel.select(0)
            if not events:
                self.now += timeout
            return events
        return self._sel.select(0)

    def __getattr__(self, name):
        return getattr(self._sel, name)


class VirtualLoop(asyncio.SelectorEventLoop):
    def __init__(self):
        self._virtual = _Selector()
        super().__init__(self._virtual)

    def time(self):
        return self._virtual.now
