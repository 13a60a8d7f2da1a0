"""Threads under a given schedule.

Only one thread runs at a time.  Every traced line (or bytecode) of the code
under test is a point; a schedule is a list of (point number, choice): when the
running thread reaches that point, the chosen other thread goes on.
"""
import sys
import threading

from . import sut


class Schedule(object):
    def __init__(self, n, switches, opcodes=False):
        self.n = n
        self.todo = sorted(switches)
        self.next = self.todo[0][0] if self.todo else None
        self.opcodes = opcodes
        self.cond = threading.Condition()
        self.current = 0
        self.alive = set(range(n))
        self.step = 0
        self.switched = 0

    # -- called by the threads
    def _trace(self, k):
        def local(frame, event, arg):
            self.point(k)
            return local
        prefix = sut.REPO_SRC

        def trace(frame, event, arg):
            if not frame.f_code.co_filename.startswith(prefix):
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
            return local
        return trace

    def point(self, k):
        self.step += 1
        if self.current == k and (self.next is None or self.step < self.next):
            return
        with self.cond:
            if self.current == k:
                self._switch(k)
            self._wait(k)

    def _switch(self, k):
        choice = 0
        while self.todo and self.todo[0][0] <= self.step:
            choice = self.todo.pop(0)[1]
        self.next = self.todo[0][0] if self.todo else None
        others = sorted(self.alive - {k})
        if others:
            self.current = others[choice % len(others)]
            self.switched += 1
            self.cond.notify_all()

    def _wait(self, k):
        seen = self.step
        while self.current != k:
            if not self.cond.wait(1.0):
                # the running thread waits for something that we hold
                if self.step == seen:
                    self.current = k
                    self.cond.notify_all()
                seen = self.step

    def _main(self, k, f, out):
        with self.cond:
            self._wait(k)
        try:
            sys.settrace(self._trace(k))
            try:
                out[k] = f()
            finally:
                sys.settrace(None)
        except BaseException as e:
            out[k] = e
        with self.cond:
            self.alive.discard(k)
            if self.current == k and self.alive:
                self.current = min(self.alive)
            self.cond.notify_all()

    def run(self, fs):
        """Results of the functions; an exception is a result, too."""
        out = [None] * self.n
        ts = [threading.Thread(target=self._main, args=(k, f, out))
              for k, f in enumerate(fs)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return out


def points(fs, opcodes=False):
    """The number of points when the functions run one after the other."""
    s = Schedule(len(fs), [], opcodes)
    s.run(fs)
    return s.step
