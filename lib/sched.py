"""Runs functions in threads that take turns: one runs at a time, and control is handed over at lines (or instructions)
of pydarnio chosen by a schedule, so that an interleaving is generated, shrunk and replayed like any other input."""
from lib import env
import os, sys, threading, time
import numpy as np
from h5py._objects import phil

PKG = os.path.join(os.path.realpath(env.REPO), "pydarnio") + os.sep
STALL = 0.5     # a thread that does not come back (it waits for a lock of another one) loses its turn


class Turns:
    def __init__(self, n, runs, opcodes):
        self.cv = threading.Condition()
        self.alive, self.turn, self.blocked = set(range(n)), 0, set()
        self.runs, self.k, self.left = runs, 0, runs[0]
        self.opcodes, self.n = opcodes, n
        self.events = self.switches = self.stalls = 0
        self.progress = time.monotonic()
        self.abort = False

    def other(self, me):
        order = [(me + d) % self.n for d in range(1, self.n + 1)]
        return next((t for t in order if t in self.alive and t not in self.blocked and t != me), me)

    def wait(self, me):         # with cv held
        while self.turn != me and not self.abort:
            self.cv.wait(0.1)
            if self.turn != me and time.monotonic() - self.progress > STALL:
                self.blocked.add(self.turn)
                self.turn, self.progress = me, time.monotonic()
                self.stalls += 1
        if self.abort:
            raise SystemExit

    def event(self, me):
        with self.cv:
            self.progress = time.monotonic()
            self.events += 1
            self.blocked.discard(me)
            if phil._is_owned():    # h5py iterates over attributes holding its lock: nobody else could go far
                return
            if self.turn == me:
                self.left -= 1
                if self.left > 0:
                    return
                self.k += 1
                self.left = self.runs[self.k % len(self.runs)] * (1 + self.switches // 300) ** 2    # bounds the hand-overs
                t = self.other(me)
                if t == me:
                    return
                self.switches += 1
                self.turn = t
                self.cv.notify_all()
            self.wait(me)

    def tracer(self, me):
        def local(frame, event, arg):
            if event == ("opcode" if self.opcodes else "line"):
                self.event(me)
            return local

        def top(frame, event, arg):
            if not frame.f_code.co_filename.startswith(PKG):
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local
        return top

    def body(self, me, fn):
        try:
            with self.cv:
                self.wait(me)
            np.seterr(all="ignore")     # per thread
            sys.settrace(self.tracer(me))
            try:
                fn()
            finally:
                sys.settrace(None)
        finally:
            with self.cv:
                self.alive.discard(me)
                self.blocked.discard(me)
                self.progress = time.monotonic()
                if self.turn == me and self.alive:
                    t = self.other(me)
                    self.turn = t if t != me else min(self.alive)
                self.cv.notify_all()


def interleave(fns, runs, opcodes=False):
    t = Turns(len(fns), runs, opcodes)
    threads = [threading.Thread(target=t.body, args=(i, f), daemon=True) for i, f in enumerate(fns)]
    for x in threads:
        x.start()
    try:
        for x in threads:
            while x.is_alive():
                x.join(0.2)
    except BaseException:
        t.abort = True
        raise
    return t
