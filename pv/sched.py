"""
A cooperative scheduler for real threads: exactly one of them runs, and before
each line - or bytecode - of pilo it executes (and at explicit points) the running one may hand
over to another.  The choices come from the case's PRNG, so a schedule can be
replayed.
"""
import dis
import os
import sys
import threading

from . import core

#: a waiting thread that sees no progress for this long stops scheduling and
#: lets all threads run freely (the running one may be blocked on a lock)
STALL = 2.0


#: the bytecodes that write what another thread may share
STORES = frozenset(dis.opmap[n] for n in (
    'STORE_ATTR', 'STORE_GLOBAL', 'STORE_SUBSCR', 'DELETE_ATTR', 'DELETE_SUBSCR') if n in dis.opmap)


class Scheduler(object):

    def __init__(self, rng, n, chance=0.2, points=None, opcodes=False, stores=False):
        """
        :param chance: chance to hand over at each line, or
        :param points: set of step numbers at which to hand over.
        :param opcodes: whether steps are bytecodes rather than lines.
        :param stores: whether steps are only the bytecodes that write.
        """
        self.rng, self.n, self.chance, self.points = rng, n, chance, points
        self.opcodes, self.stores = opcodes or stores, stores
        self.wake = [threading.Lock() for _ in range(n)]
        for lock in self.wake:
            lock.acquire()
        self.alive = set(range(n))
        self.steps = 0
        self.switches = []
        self.free = False
        self.prefix = os.path.join(core.REPO, 'pilo') + os.sep
        self.failures = {}
        self.results = {}

    def trace_for(self, me):
        prefix = self.prefix
        inside = {}
        wanted = 'opcode' if self.opcodes else 'line'

        def local(frame, event, arg):
            if event == wanted and not (self.stores and frame.f_code.co_code[frame.f_lasti] not in STORES):
                self.step(me, frame)
            return local

        def tracer(frame, event, arg):
            name = frame.f_code.co_filename
            if name not in inside:
                inside[name] = name.startswith(prefix) or os.path.realpath(name).startswith(prefix)
            if not inside[name]:
                return None
            frame.f_trace_opcodes = self.opcodes
            self.step(me, frame)
            return local

        return tracer

    def step(self, me, frame):
        if self.free:
            return
        self.steps += 1
        if self.points is not None:
            if self.steps not in self.points:
                return
        elif self.rng.random() >= self.chance:
            return
        others = [t for t in self.alive if t != me]
        if not others:
            return
        to = others[self.rng.randrange(len(others))]
        self.switches.append((me, to, frame.f_code.co_name, frame.f_lasti if self.opcodes else frame.f_lineno))
        self.hand(to)
        self.wait(me)

    def hand(self, to):
        try:
            self.wake[to].release()
        except RuntimeError:
            pass    # woken already

    def wait(self, me):
        while not self.free:
            seen = self.steps
            if self.wake[me].acquire(timeout=STALL):
                return
            if self.steps == seen:
                self.free = True
                for i in range(self.n):
                    self.hand(i)

    def body(self, me, fn):
        self.wait(me)
        sys.settrace(self.trace_for(me))
        try:
            self.results[me] = fn()
        except BaseException as ex:
            self.failures[me] = ex
        finally:
            sys.settrace(None)
            self.alive.discard(me)
            if self.alive and not self.free:
                others = sorted(self.alive)
                self.hand(others[self.rng.randrange(len(others))])

    def run(self, fns):
        threads = [threading.Thread(target=self.body, args=(i, fn)) for i, fn in enumerate(fns)]
        for t in threads:
            t.daemon = True
            t.start()
        self.hand(self.rng.randrange(self.n))
        for t in threads:
            t.join()
        return self


def alone(fn):
    """Runs fn in a thread of its own, with nothing else running."""
    box = {}

    def body():
        try:
            box['result'] = fn()
        except BaseException as ex:
            box['failure'] = ex

    t = threading.Thread(target=body)
    t.start()
    t.join()
    if 'failure' in box:
        raise box['failure']
    return box['result']
