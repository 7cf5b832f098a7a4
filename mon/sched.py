'''Deterministic scheduling of real threads running library code.

Exactly one thread runs at a time. At every line (or bytecode) of the library
a monitor may hand over to another thread; all choices come from one seeded
generator, so a schedule is replayed by its seed. The free mode lets the
interpreter switch, as often as it can.
'''
import gc
import hashlib
import os
import random
import sys
import threading
import types

ROOT = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'riemann') + os.sep


class Stuck(Exception):
    pass


def library_code():
    '''every code object of the library'''
    todo = [f.__code__ for f in gc.get_objects()
            if isinstance(f, types.FunctionType)]
    out = set()
    while todo:
        c = todo.pop()
        if c in out or not c.co_filename.startswith(ROOT):
            continue
        out.add(c)
        todo += [k for k in c.co_consts if isinstance(k, types.CodeType)]
    return out


def instrument(f, opcodes):
    '''call f(code, place) at every line or bytecode of the library'''
    mon = sys.monitoring
    ev = mon.events.INSTRUCTION if opcodes else mon.events.LINE
    mon.use_tool_id(4, 'sched')
    mon.register_callback(4, ev, f)
    for c in library_code():
        mon.set_local_events(4, c, ev)


class Controlled:
    def __init__(self, jobs, seed, p, opcodes=False, burst=0):
        self.jobs = jobs
        self.r = random.Random('sched/%s' % (seed,))
        self.p = p
        self.opcodes = opcodes
        self.burst = burst
        self.n = len(jobs)
        self.go = [threading.Semaphore(0) for _ in jobs]
        self.done = [False] * self.n
        self.out = [None] * self.n
        self.err = [None] * self.n
        self.switches = self.points = 0
        self.trail = hashlib.blake2b(digest_size=8)
        self.places = set()
        self.left = 0
        self.end = threading.Event()
        self.me = threading.local()

    def others(self, k):
        return [i for i in range(self.n) if i != k and not self.done[i]]

    def hand(self, k):
        o = self.others(k)
        if not o:
            return
        t = o[self.r.randrange(len(o))]
        self.switches += 1
        self.go[t].release()
        if not self.done[k]:
            self.go[k].acquire()

    def point(self, code, at):
        k = getattr(self.me, 'k', None)
        if k is None:
            return
        self.points += 1
        if self.left > 0:
            self.left -= 1
            return
        if self.r.random() < self.p:
            self.trail.update(b'%d %s %d;' % (k, code.co_name.encode(), at))
            self.places.add((code.co_name, at))
            if self.burst and self.r.random() < .5:
                self.left = self.r.randrange(self.burst)
            self.hand(k)

    def body(self, k):
        self.go[k].acquire()
        self.me.k = k
        try:
            self.out[k] = self.jobs[k]()
        except BaseException as e:      # reported by the parent
            self.err[k] = e
        finally:
            self.me.k = None
            self.done[k] = True
            o = self.others(k)
            if o:
                self.go[o[self.r.randrange(len(o))]].release()
            else:
                self.end.set()

    def run(self, timeout=150):
        ts = [threading.Thread(target=self.body, args=(k,), daemon=True)
              for k in range(self.n)]
        instrument(self.point, self.opcodes)
        for t in ts:
            t.start()
        self.go[self.r.randrange(self.n)].release()
        if not self.end.wait(timeout):
            raise Stuck('the threads do not finish')
        for t in ts:
            t.join(5)
        return self.out


def free(jobs, timeout=150):
    '''real concurrency, switching as often as the interpreter can'''
    old = sys.getswitchinterval()
    out = [None] * len(jobs)
    err = [None] * len(jobs)
    bar = threading.Barrier(len(jobs))

    def body(k):
        bar.wait()
        try:
            out[k] = jobs[k]()
        except BaseException as e:
            err[k] = e

    ts = [threading.Thread(target=body, args=(k,), daemon=True)
          for k in range(len(jobs))]
    sys.setswitchinterval(1e-6)
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join(timeout)
            if t.is_alive():
                raise Stuck('the threads do not finish')
    finally:
        sys.setswitchinterval(old)
    return out, err
