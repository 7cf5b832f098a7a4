'''C34: what stays behind when everything handed out has been dropped.'''
import array
import ctypes
import gc
import os
import sys
import time
import tracemalloc

from ..core import Check, REPO

import riemann
from .. import ops
from ..build import select
from ..ref import nets

BATCH = 40
# inputs between two readings, and readings; the first decide whether there is
# anything to look into, the last whether it ends
STAGES = (BATCH, 6), (400, 5), (2500, 10)
PATIENCE = 90    # seconds


class Info(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in (
        'arena', 'ordblks', 'smblks', 'hblks', 'hblkhd', 'usmblks',
        'fsmblks', 'uordblks', 'fordblks', 'keepcost')]


_mallinfo = ctypes.CDLL(None).mallinfo2
_mallinfo.restype = Info


def forget():
    '''drop everything the harness itself keeps'''
    ops._cache.clear()
    for m in list(sys.modules.values()):
        if getattr(m, '__name__', '').startswith('mon.'):
            for v in list(vars(m).values()):
                if callable(getattr(v, 'cache_clear', None)) and getattr(
                        v, '__module__', '').startswith('mon.'):
                    v.cache_clear()
    sys._clear_type_cache() if hasattr(sys, '_clear_type_cache') else None
    gc.collect()
    gc.collect()


class Readings:
    '''small objects alive, and bytes in larger ones; taking one leaves
    nothing behind'''

    def __init__(self, room):
        self.small = array.array('q', [0] * room)
        self.large = array.array('q', [0] * room)
        self.n = 0

    def take(self):
        forget()
        m = _mallinfo()
        self.large[self.n] = m.uordblks + m.hblkhd
        del m
        self.small[self.n] = sys.getallocatedblocks()
        self.n += 1

    def steps(self):
        return [[b - a for a, b in zip(x[:self.n], x[1:self.n])]
                for x in (self.small, self.large)]


class C34(Check):
    id = 'C34'
    quick, thorough = 132, 1320
    coverage = False
    case_cpu = 400
    rule = ('every group of operations of the catalogue run over and over on '
            'inputs never seen before, valid and not, on one network or on '
            'several in turn; after each batch everything handed out is '
            'dropped and the objects and bytes still alive are counted; '
            'growth from batch to batch is followed for up to 20000 inputs, '
            'and must end, as it does when a bounded cache fills; '
            'a state is group, network and reading')
    need = {'readings': 500, 'inputs used and dropped': 25000}

    def setup(self, cx):
        self.next = 10 ** 9 * (1 + cx.seed % 1000)
        self.told = False
        self.filled = []
        # the allocator's own stores fill up
        for group in ops.NAMES:
            self.batch(group, [n.name for n in nets.NETS], 150)

    def batch(self, group, fam, n):
        for _ in range(n):
            self.next += 1
            for k in range(4):
                select(nets.NETS[(self.next * 7 + k) % len(nets.NETS)])
            net = nets.BY[fam[self.next % len(fam)]]
            select(net)
            ops.run(net, self.next, (group,))
            if self.next % 64 == 0:
                ops._cache.clear()

    def case(self, cx, i):
        g = cx.g
        self.next += 10 ** 6 * (i + 1)
        group = ops.NAMES[(i // 8 + 5 * (i % 8)) % len(ops.NAMES)]
        fam = g.pick((
            [g.pick(nets.NETS).name],
            [n.name for n in nets.NETS],
            ['bitcoin_main', 'bitcoin_cash_main', 'litecoin_main'],
            ['zcash_sprout_main', 'zcash_overwinter_main',
             'zcash_sapling_main', 'decred_main'],
            ['decred_main'], ['zcash_sapling_main'], ['bitcoin_test']))
        if self.told or self.filled.count(group) > 1:
            return
        self.batch(group, fam, 3 * BATCH)
        for n, m in STAGES:
            seen = self.watch(cx, group, fam, n, m)
            if not self.growing(n, *seen):
                if n != STAGES[0][0]:
                    self.filled.append(group)
                return
            cx.event('growths followed')
        if not any(sum(x[-3:]) >= .4 * sum(x[:3]) > 0 for x in seen):
            # a store that fills up
            self.filled.append(group)
            return
        self.report(cx, group, fam, n, seen)

    def watch(self, cx, group, fam, n, m):
        t = time.monotonic()
        rd = Readings(m + 1)
        rd.take()
        for _ in range(m):
            self.batch(group, fam, n)
            rd.take()
            if rd.n > m / 2 and time.monotonic() - t > PATIENCE:
                break
        cx.event('readings', rd.n - 1)
        cx.event('inputs used and dropped', n * (rd.n - 1))
        cx.state(group, fam, n)
        return rd.steps()

    def growing(self, n, small, large):
        h = len(small) // 2
        return sum(small) >= max(4, n / 100) * len(small) and sum(
            x > 0 for x in small) > len(small) / 2 or \
            sum(large) >= 6 * n * len(large) and \
            sum(large[-h:]) > .3 * sum(large)

    def report(self, cx, group, fam, n, seen):
        self.told = True
        forget()
        tracemalloc.start(1)
        try:
            self.batch(group, fam, 20)
            forget()
            a = tracemalloc.take_snapshot()
            self.batch(group, fam, 100)
            forget()
            d = tracemalloc.take_snapshot().compare_to(a, 'lineno')
        finally:
            tracemalloc.stop()
        lib = os.path.join(REPO, 'riemann')
        at = ['%s:%d (%d bytes)' % (
            os.path.relpath(x.traceback[0].filename, REPO),
            x.traceback[0].lineno, x.size_diff) for x in d
            if x.size_diff > 0 and x.traceback[0].filename.startswith(lib)]
        cx.fail('%s keeps memory' % group, 'objects and bytes more alive '
                'after batches of %d new inputs, everything dropped: %s; '
                'kept by %s'
                % (n, seen, ', '.join(at[:3]) or 'unknown'))
