'''C23 C24 C25: hashes, integers, fees.'''
import hashlib

from riemann import blake256 as lib_blake
from riemann import utils

from ..core import Check
from ..build import CLASS, by, make, select, snapshot
from ..gen import clone, shape, LENS, U32, U64
from ..ref import nets, prim, tx as rtx
from ..ref.blake import blake
from ..ref.prim import vi
from .wire import long_out, wrap

BITS = (224, 256, 384, 512)
BLOCK = {224: 64, 256: 64, 384: 128, 512: 128}


# ---- C23 ----------------------------------------------------------------

def chunks(g, msg, block):
    '''msg cut into pieces, with a liking for block boundaries'''
    out, i = [], 0
    while i < len(msg):
        c = g.r.random()
        if c < .3:
            k = block - i % block           # exactly up to a boundary
        elif c < .4:
            k = block - i % block + g.pick((-1, 1))
        elif c < .5:
            k = block * g.r.randrange(1, 4)
        elif c < .6:
            k = 0
        elif c < .7:
            k = 1
        else:
            k = g.r.randrange(0, 3 * block)
        k = max(0, k)
        out.append(msg[i:i + k])
        i += k
    if g.chance(.2):
        out.append(b'')
    return out


class C23(Check):
    id = 'C23'
    quick, thorough = 3000, 50000
    rule = ('every message length from 0 to 260 bytes and around every '
            'multiple of the block size up to 1030 for each hash, random '
            'longer ones; BLAKE one-shot and incremental with random cuts, '
            'several hashers alive and interleaved, salts of every length, '
            'text messages, repeated final; compared with an independent '
            'BLAKE and with hashlib, on every network; a state is hash, '
            'message length modulo the block size, salt and cut count')
    need = {'digests': 20000, 'incremental': 3000, 'salted': 1000,
            'interleaved': 500, 'text': 100}
    exhaustive = 'message lengths 0..260 for every hash and BLAKE size'

    def message(self, g, i, block=64):
        if i < 520:
            return g.b(i % 260)
        c = g.r.random()
        if c < .5:
            n = block * g.r.randrange(0, 9) + g.pick(
                (-9, -8, -1, 0, 1, 8, 9, 55 - 64, 56 - 64, 111 - 128,
                 112 - 128, -17, -16))
        elif c < .6:
            n = g.pick(LENS)
        elif c < .63:
            n = g.r.randrange(0, 5000)
        else:
            n = g.r.randrange(0, 400)
        return g.b(max(0, n))

    def simple(self, cx, net, m):
        g = cx.g
        for x in (m, bytearray(m)) if g.chance(.3) else (m,):
            for name, want in (
                    ('sha256', prim.sha256(m)), ('rmd160', prim.rmd160(m)),
                    ('hash256', prim.hash256(net, m)),
                    ('hash160', prim.hash160(net, m)),
                    ('blake256', prim.blake256(m)),
                    ('blake2b', hashlib.blake2b(m).digest()),
                    ('blake2s', hashlib.blake2s(m).digest())):
                cx.event('digests')
                got = cx.ok(name, getattr(utils, name), x)
                cx.eq('%s of %d bytes on %s' % (name, len(m), net.name),
                      got, want, m)
                cx.true(name + ' gives bytes', type(got) is bytes)
                cx.state(name, net.decred, len(m) % 64, len(m) // 64 > 3)
        for f, h, mx, ps in ((utils.blake2b, hashlib.blake2b, 64, 16),
                             (utils.blake2s, hashlib.blake2s, 32, 8)):
            kw = {}
            if g.chance(.7):
                kw['digest_size'] = g.pick((1, 16, 20, 28, 32, mx))
            if g.chance(.6):
                kw['person'] = g.b(g.r.randrange(ps + 1))
            if g.chance(.4):
                kw['salt'] = g.b(g.r.randrange(ps + 1))
            if g.chance(.4):
                kw['key'] = g.b(g.r.randrange(mx + 1))
            want = h(m, **kw).digest()
            cx.event('digests')
            cx.eq('%s(%s)' % (f.__name__, sorted(kw)), cx.ok(
                f.__name__, f, m, **kw), want, m)
            cx.eq('%s(data=..)' % f.__name__, cx.ok(
                f.__name__, f, data=m, **kw), want, m)
            cx.eq('%s of nothing' % f.__name__, cx.ok(
                f.__name__, f, **kw), h(b'', **kw).digest())
            cx.refused('%s with an oversized person' % f.__name__, f, m,
                       person=g.b(ps + 1))
            cx.state(f.__name__, tuple(sorted(kw)))

    def hasher(self, cx, i, bits):
        '''-> generator that performs one incremental computation'''
        g = cx.g
        block = BLOCK[bits]
        m = self.message(g, i, block)
        salt = None
        h = cx.ok('BLAKE(%d)' % bits, lib_blake.BLAKE, bits)
        if g.chance(.35):
            k = block // 4
            salt = g.b(g.pick((0, 1, k - 1, k, k, k + 1, 2 * k, k // 2,
                               g.r.randrange(0, k + 1))))
            cx.ok('addsalt', h.addsalt, salt)
            cx.event('salted')
            yield
        parts = chunks(g, m, block)
        last = b''
        if parts and g.chance(.4):
            last = parts.pop()
        for p in parts:
            x = bytearray(p) if g.chance(.2) else p
            cx.ok('update', h.update, x)
            if isinstance(x, bytearray):
                x[:] = b'\x99' * (len(x) + 1)
            if g.chance(.1):
                cx.refused('addsalt after update', h.addsalt, b'x' * 16)
            yield
        want = blake(bits, m, salt or b'')
        name = 'BLAKE-%d of %d bytes in %d pieces%s' % (
            bits, len(m), len(parts) + 1, '' if salt is None
            else ' salted (%d)' % len(salt))
        end = g.pick(('final', 'digest', 'hexdigest'))
        a = (last,) if last or g.chance(.2) else ()
        got = cx.ok(end, getattr(h, end), *a)
        cx.event('incremental')
        cx.event('digests')
        cx.eq(name, got, want.hex() if end == 'hexdigest' else want, m)
        cx.state(bits, len(m) % block, len(parts) > 1, salt is not None
                 and len(salt))
        yield
        for end in ('final', 'digest', 'hexdigest'):
            got = cx.ok(end, getattr(h, end))
            cx.eq(name + ' asked again', got,
                  want.hex() if end == 'hexdigest' else want, m)

    def case(self, cx, i):
        g = cx.g
        net = g.any_net() if g.chance(.6) else g.pick(nets.DECRED)
        select(net)
        m = self.message(g, i)
        self.simple(cx, net, m)
        for bits in (BITS if i < 520 else (g.pick(BITS),)):
            mm = m if i < 520 else self.message(g, i, BLOCK[bits])
            cx.event('digests')
            cx.eq('BLAKE-%d of %d bytes' % (bits, len(mm)),
                  cx.ok('BLAKE', lambda: lib_blake.BLAKE(bits).digest(mm)),
                  blake(bits, mm), mm)
        # several hashers alive
        live = [self.hasher(cx, i if i >= 520 else 10 ** 6,
                            g.pick(BITS)) for _ in range(g.pick((1, 1, 2, 3,
                                                                 5)))]
        if len(live) > 1:
            cx.event('interleaved')
        while live:
            k = g.r.randrange(len(live))
            try:
                next(live[k])
            except StopIteration:
                live.pop(k)
        if g.chance(.1):
            n = g.pick((0, 1, 3, 20, 63, 64, 65, 127, 128, 129, 200))
            s = ''.join(chr(g.pick((0x61, 0x7f, 0x80, 0xff, 0x100, 0x7ff,
                                    0x800, 0x20ac, 0xffff, 0x10000,
                                    0x1f600))) if g.chance(.3)
                        else g.pick('abc xyz019') for _ in range(n))
            e = s.encode('utf8')
            bits = g.pick(BITS)
            cx.event('text')
            cx.eq('BLAKE of text', lib_blake.BLAKE(bits).digest(s),
                  blake(bits, e), s)
            h = lib_blake.BLAKE(bits)
            k = g.r.randrange(n + 1)
            h.update(s[:k])
            h.update(s[k:].encode('utf8'))
            cx.eq('BLAKE of text and bytes', h.digest(), blake(bits, e), s)
        if g.chance(.02):
            for bad in (0, 128, 160, 255, 257, 1024, None, '256'):
                cx.refused('BLAKE(%r)' % (bad,), lib_blake.BLAKE, bad)
        if i % 997 == 3:
            cx.sample(net=net.name, length=len(m))


# ---- C24 ----------------------------------------------------------------

def script_num(n):
    if n == 0:
        return '00'
    k = 1
    while not -(1 << (8 * k - 1)) <= n < 1 << (8 * k - 1):
        k += 1
    return ''.join('%02x' % ((n >> (8 * j)) & 255) for j in range(k))


def le_bytes(n, k):
    return bytes((n >> (8 * j)) & 255 for j in range(k))


class C24(Check):
    id = 'C24'
    quick, thorough = 16000, 300000
    rule = ('integers of every bit length up to 600 (and up to 5000 now and '
            'then), near every power of two, at every width; encodings '
            'recomputed by shifting; byte strings of every length decoded '
            'signed and unsigned; a state is helper, bit length and width')
    need = {'integers': 60000, 'strings': 16000, 'refusals checked': 60000}

    def number(self, g):
        c = g.r.random()
        if c < .25:
            return g.u32()
        if c < .45:
            return g.u64()
        if c < .75:
            k = g.r.randrange(0, 600)
            return max(0, (1 << k) + g.pick((-2, -1, 0, 1, 2)))
        if c < .98:
            return g.r.getrandbits(g.r.randrange(1, 600))
        if c < .985:  # what 520 bytes can hold, and a little less
            return (1 << g.pick((4159, 4158, 4152, 4151))) - g.pick((1, 2))
        return g.r.getrandbits(g.r.randrange(600, 4200))

    def case(self, cx, i):
        g = cx.g
        if i % 50 == 0:
            select(g.any_net())
        for _ in range(4):
            n = i * 4 + _ if i < 16500 and g.chance(.3) else self.number(g)
            k = max(1, (n.bit_length() + 7) // 8)
            le = le_bytes(n, k)
            cx.event('integers')
            cx.eq('i2le', cx.ok('i2le', utils.i2le, n), le, n)
            cx.eq('i2be', cx.ok('i2be', utils.i2be, n), le[::-1], n)
            cx.eq('le2i of i2le', utils.le2i(utils.i2le(n)), n)
            cx.eq('be2i of i2be', utils.be2i(utils.i2be(n)), n)
            w = g.pick((k, k, k + 1, 4, 8, 32, k + g.r.randrange(40)))
            w = max(w, k)
            cx.eq('i2le_padded', cx.ok('i2le_padded', utils.i2le_padded, n,
                                       w), le_bytes(n, w), (n, w))
            cx.eq('i2be_padded', cx.ok('i2be_padded', utils.i2be_padded, n,
                                       w), le_bytes(n, w)[::-1], (n, w))
            if n:
                for s in {k - 1, g.r.randrange(0, k)}:
                    cx.refused('i2le_padded(%d, %d)' % (n, s),
                               utils.i2le_padded, n, s)
                    cx.refused('i2be_padded(%d, %d)' % (n, s),
                               utils.i2be_padded, n, s)
                for f in (utils.i2le, utils.i2be):
                    cx.refused('%s(%d)' % (f.__name__, -n), f, -n)
                for f in (utils.i2le_padded, utils.i2be_padded):
                    cx.refused('%s(%d, %d)' % (f.__name__, -n, w), f, -n, w)
            if n.bit_length() < 4160:
                for s in (n, -n):
                    got = cx.ok('i2le_script', utils.i2le_script, s)
                    cx.eq('i2le_script(%d)' % s, got, script_num(s))
                    cx.eq('le2i of i2le_script', utils.le2i(
                        bytes.fromhex(got), signed=True), s)
            if g.chance(.01):   # a push holds at most 520 bytes
                big = (1 << 4159) + g.pick((0, 1, g.r.getrandbits(4000)))
                cx.refused('i2le_script of 521 bytes', utils.i2le_script,
                           g.pick((big, -big - 1, big << 8)))
            cx.state('int', n.bit_length(), w - k)
            b = g.blob(g.pick((4, 8, 32, 80, 600)))
            x = bytearray(b) if g.chance(.3) else b
            u = sum(c << (8 * j) for j, c in enumerate(b))
            v = sum(c << (8 * j) for j, c in enumerate(reversed(b)))
            top = 1 << (8 * len(b))
            cx.event('strings')
            cx.eq('le2i', cx.ok('le2i', utils.le2i, x), u, b)
            cx.eq('be2i', cx.ok('be2i', utils.be2i, x), v, b)
            cx.eq('le2i unsigned', utils.le2i(x, signed=False), u, b)
            cx.eq('be2i unsigned', utils.be2i(x, False), v, b)
            cx.eq('le2i signed', cx.ok('le2i', utils.le2i, x, signed=True),
                  u - top if b and 2 * u >= top else u, b)
            cx.eq('be2i signed', cx.ok('be2i', utils.be2i, x, True),
                  v - top if b and 2 * v >= top else v, b)
            cx.eq('change_endianness', bytes(cx.ok(
                'change_endianness', utils.change_endianness, x)),
                bytes(reversed(b)), b)
            cx.eq('change_endianness twice', bytes(utils.change_endianness(
                utils.change_endianness(x))), b)
            cx.eq('the argument', bytes(x), b)
            cx.eq('padded again', utils.i2le_padded(u, len(b)), b)
            cx.eq('padded again', utils.i2be_padded(v, len(b)), b)
            cx.state('bytes', len(b), b[-1:] > b'\x7f', b[:1] > b'\x7f')
        if i % 4001 == 5:
            cx.sample(number=n)


# ---- C25 ----------------------------------------------------------------

class C25(Check):
    id = 'C25'
    quick, thorough = 6000, 100000
    rule = ('transactions of every format with boundary-biased values '
            '(above 2^53 and at 2^64-1 too), repeated outputs, JoinSplits '
            'and balances of both signs; fee compared with exact integer '
            'arithmetic on the spec, also for parsed and copied objects; a '
            'state is format, numbers of parts and sign and size of the fee')
    need = {'fees': 12000, 'negative fees': 2000, 'huge fees': 1000,
            'joinsplit fees': 500, 'balance fees': 300}

    def case(self, cx, i):
        g = cx.g
        net = nets.NETS[i % 72] if i < 144 else g.any_net()
        select(net)
        t = g.tx(net, 'tx' if not net.decred and g.chance(.1) else None,
                 big=.04)
        if g.chance(.3) and t['outs']:      # equal outputs, equal values
            o = g.pick(t['outs'])
            for _ in range(g.r.randrange(1, 4)):
                t['outs'].insert(g.r.randrange(len(t['outs']) + 1),
                                 clone(o) if g.chance(.5) else
                                 dict(g.txout(net), value=o['value']))
        if t['kind'] == 'decred' and g.chance(.3) and len(t['wits']) > 1:
            t['wits'][0] = clone(t['wits'][-1])
        if t['kind'] == 'decred' and g.chance(.15):
            # more or fewer witnesses than inputs: the values that count
            # are the ones the witnesses carry
            while g.chance(.6):
                t['wits'].append(g.dcr_wit(net))
            if t['wits'] and g.chance(.3):
                t['wits'].pop(g.r.randrange(len(t['wits'])))
        if t.get('js') and len(t['js']) > 1 and g.chance(.3):
            t['js'][0] = clone(t['js'][-1])
        if g.chance(.2):
            for o in t['outs']:
                o['value'] = b'\xff' * 8
        if len(rtx.full(t)) > 100000 and t['kind'] != 'tx':
            t = g.tx(net, nin=1, nout=1)
        if t['kind'] == 'decred' and len(t['wits']) != len(t['ins']):
            try:
                o = make(t, wrap(g, 0))
            except ValueError:  # such a transaction may be refused
                return
        else:
            o = cx.ok('build', make, t, wrap(g, g.pick((0, 0, 1))))
        objs = [o]
        if t['kind'] != 'decred' and not long_out(t) and g.chance(.4):
            objs.append(cx.ok('parse', CLASS[t['kind']].from_bytes,
                              rtx.full(t)))
        if g.chance(.2):
            objs.append(cx.ok('copy', o.copy))
        before = snapshot(o)
        for _ in range(3):
            n = len(t['ins'])
            c = g.r.random()
            if c < .5:
                vals = [g.u64() for _ in range(n)]
            elif c < .7:     # close to what leaves
                vals = [rtx.u(x['value']) for x in t['outs'][:n]]
                vals += [0] * (n - len(vals))
                if vals:
                    vals[0] += g.pick((0, 1, 1000))
            elif c < .85:
                vals = [(1 << 64) - 1] * n
            else:
                vals = [0] * n
            if t['kind'] == 'decred':
                want, a = rtx.fee(t, []), ()
            else:
                want = rtx.fee(t, vals)
                a = (list(vals) if g.chance(.7) else tuple(vals),)
            for x in objs:
                got = cx.ok('calculate_fee', x.calculate_fee, *a)
                cx.event('fees')
                cx.eq('fee of %s' % t['kind'], got, want,
                      (len(t['outs']), len(t.get('js') or ())))
                cx.true('the fee is an int', type(got) is int)
            if a:
                cx.eq('the values given', list(a[0]), vals)
            if want < 0:
                cx.event('negative fees')
            if abs(want) > 1 << 53:
                cx.event('huge fees')
            if t.get('js'):
                cx.event('joinsplit fees')
            if t.get('vb', bytes(8)) != bytes(8):
                cx.event('balance fees')
            cx.state(t['kind'], min(n, 4), min(len(t['outs']), 4),
                     len(t.get('js') or ()), want < 0, want.bit_length(),
                     t.get('vb', b'\0')[-1] > 127)
        if snapshot(o) != before:
            cx.fail('asking for the fee changed the transaction', t['kind'])
        if i % 997 == 3:
            cx.sample(net=net.name, fee=str(want), shape=shape(t))
