'''Workload generation: boundary-biased specs (see ref/tx.py for the shape).'''
from . import mined
from .ref import nets, script as rscript, addr as raddr
from .ref import tx as rtx
from .ref.prim import vi

LENS = [0, 1, 2, 3, 4, 5, 19, 20, 21, 22, 23, 24, 25, 26, 32, 33, 34, 35, 40,
        42, 63, 64, 65, 66, 67, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81,
        82, 83, 84, 105, 106, 107, 108, 127, 128, 129, 160, 200, 249, 250,
        251, 252, 253, 254, 255, 256, 257, 258, 300, 400, 499, 500, 511, 512,
        513, 519, 520, 521, 522, 600, 800, 998, 999, 1000, 1001, 1002, 1003,
        1004, 1023, 1024, 1200, 1400, 1645, 1646, 1647, 1648, 1649, 1650]
U32 = [0, 1, 2, 3, 4, 16, 17, 127, 128, 252, 253, 255, 256, 0x7fff, 0x8000,
       0xffff, 0x10000, 0x10001, 0x3fffff, 0x400000, 0x400001, 499999998,
       499999999, 500000000, 500000001, 0x7fffffff, 0x80000000, 0x80000001,
       0xfffffffc, 0xfffffffd, 0xfffffffe, 0xffffffff]
U64 = [0, 1, 2, 252, 253, 255, 256, 293, 294, 329, 330, 544, 545, 546, 547,
       548, 549, 550, 551, 600, 1000, 65535, 65536, 10 ** 8, 0xffffffff,
       1 << 32, (1 << 32) + 1, 21 * 10 ** 14 - 1, 21 * 10 ** 14,
       21 * 10 ** 14 + 1, (1 << 53) - 1, 1 << 53, (1 << 53) + 1,
       (1 << 63) - 1, 1 << 63, (1 << 63) + 1, (1 << 64) - 2, (1 << 64) - 1]


class Gen:
    roomy = False  # fill transactions up to the size limit

    def __init__(self, rng, m=None):
        self.r = rng
        self.m = m if m is not None else MINED
        self.seen = []   # bytes of this case, to repeat
        self.keys = []

    # ---- scalars --------------------------------------------------------

    def pick(self, xs):
        return xs[self.r.randrange(len(xs))]

    def chance(self, p):
        return self.r.random() < p

    def mined_int(self, lo, hi):
        '''an integer from the source (or next to one), or None'''
        src = self.m['new_ints'] if self.m['new_ints'] and self.chance(.6) \
            else self.m['ints']
        for _ in range(4):
            v = self.pick(src) + self.pick((-1, 0, 0, 0, 1))
            if lo <= v <= hi:
                return v
        return None

    def length(self, hi=1650, lo=0):
        c = self.r.random()
        if c < .55:
            v = self.pick(LENS)
        elif c < .7:
            v = self.mined_int(lo, hi)
            v = 20 if v is None else v
        elif c < .9:
            v = self.r.randrange(0, 90)
        else:
            v = self.r.randrange(0, hi + 1)
        return max(lo, min(v, hi))

    def u(self, bits, special):
        c = self.r.random()
        if c < .45:
            return self.pick(special)
        if c < .6:
            v = self.mined_int(0, (1 << bits) - 1)
            if v is not None:
                return v
        if c < .8:
            return self.r.getrandbits(self.r.randrange(1, bits + 1))
        return self.r.getrandbits(bits)

    def u32(self):
        return self.u(32, U32)

    def u64(self):
        return self.u(64, U64)

    def b(self, n):
        '''n bytes; some repeat or contain earlier ones of the case'''
        c = self.r.random()
        if n == 0:
            return b''
        if c < .8:
            x = self.r.randbytes(n)
            if c > .72 and self.seen:
                s = self.pick(self.seen)
                if len(s) <= n:
                    at = self.pick((0, n - len(s),
                                    self.r.randrange(n - len(s) + 1)))
                    x = x[:at] + s + x[at + len(s):]
                elif self.chance(.3):
                    x = s[:n]
            elif n > 1:
                if len(self.seen) < 8:
                    self.seen.append(x)
                else:
                    self.seen[self.r.randrange(8)] = x
            if c < .12:  # telling bytes at the ends
                e = bytes([self.pick((0, 1, 2, 3, 0x6a, 0x76, 0xa9, 0xfc,
                                      0xfd, 0xfe, 0xff, 0x80, 0x7f))])
                x = e + x[1:] if self.chance(.5) else x[:-1] + e
            elif c < .2 and self.m['byts']:
                s = self.pick(self.m['new_byts'] if self.m['new_byts'] and
                              self.chance(.6) else self.m['byts'])
                if len(s) <= n:
                    at = self.pick((0, n - len(s),
                                    self.r.randrange(n - len(s) + 1)))
                    x = x[:at] + s + x[at + len(s):]
            return x
        if c < .86:
            return b'\x00' * n
        if c < .92:
            return b'\xff' * n
        if c < .96:
            return bytes(i & 255 for i in range(n))
        return bytes([self.r.randrange(256)]) * n

    def blob(self, hi=1650, lo=0):
        return self.b(self.length(hi, lo))

    def b4(self):
        return self.u32().to_bytes(4, 'little')

    def b8(self):
        return self.u64().to_bytes(8, 'little')

    def version(self):
        return self.pick((1, 2, 1, 2, 1, 2, 0, 3, 4, 0x7fffffff, 0x80000000,
                          0x20000000, self.u32(), self.u32())
                         ).to_bytes(4, 'little')

    def count(self, lo=1, big=.02, hi=300):
        c = self.r.random()
        if c < .55:
            return max(lo, self.pick((1, 1, 2, 2, 3)))
        if c < 1 - big - .08:
            return max(lo, self.r.randrange(0, 7))
        if c < 1 - big:
            v = self.mined_int(lo, 40)
            return max(lo, v if v is not None else 9)
        return max(lo, min(hi, self.pick((16, 17, 64, 100, 128, 251, 252, 253,
                                          254, 255, 256, 257, 299))))

    # ---- scripts --------------------------------------------------------

    def pubkey(self):
        k = self.pick((b'\x02', b'\x03')) + self.b(32) \
            if self.chance(.75) else b'\x04' + self.b(64)
        if self.keys and self.chance(.1):
            k = self.pick(self.keys)   # the same key again
        else:
            self.keys = self.keys[-3:] + [k]
        return k

    def opcode(self, net):
        t = rscript.table(net)
        while True:
            v = self.pick(sorted(t))
            if v not in rscript.BANNED and v != 0xff or self.chance(.05):
                if v not in rscript.BANNED:
                    return v

    def minimal_items(self, net, n=None, hi=80, ops=True):
        '''a script made of known opcodes and minimal pushes'''
        n = self.r.randrange(0, 8) if n is None else n
        out = []
        for _ in range(n):
            if ops and self.chance(.5):
                out.append(bytes([self.opcode(net)]))
            else:
                k = self.length(1000, 1) if self.chance(.15) else \
                    self.r.randrange(1, hi)
                out.append(rscript.push(self.b(k)))
        return out

    def minimal_script(self, net, hi=10000, **kw):
        while True:
            s = b''.join(self.minimal_items(net, **kw))
            if len(s) <= hi:
                return s

    def template(self, kind=None, hash_=None):
        '''a standard output script'''
        kind = kind or self.pick(('p2pkh', 'p2sh', 'p2wpkh', 'p2wsh', 'p2pk',
                                  'multisig', 'opret'))
        if kind in raddr.KINDS:
            return raddr.script(kind, hash_ or self.b(
                32 if kind == 'p2wsh' else 20))
        if kind == 'p2pk':
            return rscript.push(self.pubkey()) + b'\xac'
        if kind == 'multisig':
            n = self.r.randrange(1, 4)
            m = self.r.randrange(1, n + 1)
            return (bytes([80 + m]) + b''.join(
                rscript.push(self.pubkey()) for _ in range(n))
                + bytes([80 + n]) + b'\xae')
        d = self.b(self.pick((1, 4, 20, 32, 40, 74, 75, 76, 77, 77)))
        return b'\x6a' + rscript.push(d)

    def out_script(self, net, hi=251):
        c = self.r.random()
        if c < .45:
            s = self.template()
        elif c < .6:
            s = self.near(self.template())
        elif c < .75:
            s = self.minimal_script(net, hi=10000)
        else:
            s = self.b(self.length(1650))
        return s if len(s) <= hi else s[:hi]

    def near(self, s):
        '''a small corruption'''
        if not s:
            return self.b(1)
        c = self.r.randrange(6)
        i = self.r.randrange(len(s))
        if c == 0:
            return s[:i] + bytes([s[i] ^ (1 << self.r.randrange(8))]) \
                + s[i + 1:]
        if c == 1:
            return s[:-1]
        if c == 2:
            return s + self.b(1)
        if c == 3:
            return self.b(1) + s
        if c == 4:
            return s[:i] + s[i + 1:]
        return s[:i] + self.b(1) + s[i:]

    def script_sig(self, net, hi=1650):
        '''bytes for an input's script signature'''
        for _ in range(20):
            c = self.r.random()
            sg = b'\x30' + self.b(self.pick((69, 70, 71)))
            if c < .15:
                s = b''
            elif c < .3:
                s = rscript.push(sg) + rscript.push(self.pubkey())
            elif c < .5:  # p2sh
                red = self.template(self.pick(('p2pk', 'multisig', 'p2wpkh',
                                               'p2wsh', 'p2pkh'))) \
                    if self.chance(.6) else self.minimal_script(net, hi=520)
                s = b''.join(self.minimal_items(net, hi=75,
                                                ops=self.chance(.3)))
                s += rscript.push(red or b'\x51')
            elif c < .58:  # nested segwit
                s = rscript.push(self.template(self.pick(('p2wpkh',
                                                          'p2wsh'))))
            elif c < .7:
                s = self.minimal_script(net)
            elif c < .8:
                s = self.near(self.minimal_script(net))
            elif c < .9:  # non-minimal pushes somewhere
                d = self.b(self.pick((0, 1, 2, 20, 33, 75, 76, 200, 255)))
                w = b'\x4c' + bytes([len(d)]) + d if self.chance(.5) else \
                    b'\x4d' + len(d).to_bytes(2, 'little') + d
                s = b''.join(self.minimal_items(net, n=2, hi=75)) + w
                if self.chance(.6):
                    s += rscript.push(self.minimal_script(net, hi=520)
                                      or b'\x51')
            else:
                s = self.b(self.length(hi))
            if len(s) <= hi:
                return s
        return b''

    # ---- parts ----------------------------------------------------------

    def txin(self, net, scripts=True):
        c = self.r.random()
        txid = self.b(32)
        index = self.b4()
        if c < .04:
            txid, index = b'\x00' * 32, b'\xff' * 4
        elif c < .06:
            txid = b'\x00' * 32
        elif c < .08:
            index = b'\xff' * 4
        i = {'txid': txid, 'index': index,
             'tree': bytes([self.pick((0, 0, 0, 1, 2, 255))]),
             'seq': self.b4(), 'stack': b'', 'redeem': b''}
        if scripts:
            s = self.script_sig(net)
            if txid == b'\x00' * 32 and index == b'\xff' * 4:
                i['stack'] = s
            else:
                i['stack'], i['redeem'] = rscript.split_script_sig(net, s)
        return i

    def txout(self, net, hi=251):
        return {'value': self.b8(), 'ver': self.pick((
            b'\x00\x00', b'\x00\x00', b'\x01\x00', self.b(2))),
            'script': self.out_script(net, hi)}

    def witness(self):
        n = self.pick((0, 1, 2, 2, 2, 3, 4, 5, 9)) if not self.chance(.01) \
            else self.pick((252, 253, 254, 300))
        big = self.chance(.05)
        if self.chance(.001):
            return [self.b(self.pick((65535, 65536, 70000)))
                    for _ in range(n % 3)]
        return [self.b(self.pick((0, 1, 20, 32, 33, 71, 72, 73, 105,
                                  self.length(3000 if big else 600))))
                for _ in range(n)]

    def dcr_wit(self, net):
        s = self.script_sig(net, hi=1650 if not self.chance(.03) else 20000)
        k = self.r.randrange(len(s) + 1)
        return {'value': self.b8(), 'height': self.b4(), 'index': self.b4(),
                'stack': s[:k], 'redeem': s[k:]}

    def fields(self, shape):
        return {k: self.b(n) for k, n in shape}

    def joinsplit(self, sapling):
        j = self.fields(rtx.JS_HEAD)
        v = self.b8()
        z = b'\x00' * 8
        j['vpub_old'], j['vpub_new'] = self.pick(((v, z), (z, v), (z, z)))
        j['zkproof'] = self.fields(rtx.SAPLING_PROOF if sapling
                                   else rtx.SPROUT_PROOF)
        j['encoded_notes'] = self.b(1202)
        return j

    def spend(self):
        s = self.fields(rtx.SPEND)
        s['zkproof'] = self.fields(rtx.SAPLING_PROOF)
        s['spend_auth_sig'] = self.b(64)
        return s

    def sout(self):
        s = self.fields(rtx.SOUT)
        s['zkproof'] = self.fields(rtx.SAPLING_PROOF)
        return s

    def js_count(self):
        return self.pick((0, 0, 0, 1, 1, 2, 3, 4, 5))

    # ---- transactions ---------------------------------------------------

    def tx(self, net, kind=None, flag=None, long_scripts=False, big=.02,
           nin=None, nout=None, scripts=True):
        kind = kind or {'bitcoin': 'tx'}.get(net.family, net.family)
        hi = 251
        if long_scripts and self.chance(.3):
            hi = self.pick((252, 253, 300, 520, 1650, 70000
                            if kind == 'tx' else 1650))
        free = nin is None, nout is None
        if nin is None:
            nin = self.count(1, big)
            if kind in ('sprout', 'overwinter', 'sapling') \
                    and self.chance(.1):
                nin = 0
        if nout is None:
            nout = self.count(1, big)
            if kind in ('sprout', 'overwinter', 'sapling') \
                    and self.chance(.1):
                nout = 0
        if any(free) and self.chance(min(big / 5, .01)):
            # one long list, within the 100 kB some families allow
            n = self.pick((self.r.randrange(300, 1500), 512, 1000, 1024,
                           1025))
            if free[1] and not (free[0] and self.chance(.5)):
                nout = n
                nin = min(nin, 3) if free[0] else nin
            else:
                nin = n
                nout = min(nout, 3) if free[1] else nout
            scripts = False
        if nin + nout > 60 and (scripts is True):
            scripts = self.chance(.3)
        t = {'kind': kind, 'version': self.version(), 'flag': False,
             'ins': [], 'outs': [self.txout(net, hi if nout < 60 else 40
                                             if nout < 1000 else 30)
                                 for _ in range(nout)],
             'wits': None, 'lock': self.b4(), 'expiry': None}
        if kind == 'tx':
            t['flag'] = self.chance(.5) if flag is None else flag
            if t['flag']:
                t['wits'] = [self.witness() if nin < 60 or self.chance(.05)
                             else [] for _ in range(nin)]
                if self.chance(.05):
                    t['wits'] = None  # flagged, not yet signed
        elif kind == 'decred':
            t['expiry'] = self.b4()
            t['wits'] = [self.dcr_wit(net) for _ in range(nin)]
            if sum(len(w['stack']) + len(w['redeem'])
                   for w in t['wits']) > 60000:
                t['wits'] = [dict(w, stack=b'', redeem=b'')
                             for w in t['wits']]
            scripts = False
        else:
            t['expiry'] = min(self.u32(), 499999999).to_bytes(4, 'little')
            njs = self.js_count()
            if kind == 'sprout':
                t['version'] = self.pick((b'\x01\x00\x00\x00',
                                          b'\x02\x00\x00\x00',
                                          b'\x02\x00\x00\x00'))
                if t['version'][0] == 1:
                    njs = 0
            t['spends'] = t['souts'] = []
            if kind == 'sapling':
                nsp, nso = (self.pick((0, 0, 1, 1, 2, 3, 5))
                            for _ in range(2))
                if big and self.chance(.03):
                    # at most 100 kB
                    if not self.roomy:
                        nsp, nso = self.pick(((6, 0), (9, 3), (40, 0),
                                              (100, 0), (1, 17), (0, 40)))
                    elif self.chance(.6):
                        nsp = self.r.randrange(6, 41)
                    elif self.chance(.5):
                        nso = self.r.randrange(6, 41)
                    else:
                        nsp, nso = self.pick((
                            (128, 0), (0, 100), (240, 1), (252, 0),
                            (253, 0), (254, 0)))
                        njs = 0
                        nin = min(nin, 2)
                        t['outs'] = t['outs'][:2]
                t['spends'] = [self.spend() for _ in range(nsp)]
                t['souts'] = [self.sout() for _ in range(nso)]
                t['vb'] = self.b8() if t['spends'] or t['souts'] \
                    else b'\x00' * 8
                t['bsig'] = self.b(64) if t['spends'] or t['souts'] else None
            t['js'] = [self.joinsplit(kind == 'sapling')
                       for _ in range(njs)]
            t['jspk'] = self.b(32) if njs else None
            t['jssig'] = self.b(64) if njs else None
            if nin == 0 and not njs and not t['spends']:
                nin = 1
        t['ins'] = [self.txin(net, scripts) for _ in range(nin)]
        if kind == 'decred' and len(t['wits']) != nin:
            t['wits'] = (t['wits'] * nin)[:nin]
        if kind in ('sprout', 'overwinter', 'sapling', 'decred') \
                and len(rtx.full(t)) > 99000:
            return self.tx(net, kind, flag, False, 0, scripts=False)
        if self.chance(.3):
            self.echo(net, t)
        return t

    def echo(self, net, t):
        '''make some elements of the lists alike, in part or wholly'''
        for name in ('ins', 'outs', 'wits', 'js', 'spends', 'souts'):
            xs = t.get(name)
            if not xs or len(xs) < 2 or self.chance(.4):
                continue
            for _ in range(self.pick((1, 1, 2))):
                i, j = self.r.sample(range(len(xs)), 2)
                a, b = xs[i], clone(xs[j])
                if self.chance(.4) or not isinstance(a, dict):
                    b = clone(a)
                else:
                    f = self.pick(sorted(
                        set(a) - {'vpub_old', 'vpub_new', 'stack', 'redeem'}))
                    b[f] = clone(a[f])
                if name == 'ins' and t['kind'] != 'decred':
                    sig = b['stack'] + b['redeem']
                    if b['txid'] == b'\x00' * 32 and \
                            b['index'] == b'\xff' * 4:
                        b['stack'], b['redeem'] = sig, b''
                    else:
                        b['stack'], b['redeem'] = \
                            rscript.split_script_sig(net, sig)
                xs[j] = b

    def any_net(self, pool=None):
        '''families are equally likely, then networks'''
        pool = pool or nets.NETS
        if self.m['new_strs'] and self.chance(.2):
            # networks that text new to this tree speaks of
            sub = [n for n in pool if any(
                len(x) > 2 and (x in n.name or n.name in x)
                for x in self.m['new_strs'])]
            pool = sub or pool
        fams = sorted({n.family for n in pool})
        if self.chance(.35) and len(fams) > 1:
            f = self.pick(fams)
            pool = [n for n in pool if n.family == f]
        return self.pick(pool)

    def sign_script(self, net, hi=1650):
        '''a bare script to be signed for'''
        c = self.r.random()
        if c < .3:
            s = self.template('p2pkh')
        elif c < .5:
            s = self.template('multisig')
        elif c < .7:
            s = self.minimal_script(net, hi=hi)
        else:
            s = self.b(self.length(hi))
        return s

    def sibling(self, net, t):
        '''a spec that differs from t in a single field; -> (spec, field)'''
        t = clone(t)
        opts = ['version', 'lock']
        opts += ['in'] * 3 * bool(t['ins']) + ['out'] * 3 * bool(t['outs'])
        opts += ['wit'] * bool(t['wits']) + ['expiry'] * bool(t['expiry'])
        if t['kind'] in ('sprout', 'overwinter', 'sapling') and t['js']:
            opts += ['js', 'jspk', 'jssig']
        if t['kind'] == 'sapling' and t['spends'] + t['souts']:
            opts += ['vb', 'bsig', 'shielded']
        while True:
            f = self.pick(opts)
            if f in ('version', 'lock', 'expiry', 'jspk', 'jssig', 'vb',
                     'bsig'):
                if f == 'version' and t['kind'] not in ('tx', 'decred'):
                    continue
                new = self.flip(t[f], 16 if f == 'version' and
                                t['kind'] == 'decred' else None)
                if f == 'expiry' and t['kind'] != 'decred' and \
                        rtx.u(new) > 499999999:
                    continue
                t[f] = new
            elif f == 'in':
                i = self.pick(t['ins'])
                f = self.pick(('txid', 'index', 'seq', 'stack'))
                if t['kind'] == 'decred' and f == 'stack':
                    f = 'tree'
                if f == 'stack':
                    i['stack'], i['redeem'] = self.blob(100), b''
                else:
                    i[f] = self.flip(i[f])
            elif f == 'out':
                o = self.pick(t['outs'])
                f = self.pick(('value', 'script'))
                o[f] = self.flip(o[f]) if o[f] else b'\x51'
            elif f == 'wit':
                k = self.r.randrange(len(t['wits']))
                t['wits'][k] = self.dcr_wit(net) if t['kind'] == 'decred' \
                    else self.witness()
            elif f == 'js':
                j = self.pick(t['js'])
                f = self.pick(('anchor', 'nullifiers', 'commitments',
                               'random_seed', 'vmacs', 'encoded_notes',
                               'ephemeral_key'))
                j[f] = self.flip(j[f])
            elif f == 'shielded':
                s = self.pick(t['spends'] + t['souts'])
                f = self.pick(('cv', 'anchor' if 'anchor' in s else 'cmu'))
                s[f] = self.flip(s[f])
            return t, f

    def flip(self, b, maxbit=None):
        k = self.r.randrange(maxbit or len(b) * 8)
        return b[:k // 8] + bytes([b[k // 8] ^ (1 << (k % 8))]) \
            + b[k // 8 + 1:]


def clone(x):
    if isinstance(x, dict):
        return {k: clone(v) for k, v in x.items()}
    if isinstance(x, list):
        return [clone(v) for v in x]
    return x


def shape(t):
    '''a coarse description of a transaction spec, for distinctness counts'''
    return (t['kind'], t['flag'], min(len(t['ins']), 9),
            min(len(t['outs']), 9), len(t.get('js') or ()),
            len(t.get('spends') or ()), len(t.get('souts') or ()),
            None if t['wits'] is None else min(len(t['wits']), 9),
            t['version'][0],
            tuple(sorted({len(vi(len(rtx.sig(i)))) for i in t['ins']})),
            tuple(sorted({len(vi(len(o['script']))) for o in t['outs']})))


MINED = mined.load()
