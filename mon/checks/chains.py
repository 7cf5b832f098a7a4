'''C06 C07 C08 C09: the formats and digests of the other chains.'''
from ..core import Check
from ..build import (B, D, S, Z, CLASS, Diff, args, by, cmp_dcr_txin,
                     cmp_dcr_txout, cmp_dcr_wit, cmp_fields, compare,
                     dcr_outpoint, dcr_txin, dcr_txout, dcr_wit, joinsplit,
                     make, proof, select, snapshot, sout, spend)
from ..gen import clone, shape
from ..golden import order
from ..ref import nets, tx as rtx
from ..ref.blake import blake256
from .sign import Digests
from .wire import (cmp_tx, long_out, parses, parts, recut, report, wrap)


class Chain(Digests):
    quick, thorough = 9000, 150000
    need = {'digests': 3000, 'built': 1500, 'parsed back': 3000}
    pool = ()
    what = ''

    @property
    def rule(self):
        return ('random %s transactions (boundary-biased values, counts and '
                'lengths, with and without each optional section): '
                'attributes, serializations, parts, parse and derived values '
                'compared with independent encoders; digests of every type '
                'for several inputs, scripts and amounts, repeated and '
                'interleaved with a transaction that differs in one field, '
                'compared with an independent implementation; a state is '
                'shape or request' % self.what)

    def net(self, cx):
        return cx.g.pick(self.pool)

    def tx(self, cx, net):
        g = cx.g
        g.roomy = True
        return g.tx(net, long_scripts=g.chance(.3),
                    nin=g.r.randrange(0, 4) if g.chance(.5)
                    and not net.decred else None)

    def case(self, cx, i):
        if i % 2:
            return Digests.case(self, cx, i)
        g = cx.g
        net = self.net(cx)
        select(net)
        t = self.tx(cx, net)
        w = wrap(g, g.pick((0, 0, 1, 2)))
        if g.chance(.2) and not net.decred:
            t2 = recut(g, t)
            report(cx, 'another script split', compare(
                cx.ok('build', make, t2, w), t2))
        c, a = args(t, w)
        if g.chance(.3):
            a = {k: tuple(v) if isinstance(v, list) else v
                 for k, v in a.items()}
        if not net.decred and not t['js'] and g.chance(.5):
            # what belongs to absent sections is not looked at
            a['tx_joinsplits'] = g.pick(([], ()))
        if g.chance(.2):
            o = cx.ok('build', self.positional(c, a))
        else:
            o = cx.ok('build', c, **a)
        cx.event('built')
        report(cx, net.family, compare(o, t))
        raw = rtx.full(t)
        if not net.decred:
            parses(cx, net.family, CLASS[t['kind']], raw, raw, cmp_tx, t,
                   long_out(t))
            if raw[:4] != b'\x01\0\0\0' or g.chance(.3):
                # another version or version group
                n = 4 if net.family == 'sprout' else 8
                b = bytearray(raw)
                b[g.r.randrange(n)] ^= 1 << g.r.randrange(8)
                cx.refused('%s of version %s' % (net.family, b[:n].hex()),
                           CLASS[t['kind']].from_bytes,
                           g.pick((bytes, bytearray))(b))
            self.unsound(cx, net, t)
        self.more(cx, net, t, o, w)
        cx.state(net.name, shape(t))
        if i % 998 == 2:
            cx.sample(net=net.name, bytes=raw)

    def unsound(self, cx, net, t):
        '''serializations of transactions that break a rule'''
        g = cx.g
        bad = []
        if net.family == 'sapling' and not t['spends'] and not t['souts']:
            bad.append(('a balance of nothing', dict(t, vb=g.pick((
                b'\1' + bytes(7), bytes(7) + b'\x80', b'\xff' * 8,
                g.b(8))))))
        if net.family != 'sprout':
            bad.append(('a late expiry', dict(t, expiry=g.pick((
                500000000, 500000001, 0xffffffff, 1 << 31,
                g.r.randrange(500000000, 1 << 32))).to_bytes(4, 'little'))))
        if t['js']:
            js = [clone(j) for j in t['js']]
            j = g.pick(js)
            j['vpub_old'] = g.pick((1, 255, 1 << 63)).to_bytes(8, 'little')
            j['vpub_new'] = g.pick((1, 256, 1 << 40)).to_bytes(8, 'little')
            bad.append(('two public values', dict(t, js=js)))
            if net.family == 'sprout':
                cx.refused('bytes of a sprout transaction without its '
                           'JoinSplit signature', CLASS[t['kind']].from_bytes,
                           rtx.full(t)[:-64])
            bad.append(('six JoinSplits', dict(t, js=(t['js'] * 6)[:6])))
        for what, u in bad:
            if g.chance(.5) and (what != 'a balance of nothing' or
                                 u['vb'] != bytes(8)):
                cx.refused('bytes of a %s transaction with %s' % (
                    net.family, what), CLASS[t['kind']].from_bytes,
                    rtx.full(u))

    def positional(self, c, a):
        return lambda: c(*[a[n] for n in order(c)])

    def part(self, cx, name, cls, make, enc, spec, w, cmp=None):
        o = cx.ok(name, make, spec, w)
        d = Diff()
        f = cmp or (lambda d, p, o, s: cmp_fields(d, p, o, s, enc))
        f(d, name, o, spec)
        report(cx, name, d)
        if cls is not None:
            parses(cx, name, cls, enc(spec), enc(spec), f, spec,
                   len(spec.get('script', b'')) > 251)

    def more(self, cx, net, t, o, w):
        g = cx.g
        if g.chance(.3):
            if t['ins'] and t['outs']:
                parts(cx, net, t, w)
        j = g.pick(t['js']) if t['js'] else g.joinsplit(
            net.family == 'sapling')
        if g.chance(.4):
            sap = net.family == 'sapling'
            self.part(cx, 'proof', S.SaplingZkproof if sap
                      else Z.SproutZkproof, proof, rtx.proof, j['zkproof'], w)
            self.part(cx, 'joinsplit', S.SaplingJoinsplit if sap
                      else Z.SproutJoinsplit, joinsplit, rtx.joinsplit, j, w)
            if sap:
                self.part(cx, 'spend', S.SaplingShieldedSpend, spend,
                          rtx.spend, g.spend(), w)
                self.part(cx, 'output', S.SaplingShieldedOutput, sout,
                          rtx.sout, g.sout(), w)


class C06(Chain):
    id = 'C06'
    pool = nets.SPROUT
    what = 'Sprout'


class C07(Chain):
    id = 'C07'
    pool = nets.OVERWINTER
    what = 'Overwinter'


class C08(Chain):
    id = 'C08'
    pool = nets.SAPLING
    what = 'Sapling'


class C09(Chain):
    id = 'C09'
    quick, thorough = 1600, 24000
    pool = nets.DECRED
    what = 'Decred'
    need = {'digests': 1500, 'built': 500, 'parsed back': 2000}

    def tx(self, cx, net):
        g = cx.g
        n = g.chance(.85)
        if g.chance(.015):
            # enough of one part for its count to take three bytes
            a, b = g.r.randrange(1, 4), g.pick((252, 253, 254, 256, 260))
            if g.chance(.3):
                a, b = b, a
            return g.tx(net, nin=b, nout=a)
        return g.tx(net, big=.004, nin=g.r.randrange(1, 5) if n else None,
                    nout=g.r.randrange(1, 5) if n else None,
                    long_scripts=True, scripts=True)

    def more(self, cx, net, t, o, w):
        g = cx.g
        for name, f, want in (('prefix', o.prefix, rtx.dcr_prefix(t)),
                              ('witness', o.witness, rtx.dcr_witness(t)),
                              ('witness_signing', o.witness_signing,
                               rtx.dcr_signing(t))):
            cx.eq(name, by(cx.ok(name, f)), want)
        cx.eq('prefix_hash', by(o.prefix_hash()), blake256(rtx.dcr_prefix(t)))
        cx.eq('witness_hash', by(o.witness_hash()),
              blake256(rtx.dcr_witness(t)))
        cx.eq('witness_signing_hash', by(o.witness_signing_hash()),
              blake256(rtx.dcr_signing(t)))
        cx.eq('tx_id_le', by(o.tx_id_le), blake256(rtx.dcr_prefix(t)))
        cx.eq('tx_id', by(o.tx_id), blake256(rtx.dcr_prefix(t))[::-1])
        i, q = g.pick(t['ins']), g.pick(t['outs'])

        def cmp_op(d, p, o, s):
            d.same(p + '.tx_id', o.tx_id, s['txid'])
            d.same(p + '.index', o.index, s['index'])
            d.same(p + '.tree', o.tree, s['tree'])
            d.same(p, o, rtx.dcr_outpoint(s))

        self.part(cx, 'DecredOutpoint', D.DecredOutpoint, dcr_outpoint,
                  rtx.dcr_outpoint, i, w, cmp_op)
        self.part(cx, 'DecredTxIn', D.DecredTxIn, dcr_txin, rtx.dcr_txin,
                  i, w, cmp_dcr_txin)
        self.part(cx, 'DecredTxOut', D.DecredTxOut, dcr_txout,
                  rtx.dcr_txout, q, w, cmp_dcr_txout)
        self.part(cx, 'DecredInputWitness', None, dcr_wit, rtx.dcr_wit,
                  g.pick(t['wits']), w, cmp_dcr_wit)
