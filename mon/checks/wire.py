'''C01 C02 C03 C11 C12: wire formats, ids, hostile parsing.'''
from ..core import Check
from ..build import (B, D, O, S, SH, SP, Z, args, by, compare, cmp_txin,
                     cmp_txout, cmp_witness, Diff, make, select, outpoint,
                     txin, txout, witness, CLASS)
from .. import build
from ..gen import clone, shape
from ..ref import nets, script as rscript, tx as rtx
from ..ref.prim import vi, vi_read, vi_width


def wrap(g, style):
    '''how byte arguments are handed over'''
    if style == 0:
        return lambda x: x
    if style == 1:
        return lambda x: bytearray(x)
    return lambda x: bytearray(x) if g.chance(.5) else x


def report(cx, key, d):
    cx.event('comparisons', 20)
    if d:
        cx.fail(key, '; '.join(d[:4]))


def junk(g):
    return g.b(g.pick((1, 1, 2, 3, 4, 5, 8, 9, 33, 36, 41, 64, 100)))


def recut(g, t):
    '''the same transaction with script signatures split anywhere'''
    t = clone(t)
    for i in t['ins']:
        s = rtx.sig(i)
        k = g.r.randrange(len(s) + 1)
        i['stack'], i['redeem'] = s[:k], s[k:]
    return t


def long_out(t):
    return any(len(o['script']) > 251 for o in t['outs'])


def parses(cx, key, cls, raw, want, cmp, spec, may_refuse=False, exact=True):
    '''parse raw (with and without company) and compare with the spec'''
    g = cx.g
    forms = [(cls.from_bytes, raw), (cls.from_hex, raw.hex())]
    if g.chance(.3):
        forms.append((cls.from_hex, raw.hex().upper()))
    if g.chance(.4):
        forms.append((cls.from_bytes, bytearray(raw)))
    if exact:
        j = junk(g)
        forms.append((cls.from_bytes, raw + j))
        if g.chance(.3):
            forms.append((cls.from_hex, (raw + j).hex()))
        if g.chance(.3):
            forms.append((cls.from_bytes, bytearray(raw + raw)))
    for f, x in forms:
        if may_refuse:
            ok, o = cx.attempt(f, x)
            if not ok:
                cx.event('long scripts refused')
                continue
        else:
            o = cx.ok(key + ' parse', f, x)
        d = Diff()
        cmp(d, key, o, spec)
        d.same(key + ' serialization', o, want)
        report(cx, key + ' parsed', d)
        cx.event('parsed back')


def cmp_tx(d, key, o, t):
    d += compare(o, t)


def cmp_outpoint(d, p, o, i):
    d.same(p + '.tx_id', o.tx_id, i['txid'])
    d.same(p + '.index', o.index, i['index'])


def cmp_item(d, p, o, x):
    d.same(p + '.item', o.item, x)
    d.same(p, o, rtx.item(x))


def parts(cx, net, t, w):
    g = cx.g
    i = g.pick(t['ins'])
    p = cx.ok('Outpoint', outpoint, i, w)
    cx.eq('Outpoint bytes', by(p), rtx.outpoint(i))
    parses(cx, 'Outpoint', B.Outpoint, rtx.outpoint(i), rtx.outpoint(i),
           cmp_outpoint, i)
    p = cx.ok('TxIn', txin, i, w)
    d = Diff()
    cmp_txin(d, 'TxIn', p, i)
    report(cx, 'TxIn', d)
    parses(cx, 'TxIn', B.TxIn, rtx.txin(i), rtx.txin(i), cmp_txin, i)
    o = g.pick(t['outs'])
    p = cx.ok('TxOut', txout, o, w)
    d = Diff()
    cmp_txout(d, 'TxOut', p, o)
    report(cx, 'TxOut', d)
    parses(cx, 'TxOut', B.TxOut, rtx.txout(o), rtx.txout(o), cmp_txout, o,
           len(o['script']) > 251)
    x = g.witness() if not t['wits'] else g.pick(t['wits'])
    p = cx.ok('InputWitness', witness, x, w)
    d = Diff()
    cmp_witness(d, 'InputWitness', p, x)
    report(cx, 'InputWitness', d)
    parses(cx, 'InputWitness', B.InputWitness, rtx.witness(x),
           rtx.witness(x), cmp_witness, x)
    x = g.pick(x) if x else b''
    p = cx.ok('WitnessStackItem', B.WitnessStackItem, w(x))
    d = Diff()
    cmp_item(d, 'WitnessStackItem', p, x)
    report(cx, 'WitnessStackItem', d)
    parses(cx, 'WitnessStackItem', B.WitnessStackItem, rtx.item(x),
           rtx.item(x), cmp_item, x)


MANY = (251, 252, 253, 254, 255, 256, 257, 511, 512, 513, 1000)


class C01(Check):
    id = 'C01'
    quick, thorough = 3200, 64000
    rule = ('random transactions on random networks (boundary-biased field '
            'values, counts and lengths), built from parts given as bytes or '
            'bytearrays, compared attribute by attribute and byte by byte '
            'with an independent encoder, then parsed back from bytes, hex '
            'and with trailing bytes; a state is the shape of a transaction '
            'on a network')
    need = {'parsed back': 3000, 'built': 1000}

    def case(self, cx, i):
        g = cx.g
        if i < 24:
            return self.special(cx, i)
        net = g.any_net(nets.BITCOIN_LIKE) if g.chance(.85) else g.any_net()
        select(net)
        t = g.tx(net, 'tx', long_scripts=True)
        w = wrap(g, g.pick((0, 0, 1, 2)))
        if g.chance(.3):
            t2 = recut(g, t)
            o = cx.ok('Tx', make, t2, w)
            report(cx, 'Tx with another script split', compare(o, t2))
        c, a = args(t, w)
        if a['tx_witnesses'] is None and g.chance(.5):
            a['tx_witnesses'] = g.pick(([], ()))
        if g.chance(.3):
            a['tx_ins'], a['tx_outs'] = tuple(a['tx_ins']), \
                tuple(a['tx_outs'])
        if g.chance(.2):
            o = cx.ok('Tx', c, a['version'], a['flag'], a['tx_ins'],
                      a['tx_outs'], a['tx_witnesses'], a['lock_time'])
        else:
            o = cx.ok('Tx', c, **a)
        cx.event('built')
        report(cx, 'Tx', compare(o, t))
        raw = rtx.full(t)
        parses(cx, 'Tx', B.Tx, raw, raw, cmp_tx, t, long_out(t),
               exact=not (t['flag'] and t['wits'] is None))
        parts(cx, net, t, w)
        if g.chance(.05):
            cx.eq('null outpoint', by(B.Outpoint.null()),
                  b'\0' * 32 + b'\xff' * 4)
        cx.state(net.name, shape(t))
        if i % 997 == 25:
            cx.sample(net=net.name, bytes=raw)

    def special(self, cx, i):
        '''counts and lengths at the larger magnitudes'''
        g = cx.g
        net = nets.BY['bitcoin_main'] if i % 3 else g.any_net(nets.SEGWIT)
        select(net)
        big = i >= 12
        n = g.pick((65534, 65535, 65536, 65537, 66000)) if big \
            else g.pick(MANY)
        k = i % 6
        t = g.tx(net, 'tx', flag=k in (2, 3), nin=1, nout=1)
        if t['flag']:
            t['wits'] = [g.witness()]
        if k == 0:
            if big:
                t['ins'][0].update(stack=b'', redeem=b'')
                t.update(flag=False, wits=None)
            t['ins'] *= n
        elif k == 1:
            t['outs'] = [dict(t['outs'][0], script=b'\x51')] * n
        elif k == 2:
            t['wits'] = [[b'\x01'] * n]
        elif k == 3:
            n = g.pick((65535, 65536, 1 << 20, (1 << 24) + 1)) if big else n
            t['wits'] = [[b'\x02' * n, b'', b'\x03']]
        elif k == 4:
            t['outs'][0]['script'] = g.b(n)
        else:
            t['ins'] *= 300 if big else 253
            t['outs'] *= 260
        c, a = args(dict(t, ins=t['ins'][:1], outs=t['outs'][:1]))
        a['tx_ins'] = a['tx_ins'] * len(t['ins'])
        a['tx_outs'] = a['tx_outs'] * len(t['outs'])
        o = cx.ok('large Tx', c, **a)
        raw = rtx.full(t)
        cx.eq('large Tx bytes', by(o), raw)
        if k or not big:
            cx.eq('large Tx without witnesses', by(o.no_witness()),
                  rtx.nowit(t))
        cx.eq('large Tx length', len(o), len(raw))
        cx.event('built')
        if k in (2, 3) or not big:
            if long_out(t):
                ok, p = cx.attempt(B.Tx.from_bytes, raw)
            else:
                ok, p = True, cx.ok('large Tx parse', B.Tx.from_bytes, raw)
            if ok:
                cx.eq('large Tx parsed', by(p), raw)
                cx.event('parsed back')
                if k in (2, 3):
                    cx.eq('large witness', [by(x.item) for x in
                                            p.tx_witnesses[0].stack],
                          t['wits'][0])
        cx.state('large', k, len(vi(n)), n)


class C02(Check):
    id = 'C02'
    quick, thorough = 3000, 60000
    rule = ('random transactions of every format on every network; ids '
            'compared with the digest of an independent serialization, after '
            'building, parsing and copying, and with the id of the '
            'transaction with one field changed; a state is the network, '
            'shape and field changed')
    need = {'ids': 2000, 'id changes judged': 1500}

    def ids(self, cx, key, o, net, t):
        le = rtx.txid_le(net, t)
        wle = rtx.wtxid_le(net, t)
        cx.event('ids')
        cx.eq(key + ' tx_id_le', by(o.tx_id_le), le)
        cx.eq(key + ' tx_id', by(o.tx_id), le[::-1])
        if t['kind'] == 'tx':
            for a, want in (('wtx_id_le', wle),
                            ('wtx_id', wle and wle[::-1])):
                v = getattr(o, a)
                cx.eq(key + ' ' + a, None if v is None else by(v), want)
        if t['kind'] == 'decred':
            cx.eq(key + ' prefix_hash', by(o.prefix_hash()), le)
            cx.eq(key + ' witness_hash', by(o.witness_hash()),
                  rtx.blake256(rtx.dcr_witness(t)))
            cx.eq(key + ' witness_signing_hash',
                  by(o.witness_signing_hash()),
                  rtx.blake256(rtx.dcr_signing(t)))
        return le

    def case(self, cx, i):
        g = cx.g
        net = g.any_net() if i >= 144 else nets.NETS[i % 72]
        kind = None
        if net.family != 'bitcoin' and (i < 72 or g.chance(.25)):
            kind = 'tx'
        select(net)
        t = g.tx(net, kind, nout=None if not net.decred else g.r.randrange(
            1, 4), nin=None if not net.decred else g.r.randrange(1, 4),
            scripts=True)
        if net.decred and len(rtx.full(t)) > 4000:
            t = g.tx(net, kind, nin=1, nout=1, scripts=False)
        c, a = args(t, wrap(g, g.pick((0, 0, 1))))
        if t['kind'] == 'tx' and t['wits'] is None and g.chance(.4):
            a['tx_witnesses'] = []
        o = cx.ok('build', c, **a)
        le = self.ids(cx, 'built', o, net, t)
        if t['kind'] != 'decred':
            ok, p = cx.attempt(CLASS[t['kind']].from_bytes, rtx.full(t))
            if ok:
                self.ids(cx, 'parsed', p, net, t)
            elif not long_out(t):
                cx.fail('parse', repr(p))
        if g.chance(.5):
            self.ids(cx, 'copied', cx.ok('copy', o.copy), net, t)
        # change one field
        for _ in range(2):
            t2, f = g.sibling(net, t)
            o2 = cx.ok('build', make, t2)
            le2 = self.ids(cx, 'sibling', o2, net, t2)
            same = rtx.full(t2) == rtx.full(t)
            wit = f == 'wit'
            cx.event('id changes judged')
            if wit and le2 != le:
                cx.fail('id follows the witness', f)
            if not wit and not same and by(o2.tx_id) == by(o.tx_id):
                cx.fail('id ignores a field', f)
            cx.state(net.name, t['kind'], t['flag'], f)
        cx.state(net.name, shape(t))
        if i % 501 == 3:
            cx.sample(net=net.name, kind=t['kind'], id=le[::-1])


# ---- hostile bytes ------------------------------------------------------

def offsets(t):
    '''places of counts and lengths in the serialization of t'''
    raw = rtx.full(t)
    k = t['kind']
    out = []
    at = {'tx': 6 if t['flag'] else 4, 'sprout': 4, 'overwinter': 8,
          'sapling': 8}[k]
    out.append(at)
    at += len(vi(len(t['ins'])))
    for i in t['ins']:
        out.append(at + 36)
        at += len(rtx.txin(i))
    out.append(at)
    at += len(vi(len(t['outs'])))
    for o in t['outs']:
        out.append(at + 8)
        at += len(rtx.txout(o))
    if k == 'tx':
        for w in t['wits'] or ():
            out.append(at)
            at += len(vi(len(w)))
            for x in w:
                out.append(at)
                at += len(rtx.item(x))
    elif k == 'sprout' and t['version'][0] == 2:
        out.append(at + 4)
    elif k == 'overwinter':
        out.append(at + 8)
    elif k == 'sapling':
        at += 16
        out.append(at)
        at += 1 + 384 * len(t['spends'])
        out.append(at)
        at += 1 + 948 * len(t['souts'])
        out.append(at)
    assert all(vi_read(raw, x) for x in out)
    return out


def relength(g, raw, at):
    '''replace the compact size at an offset'''
    n, k = vi_read(raw, at)
    c = g.r.randrange(5)
    if c == 0:  # the same number, too wide
        w = [x for x in (3, 5, 9) if x > k]
        new = vi_width(n, g.pick(w)) if w else vi(n // 2)
    elif c == 1:
        new = vi(min(max(0, n + g.pick((-1, 1, 1, 2, -2, 10))), (1 << 64) - 1))
    elif c == 2:
        new = vi(g.pick((0, 1, 0xfc, 0xfd, 0xffff, 0x10000, 1 << 20,
                         0x7fffffff, 0xffffffff, 1 << 32, (1 << 63) - 1,
                         (1 << 64) - 1)))
    elif c == 3:
        new = g.b(g.pick((1, 3, 5, 9)))
    else:
        new = g.pick((b'\xfd', b'\xfe', b'\xff', b'\xfc')) + g.b(
            g.pick((0, 1, 2, 3, 4, 8)))
    return raw[:at] + new + raw[at + k:]


def mutate(g, raw, other):
    for _ in range(g.pick((1, 1, 1, 2, 3))):
        c = g.r.randrange(8)
        if not raw:
            return g.b(g.r.randrange(1, 50))
        i = g.r.randrange(len(raw))
        if c == 0:
            raw = raw[:i] + bytes([raw[i] ^ 1 << g.r.randrange(8)]) \
                + raw[i + 1:]
        elif c == 1:
            raw = raw[:i] + g.b(1) + raw[i + 1:]
        elif c == 2:
            raw = raw[:i] + raw[i + g.pick((1, 1, 2, 4, 32)):]
        elif c == 3:
            raw = raw[:i] + g.b(g.pick((1, 1, 2, 4, 32))) + raw[i:]
        elif c == 4:
            raw = raw[:i]
        elif c == 5:
            raw = raw[:i] + other[g.r.randrange(len(other) + 1):]
        elif c == 6:
            raw = raw + g.b(g.r.randrange(1, 40))
        else:
            j = g.r.randrange(i, len(raw) + 1)
            raw = raw[:j] + raw[i:j][:200] + raw[j:]
    return raw


class C03(Check):
    id = 'C03'
    quick, thorough = 2000, 40000
    rule = ('serializations of every parseable class, truncated at every '
            'length (long ones: sampled, field boundaries always), with '
            'counts and lengths rewritten (non-minimal, off by one, huge), '
            'bytes changed, removed, inserted, spliced, and random bytes; '
            'each parse either raised or re-serialized to a prefix of what '
            'it was given; a state is the class, kind of damage and outcome')
    need = {'hostile inputs': 60000, 'accepted': 2000, 'refused': 20000}

    def judge(self, cx, cls, raw, how, exact=False):
        '''exact: raw is a proper truncation of something valid'''
        cx.event('hostile inputs')
        hexed = cx.r.random() < .05
        x = raw.hex() if hexed else raw if cx.r.random() < .95 \
            else bytearray(raw)
        try:
            o = (cls.from_hex if hexed else cls.from_bytes)(x)
        except (MemoryError, RecursionError) as e:
            cx.fail('%s exhausted' % cls.__name__, '%r on %d bytes'
                    % (e, len(raw)))
        except Exception as e:
            cx.event('refused')
            cx.state(cls.__name__, how, type(e).__name__)
            return
        cx.event('accepted')
        got = by(o)
        if got != raw[:len(got)]:
            cx.fail('%s is not what was parsed' % cls.__name__,
                    '%s: parsed %s into %s' % (how, raw.hex()[:3000],
                                               got.hex()[:1500]))
        if exact and got != raw:
            cx.fail('%s truncation accepted' % cls.__name__,
                    '%s: %s became %s' % (how, raw.hex()[:3000],
                                          got.hex()[:1500]))
        if len(o) != len(got):
            cx.fail('%s length' % cls.__name__, raw.hex()[:2000])
        cx.state(cls.__name__, how, 'ok', exact)

    def targets(self, cx, net, g):
        '''[(class, valid serialization, offsets of counts)]'''
        t = g.tx(net, 'tx', big=.01)
        while long_out(t):
            t = g.tx(net, 'tx', big=.01)
        i, o = g.pick(t['ins']), g.pick(t['outs'])
        w = g.witness()
        x = g.pick(w) if w else b'\x01'
        n = g.u64()
        out = [(B.Outpoint, rtx.outpoint(i), []),
               (B.TxIn, rtx.txin(i), [36]),
               (B.TxOut, rtx.txout(o), [8]),
               (B.WitnessStackItem, rtx.item(x), [0]),
               (B.InputWitness, rtx.witness(w), [0]),
               (SH.VarInt, vi(n), [0]),
               (B.Tx, rtx.full(t), offsets(t))]
        f = net.family
        if f == 'decred':
            o = dict(o, script=o['script'][:251])
            out += [(D.DecredOutpoint, rtx.dcr_outpoint(i), []),
                    (D.DecredTxIn, rtx.dcr_txin(i), []),
                    (D.DecredTxOut, rtx.dcr_txout(o), [10])] * 2
        elif f in ('sprout', 'overwinter', 'sapling'):
            t = g.tx(net)
            while long_out(t):
                t = g.tx(net)
            out += [(CLASS[f], rtx.full(t), offsets(t))] * 4
            j = g.joinsplit(f == 'sapling')
            if f == 'sapling':
                out += [(S.SaplingZkproof, rtx.proof(j['zkproof']), []),
                        (S.SaplingJoinsplit, rtx.joinsplit(j), []),
                        (S.SaplingShieldedSpend, rtx.spend(g.spend()), []),
                        (S.SaplingShieldedOutput, rtx.sout(g.sout()), [])]
            else:
                out += [(Z.SproutZkproof, rtx.proof(j['zkproof']), []),
                        (Z.SproutJoinsplit, rtx.joinsplit(j), [])]
        return out

    def case(self, cx, i):
        g = cx.g
        net = g.any_net() if g.chance(.6) else g.pick(
            nets.SPROUT + nets.OVERWINTER + nets.SAPLING + nets.DECRED)
        select(net)
        ts = self.targets(cx, net, g)
        for cls, raw, offs in [g.pick(ts) for _ in range(3)]:
            self.judge(cx, cls, raw, 'valid', exact=True)
            n = len(raw)
            if n <= 200 or g.chance(.03) and n < 4000:
                cuts = range(n)
            else:
                cuts = {g.r.randrange(n) for _ in range(25)}
                cuts |= {max(0, n - g.r.randrange(1, 110))
                         for _ in range(12)}
                for a in ([g.pick(offs) for _ in range(6)] if offs else []):
                    cuts |= {min(n - 1, max(0, a + d)) for d in (0, 1, 2, 4)}
                cuts = sorted(cuts | {0, n - 1, n - 4, n - 64})
            for c in cuts:
                self.judge(cx, cls, raw[:c], 'cut', exact=True)
            for _ in range(12):
                if offs:
                    x = relength(g, raw, g.pick(offs[-8:] if g.chance(.5)
                                                else offs))
                    self.judge(cx, cls, x, 'count')
                    if g.chance(.3):
                        self.judge(cx, cls, x[:g.r.randrange(len(x) + 1)],
                                   'count and cut')
            for _ in range(8):
                self.judge(cx, cls, mutate(g, raw, g.pick(ts)[1]), 'mutated')
            for _ in range(10):  # fields next to the counts, and any other
                k = g.pick(offs) + g.r.randrange(-14, 15) if offs and \
                    g.chance(.7) else g.r.randrange(n)
                if 0 <= k < n:
                    self.judge(cx, cls, raw[:k] + bytes([raw[k] ^ (
                        1 << g.r.randrange(8))]) + raw[k + 1:], 'one bit')
            self.judge(cx, cls, raw + junk(g), 'trailing')
        cls, raw, _ = g.pick(ts)
        for _ in range(4):
            self.judge(cx, cls, g.b(g.r.randrange(0, 120)), 'random')
            self.judge(cx, cls, g.pick(ts)[1], 'wrong class')
        if i % 301 == 5:
            cx.sample(net=net.name, cls=cls.__name__, valid=raw)


class C11(Check):
    id = 'C11'
    quick, thorough = 9000, 160000
    rule = ('inputs whose script signature is empty, standard, P2SH, nested '
            'segwit, random script, near-valid, non-minimal or random bytes, '
            'with null, near-null and ordinary outpoints on every network, '
            'parsed alone and inside transactions; split compared with an '
            'independent script reader; a state is the network, outcome and '
            'kinds of items')
    need = {'inputs split': 4000, 'with a redeem part': 500,
            'coinbase': 100}

    def judge(self, cx, key, o, i, s):
        d = Diff()
        cmp_txin(d, key, o, i)
        d.same(key + ' whole script', by(o.stack_script)
               + by(o.redeem_script), s)
        report(cx, key, d)
        cx.event('inputs split')

    def alike(self, g, net, s):
        '''script signatures whose items repeat or contain each other'''
        parts = [raw for _, _, raw in rscript.parse(net, s) or ()] \
            or [b'\x51']
        last = parts[-1]
        if not 2 <= len(last) < 900:
            last = rscript.push(g.minimal_script(net, hi=70) or b'\x51')
        c = g.r.randrange(6)
        if c == 0:                      # the last push twice or more
            parts = [last] * g.r.randrange(2, 5)
        elif c == 1:                    # and somewhere before
            parts.insert(g.r.randrange(len(parts)), last)
            parts[-1] = last
        elif c == 2:                    # any item again
            parts = [g.pick(parts) for _ in parts] + [last]
        elif c == 3:                    # inside another push
            parts = [rscript.push(g.pick((last, last + b'\x51',
                                          b'\x51' + last))), last]
        elif c == 4:                    # it holds the one before
            parts = parts[:-1] + [rscript.push(parts[-1][:1000])]
        else:                           # a push of a push of a push
            x = b'\x51'
            for _ in range(g.r.randrange(1, 12)):
                x = rscript.push(x)
            parts = parts[:g.r.randrange(len(parts) + 1)] + [x]
        out = b''.join(parts)
        return out if len(out) <= 1650 else s

    def case(self, cx, n):
        g = cx.g
        net = g.any_net()
        select(net)
        i = g.txin(net, scripts=False)
        c = g.r.random()
        null = False
        if c < .12:
            i['txid'], i['index'] = b'\0' * 32, b'\xff' * 4
            null = True
        elif c < .18:
            i['txid'] = b'\0' * 32
            i['index'] = g.pick((b'\0' * 4, b'\xff\xff\xff\xfe',
                                 b'\xfe\xff\xff\xff'))
        elif c < .24:
            i['txid'] = g.flip(b'\0' * 32)
            i['index'] = b'\xff' * 4
        null = i['txid'] == b'\0' * 32 and i['index'] == b'\xff' * 4
        s = g.script_sig(net)
        if g.chance(.1):  # codeseparator and such inside the last push
            inner = g.minimal_script(net, hi=300) + g.pick(
                (b'\xab', b'\x4e', b'\xba', b'\x05\x01', b'\x4c', b'\x4d\x01',
                 b'\x4c\x02\x01', b'', b'\x00', b'\x01\x00'))
            s = b''.join(g.minimal_items(net, n=g.r.randrange(3), hi=70)) \
                + rscript.push(inner or b'\x51')
        if g.chance(.2):
            s = self.alike(g, net, s)
        i['stack'], i['redeem'] = (s, b'') if null else \
            rscript.split_script_sig(net, s)
        raw = rtx.txin(i)
        assert rtx.sig(i) == s
        for f, x in ((B.TxIn.from_bytes, raw), (B.TxIn.from_hex, raw.hex()),
                     (B.TxIn.from_bytes, raw + junk(g)),
                     (B.TxIn.from_bytes, bytearray(raw))):
            self.judge(cx, 'TxIn', cx.ok('TxIn parse', f, x), i, s)
        if i['redeem']:
            cx.event('with a redeem part')
        if null:
            cx.event('coinbase')
        if g.chance(.35):
            t = g.tx(net, nin=g.r.randrange(1, 4), nout=1,
                     kind='tx' if net.decred else None)
            if not long_out(t):
                k = g.r.randrange(len(t['ins']))
                t['ins'][k] = i
                o = cx.ok('Tx parse', CLASS[t['kind']].from_bytes,
                          rtx.full(t))
                cx.eq('Tx bytes', by(o), rtx.full(t))
                self.judge(cx, 'TxIn in a transaction', o.tx_ins[k], i, s)
        items = rscript.parse(net, s)
        cx.state(net.name, null, bool(i['redeem']), items is None,
                 None if items is None else tuple(
                     x[0] if x[1] is None else len(vi(len(x[1])))
                     for x in items[-2:]), len(vi(len(s))))
        if n % 1201 == 7:
            cx.sample(net=net.name, script_sig=s, redeem=i['redeem'])


class C12(Check):
    id = 'C12'
    quick, thorough = 1200, 24000
    rule = ('numbers at and around every power of two and width boundary, '
            'all numbers up to 70000 (spread over the cases), random ones; '
            'encoded in the shortest and in wider standard forms, decoded '
            'alone and followed by other bytes, truncated at every length '
            'and in every longer-than-necessary form, on random networks; a '
            'state is a number and width')
    need = {'numbers': 70000, 'noncanonical refused': 5000}
    exhaustive = 'numbers 0..70000 in the shortest form'

    def one(self, cx, n, full=True):
        g = cx.g
        V = SH.VarInt
        want = vi(n)
        cx.event('numbers')
        v = cx.ok('VarInt(%d)' % n, V, n)
        if by(v) != want or v.number != n or len(v) != len(want):
            cx.fail('VarInt encoding', '%d gives %s' % (n, by(v).hex()))
        d = cx.ok('VarInt decode', V.from_bytes, want)
        if d.number != n or by(d) != want:
            cx.fail('VarInt decoding', '%s gives %d as %s' % (
                want.hex(), d.number, by(d).hex()))
        if not full:
            return
        cx.state(n, len(want))
        for tail in (b'\0', b'\xff', g.b(g.r.randrange(1, 20)), want,
                     b'\xff' * 9, g.b(300)):
            d = cx.ok('VarInt decode with a tail', V.from_bytes, want + tail)
            cx.eq('VarInt with a tail', (d.number, by(d)), (n, want))
        d = cx.ok('VarInt.from_hex', V.from_hex, want.hex())
        cx.eq('VarInt.from_hex', (d.number, by(d)), (n, want))
        d = cx.ok('VarInt decode bytearray', V.from_bytes, bytearray(want))
        cx.eq('VarInt from bytearray', (d.number, by(d)), (n, want))
        c = cx.ok('VarInt copy', v.copy)
        cx.eq('VarInt copy', (c.number, by(c)), (n, want))
        for w in (1, 3, 5, 9):
            if w < len(want):
                continue
            x = vi_width(n, w)
            v = cx.ok('VarInt of width %d' % w, V, n, length=w)
            cx.eq('VarInt of width %d' % w, (v.number, by(v), len(v)),
                  (n, x, w))
            c = cx.ok('VarInt copy', v.copy)
            cx.eq('VarInt copy of width %d' % w, (c.number, by(c)), (n, x))
            if g.chance(.3):
                v = cx.ok('VarInt of width %d' % w, V, n, w)
                cx.eq('VarInt of width %d' % w, by(v), x)
            if w > len(want):
                cx.event('noncanonical refused')
                cx.refused('noncanonical compact size', V.from_bytes, x)
                cx.refused('noncanonical compact size', V.from_bytes,
                           x + g.b(9))
                cx.refused('noncanonical compact size', V.from_hex, x.hex())
        for k in range(len(want)):
            cx.refused('truncated compact size', V.from_bytes, want[:k])
            cx.refused('truncated compact size', V.from_hex,
                       want[:k].hex())

    def case(self, cx, i):
        g = cx.g
        net = nets.NETS[i % 72] if i < 144 else g.any_net()
        select(net)
        for n in range(i * 60, i * 60 + 60):
            if n <= 71000:
                self.one(cx, n, full=False)
        for _ in range(8):
            c = g.r.random()
            if c < .5:
                n = (1 << g.r.randrange(0, 65)) + g.r.randrange(-3, 4)
            elif c < .8:
                n = g.u64()
            else:
                n = g.r.randrange(0, 70000)
            n = max(0, min(n, (1 << 64) - 1))
            self.one(cx, n)
        for n in (-1, 1 << 64, -g.r.getrandbits(40) - 1,
                  (1 << 64) + g.r.getrandbits(70)):
            cx.refused('number out of range', SH.VarInt, n)
            cx.refused('number out of range', SH.VarInt, n,
                       length=g.pick((1, 3, 5, 9)))
        if i % 301 == 1:
            cx.sample(net=net.name, last=n)
