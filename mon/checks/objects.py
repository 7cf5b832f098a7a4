'''C18 C19 C27 C30: library objects as values.'''
import random

import riemann
from riemann import simple, utils
from riemann.encoding import addresses, base58, bech32, cashaddr
from riemann.networks import standard
from riemann.script import serialization
from riemann.tx import tx_builder as tb

from .. import build
from ..core import Check
from ..build import (B, D, O, S, SH, SP, Z, CLASS, args, by, compare, make,
                     select, sighash, snapshot)
from ..gen import Gen, clone, shape
from ..ref import addr as raddr, nets, script as rscript, tx as rtx
from ..ref.prim import vi, vi_width
from .sign import prep, requests
from .wire import long_out, report, wrap


class Row:
    '''a library object: constructor, keyword arguments, expected bytes'''

    def __init__(self, cls, kw, raw, spec=None):
        self.cls, self.kw, self.raw, self.spec = cls, kw, raw, spec
        self.name = cls.__name__

    def make(self, **over):
        return self.cls(**{**self.kw, **over})


def buffers(g, keep):
    '''byte arguments as buffers the test can change later'''
    own = g.chance(.3)

    def f(x):
        b = bytearray(x)
        if own and g.chance(.5):
            b = SH.ByteData.from_bytes(b)
        keep.append((b, bytes(x)))
        return b
    return f


def some_tx(g, net, kind=None, long=0, **k):
    if long and g.chance(long):
        return g.tx(net, kind, big=.6, **k)
    n = g.chance(.8) or net.decred
    return g.tx(net, kind, nin=g.r.randrange(1, 5) if n else None,
                nout=g.r.randrange(1, 5) if n else None, big=.005,
                long_scripts=g.chance(.2), **k)


def zoo(g, net, w, t=None):
    '''every kind of object the network has, as rows'''
    rows = []
    t = t or some_tx(g, net)
    fam = net.family
    i, o = g.txin(net), g.txout(net)
    if t['ins'] and not net.decred:
        i = g.pick(t['ins'])
    if t['outs']:
        o = g.pick(t['outs'])
    x = g.witness()

    def row(cls, raw, spec=None, **kw):
        rows.append(Row(cls, kw, raw, spec))

    row(B.Outpoint, rtx.outpoint(i), tx_id=w(i['txid']), index=w(i['index']))
    row(B.TxIn, rtx.txin(i), outpoint=build.outpoint(i),
        stack_script=w(i['stack']), redeem_script=w(i['redeem']),
        sequence=w(i['seq']))
    row(B.TxOut, rtx.txout(o), value=w(o['value']),
        output_script=w(o['script']))
    d = g.pick(x) if x else b''
    row(B.WitnessStackItem, rtx.item(d), item=w(d))
    row(B.InputWitness, rtx.witness(x),
        stack=[B.WitnessStackItem(w(y)) for y in x])
    n = g.u64()
    m = g.pick([k for k in (1, 3, 5, 9) if len(vi(n)) <= k])
    row(SH.VarInt, vi_width(n, m), number=n,
        **({'length': m} if m != len(vi(n)) or g.chance(.5) else {}))
    if net.decred:
        di, do, dw = g.txin(net, False), o, g.dcr_wit(net)
        row(D.DecredOutpoint, rtx.dcr_outpoint(di), tx_id=w(di['txid']),
            index=w(di['index']), tree=w(di['tree']))
        row(D.DecredTxIn, rtx.dcr_txin(di), outpoint=build.dcr_outpoint(di),
            sequence=w(di['seq']))
        row(D.DecredTxOut, rtx.dcr_txout(do), value=w(do['value']),
            version=w(do['ver']), output_script=w(do['script']))
        row(D.DecredInputWitness, rtx.dcr_wit(dw), value=w(dw['value']),
            height=w(dw['height']), index=w(dw['index']),
            stack_script=w(dw['stack']), redeem_script=w(dw['redeem']))
    if fam in ('sprout', 'overwinter', 'sapling'):
        sap = fam == 'sapling'
        j = g.joinsplit(sap)
        P = S.SaplingZkproof if sap else Z.SproutZkproof
        J = S.SaplingJoinsplit if sap else Z.SproutJoinsplit

        def flat(s):
            return {k: build.proof(v) if k == 'zkproof' else w(v)
                    for k, v in s.items()}

        row(P, rtx.proof(j['zkproof']),
            **{k: w(v) for k, v in j['zkproof'].items()})
        row(J, rtx.joinsplit(j), **flat(j))
        if sap:
            s = g.spend()
            row(S.SaplingShieldedSpend, rtx.spend(s), **flat(s))
            s = g.sout()
            row(S.SaplingShieldedOutput, rtx.sout(s), **flat(s))
    c, a = args(t, w)
    rows.append(Row(c, a, rtx.full(t), t))
    if fam != 'bitcoin':
        t2 = some_tx(g, net, 'tx')
        c, a = args(t2, w)
        rows.append(Row(c, a, rtx.full(t2), t2))
    return rows


PARSES = (B.Outpoint, B.TxIn, B.TxOut, B.WitnessStackItem, B.InputWitness,
          SH.VarInt, D.DecredOutpoint, D.DecredTxIn, D.DecredTxOut,
          Z.SproutZkproof, Z.SproutJoinsplit, S.SaplingZkproof,
          S.SaplingJoinsplit, S.SaplingShieldedSpend,
          S.SaplingShieldedOutput, B.Tx, SP.SproutTx, O.OverwinterTx,
          S.SaplingTx)


def can_parse(row):
    if row.cls not in PARSES:
        return False
    if row.spec is not None and long_out(row.spec):
        return False
    if row.cls is SH.VarInt:
        return 'length' not in row.kw or \
            len(vi(row.kw['number'])) == row.kw['length']
    return not (row.cls in (B.TxOut, D.DecredTxOut)
                and len(row.kw['output_script']) > 251)


def family_net(g):
    return g.any_net() if g.chance(.5) else g.pick(
        nets.DECRED + nets.SPROUT + nets.OVERWINTER + nets.SAPLING)


# ---- C18 ----------------------------------------------------------------

class C18(Check):
    id = 'C18'
    quick, thorough = 2400, 40000
    rule = ('every kind of object, built (from lists and byte buffers that '
            'are changed afterwards), parsed or copied; every attribute '
            'assigned, every mutable-looking attribute extended, the object '
            'extended in place; then every operation of the library on it, '
            'twice, with its arguments held; a snapshot of everything '
            'observable is compared after each step; a state is object kind '
            'and step')
    need = {'writes attempted': 60000, 'operations': 40000,
            'buffers changed': 30000, 'snapshots': 60000}

    def same(self, cx, key, o, before):
        cx.event('snapshots')
        now = snapshot(o)
        if now != before:
            bad = [k for k in before if now.get(k) != before[k]] or \
                [k for k in now if k not in before]
            cx.fail(key, 'changed %s: %s' % (bad, build.show(
                now.get(bad[0]))))

    def writes(self, cx, name, o, before):
        g = cx.g
        attrs = sorted(set(vars(o)) | set(before)
                       - {'bytes', 'class'})
        for a in attrs:
            if a == '_bytes' or '__' in a:
                continue
            v = getattr(o, a, None)
            for new in (g.pick((b'\x01' * 4, None, 5, v, b'')),):
                cx.event('writes attempted')
                try:
                    setattr(o, a, new)
                except Exception:
                    pass
                else:
                    cx.fail('assignment accepted',
                            '%s.%s = %r' % (name, a, new))
            if hasattr(v, 'append'):
                cx.event('writes attempted')
                try:
                    v.append(v[0] if len(v) else 0)
                except Exception:
                    pass
            elif isinstance(v, tuple) or isinstance(v, bytes):
                cx.event('writes attempted')
                try:
                    exec('o.%s += x' % a, {'o': o, 'x': v[:1] or type(v)()})
                except Exception:
                    pass
                else:
                    cx.fail('augmented assignment accepted',
                            '%s.%s' % (name, a))
        for a in sorted(vars(o)) + ['__class__']:
            cx.event('writes attempted')
            try:
                delattr(o, a)
            except Exception:
                pass
            else:
                cx.fail('deletion accepted', '%s.%s' % (name, a))
        new = g.pick(('foo', 'number', 'tx_id', 'value', 'item', '_x',
                      'is_witness', 'to_bytes', 'wtx_id', 'copy'))
        cx.refused('a new attribute on a finished ' + name, setattr, o, new,
                   b'\1')
        for x in (b'', b'\1', bytearray(b'\1\2'), o):
            cx.event('writes attempted')
            p = o
            try:
                p += x
            except Exception:
                pass
            else:
                cx.fail('extending in place accepted', '%s += %r' % (name,
                                                                     x))
        try:
            o[0] = 7
        except Exception:
            pass
        else:
            cx.fail('item assignment accepted', name)
        self.same(cx, 'writing to a finished ' + name, o, before)

    def ops(self, cx, net, row, o):
        '''-> [(what, function, arguments)] : arguments may be buffers'''
        g = cx.g
        t = row.spec
        out = [('to_bytes', o.to_bytes, ()), ('hex', o.hex, ()),
               ('len', len, (o,)), ('list', list, (o,)),
               ('format', format, (o, 'x')),
               ('eq', o.__eq__, (bytearray(row.raw),)),
               ('ne', o.__ne__, (row.raw[:-1],)),
               ('slice', lambda: o[1:9], ()),
               ('find', o.find, (bytearray(row.raw[3:6]),))]
        if hasattr(o, 'copy'):
            out.append(('copy', o.copy, ()))
        if can_parse(row):
            out.append(('from_bytes', row.cls.from_bytes,
                        (bytearray(row.raw),)))
            out.append(('from_hex', row.cls.from_hex, (row.raw.hex(),)))
        if isinstance(o, B.TxIn):
            out.append(('is_p2sh', o.is_p2sh, ()))
        if isinstance(o, B.TxOut):
            if raddr.classify(bytes(o.output_script)):
                out.append(('from_output_script',
                            lambda: self.quiet(addresses.from_output_script,
                                               o.output_script), ()))
        if t is None:
            return out
        vals = [g.u64() for _ in t['ins']]
        if t['kind'] == 'decred':
            out.append(('calculate_fee', o.calculate_fee, ()))
            out += [(m, getattr(o, m), ()) for m in (
                'prefix', 'witness', 'witness_signing', 'prefix_hash',
                'witness_hash', 'witness_signing_hash')]
        else:
            out.append(('calculate_fee', o.calculate_fee, (vals,)))
            out.append(('calculate_fee', o.calculate_fee, (tuple(vals),)))
        if t['kind'] == 'tx':
            out.append(('no_witness', o.no_witness, ()))
            out.append(('is_witness', o.is_witness, ()))
            out += [(f.__name__, f, (o,)) for f in (
                standard.check_is_standard_tx, standard.check_is_standard,
                standard.check_tx_size_small)]
            out.append(('check_final', standard.check_final, (
                o, g.u32(), g.u32())))
        if t['kind'] != 'decred' or t['wits']:
            for q in requests(cx, net, t, 1)[:4]:
                idx, typ, s, amount, acp, js = q
                out.append(('sighash', sighash, (
                    o, t, net, idx, typ, bytearray(s), bytearray(amount),
                    acp, js)))
            # refused requests leave no trace either
            out.append(('sighash past the end', self.quiet, (
                sighash, o, t, net, len(t['ins']) + 1, rtx.SINGLE,
                b'\0', b'\0' * 8, False)))
        return out

    @staticmethod
    def quiet(f, *a):
        try:
            return f(*a)
        except Exception as e:
            return type(e).__name__

    @staticmethod
    def freeze(x):
        if isinstance(x, SH.ByteData):
            return snapshot(x)
        if isinstance(x, (list, tuple)):
            return [C18.freeze(y) for y in x]
        if isinstance(x, bytearray):
            return bytes(x)
        return x

    @staticmethod
    def outline(x):
        '''what x is made of, and of which very objects'''
        if isinstance(x, (list, tuple)):
            return [type(x).__name__, [id(y) for y in x],
                    [C18.outline(y) for y in x]]
        return [type(x).__name__, C18.freeze(x)]

    def lists(self, cx, net):
        '''the builders, with lists that must stay as they are'''
        g = cx.g
        t = some_tx(g, net)
        o = cx.ok('build', build.make, t)
        a = {}
        for k in ('tx_ins', 'tx_outs', 'tx_witnesses', 'tx_joinsplits',
                  'tx_shielded_spends', 'tx_shielded_outputs'):
            v = getattr(o, k, None)
            if v:
                a[k] = list(v)
        if not a.get('tx_ins') or not a.get('tx_outs'):
            return
        for n in range(3):
            if g.chance(.3):    # the same part twice
                k = g.pick(sorted(a))
                if k in ('tx_outs',):
                    a[k].append(g.pick(a[k]))
        mine = self.outline(list(a.values()))
        for f, kw in ((o.copy, a), (
                tb.make_tx, dict(a, **self.rest(o, t))),
                (simple.unsigned_legacy_tx, {
                    k: a[k] for k in ('tx_ins', 'tx_outs')}),
                (simple.unsigned_witness_tx, {
                    k: a[k] for k in ('tx_ins', 'tx_outs')})):
            ok, r = cx.attempt(f, **kw)
            cx.event('operations')
            cx.eq('%s changed its lists' % f.__name__,
                  self.outline(list(a.values())), mine)
            if not ok:
                continue
            first = self.freeze(r)
            for k in a:
                a[k].reverse()
            cx.eq('result of %s after its lists changed' % f.__name__,
                  self.freeze(r), first)
            for k in a:
                a[k].reverse()

    @staticmethod
    def rest(o, t):
        r = {}
        for k, n in (('version', 'version'), ('lock_time', 'lock_time'),
                     ('expiry', 'expiry'), ('expiry', 'expiry_height')):
            if hasattr(o, n):
                r[k] = int.from_bytes(bytes(getattr(o, n)), 'little')
        for n in ('joinsplit_pubkey', 'joinsplit_sig', 'binding_sig',
                  'value_balance'):
            if getattr(o, n, None) is not None:
                v = getattr(o, n)
                r[n] = (int.from_bytes(bytes(v), 'little', signed=True)
                        if n == 'value_balance' else v)
        r.setdefault('version', 1)
        return r

    def functions(self, cx, net):
        '''library functions that take bytes, called with buffers'''
        g = cx.g
        h = g.b(20)
        spk = g.template(g.pick(raddr.kinds(net)))
        ser = g.minimal_script(net, hi=520)
        out = [(base58.encode, (g.b(21),)), (utils.hash160, (g.blob(),)),
               (utils.hash256, (g.blob(),)), (utils.sha256, (g.blob(),)),
               (utils.rmd160, (g.blob(),)), (utils.le2i, (g.b(8),)),
               (utils.be2i, (g.b(8),)), (utils.blake256, (g.blob(300),)),
               (utils.change_endianness, (g.b(32),)),
               (addresses.from_output_script, (spk,)),
               (serialization.deserialize, (ser,)),
               (addresses.make_p2pkh_address, (g.pubkey(),)),
               (tb.make_p2pkh_output, (5, g.pubkey())),
               (tb.make_op_return_output, (g.b(40),)),
               (tb.length_prepend, (g.blob(),)),
               (tb.make_witness, ([g.b(20), g.b(33)],)),
               (tb.make_witness_stack_item, (g.b(33),)),
               (tb.make_sh_script_pubkey, (ser,)),
               (utils.blake2b, (g.blob(),)), (utils.blake2s, (g.blob(),)),
               (SH.ByteData.from_bytes, (g.blob(),))]
        if net.cashaddr:
            out.append((cashaddr.encode, (b'\0' + h,)))
        if net.segwit and net.hrp:
            out.append((bech32.encode, (b'\0\x14' + h,)))
        for f, a in out:
            buf = [bytearray(x) if isinstance(x, bytes) else
                   [bytearray(y) for y in x] if isinstance(x, list) else x
                   for x in a]
            mine = self.outline(a)
            plain = self.freeze(self.quiet(f, *a))
            cx.eq('%s changed its argument' % f.__name__, self.outline(a),
                  mine)
            held = list(buf)
            mine = self.outline(held)
            r = self.quiet(f, *buf)
            first = self.freeze(r)
            cx.event('operations')
            cx.eq('%s changed its argument' % f.__name__,
                  self.outline(held), mine)
            again = self.freeze(self.quiet(f, *buf))
            cx.eq('%s twice' % f.__name__, again, first)
            if f is not utils.blake256 or True:
                cx.eq('%s of a buffer' % f.__name__, first, plain)
            # the buffer may change afterwards
            for x in held:
                for y in (x if isinstance(x, list) else [x]):
                    if isinstance(y, bytearray):
                        y.reverse()
                        y += b'zz'
                if isinstance(x, list):
                    x.append(b'')
            cx.event('buffers changed')
            cx.eq('result of %s after its argument changed' % f.__name__,
                  self.freeze(r), first)
            cx.state('function', f.__name__)

    def case(self, cx, i):
        g = cx.g
        net = nets.NETS[i % 72] if i < 144 else family_net(g)
        select(net)
        bufs = []
        rows = zoo(g, net, buffers(g, bufs) if g.chance(.7)
                   else wrap(g, 0))
        live = []
        for row in rows:
            kw = dict(row.kw)
            lists = []
            for k, v in kw.items():
                if isinstance(v, list):
                    kw[k] = list(v)
                    lists.append((k, kw[k], list(v)))
            o = cx.ok(row.name, row.cls, **kw)
            how = 'built'
            before = snapshot(o)
            if before['bytes'] != row.raw:
                cx.fail(row.name + ' bytes', before['bytes'].hex()[:200])
            for k, v, was in lists:
                cx.true('%s changed the list given as %s' % (row.name, k),
                        len(v) == len(was) and all(
                            x is y for x, y in zip(v, was)))
                c = g.r.randrange(4)
                if c == 0:
                    v.clear()
                elif c == 1:
                    v.append(None)
                elif c == 2:
                    v.reverse()
                    v.append(v[0] if v else 1)
                elif v:
                    v[0] = None
                cx.event('buffers changed')
            live.append((row, o, before, how))
            if can_parse(row):
                raw = bytearray(row.raw)
                p = cx.ok(row.name + ' parse', row.cls.from_bytes, raw)
                s = snapshot(p)
                if bytes(raw) != row.raw:
                    cx.fail('parsing changed its argument', row.name)
                raw[:] = bytes(len(raw) + 3)
                cx.event('buffers changed')
                live.append((row, p, s, 'parsed'))
            if hasattr(o, 'copy') and g.chance(.4):
                p = cx.ok(row.name + ' copy', o.copy)
                live.append((row, p, snapshot(p), 'copied'))
        for b, was in bufs:
            if bytes(b) != was:
                cx.fail('construction changed a buffer it was given',
                        '%s -> %s' % (was.hex()[:80], b.hex()[:80]))
            if isinstance(b, bytearray):
                for k in range(len(b)):
                    b[k] ^= 0x5a
            b += b'\x77'
            cx.event('buffers changed')
        for row, o, before, how in live:
            self.same(cx, '%s %s, after its buffers and lists changed'
                      % (how, row.name), o, before)
            cx.state(net.family, row.name, how, shape(row.spec)
                     if row.spec else len(row.raw))
        for row, o, before, how in live:
            self.writes(cx, row.name, o, before)
            todo = self.ops(cx, net, row, o)
            g.r.shuffle(todo)
            for what, f, a in todo[:10]:
                held = self.freeze(a)
                ok, r = cx.attempt(f, *a)
                if not ok:
                    if what in ('check_is_standard', 'check_is_standard_tx',
                                'slice'):
                        continue
                    cx.fail('%s.%s' % (row.name, what), repr(r))
                first = self.freeze(r)
                cx.event('operations')
                self.same(cx, '%s changed its object' % what, o, before)
                cx.eq('%s changed its arguments' % what, self.freeze(a),
                      held)
                cx.eq('%s.%s twice' % (row.name, what),
                      self.freeze(f(*a)), first)
                for x in a:
                    if isinstance(x, bytearray) and g.chance(.5):
                        x[:] = b'\x99' * 5
                cx.eq('result of %s.%s after its arguments changed'
                      % (row.name, what), self.freeze(r), first)
                cx.state(row.name, what)
            self.same(cx, 'operations changed their object', o, before)
        self.functions(cx, net)
        for _ in range(2):
            self.lists(cx, net)
        if i % 301 == 7:
            cx.sample(net=net.name, objects=[r.name for r in rows])


# ---- C19 ----------------------------------------------------------------

ORDER = {
    'Outpoint': 'tx_id index',
    'TxIn': 'outpoint stack_script redeem_script sequence',
    'TxOut': 'value output_script',
    'InputWitness': 'stack',
    'Tx': 'version flag tx_ins tx_outs tx_witnesses lock_time',
    'DecredOutpoint': 'tx_id index tree',
    'DecredTxIn': 'outpoint sequence',
    'DecredTxOut': 'value version output_script',
    'DecredInputWitness': 'value height index stack_script redeem_script',
    'DecredTx': 'version tx_ins tx_outs lock_time expiry tx_witnesses',
    'SproutTx': 'version tx_ins tx_outs lock_time tx_joinsplits '
                'joinsplit_pubkey joinsplit_sig',
    'OverwinterTx': 'tx_ins tx_outs lock_time expiry_height tx_joinsplits '
                    'joinsplit_pubkey joinsplit_sig',
    'SaplingTx': 'tx_ins tx_outs lock_time expiry_height value_balance '
                 'tx_shielded_spends tx_shielded_outputs tx_joinsplits '
                 'joinsplit_pubkey joinsplit_sig binding_sig'}
ORDER = {k: v.split() for k, v in ORDER.items()}


class C19(Check):
    id = 'C19'
    quick, thorough = 3600, 60000
    rule = ('every copyable kind of object, built or parsed, copied with no '
            'overrides and with random subsets of overrides (valid, empty, '
            'invalid; positional and by name) taken from another random '
            'object of the kind; the copy must match an independent encoding '
            'or, where the override is not a spec, a fresh construction from '
            'the merged fields, and be refused when that is refused; a state '
            'is object kind and overridden fields')
    need = {'plain copies': 10000, 'copies with overrides': 20000,
            'overrides refused': 1000}

    def merged(self, row, over):
        kw = dict(row.kw)
        kw.update(over)
        return kw

    def fields(self, row, o):
        '''the constructor arguments that would rebuild o'''
        return {k: getattr(o, k) for k in ORDER[row.name]}

    def bad(self, g, name, v):
        '''an override that no construction accepts'''
        if name in ('tx_ins', 'tx_outs', 'tx_witnesses', 'tx_joinsplits',
                    'tx_shielded_spends', 'tx_shielded_outputs', 'stack'):
            return g.pick(([b'\0' * 41], [None], [5], ['x'], 7,
                           [SH.VarInt(1)]))
        if name == 'flag':
            return g.pick((b'', b'\0', b'\0\2', b'\1\0', b'\0\1\0'))
        if name in ('stack_script', 'redeem_script', 'output_script'):
            return g.pick(('76', 5, [1, 2], 1.5))
        return g.pick((b'', v.to_bytes()[:-1] if isinstance(v, SH.ByteData)
                       else (v or b'\0')[:-1], bytes(v or b'') + b'\0',
                       'x' * len(v or b'1'), 5))

    def case(self, cx, i):
        g = cx.g
        net = nets.NETS[i % 72] if i < 144 else family_net(g)
        select(net)
        a = zoo(g, net, wrap(g, g.pick((0, 0, 1))), some_tx(g, net, long=.02))
        b = zoo(g, net, wrap(g, g.pick((0, 0, 1))), some_tx(g, net, long=.02))
        sib = None
        if a[-1].spec and g.chance(.5):
            sib = g.sibling(net, a[-1].spec)[0]
            c, kw = args(sib)
            b[-1] = Row(c, kw, rtx.full(sib), sib)
        for row, other in zip(a, b):
            if row.name not in ORDER:
                if row.cls is SH.VarInt:
                    o = cx.ok('VarInt', row.make)
                    c = cx.ok('VarInt copy', o.copy)
                    cx.eq('VarInt copy', by(c), row.raw)
                    cx.eq('VarInt copy number', c.number, o.number)
                    cx.true('VarInt copy is the original', c is not o)
                continue
            if row.cls is not other.cls:
                continue
            o = cx.ok(row.name, row.make)
            if can_parse(row) and g.chance(.4):
                o = cx.ok(row.name + ' parse', row.cls.from_bytes, row.raw)
            before = snapshot(o)
            c = cx.ok(row.name + ' copy', o.copy)
            cx.event('plain copies')
            cx.true('the copy is the original', c is not o, row.name)
            cx.eq(row.name + ' copy', snapshot(c), before)
            if row.spec:
                report(cx, row.name + ' copy', compare(c, row.spec))
            names = ORDER[row.name]
            for _ in range(3 if row.spec is None else 5):
                k = g.r.randrange(1, min(len(names), 3) + 1)
                if g.chance(.15):
                    k = len(names)
                over = {n: other.kw[n] for n in g.r.sample(names, k)}
                over = {n: v for n, v in over.items() if v is not None}
                c0 = g.r.random()
                if c0 < .25:  # empty values
                    n = g.pick(names)
                    cur = getattr(o, n)
                    over[n] = g.pick(([], ())) if isinstance(
                        cur, (tuple, list)) or cur is None and \
                        n.startswith('tx_') else b''
                elif c0 < .4:
                    n = g.pick(names)
                    over[n] = self.bad(g, n, getattr(o, n))
                elif c0 < .5:  # what it already has
                    n = g.pick(names)
                    if getattr(o, n) is not None:
                        over[n] = getattr(o, n)
                elif c0 < .65:  # telling bytes
                    n = g.pick(names)
                    if isinstance(getattr(o, n), (bytes, SH.ByteData)):
                        k = len(by(getattr(o, n)))
                        over[n] = g.pick((b'\0' * k, b'\xff' * k,
                                          b'\1' + b'\0' * (k - 1),
                                          b'\0' * (k - 1) + b'\x80'))[:k]
                merged = self.fields(row, o)
                merged.update(over)
                ok, want = cx.attempt(row.cls, **merged)
                if g.chance(.2):
                    pos = [over.get(n) for n in names]
                    while pos and pos[-1] is None:
                        pos.pop()
                    ok2, got = cx.attempt(o.copy, *pos)
                else:
                    for n in names:
                        if n not in over and g.chance(.1):
                            over[n] = None
                    ok2, got = cx.attempt(o.copy, **over)
                cx.event('copies with overrides')
                key = '%s copy with %s' % (row.name, sorted(over))
                cx.state(net.family, row.name, tuple(sorted(over)), ok)
                if not ok:
                    cx.event('overrides refused')
                    if ok2:
                        cx.fail(key, 'accepted what construction refuses '
                                '(%r), giving %s' % (want, build.show(
                                    by(got))))
                    continue
                if not ok2:
                    cx.fail(key, 'refused what construction accepts: %r'
                            % got)
                cx.eq(key, snapshot(got), snapshot(want))
                cx.true('the copy is the original', got is not o, key)
                for n, v in over.items():
                    if v is None or n in ('joinsplit_pubkey',
                                          'joinsplit_sig', 'binding_sig'):
                        continue
                    new = getattr(got, n)
                    if isinstance(v, (list, tuple)):
                        cx.eq(key + ': ' + n, [by(x) for x in new],
                              [by(x) for x in v])
                    else:
                        cx.eq(key + ': ' + n, by(new), by(v))
                cx.eq(row.name + ' after copying', snapshot(o), before)
            # everything from the other object at once
            if all(v is not None for v in other.kw.values()):
                c = cx.ok('full override', o.copy, **other.kw)
                cx.eq('%s copy overriding everything' % row.name, by(c),
                      other.raw)
                if other.spec:
                    report(cx, row.name + ' overriding everything',
                           compare(c, other.spec))
        if i % 501 == 7:
            cx.sample(net=net.name, objects=[r.name for r in a])


# ---- C27 ----------------------------------------------------------------

FIXED = {
    'Outpoint': {'tx_id': 32, 'index': 4},
    'TxIn': {'outpoint': 36, 'sequence': 4},
    'TxOut': {'value': 8},
    'Tx': {'version': 4, 'lock_time': 4},
    'DecredOutpoint': {'tx_id': 32, 'index': 4, 'tree': 1},
    'DecredTxIn': {'outpoint': 37, 'sequence': 4},
    'DecredTxOut': {'value': 8, 'version': 2},
    'DecredInputWitness': {'value': 8, 'height': 4, 'index': 4},
    'DecredTx': {'version': 4, 'lock_time': 4, 'expiry': 4},
    'SproutZkproof': dict(rtx.SPROUT_PROOF),
    'SaplingZkproof': dict(rtx.SAPLING_PROOF),
    'SproutJoinsplit': dict(rtx.JS_HEAD + (('encoded_notes', 1202),)),
    'SaplingJoinsplit': dict(rtx.JS_HEAD + (('encoded_notes', 1202),)),
    'SaplingShieldedSpend': dict(rtx.SPEND + (('spend_auth_sig', 64),)),
    'SaplingShieldedOutput': dict(rtx.SOUT),
    'SproutTx': {'version': 4, 'lock_time': 4},
    'OverwinterTx': {'lock_time': 4, 'expiry_height': 4},
    'SaplingTx': {'lock_time': 4, 'expiry_height': 4, 'value_balance': 8}}
LOOSE = {
    'TxIn': ('stack_script', 'redeem_script'), 'TxOut': ('output_script',),
    'WitnessStackItem': ('item',), 'DecredTxOut': ('output_script',),
    'DecredInputWitness': ('stack_script', 'redeem_script')}
LISTS = {'Tx': ('tx_ins', 'tx_outs', 'tx_witnesses'),
         'InputWitness': ('stack',),
         'DecredTx': ('tx_ins', 'tx_outs', 'tx_witnesses'),
         'SproutTx': ('tx_ins', 'tx_outs', 'tx_joinsplits'),
         'OverwinterTx': ('tx_ins', 'tx_outs', 'tx_joinsplits'),
         'SaplingTx': ('tx_ins', 'tx_outs', 'tx_joinsplits',
                       'tx_shielded_spends', 'tx_shielded_outputs')}


_strangers = {}


def strangers(name, user):
    '''parts of the other network families, made there, that look much like
    the ones a transaction of class user takes'''
    if not _strangers:
        was = riemann.get_current_network_name()
        g = Gen(random.Random('strangers'))
        for n in ('bitcoin_main', 'zcash_sprout_main',
                  'zcash_overwinter_main', 'zcash_sapling_main',
                  'decred_main'):
            net = nets.BY[n]
            select(net)
            if net.decred:
                _strangers[n] = {
                    'tx_ins': build.dcr_txin(g.txin(net, False)),
                    'tx_outs': build.dcr_txout(g.txout(net)),
                    'tx_witnesses': build.dcr_wit(g.dcr_wit(net))}
                continue
            _strangers[n] = {'tx_ins': build.txin(g.txin(net)),
                             'tx_outs': build.txout(g.txout(net)),
                             'tx_witnesses': build.witness([b'x'])}
            if n != 'bitcoin_main':
                _strangers[n]['tx_joinsplits'] = build.joinsplit(
                    g.joinsplit(net.family == 'sapling'))
            if net.family == 'sapling':
                _strangers[n]['tx_shielded_spends'] = build.spend(g.spend())
                _strangers[n]['tx_shielded_outputs'] = build.sout(g.sout())
        riemann.select_network(was)
    dcr, sap = _strangers['decred_main'], _strangers['zcash_sapling_main']
    spr = _strangers['zcash_sprout_main']
    if name in ('tx_ins', 'tx_outs', 'tx_witnesses'):
        out = [(sap if user == 'DecredTx' else dcr)[name]]
        out += [v for k, v in dcr.items() if k != name or user != 'DecredTx']
    else:
        out = [(spr if user == 'SaplingTx' else sap)['tx_joinsplits']]
        out += list(dcr.values())
        if name != 'tx_joinsplits':
            out = [v for k, v in sap.items() if k != name]
    return out


class C27(Check):
    id = 'C27'
    quick, thorough = 4000, 70000
    rule = ('every kind of object with one rule broken (each fixed-length '
            'field shorter, longer, empty or of another type; wrong list '
            'elements at any position; counts, markers, limits, keys and '
            'signatures; classes of another network family) must be '
            'refused, while the unbroken object and objects exactly at each '
            'limit are accepted; a state is object kind and rule broken')
    need = {'refusals checked': 100000, 'accepted': 20000,
            'at the limit': 1000}

    def wrong_size(self, g, n):
        return g.pick([k for k in (0, 1, n - 1, n + 1, n * 2, n + 8, n - 4,
                                   n // 2, n + g.r.randrange(2, 300))
                       if k >= 0 and k != n])

    def foreign(self, cx, net, row, name):
        '''things that are not list elements of that kind'''
        g = cx.g
        i, o = g.txin(net), g.txout(net)
        raw = rtx.txin(i)
        out = [raw, bytearray(raw), raw.hex(), None, 0, [], {},
               rtx.txout(o), SH.VarInt(g.u32())]
        if name != 'tx_ins':
            out.append(build.txin(i))
        if name != 'tx_outs':
            out.append(build.txout(o))
        if name != 'stack':
            out.append(B.WitnessStackItem(g.b(20)))
        out.append(build.witness([b'x']) if name != 'tx_witnesses' else
                   [B.WitnessStackItem(b'x')])
        if row.name == 'DecredTx':
            out.append({'tx_witnesses': build.witness([b'x']),
                        'tx_ins': build.txin(i),
                        'tx_outs': build.txout(o)}[name])
        elif net.decred and name != 'stack':
            out.append({'tx_witnesses': build.dcr_wit(g.dcr_wit(net)),
                        'tx_ins': build.dcr_txin(g.txin(net, False)),
                        'tx_outs': build.dcr_txout(o)}[name])
        f = net.family
        if name != 'stack' and g.chance(.4):
            return g.pick(strangers(name, row.name))
        if f in ('sprout', 'overwinter') and name == 'tx_joinsplits':
            out.append(Z.SproutZkproof(**g.fields(rtx.SPROUT_PROOF)))
            out.append(build.joinsplit(g.joinsplit(True)))
        if f == 'sapling':
            if name == 'tx_joinsplits':
                out.append(build.joinsplit(g.joinsplit(False)))
                out.append(build.spend(g.spend()))
            if name == 'tx_shielded_spends':
                out.append(build.sout(g.sout()))
                out.append(S.SaplingZkproof(**g.fields(rtx.SAPLING_PROOF)))
            if name == 'tx_shielded_outputs':
                out.append(build.spend(g.spend()))
        return g.pick(out)

    def refuse(self, cx, row, rule, **over):
        cx.state(row.name, rule)
        cx.refused('%s with %s' % (row.name, rule), row.make, **over)

    def generic(self, cx, net, row):
        g = cx.g
        for n, size in FIXED.get(row.name, {}).items():
            if row.name == 'SaplingTx' and n == 'value_balance' and \
                    g.chance(0):
                continue
            k = self.wrong_size(g, size)
            v = g.b(k)
            if n in ('vpub_old', 'vpub_new'):
                v = bytes(k)
            if row.name == 'SproutTx' and n == 'version':
                v = (row.kw['version'] + bytes(40))[:k] if k > 4 else \
                    bytes(row.kw['version'])[:k]
            if n == 'expiry_height':
                v = bytes(k)
            self.refuse(cx, row, '%s of %d bytes' % (n, k)
                        if k < 3 or abs(k - size) < 2
                        else n + ' of another length', **{
                            n: bytearray(v) if g.chance(.2) else v})
            x = g.pick((None, 'x' * size, 7, list(range(size)), 1.5,
                        tuple([1] * size), ['a'] * size, {}))
            self.refuse(cx, row, '%s of type %s' % (n, type(x).__name__),
                        **{n: x})
        for n in LOOSE.get(row.name, ()):
            x = g.pick((None, 'abcd', 7, [1, 2, 3], 1.5, (1,), {}))
            self.refuse(cx, row, '%s of type %s' % (n, type(x).__name__),
                        **{n: x})
        for n in LISTS.get(row.name, ()):
            xs = list(row.kw[n] or [])
            if n in ('tx_joinsplits', 'tx_witnesses', 'tx_shielded_spends',
                     'tx_shielded_outputs') and not xs:
                continue
            x = self.foreign(cx, net, row, n)
            if xs:
                xs[g.r.randrange(len(xs))] = x
            else:
                xs = [x]
            self.refuse(cx, row, 'a %s in %s' % (type(x).__name__, n),
                        **{n: g.pick((list, tuple))(xs)})
            if n in ('tx_ins', 'tx_outs'):
                self.refuse(cx, row, 'no list of ' + n, **{n: g.pick((
                    None, 5, xs[0]))} if xs and not isinstance(
                        xs[0], (bytes, bytearray, str, list, dict,
                                SH.ByteData)) else {n: g.pick((None, 5))})

    def special(self, cx, net, row):
        g = cx.g
        kw, t = row.kw, row.spec
        if row.name == 'TxIn':
            n = g.pick((1651, 1652, 1700, 2000, 10000, 65536))
            k = g.pick((0, n, g.r.randrange(n + 1)))
            self.refuse(cx, row, 'a script signature of over 1650 bytes',
                        stack_script=g.b(k), redeem_script=g.b(n - k))
            k = g.pick((0, 1650, g.r.randrange(1651)))
            o = cx.ok('TxIn with 1650 bytes', row.make,
                      stack_script=g.b(k), redeem_script=g.b(1650 - k))
            cx.eq('TxIn length', len(o), 36 + 3 + 1650 + 4)
            cx.event('at the limit')
        if 'zkproof' in kw:
            sap = not isinstance(kw['zkproof'], Z.SproutZkproof)
            p = g.fields(rtx.SAPLING_PROOF if sap else rtx.SPROUT_PROOF)
            q = g.fields(rtx.SPROUT_PROOF if sap else rtx.SAPLING_PROOF)
            self.refuse(cx, row, 'a proof of another kind',
                        zkproof=g.pick((rtx.proof(p), build.proof(q), None,
                                        bytearray(rtx.proof(p)), 'x')))
        if row.name.endswith('Joinsplit'):
            a = g.pick((1, 256, 1 << 56, 1 << 63, g.u64() or 1))
            b = g.pick((1, 255, 1 << 40, 1 << 63, g.u64() or 1))
            self.refuse(cx, row, 'both public values',
                        vpub_old=a.to_bytes(8, 'little'),
                        vpub_new=b.to_bytes(8, 'little'))
        if row.name == 'Tx':
            self.special_tx(cx, net, row)
        if row.name == 'DecredTx':
            self.refuse(cx, row, 'no inputs', tx_ins=g.pick(([], ())),
                        tx_witnesses=[])
            self.refuse(cx, row, 'no outputs', tx_outs=g.pick(([], ())))
        if row.name in ('SproutTx', 'OverwinterTx', 'SaplingTx'):
            self.special_zcash(cx, net, row)
        if row.name in ('SproutTx', 'OverwinterTx', 'SaplingTx',
                        'DecredTx') and g.chance(.12):
            self.large(cx, net, row)

    def special_tx(self, cx, net, row):
        g = cx.g
        kw = row.kw
        self.refuse(cx, row, 'no inputs', tx_ins=g.pick(([], ())),
                    tx_witnesses=g.pick(([], None)))
        self.refuse(cx, row, 'no outputs', tx_outs=g.pick(([], ())))
        wits = [build.witness(g.witness()) for _ in kw['tx_ins']]
        self.refuse(cx, row, 'witnesses without the marker', flag=None,
                    tx_witnesses=wits)
        n = len(wits)
        k = g.pick([k for k in (n - 1, n + 1, n * 2, 1, n + 5)
                    if k > 0 and k != n])
        self.refuse(cx, row, 'another number of witnesses',
                    flag=b'\0\1', tx_witnesses=(wits * (k + 1))[:k])
        self.refuse(cx, row, 'a wrong marker', tx_witnesses=wits,
                    flag=g.pick((b'', b'\0', b'\1', b'\0\0', b'\1\0',
                                 b'\0\2', b'\1\1', b'\0\1\0', b'\0\0\1',
                                 b'\0\x81')))
        if not kw['flag']:
            self.refuse(cx, row, 'a wrong marker and no witnesses',
                        flag=g.pick((b'\0\0', b'\1\0', b'\0\2', b'\0')))
        o = cx.ok('Tx with witnesses', row.make, flag=b'\0\1',
                  tx_witnesses=wits)
        cx.true('Tx with witnesses', o.is_witness())
        cx.event('at the limit')

    def special_zcash(self, cx, net, row):
        g = cx.g
        kw, t = row.kw, row.spec
        sap = row.name == 'SaplingTx'
        jss = [build.joinsplit(g.joinsplit(sap)) for _ in range(5)]
        full = dict(tx_joinsplits=jss, joinsplit_pubkey=g.b(32),
                    joinsplit_sig=g.b(64))
        if row.name == 'SproutTx':
            full['version'] = b'\2\0\0\0'
            self.refuse(cx, row, 'JoinSplits in version 1', **{
                **full, 'version': b'\1\0\0\0'})
            self.refuse(cx, row, 'no inputs in version 1',
                        version=b'\1\0\0\0', tx_ins=g.pick(([], ())),
                        tx_joinsplits=[])
            self.refuse(cx, row, 'another version', version=g.pick((
                0, 3, 4, 255, 256, 257, 258, 0x01000000, 0x02000000,
                0x80000001, 0x80000002, 1 << 16, g.u32() | 4)
            ).to_bytes(4, 'little'))
        o = cx.ok('%s with five JoinSplits' % row.name, row.make, **full)
        cx.eq('JoinSplits', len(o.tx_joinsplits), 5)
        cx.event('at the limit')
        k = g.pick((6, 6, 7, 10, 252, 253, 256, 300)) \
            if g.chance(.2) else 6
        self.refuse(cx, row, 'too many JoinSplits', **{
            **full, 'tx_joinsplits': (jss * 61)[:k]})
        full['tx_joinsplits'] = jss[:g.r.randrange(1, 6)]
        for n, size in (('joinsplit_pubkey', 32), ('joinsplit_sig', 64)):
            k = self.wrong_size(g, size)
            if row.name == 'SproutTx' and k == 0 and size == 64:
                k = 63
            self.refuse(cx, row, '%s of another length' % n, **{
                **full, n: g.b(k)})
            self.refuse(cx, row, '%s of another type' % n, **{
                **full, n: g.pick((None, 'x' * size, 5, [1] * size))})
        if row.name != 'SproutTx':
            cx.ok('the last expiry height', row.make,
                  expiry_height=(499999999).to_bytes(4, 'little'))
            cx.event('at the limit')
            bad = g.pick((500000000, 500000001, 0x7fffffff, 0x80000000,
                          0xffffffff, 499999999 + (1 << 31)))
            self.refuse(cx, row, 'an expiry height too high',
                        expiry_height=bad.to_bytes(4, 'little'))
            z = dict(tx_ins=[], tx_joinsplits=[])
            if sap:
                z['tx_shielded_spends'] = []
                if g.chance(.5):
                    z.update(tx_shielded_outputs=[], value_balance=bytes(8))
            self.refuse(cx, row, 'nothing spent', **z)
        if sap:
            none = dict(tx_shielded_spends=[], tx_shielded_outputs=[],
                        tx_ins=kw['tx_ins'] or [build.txin(g.txin(net))])
            self.refuse(cx, row, 'a balance and nothing shielded', **{
                **none, 'value_balance': g.pick((
                    b'\1' + bytes(7), bytes(7) + b'\x80', b'\xff' * 8,
                    bytes(3) + b'\1' + bytes(4)))})
            cx.ok('nothing shielded', row.make, **{
                **none, 'value_balance': bytes(8), 'binding_sig': None})
            sh = dict(tx_shielded_spends=[build.spend(g.spend())])
            if g.chance(.5):
                sh = dict(tx_shielded_spends=[], tx_ins=none['tx_ins'],
                          tx_shielded_outputs=[build.sout(g.sout())])
            self.refuse(cx, row, 'a binding signature of another length', **{
                **sh, 'binding_sig': g.b(self.wrong_size(g, 64))})
            self.refuse(cx, row, 'a binding signature of another type', **{
                **sh, 'binding_sig': g.pick((None, 'x' * 64, 5, [1] * 64))})
            cx.ok('shielded', row.make, **{**sh, 'binding_sig': g.b(64)})
            cx.event('at the limit', 2)

    def large(self, cx, net, row):
        '''exactly 100000 bytes, and one more'''
        g = cx.g
        t = clone(row.spec)
        o = clone(t['outs'][0]) if t['outs'] else g.txout(net)
        t['outs'] = t['outs'][:3] + [o]
        o['script'] = b'\x51' * 60000
        room = 100000 - len(rtx.full(t))
        o['script'] = b'\x51' * (60000 + room)
        if len(vi(len(o['script']))) != 3:
            # spread over two outputs
            o['script'] = b'\x51' * 60000
            p = clone(o)
            p['script'] = b'\x52' * 1000
            t['outs'].append(p)
            p['script'] = b'\x52' * (1000 + 100000 - len(rtx.full(t)))
            o = p
        if len(rtx.full(t)) != 100000:
            return
        x = cx.ok('a transaction of 100000 bytes', make, t)
        cx.eq('length', len(x), 100000)
        cx.event('at the limit')
        for n in (1, g.pick((2, 100, 5000))):
            t2 = clone(t)
            t2['outs'][-1]['script'] += b'\x51' * n
            cx.refused('a transaction of more than 100000 bytes', make, t2)
            cx.state(row.name, 'too large')

    def family(self, cx, net):
        '''classes of other networks'''
        g = cx.g
        other = g.pick(nets.DECRED + nets.SPROUT + nets.OVERWINTER
                       + nets.SAPLING)
        if other.family == net.family:
            return
        select(other)
        rows = [r for r in zoo(g, other, wrap(g, 0))
                if r.name not in ('Tx', 'Outpoint', 'TxIn', 'TxOut',
                                  'WitnessStackItem', 'InputWitness',
                                  'VarInt')]
        for r in rows:
            cx.ok(r.name, r.make)
        select(net)
        both = net.family != 'bitcoin' and not net.decred and \
            not other.decred
        for r in rows:
            if both and not r.name.endswith('Tx'):
                continue
            cx.state(net.family, 'foreign', r.name)
            cx.refused('%s on %s' % (r.name, net.name), r.make)
            if r.cls in PARSES and can_parse(r):
                cx.refused('parsing %s on %s' % (r.name, net.name),
                           r.cls.from_bytes, r.raw)

    def case(self, cx, i):
        g = cx.g
        net = nets.NETS[i % 72] if i < 144 else family_net(g)
        select(net)
        for row in zoo(g, net, wrap(g, g.pick((0, 0, 2)))):
            if row.name == 'VarInt':
                continue
            o = cx.ok(row.name, row.make)
            cx.event('accepted')
            cx.eq(row.name, by(o), row.raw)
            self.generic(cx, net, row)
            self.special(cx, net, row)
        if g.chance(.5):
            self.family(cx, net)
        if i % 501 == 7:
            cx.sample(net=net.name)


# ---- C30 ----------------------------------------------------------------

class C30(Check):
    id = 'C30'
    quick, thorough = 4000, 70000
    rule = ('every kind of object and byte buffers under construction; '
            'comparison, length, iteration, indexing, slicing, membership, '
            'searching, formatting and hex judged against a bytes object '
            'holding the independently encoded bytes; a state is object '
            'kind, operation and outcome')
    need = {'objects': 20000, 'comparisons': 400000, 'appends': 20000}

    def as_bytes(self, cx, name, o, raw, pool):
        g = cx.g
        n = len(raw)
        cx.event('objects')
        cx.eq(name + ' len', len(o), n)
        cx.eq(name + ' to_bytes', o.to_bytes(), raw)
        cx.true(name + ' to_bytes is bytes', type(o.to_bytes()) is bytes)
        cx.eq(name + ' hex', o.hex(), raw.hex())
        cx.eq(name + ' iterates', bytes(iter(o)), raw)
        cx.eq(name + ' as a list', list(o), list(raw))
        cx.eq(name + ' format x', '{:x}'.format(o), raw.hex())
        cx.eq(name + ' format X', '{:X}'.format(o), raw.hex().upper())
        code = cx.g.pick(('02x', '#x', '>x', 'xx', 'x '))
        cx.eq(name + ' format ' + code, cx.ok('format', format, o, code),
              raw.hex())
        code = code.replace('x', 'X')
        cx.eq(name + ' format ' + code, cx.ok('format', format, o, code),
              raw.hex().upper())
        for _ in range(3):
            k = g.pick((0, -1, n - 1, -n, g.r.randrange(-n, n)))
            cx.eq('%s[%d]' % (name, k), o[k], raw[k])
        for k in (n, -n - 1, n + g.r.randrange(1, 1000)):
            ok, e = cx.attempt(lambda: o[k])
            if ok:
                cx.fail('%s indexed past its end' % name, '%d of %d: %r'
                        % (k, n, e))
            cx.event('refusals checked')
        for _ in range(4):
            a, b = [g.pick((None, 0, n, -1, g.r.randrange(-n - 3, n + 4)))
                    for _ in range(2)]
            c = g.pick((None, None, None, 1, 2, -1, 3))
            cx.eq('%s[%s:%s:%s]' % (name, a, b, c), bytes(o[a:b:c]),
                  raw[a:b:c])
        for _ in range(3):
            a = g.pick((0, max(0, n - 5), g.r.randrange(n),
                        g.r.randrange(n)))
            b = min(n, a + (g.r.randrange(0, 6) if g.chance(.7)
                            else g.r.randrange(1, n + 1)))
            s = raw[a:b] if g.chance(.7) else g.b(g.r.randrange(1, 4))
            if len(s) > 1 and g.chance(.15):  # all but one byte of it
                s = s[:-1] + bytes([s[-1] ^ 1])
            w = g.pick((bytes, bytearray, SH.ByteData.from_bytes))(s)
            cx.eq('%s find' % name, o.find(w), raw.find(s), s)
        x = g.r.randrange(256)
        cx.eq(name + ' contains', x in o, x in raw)
        # equality
        for v in (raw, bytearray(raw), SH.ByteData.from_bytes(raw), o):
            cx.true('%s == its bytes as %s' % (name, type(v).__name__),
                    (o == v) is True and (o != v) is False)
            if not isinstance(v, SH.ByteData):
                cx.true('%s as %s == it' % (name, type(v).__name__),
                        (v == o) is True and (v != o) is False)
        k = g.r.randrange(n)
        near = [raw[:k] + bytes([raw[k] ^ (1 << g.r.randrange(8))])
                + raw[k + 1:], raw[:-1], raw + g.b(1), b'', raw[1:],
                raw + raw, raw + b'\0', raw[::-1]]
        for s in g.r.sample(near, 3):
            for v in (s, bytearray(s), SH.ByteData.from_bytes(s)):
                cx.eq('%s == other bytes as %s' % (name, type(v).__name__),
                      ((o == v), (o != v)), (raw == s, raw != s))
        for p, praw in g.r.sample(pool, min(3, len(pool))):
            cx.eq('%s == %s' % (name, type(p).__name__),
                  ((o == p), (o != p)), (raw == praw, raw != praw))
        cx.state(name, n)

    def buffer(self, cx, net, pool):
        g = cx.g
        cls = SH.ByteData
        if net.decred:
            cls = g.pick((cls, D.DecredByteData))
        elif net.family != 'bitcoin':
            cls = g.pick((cls, Z.ZcashByteData))
        c = g.r.random()
        raw = b''
        if c < .5:
            o = cls()
        elif cls is SH.ByteData:
            raw = g.blob(200)
            src = bytearray(raw)
            o = cls.from_bytes(src) if c < .8 else cls.from_hex(raw.hex())
            src[:] = b'\x55' * (len(src) + 1)
        else:
            o = cls()
        same = o
        early = None
        for _ in range(g.r.randrange(1, 12)):
            c = g.r.random()
            if c < .25:
                s = g.blob(300)
                o += s
            elif c < .45:
                s = g.blob(300)
                v = bytearray(s)
                o += v
                v[:] = b'\x11' * (len(v) + 2)
            elif c < .7:
                p, s = g.pick(pool)
                o += p
            elif c < .8:
                s = raw if len(raw) < 3000 else b''
                if s or not raw:
                    o += o
            else:
                s = b''
                bad = g.pick(('00', '', 5, None, [1, 2], (1,), 1.5, {1},
                              memoryview, range(3)))
                before = o.to_bytes()
                cx.event('refusals checked')
                try:
                    o += bad
                except Exception:
                    pass
                else:
                    cx.fail('appending what is not bytes', repr(bad))
                cx.eq('buffer after a refused append', o.to_bytes(), before)
            raw += s
            cx.event('appends')
            cx.true('appending makes another object', o is same)
            cx.eq('buffer', o.to_bytes(), raw)
            if early is not None:
                cx.eq('bytes taken earlier', early[0], early[1])
            early = (o.to_bytes(), raw)
        if raw:
            self.as_bytes(cx, cls.__name__, o, raw, pool)
        # appending to a buffer leaves what was appended alone
        for p, s in pool:
            if by(p) != s:
                cx.fail('appended object changed', type(p).__name__)
        v = g.pick((0, 1, 4, 32, len(raw)))
        for x, good in ((g.b(v), True), (bytearray(v), True),
                        (g.b(v + 1), False), ('x' * v, False),
                        ([0] * v, False), (None, False)):
            ok, e = cx.attempt(cls.validate_bytes, x, v)
            cx.eq('validate_bytes(%s of %d, %d)' % (
                type(x).__name__, v, v), ok, good)
        for x in (g.b(4), g.b(3), g.b(5), b''):
            ok, e = cx.attempt(cls.validate_bytes, x)
            cx.eq('validate_bytes(%d bytes)' % len(x), ok, len(x) == 4)
        ok, e = cx.attempt(cls.validate_bytes, g.blob(50), None)
        cx.true('validate_bytes of any length', ok)

    def case(self, cx, i):
        g = cx.g
        net = nets.NETS[i % 72] if i < 144 else family_net(g)
        select(net)
        rows = zoo(g, net, wrap(g, g.pick((0, 0, 2))))
        pool = [(cx.ok(r.name, r.make), r.raw) for r in rows]
        for (o, raw), r in zip(list(pool), rows):
            if can_parse(r) and g.chance(.3):
                pool.append((cx.ok(r.name + ' parse', r.cls.from_bytes,
                                   raw), raw))
        for o, raw in pool:
            if len(raw) < 60000 or g.chance(.1):
                self.as_bytes(cx, type(o).__name__, o, raw, pool)
        if i % 40 == 9:  # buffers as large as transactions and larger
            o, raw = SH.ByteData(), b''
            n = g.pick((65535, 65536, 70000, 100001, 200000))
            while len(raw) < n:
                s = g.b(g.r.randrange(1, 4)) * g.r.randrange(1, 20000)
                o += s
                raw += s
            raw += (s := g.b(9))
            o += s
            self.as_bytes(cx, 'a large buffer', o, raw, pool)
            cx.eq('find at the end', o.find(s), raw.find(s))
            q = SH.ByteData()
            q += b'q'
            q += o
            q += bytearray(raw)
            q += raw
            q += q
            cx.eq('large parts appended', by(q), (b'q' + raw * 3) * 2)
            cx.eq('large part appended', by(o), raw)
            if not net.decred and net.family == 'bitcoin':
                w = cx.ok('WitnessStackItem', B.WitnessStackItem, raw)
                cx.eq('large item', (by(w), w.item), (rtx.item(raw), raw))
                w = cx.ok('InputWitness', B.InputWitness, [w, w])
                cx.eq('large items', by(w), rtx.witness([raw, raw]))
                w = cx.ok('TxOut', B.TxOut, b'\1' * 8, o)
                cx.eq('large script', by(w), b'\1' * 8 + rtx.item(raw))
        self.buffer(cx, net, [p for p in pool if len(p[1]) < 5000])
        if i % 501 == 7:
            cx.sample(net=net.name, objects=[r.name for r in rows])
