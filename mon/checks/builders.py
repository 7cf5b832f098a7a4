'''C17: the builder and simple interfaces.'''
from riemann import simple
from riemann.tx import tx_builder as tb

from ..core import Check
from ..build import (B, D, Diff, by, cmp_dcr_wit, cmp_txin, cmp_txout,
                     cmp_witness, compare, joinsplit, select, sout, spend,
                     cmp_dcr_txin, cmp_dcr_txout)
from ..gen import shape
from ..ref import addr as raddr, nets, prim, script as rscript, tx as rtx
from .addrs import script_text, some_hash
from .wire import report, wrap

u = rtx.u
ZCASH = ('sprout', 'overwinter', 'sapling')


def le(n, k):
    return n.to_bytes(k, 'little')


class C17(Check):
    id = 'C17'
    quick, thorough = 12000, 200000
    rule = ('random transaction specs of the network\'s own format put '
            'together through tx_builder and simple from integers, hex ids, '
            'addresses, keys and script texts (optional arguments given or '
            'left out), compared attribute by attribute and byte by byte '
            'with an independent encoder; integers and ids that do not fit '
            'must be refused; a state is network, route and shape')
    need = {'assembled': 3000, 'inputs': 8000, 'outputs': 8000,
            'helpers': 10000, 'refusals checked': 15000}

    # ---- parts ----------------------------------------------------------

    def outpoint(self, cx, net, i):
        g = cx.g
        n, tree = u(i['index']), i['tree'][0]
        if g.chance(.5):
            f, first = simple.outpoint, i['txid'][::-1].hex()
            if g.chance(.2):
                first = first.upper()
        else:
            f, first = tb.make_outpoint, wrap(g, 2)(i['txid'])
        name = f.__name__
        kw = g.chance(.3)
        if net.decred and not (tree == 0 and g.chance(.5)):
            o = cx.ok(name, f, first, index=n, tree=tree) if kw \
                else cx.ok(name, f, first, n, tree)
        else:
            o = cx.ok(name, f, first, index=n) if kw \
                else cx.ok(name, f, first, n)
        cx.eq(name, by(o), rtx.dcr_outpoint(i) if net.decred
              else rtx.outpoint(i), i)
        cx.eq(name + ' class', type(o).__name__,
              'DecredOutpoint' if net.decred else 'Outpoint')
        cx.state(net.family, name, kw, n.bit_length(), tree if net.decred
                 else 0)
        return o

    def txin(self, cx, net, i):
        g = cx.g
        o = self.outpoint(cx, net, i)
        seq = u(i['seq'])
        w = wrap(g, 2)
        if net.decred:
            r = g.pick(('make_decred_input', 'make_witness_input',
                        'make_legacy_input', 'unsigned_input'))
        elif i['stack'] or i['redeem']:
            r = 'make_legacy_input'
        else:
            r = g.pick(('make_witness_input', 'make_legacy_input',
                        'unsigned_input'))
        if r == 'make_legacy_input':
            a = (o, w(i['stack']), w(i['redeem']), seq)
            k = ('outpoint', 'stack_script', 'redeem_script', 'sequence')
        else:
            a, k = (o, seq), ('outpoint', 'sequence')
        f = getattr(simple if r == 'unsigned_input' else tb, r)
        if r == 'unsigned_input' and seq == 0xfffffffe and g.chance(.8):
            a, k = a[:1], k[:1]
        x = cx.ok(r, f, **dict(zip(k, a))) if g.chance(.3) \
            else cx.ok(r, f, *a)
        d = Diff()
        d.eq('class', type(x).__name__, 'DecredTxIn' if net.decred
             else 'TxIn')
        (cmp_dcr_txin if net.decred else cmp_txin)(d, r, x, i)
        report(cx, r, d)
        cx.event('inputs')
        cx.state(net.name, r, len(a), seq.bit_length())
        return x

    def txout(self, cx, net, s):
        '''rewrites the spec's script when the route decides it'''
        g = cx.g
        v = u(s['value'])
        c = g.r.randrange(6)
        if c == 0:
            kind = g.pick(raddr.kinds(net))
            h = some_hash(g, net, kind)
            s['script'] = raddr.script(kind, h)
            r, f = 'output', simple.output
            a = (v, raddr.encode(net, kind, h, g.chance(.5)))
        elif c == 1:
            pk = g.pubkey()
            wit = net.segwit and g.chance(.5)
            s['script'] = raddr.script('p2wpkh' if wit else 'p2pkh',
                                       prim.hash160(net, pk))
            r = 'make_p2wpkh_output' if wit else 'make_p2pkh_output'
            f, a = getattr(tb, r), (v, pk)
        elif c == 2:
            text, ser = script_text(g, net)
            wit = net.segwit and g.chance(.5)
            s['script'] = raddr.script('p2wsh', prim.sha256(ser)) if wit \
                else raddr.script('p2sh', prim.hash160(net, ser))
            r = 'make_p2wsh_output' if wit else 'make_p2sh_output'
            f, a = getattr(tb, r), (v, text)
        elif c == 3:
            d = g.b(g.r.randrange(1, 76))
            s['script'], s['value'] = b'\x6a' + rscript.push(d), b'\0' * 8
            r, f, a = 'make_op_return_output', tb.make_op_return_output, (d,)
        else:
            r = 'constructor'
            if net.decred:
                f, a = D.DecredTxOut, (s['value'], s['ver'], s['script'])
            else:
                f, a = B.TxOut, (s['value'], s['script'])
        if c < 4:
            s['ver'] = b'\0\0'
        o = cx.ok(r, f, *a)
        d = Diff()
        (cmp_dcr_txout if net.decred else cmp_txout)(d, r, o, s)
        report(cx, r, d)
        cx.event('outputs')
        cx.state(net.name, r, v.bit_length())
        return o

    # ---- whole transactions ---------------------------------------------

    def assemble(self, cx, net, t, ins, outs):
        g = cx.g
        k = t['kind']
        version = u(t['version']) if k in ('tx', 'decred', 'sprout') \
            else g.pick((1, 2, 3, 4))
        a = [('version', version), ('tx_ins', ins), ('tx_outs', outs),
             ('lock_time', u(t['lock']))]
        kw = {}
        if k in ('decred', 'overwinter', 'sapling'):
            kw['expiry'] = u(t['expiry'])
        if k == 'decred':
            if t['wits'] or g.chance(.5):
                kw['tx_witnesses'] = [self.dcr_wit(cx, x) for x in t['wits']]
        if k == 'tx' and t['flag']:
            kw['tx_witnesses'] = [self.witness(cx, x) for x in t['wits']]
        if k in ZCASH:
            if t['js'] or k == 'sprout' or g.chance(.5):
                kw['tx_joinsplits'] = [joinsplit(j) for j in t['js']]
            if t['js']:
                kw['joinsplit_pubkey'] = wrap(g, 2)(t['jspk'])
                kw['joinsplit_sig'] = wrap(g, 2)(t['jssig'])
        if k == 'sapling':
            if t['spends'] or g.chance(.5):
                kw['tx_shielded_spends'] = [spend(s) for s in t['spends']]
            if t['souts'] or g.chance(.5):
                kw['tx_shielded_outputs'] = [sout(s) for s in t['souts']]
            vb = int.from_bytes(t['vb'], 'little', signed=True)
            if vb or g.chance(.5):
                kw['value_balance'] = vb
            if t['bsig'] is not None:
                kw['binding_sig'] = wrap(g, 2)(t['bsig'])
        for n, v in list(kw.items()):
            if isinstance(v, list) and g.chance(.3):
                kw[n] = tuple(v)
        held = [(v, list(v)) for _, v in a + list(kw.items())
                if isinstance(v, list)]
        if g.chance(.5):
            o = cx.ok('make_tx', tb.make_tx, *[v for _, v in a], **kw)
        else:
            o = cx.ok('make_tx', tb.make_tx, **dict(a), **kw)
        for now, then in held:
            cx.true('make_tx changed a list it was given', len(now) ==
                    len(then) and all(x is y for x, y in zip(now, then)))
        report(cx, 'make_tx on ' + net.name, compare(o, t))
        cx.event('assembled')
        cx.state(net.name, 'make_tx', tuple(sorted(kw)), shape(t))
        # integers that do not fit their field
        for n in ('version', 'lock_time', 'expiry'):
            if n == 'version' and k in ('overwinter', 'sapling'):
                continue
            if n == 'expiry' and 'expiry' not in kw:
                continue
            bad = g.pick((-1, 1 << 32, (1 << 32) + u(t['lock']), -(1 << 31),
                          1 << 64))
            cx.refused('make_tx with %s %d' % (n, bad), tb.make_tx,
                       **{**dict(a), **kw, n: bad})
        if k == 'sapling' and t['bsig']:
            bad = g.pick((1 << 63, -(1 << 63) - 1, 1 << 64, (1 << 64) - 1))
            cx.refused('make_tx with value balance %d' % bad, tb.make_tx,
                       **{**dict(a), **kw, 'value_balance': bad})
        return o

    def unsigned(self, cx, net, t, ins, outs):
        g = cx.g
        k = t['kind']
        t = dict(t)
        kw = {}
        t['wits'] = [] if net.decred else None
        t['flag'] = False
        if k == 'tx' and g.chance(.5):
            f = simple.unsigned_witness_tx
            t['flag'], t['wits'] = True, [[] for _ in t['ins']]
        else:
            f = simple.unsigned_legacy_tx
        if g.chance(.5):
            if k in ('tx', 'decred', 'sprout'):
                kw['version'] = u(t['version'])
        if 'version' not in kw:
            t['version'] = b'\2\0\0\0' if k in ('tx', 'decred', 'sprout') \
                else t['version']
        if g.chance(.5):
            # its documentation calls it locktime
            kw['locktime' if f is simple.unsigned_witness_tx and
               g.chance(.5) else 'lock_time'] = u(t['lock'])
        else:
            t['lock'] = b'\0' * 4
        if k in ('decred', 'overwinter', 'sapling'):
            if g.chance(.5):
                kw['expiry'] = u(t['expiry'])
            else:
                t['expiry'] = b'\0' * 4
        if k in ZCASH:
            if t['js'] and t['version'][0] != 1:
                kw['tx_joinsplits'] = [joinsplit(j) for j in t['js']]
                kw['joinsplit_pubkey'] = t['jspk']
                kw['joinsplit_sig'] = t['jssig']
            else:
                t.update(js=[], jspk=None, jssig=None)
        if k == 'sapling':
            t.update(spends=[], souts=[], vb=b'\0' * 8, bsig=None)
        if not t['ins'] and not t.get('js'):
            return
        o = cx.ok(f.__name__, f, ins, outs, **kw)
        report(cx, '%s on %s' % (f.__name__, net.name), compare(o, t))
        cx.event('assembled')
        cx.state(net.name, f.__name__, tuple(sorted(kw)), shape(t))

    # ---- helpers --------------------------------------------------------

    def witness(self, cx, x):
        g = cx.g
        w = wrap(g, 2)
        if not x and g.chance(.5):
            o = cx.ok('make_empty_witness', tb.make_empty_witness)
        else:
            o = cx.ok('make_witness', tb.make_witness, [w(d) for d in x])
        d = Diff()
        cmp_witness(d, 'make_witness', o, x)
        report(cx, 'make_witness', d)
        cx.event('helpers')
        return o

    def dcr_wit(self, cx, x):
        g = cx.g
        w = wrap(g, 2)
        a = [w(x[k]) for k in ('value', 'height', 'index', 'stack',
                               'redeem')]
        o = cx.ok('make_decred_witness', tb.make_decred_witness, *a) \
            if g.chance(.5) else cx.ok(
                'make_decred_witness', tb.make_decred_witness, **dict(zip(
                    ('value', 'height', 'index', 'stack_script',
                     'redeem_script'), a)))
        d = Diff()
        cmp_dcr_wit(d, 'make_decred_witness', o, x)
        report(cx, 'make_decred_witness', d)
        cx.event('helpers')
        return o

    def helpers(self, cx, net):
        g = cx.g
        w = wrap(g, 2)
        for n in (g.length(1650), g.pick((0, 1, 252, 253, 254, 255, 256,
                                          65534, 65535, 65536, 65537))):
            b = g.b(n)
            cx.eq('length_prepend of %d bytes' % n, by(cx.ok(
                'length_prepend', tb.length_prepend, w(b))),
                prim.vi(n) + b)
            cx.state('length_prepend', n)
            o = cx.ok('make_witness_stack_item', tb.make_witness_stack_item,
                      w(b))
            cx.eq('make_witness_stack_item of %d bytes' % n, by(o),
                  prim.vi(n) + b)
            cx.eq('make_witness_stack_item item', by(o.item), b)
            cx.event('helpers', 2)
        self.witness(cx, g.witness())
        # script signatures
        while True:
            red, ser = script_text(g, net)
            if 1 <= len(ser) <= 1000:
                break
        while True:
            items = g.minimal_items(net, hi=80)
            st = b''.join(items)
            if len(st) + len(ser) < 20000:
                break
        text = rscript.text(net, rscript.parse(net, st))
        got = cx.ok('make_script_sig', tb.make_script_sig, text, red)
        cx.eq('make_script_sig', by(got), st + rscript.push(ser),
              '%s / %s' % (text, red))
        cx.event('helpers')
        cx.state(net.family, 'make_script_sig', len(items), len(ser))

    def refusals(self, cx, net):
        g = cx.g
        txid = g.b(32)
        n = g.u32()
        for f, first in ((tb.make_outpoint, txid),
                         (simple.outpoint, txid.hex())):
            for bad in (-1, 1 << 32, (1 << 32) + n, g.pick((1.5, '1', None))):
                cx.refused('%s with index %r' % (f.__name__, bad), f, first,
                           bad)
            k = g.pick((0, 1, 31, 33, 64))
            b = g.b(k)
            cx.refused('%s with an id of %d bytes' % (f.__name__, k), f,
                       b if f is tb.make_outpoint else b.hex(), n)
            if net.decred:
                for bad in (-1, 256, 256 + n):
                    cx.refused('%s with tree %r' % (f.__name__, bad), f,
                               first, n, bad)
        h = txid.hex()
        j = g.r.randrange(64)
        for bad in (h[:-1], h[:j] + 'g' + h[j + 1:], h + '0', '0x' + h):
            cx.refused('simple.outpoint of a bad id', simple.outpoint, bad, n)
        o = cx.ok('make_outpoint', tb.make_outpoint, txid, n)
        for bad in (-1, 1 << 32, (1 << 32) + n):
            cx.refused('make_witness_input with sequence %d' % bad,
                       tb.make_witness_input, o, bad)
            cx.refused('make_legacy_input with sequence %d' % bad,
                       tb.make_legacy_input, o, b'', b'', bad)
            cx.refused('unsigned_input with sequence %d' % bad,
                       simple.unsigned_input, o, bad)
            if net.decred:
                cx.refused('make_decred_input with sequence %d' % bad,
                           tb.make_decred_input, o, bad)

    def case(self, cx, i):
        g = cx.g
        net = nets.NETS[i % 72] if i < 720 else g.any_net()
        select(net)
        small = g.chance(.9 if net.decred else .7)
        while True:
            t = g.tx(net, big=.04, nin=g.r.randrange(1, 5) if small else None,
                     nout=g.r.randrange(1, 5) if small else None)
            if t['kind'] != 'tx' or not t['flag'] or t['wits']:
                break
        un = g.chance(.35)
        for x in t['ins']:
            if un or g.chance(.3):
                x['stack'] = x['redeem'] = b''
            if g.chance(.25):
                x['seq'] = b'\xfe\xff\xff\xff'
        ins = [self.txin(cx, net, x) for x in t['ins']]
        outs = [self.txout(cx, net, x) for x in t['outs']]
        if un:
            self.unsigned(cx, net, t, ins, outs)
        if t['kind'] == 'sprout' or not un or g.chance(.3):
            self.assemble(cx, net, t, ins, outs)
        self.helpers(cx, net)
        if g.chance(.3):
            self.refusals(cx, net)
        if i % 701 == 7:
            cx.sample(net=net.name, bytes=rtx.full(t))
