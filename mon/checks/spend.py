'''C33: what is built to pay can be spent by what is built to spend.'''
from riemann import simple, utils
from riemann.encoding import addresses as addr
from riemann.networks import standard
from riemann.script import examples, serialization as ser
from riemann.tx import tx_builder as tb

from ..core import Check
from ..build import B, D, by, select
from ..ref import nets, tx as rtx, vm

MAXV = 2100000000000000
HTLC = examples.htlc_redeem_script


def count(n):
    return 'OP_%d' % n if n <= 16 else '%02x' % n


class Coin:
    '''an output, and how its owner spends it'''
    value = kind = wrap = None
    # the text of the script which must be satisfied
    text = ''
    # named pieces of the satisfaction, in order; 'sig:KEY' is a signature
    path = ()
    lock = 0
    seq = None


class C33(Check):
    id = 'C33'
    quick, thorough = 4000, 70000
    rule = ('chains of transactions on every network, made only with the '
            'library: an address or output for a key, multisig, hash-lock, '
            'time-lock or the HTLC of script.examples (bare p2pkh, p2sh, '
            'p2wpkh, p2wsh, and both nested in p2sh), a funding transaction '
            'round-tripped as hex, an outpoint from its id, digests, script '
            'signatures and witnesses put in with the builder; an '
            'independent reader and script interpreter must accept every '
            'input of the final bytes, which are the next transaction\'s '
            'funding; a state is network, kind, wrapping, hash type and '
            'shape')
    need = {'inputs accepted': 6000, 'forged inputs refused': 800,
            'transactions read': 5000, 'addresses read back': 8000}

    # ---- what is paid to ------------------------------------------------

    def key(self, cx):
        return cx.g.pubkey()

    def coin(self, cx, net):
        g = cx.g
        c = Coin()
        c.value = g.pick((1, 546, 100000, 1 << 32, MAXV // 8,
                          g.r.randrange(1, 1 << 40)))
        wraps = ['p2sh'] + (['p2wsh', 'p2sh-p2wsh'] if net.segwit else [])
        if g.chance(.3):
            pk = self.key(cx)
            c.kind = 'key'
            c.wrap = g.pick(['p2pkh'] + (['p2wpkh', 'p2sh-p2wpkh']
                                         if net.segwit else []))
            c.path = tuple(examples.p2pkh_script_sig.format(
                sig='sig:' + pk.hex(), pk=pk.hex()).split())
            c.pk = pk
            return c
        c.wrap = g.pick(wraps)
        pks = [self.key(cx) for _ in range(3)]
        h = [utils.hash160(k).hex() for k in pks]
        secret = g.b(g.pick((32, 32, 16, 1, 33, 64)))
        c.kind = g.pick(('2of2', 'kofn', 'htlc execute', 'htlc refund',
                         'hashlock', 'cltv', 'csv', 'puzzle', 'either',
                         'p2pkh in script'))
        dummy = () if net.decred else ('OP_0',)
        if c.kind == '2of2':
            c.text = examples.msig_two_two.format(pk0=pks[0].hex(),
                                                  pk1=pks[1].hex())
            c.path = tuple(examples.msig_two_two_stack_script.format(
                sig0='sig:' + pks[0].hex(),
                sig1='sig:' + pks[1].hex()).split())[
                    1 if net.decred else 0:]
        elif c.kind == 'kofn':
            n = g.r.randrange(1, 4)
            if g.chance(.2):
                pks = [bytes([2 + g.r.randrange(2)]) + g.b(32) for _ in range(
                    20 if c.wrap != 'p2sh' else 15)]
                n = g.r.randrange(4, len(pks) + 1)
            k = g.r.randrange(1, n + 1)
            c.text = '%s %s %s OP_CHECKMULTISIG' % (
                count(k), ' '.join(p.hex() for p in pks[:n]), count(n))
            who = sorted(g.r.sample(range(n), k))
            c.path = dummy + tuple('sig:' + pks[w].hex() for w in who)
        elif c.kind.startswith('htlc'):
            when = self.timeout(g)
            c.text = HTLC.format(
                secret_hash=utils.sha256(secret).hex(), pkh0=h[0],
                timeout=utils.i2le_script(when), pkh1=h[1])
            if c.kind == 'htlc execute':
                c.path = tuple(examples.htlc_stack_script_execute.format(
                    sig='sig:' + pks[0].hex(), pk=pks[0].hex(),
                    secret=secret.hex()).split())
            else:
                c.path = tuple(examples.htlc_stack_script_refund.format(
                    sig='sig:' + pks[1].hex(), pk=pks[1].hex()).split())
                c.lock = when
        elif c.kind == 'hashlock':
            f, op = g.pick(((utils.sha256, 'OP_SHA256'),
                            (utils.hash160, 'OP_HASH160'),
                            (utils.hash256, 'OP_HASH256'),
                            (utils.rmd160, 'OP_RIPEMD160')))
            if net.decred and g.chance(.3):
                f, op = utils.blake256, 'OP_BLAKE256'
            c.text = '%s %s OP_EQUALVERIFY %s OP_CHECKSIG' % (
                op, f(secret).hex(), pks[0].hex())
            c.path = ('sig:' + pks[0].hex(), secret.hex())
        elif c.kind == 'cltv':
            c.lock = self.timeout(g)
            c.text = '%s OP_CHECKLOCKTIMEVERIFY OP_DROP %s OP_CHECKSIG' % (
                utils.i2le_script(c.lock), pks[0].hex())
            c.path = ('sig:' + pks[0].hex(),)
        elif c.kind == 'csv':
            n = g.pick((1, 16, 17, 127, 128, 144, 255, 256, 0x7fff, 0x8000,
                        0xffff)) | g.pick((0, 0, 1 << 22))
            c.seq = n
            c.text = '%s OP_CHECKSEQUENCEVERIFY OP_DROP %s OP_CHECKSIG' % (
                utils.i2le_script(n), pks[0].hex())
            c.path = ('sig:' + pks[0].hex(),)
        elif c.kind == 'puzzle':    # a + b = n, both revealed
            a, b = g.r.randrange(1, 1 << 30), g.r.randrange(1, 1 << 30)
            c.text = 'OP_ADD %s OP_NUMEQUALVERIFY %s OP_CHECKSIG' % (
                utils.i2le_script(min(a + b, (1 << 31) - 1)), pks[0].hex())
            c.path = ('sig:' + pks[0].hex(), utils.i2le_script(a),
                      utils.i2le_script(b))
        elif c.kind == 'either':
            w = g.r.randrange(2)
            c.text = 'OP_IF %s OP_ELSE %s OP_ENDIF OP_CHECKSIG' % (
                pks[0].hex(), pks[1].hex())
            c.path = ('sig:' + pks[1 - w].hex(), 'OP_%d' % w)
        else:
            c.text = examples.p2pkh_script_pubkey.format(pk=h[0])
            c.path = ('sig:' + pks[0].hex(), pks[0].hex())
        if g.chance(.15):   # up to what can be spent, with data for nobody
            room = 519 if c.wrap == 'p2sh' or net.decred else g.pick(
                (519, 524, 3600, 3600, 9900))
            room -= len(ser.serialize(c.text))
            while room > 6:
                n = g.r.randrange(1, min(room - 4, 520) + 1)
                if n == 1:
                    break
                c.text = g.b(n).hex() + ' OP_DROP ' + c.text
                room -= n + 4
                if g.chance(.1):
                    break
        return c

    def timeout(self, g):
        return g.pick((1, 16, 17, 127, 128, 255, 256, 0x7fff, 0x8000,
                       499999999, 500000000, 500000001, 0x7fffffff,
                       0x80000000, 0xffffffff, g.r.randrange(1, 1 << 32),
                       g.r.randrange(1, 1 << 20)))

    # ---- paying ---------------------------------------------------------

    def output(self, cx, net, c):
        '''-> the library's output for a coin'''
        g = cx.g
        if c.kind == 'key':
            if c.wrap == 'p2sh-p2wpkh':
                text = examples.p2w.format(utils.hash160(c.pk).hex())
                c.program = text
                a = g.pick((addr.make_p2sh_address,
                            addr.make_legacy_p2sh_address,
                            addr.make_sh_address))(text)
                direct = [lambda: tb.make_p2sh_output(c.value, text)]
            elif c.wrap == 'p2wpkh':
                a = g.pick((addr.make_p2wpkh_address, lambda k:
                            addr.make_pkh_address(k, witness=True)))(c.pk)
                direct = [lambda: tb.make_p2wpkh_output(c.value, c.pk),
                          lambda: tb.make_pkh_output(c.value, c.pk, True)]
            else:
                a = g.pick((addr.make_p2pkh_address,
                            addr.make_legacy_p2pkh_address,
                            addr.make_pkh_address))(c.pk)
                direct = [lambda: tb.make_p2pkh_output(c.value, c.pk),
                          lambda: tb.make_pkh_output(c.value, c.pk)]
        elif c.wrap == 'p2sh':
            a = g.pick((addr.make_p2sh_address,
                        addr.make_legacy_p2sh_address,
                        addr.make_sh_address))(c.text)
            direct = [lambda: tb.make_p2sh_output(c.value, c.text),
                      lambda: tb.make_sh_output(c.value, c.text),
                      lambda: self.bare(
                          net, c.value, ser.serialize(
                              examples.p2sh_script_pubkey.format(
                                  sh=utils.hash160(ser.serialize(
                                      c.text)).hex())))]
        elif c.wrap == 'p2wsh':
            a = g.pick((addr.make_p2wsh_address, lambda s:
                        addr.make_sh_address(s, witness=True)))(c.text)
            direct = [lambda: tb.make_p2wsh_output(c.value, c.text),
                      lambda: tb.make_sh_output(c.value, c.text, True)]
        else:
            text = examples.p2w.format(
                utils.sha256(ser.serialize(c.text)).hex())
            c.program = text
            a = addr.make_p2sh_address(text)
            direct = [lambda: tb.make_p2sh_output(c.value, text)]
        o = simple.output(c.value, a)
        # one output, however it is asked for
        d = g.pick(direct)()
        cx.eq('output to an address and to what it stands for', by(o), by(d),
              a)
        back = addr.from_output_script(o.output_script)
        cx.eq('output script of the address read back',
              bytes(addr.to_output_script(back)), bytes(o.output_script))
        cx.event('addresses read back')
        cx.eq('value paid', utils.le2i(o.value), c.value)
        return o if g.chance(.5) else d

    def bare(self, net, value, script):
        v = utils.i2le_padded(value, 8)
        if net.decred:
            return D.DecredTxOut(v, utils.i2le_padded(0, 2), script)
        return B.TxOut(v, script)

    # ---- spending -------------------------------------------------------

    def unsigned(self, cx, net, ins, outs, lock, wit, expiry):
        g = cx.g
        if net.decred:
            return tb.make_tx(version=2, tx_ins=ins, tx_outs=outs,
                              lock_time=lock, expiry=expiry,
                              tx_witnesses=self.blank)
        if wit:
            return simple.unsigned_witness_tx(ins, outs, lock_time=lock)
        if net.family == 'bitcoin' and g.chance(.5):
            return tb.make_tx(2, ins, outs, lock)
        return simple.unsigned_legacy_tx(ins, outs, lock_time=lock,
                                         expiry=expiry)

    def digest(self, cx, net, o, k, typ, script, value, acp):
        if net.decred:
            f = o.sighash_all if typ == 1 else o.sighash_single
            return f(index=k, script=script, anyone_can_pay=acp)
        code = tb.length_prepend(script)
        f = o.sighash_all if typ == 1 else o.sighash_single
        if net.family in ('overwinter', 'sapling'):
            return f(index=k, script_code=code, prevout_value=value,
                     anyone_can_pay=acp)
        if net.family == 'sprout':
            return f(index=k, script=code, anyone_can_pay=acp)
        return f(index=k, script=code, prevout_value=value,
                 anyone_can_pay=acp)

    def case(self, cx, i):
        g = cx.g
        net = nets.NETS[i % 72] if i < 288 else g.any_net()
        select(net)
        coins = [self.coin(cx, net) for _ in range(g.r.randrange(1, 4))]
        outs = cx.ok('paying', lambda: [self.output(cx, net, c)
                                        for c in coins])
        # the first transaction spends something from elsewhere
        ins = [simple.unsigned_input(simple.outpoint(
            g.b(32).hex(), g.r.randrange(4)))
            for _ in range(g.r.randrange(1, 3))]
        self.blank = [tb.make_decred_witness(bytes(8), bytes(4), bytes(4),
                                             b'', b'') for _ in ins] \
            if net.decred else None
        expiry = g.pick((0, 100, 499999999))
        o = cx.ok('funding', self.unsigned, cx, net, ins, outs,
                  g.pick((0, 100, 0x60000000)), False, expiry)
        for hop in range(g.pick((1, 1, 2, 3))):
            o, coins = self.spend(cx, net, o, coins, hop, expiry)
            if not coins:
                break

    def spend(self, cx, net, funding, coins, hop, expiry):
        g = cx.g
        # over the wire
        raw = funding.hex()
        spec = vm.read(net, bytes.fromhex(raw))
        cx.event('transactions read')
        if not net.decred:
            c = type(funding)
            funding = cx.ok('reading ' + c.__name__, c.from_hex, raw)
            cx.eq('read and written again', funding.hex(), raw)
        tid = rtx.txid_le(net, spec)
        cx.eq('transaction id', bytes(funding.tx_id_le), tid)
        cx.eq('transaction id as displayed', bytes(funding.tx_id),
              tid[::-1])
        # which coins, in which order
        picked = list(enumerate(coins))
        g.r.shuffle(picked)
        picked = picked[:g.r.randrange(1, len(picked) + 1)]
        # one kind of lock per transaction
        lock = 0
        chosen = []
        for n, c in picked:
            if c.lock and lock and (c.lock < 500000000) != (
                    lock < 500000000):
                continue
            lock = max(lock, c.lock)
            chosen.append((n, c))
        if lock and g.chance(.5):
            top = 499999999 if lock < 500000000 else 0xffffffff
            lock = g.pick((lock, min(top, lock + 1), top))
        ins, prev = [], []
        for n, c in chosen:
            p = simple.outpoint(funding.tx_id.hex(), n) \
                if g.chance(.6) else tb.make_outpoint(funding.tx_id_le, n)
            if c.seq is not None:
                seq = c.seq if g.chance(.5) else c.seq | 0xffff
                x = simple.unsigned_input(p, seq)
            elif c.lock:
                x = simple.unsigned_input(p)    # the default must do
            else:
                x = simple.unsigned_input(p, g.pick((
                    0, 0xfffffffe, 0xfffffffd, 0xffffffff))) \
                    if g.chance(.5) else simple.unsigned_input(p)
            ins.append(x)
            prev.append(spec['outs'][n])
        total = sum(c.value for _, c in chosen)
        # paid on
        nxt = [self.coin(cx, net) for _ in range(g.r.randrange(1, 4))]
        left = total
        for c in nxt:
            c.value = g.r.randrange(0, left + 1)
            left -= c.value
        outs = cx.ok('paying', lambda: [self.output(cx, net, c)
                                        for c in nxt])
        if g.chance(.2):
            outs.append(tb.make_op_return_output(g.b(g.r.randrange(1, 76))))
        self.blank = [tb.make_decred_witness(
            utils.i2le_padded(c.value, 8), utils.i2le_padded(7, 4),
            utils.i2le_padded(n, 4), b'', b'') for n, c in chosen] \
            if net.decred else None
        wit = any('w' in c.wrap for _, c in chosen)
        plain = cx.ok('unsigned transaction', self.unsigned, cx, net, ins,
                      outs, lock, False, expiry)
        marked = cx.ok('unsigned witness transaction', self.unsigned, cx,
                       net, ins, outs, lock, True, expiry) if wit else None
        # signatures
        new_ins, wits = [], []
        for k, (n, c) in enumerate(chosen):
            a, b = cx.ok('satisfying %s in %s' % (c.kind, c.wrap),
                         self.satisfy, cx, net, plain, marked, k, c, ins[k])
            new_ins.append(a)
            wits.append(b)
        # put together
        if net.decred:
            t = plain.copy(tx_witnesses=[w for w in wits]) \
                if g.chance(.5) else tb.make_tx(
                    version=2, tx_ins=ins, tx_outs=outs, lock_time=lock,
                    expiry=expiry, tx_witnesses=wits)
        elif wit:
            t = marked.copy(tx_ins=new_ins, tx_witnesses=wits) \
                if g.chance(.5) else tb.make_tx(
                    2, new_ins, outs, lock, tx_witnesses=wits)
        else:
            t = plain.copy(tx_ins=new_ins)
        fee = t.calculate_fee() if net.decred else t.calculate_fee(
            [c.value for _, c in chosen])
        cx.eq('fee', fee, left)
        # the judge
        final = vm.read(net, t.to_bytes())
        cx.event('transactions read')
        cx.eq('inputs', len(final['ins']), len(chosen))
        if final['kind'] == 'tx' and lock:
            cx.eq('final at its height', [
                bool(standard.check_final(t, lock, lock)),
                bool(standard.check_final(t, lock - 1, lock - 1))],
                [True, False])
        for k, (n, c) in enumerate(chosen):
            f = final['ins'][k]
            cx.eq('what is spent', (f['txid'], rtx.u(f['index'])), (tid, n))
            try:
                vm.Spend(net, final, k, prev[k]).check()
            except vm.Bad as e:
                cx.fail('%s in %s cannot be spent' % (c.kind, c.wrap),
                        '%s: input %d of %s' % (e, k, t.hex()))
            cx.event('inputs accepted')
            cx.state(net.name, c.kind, c.wrap, c.typ, hop, k, len(outs))
            if g.chance(.25):
                self.forge(cx, net, final, k, prev[k])
        if cx.i % 397 == 3 and not hop:
            cx.sample(net=net.name, kinds=', '.join(
                '%s in %s' % (c.kind, c.wrap) for _, c in chosen),
                bytes=t.to_bytes())
        if len(outs) != len(nxt):
            outs = outs[:len(nxt)]
        return t, nxt

    def satisfy(self, cx, net, plain, marked, k, c, txin):
        '''-> (input, witness)'''
        g = cx.g
        typ, acp = g.pick(((1, False), (1, False), (1, True), (3, False),
                           (3, True)))
        if typ == 3 and k >= len(plain.tx_outs):
            typ = 1
        c.typ = typ | (0x80 if acp else 0) | (
            0x40 if net.forkid is not None else 0)
        segwit = 'w' in c.wrap
        if c.kind == 'key':
            h = utils.hash160(c.pk).hex()
            script = ser.serialize(
                examples.p2pkh_script_pubkey.format(pk=h))
        else:
            script = ser.serialize(c.text)
        d = self.digest(cx, net, marked if segwit else plain, k, typ,
                        bytes(script), utils.i2le_padded(c.value, 8), acp)
        items = []
        for p in c.path:
            if p.startswith('sig:'):
                p = vm.sign(bytes.fromhex(p[4:]), bytes(d), c.typ).hex()
            items.append(p)
        seq = utils.le2i(txin.sequence)
        if segwit:
            w = [b'' if x == 'OP_0' else b'\1' if x == 'OP_1'
                 else bytes.fromhex(x) for x in items]
            if c.kind != 'key':
                w.append(bytes(script))
            if c.wrap.startswith('p2sh'):
                txin = tb.make_legacy_input(
                    txin.outpoint, b'', ser.serialize(
                        ser.hex_serialize(c.program)), seq) \
                    if g.chance(.5) else txin.copy(
                        redeem_script=ser.serialize(
                            ser.hex_serialize(c.program)))
            return txin, tb.make_witness(w)
        stack = ' '.join(items)
        redeem = b'' if c.kind == 'key' else ser.serialize(
            ser.hex_serialize(c.text))
        if net.decred:
            w = self.blank[k]
            return txin, tb.make_decred_witness(
                w.value, w.height, w.index, ser.serialize(stack), redeem)
        if c.kind != 'key' and g.chance(.4):
            sig = tb.make_script_sig(stack, c.text)
            txin = tb.make_legacy_input(txin.outpoint, sig, b'', seq)
        elif g.chance(.5):
            txin = tb.make_legacy_input(txin.outpoint, ser.serialize(stack),
                                        redeem, seq)
        else:
            txin = txin.copy(stack_script=ser.serialize(stack),
                             redeem_script=redeem)
        return txin, tb.make_empty_witness()

    def forge(self, cx, net, t, k, out):
        '''the judge does refuse'''
        g = cx.g
        t = dict(t, ins=[dict(x) for x in t['ins']],
                 outs=[dict(x) for x in t['outs']])
        c = g.r.randrange(3)
        if c == 0:
            t['lock'] = bytes(x ^ 1 for x in t['lock'])
        elif c == 1:
            t['ins'][k]['txid'] = bytes(x ^ 1 for x in t['ins'][k]['txid'])
        else:
            out = dict(out, script=out['script'][:-9] + bytes(
                [out['script'][-9] ^ 1]) + out['script'][-8:])
        try:
            vm.Spend(net, t, k, out).check()
        except vm.Bad:
            cx.event('forged inputs refused')
            return
        raise RuntimeError('the interpreter accepts a forgery')
