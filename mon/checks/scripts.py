'''C10 C26: scripts and standardness.'''
from riemann.networks import standard
from riemann.script import serialization as ser, examples

from ..core import Check
from ..build import B, by, make, select, snapshot, txout
from ..gen import shape
from ..ref import addr as raddr, nets, script as rscript, tx as rtx
from ..ref.prim import vi

# tokens no network knows
UNKNOWN = ('OP_', 'OP_FOO', 'OP_17', 'OP_NOP11', 'op_dup', 'OP_dup', 'OPDUP',
           'DUP', 'OP_HASH', 'OP_-1', '0x51', 'zz', '0', 'abc', '1-2',
           'OP_EVAL', 'OP_CHECKSIGADD', 'OP_PUSHDATA', 'OP_76')
PUSHLENS = (1, 2, 19, 20, 21, 32, 33, 65, 73, 74, 75, 76, 77, 78, 127, 128,
            200, 254, 255, 256, 257, 258, 300, 511, 512, 513, 519, 520, 521,
            767, 768, 998, 999, 1000)


class C10(Check):
    id = 'C10'
    quick, thorough = 7000, 140000
    rule = ('script texts of known opcodes and pushes of every length up to '
            '1000 (each length at least once), and random, near-valid, '
            'non-minimal and truncated scripts, on every network, serialized '
            'and deserialized in text, bytes and hex form and compared with '
            'an independent script coder; the shipped templates filled in; a '
            'state is the network family and the kinds of tokens')
    need = {'texts': 10000, 'scripts': 20000, 'refusals checked': 10000,
            'templates': 3000}
    exhaustive = ('every opcode name and byte on every network, every push '
                  'length 1..1000')

    def text(self, cx, net, toks):
        '''toks: opcode names or bytes'''
        g = cx.g
        names = rscript.names(net)
        want = b''.join(bytes([names[t]]) if isinstance(t, str)
                        else rscript.push(t) for t in toks)
        text = ' '.join(t if isinstance(t, str) else t.hex() for t in toks)
        cx.event('texts')
        got = cx.ok('serialize', ser.serialize, text)
        cx.eq('serialize', bytes(got), want, text)
        cx.eq('serialize length', len(got), len(want))
        cx.eq('hex_serialize', cx.ok('hex_serialize', ser.hex_serialize,
                                     text), want.hex(), text)
        cx.eq('round trip', cx.ok('deserialize', ser.deserialize,
                                  bytes(got)), text)
        cx.eq('round trip of the returned buffer',
              cx.ok('deserialize', ser.deserialize, got), text)
        cx.eq('hex round trip', cx.ok(
            'hex_deserialize', ser.hex_deserialize, want.hex()), text)
        if g.chance(.2):
            odd = g.pick(('  ', '\n', '\t', ' \n ')).join(
                t if isinstance(t, str) else
                t.hex() if g.chance(.5) else t.hex().upper() for t in toks)
            cx.eq('spacing', bytes(cx.ok('serialize', ser.serialize,
                                         g.pick(('', ' ')) + odd)), want)
        cx.state(net.family, tuple(
            t if isinstance(t, str) else len(rscript.push(t)) - len(t)
            for t in toks[:3]), len(toks) > 3)

    def script(self, cx, net, s):
        items = rscript.parse(net, s)
        cx.event('scripts')
        b = s if cx.r.random() < .8 else bytearray(s)
        if items is None:
            cx.refused('script that cannot be read', ser.deserialize, b)
            if cx.r.random() < .3:
                cx.refused('script that cannot be read',
                           ser.hex_deserialize, s.hex())
            cx.state(net.family, 'refused', s[:1], len(vi(len(s))))
            return
        if any(d == b'' for _, d, _ in items):
            return  # an empty push has no text
        want = rscript.text(net, items)
        got = cx.ok('deserialize', ser.deserialize, b)
        cx.eq('deserialize', got, want, s)
        cx.eq('hex_deserialize', ser.hex_deserialize(s.hex()), want, s)
        if all(rscript.minimal(x) for x in items):
            cx.eq('script round trip', bytes(cx.ok(
                'serialize', ser.serialize, got)), s, got)
            cx.event('scripts round-tripped')
        cx.state(net.family, 'script', tuple(
            x[0] for x in items[:2]), len(items) > 2)

    def templates(self, cx, net):
        g = cx.g
        pk = [g.pubkey() for _ in range(2)]
        sig = [b'\x30' + g.b(g.pick((69, 70, 71))) for _ in range(2)]
        h = [g.b(20) for _ in range(2)]
        sec, tm = g.b(32), g.b(g.r.randrange(1, 5))
        P = rscript.push
        # the names and bytes of what the templates stand for
        rows = (
            ('msig_two_two', dict(pk0=pk[0].hex(), pk1=pk[1].hex()),
             b'\x52' + P(pk[0]) + P(pk[1]) + b'\x52\xae'),
            ('msig_two_two_stack_script',
             dict(sig0=sig[0].hex(), sig1=sig[1].hex()),
             b'\x00' + P(sig[0]) + P(sig[1])),
            ('p2pkh_script_sig', dict(sig=sig[0].hex(), pk=pk[0].hex()),
             P(sig[0]) + P(pk[0])),
            ('p2pkh_script_pubkey', dict(pk=h[0].hex()),
             raddr.script('p2pkh', h[0])),
            ('p2sh_script_pubkey', dict(sh=h[0].hex()),
             raddr.script('p2sh', h[0])),
            ('htlc_redeem_script', dict(
                secret_hash=sec.hex(), pkh0=h[0].hex(), pkh1=h[1].hex(),
                timeout=tm.hex()),
             bytes([0x63, rscript.names(net)['OP_SHA256']]) + P(sec)
             + b'\x88\x76\xa9' + P(h[0])
             + b'\x67' + P(tm) + b'\xb1\x75\x76\xa9' + P(h[1])
             + b'\x68\x88\xac'),
            ('htlc_stack_script_execute', dict(
                sig=sig[0].hex(), pk=pk[0].hex(), secret=sec.hex()),
             P(sig[0]) + P(pk[0]) + P(sec) + b'\x51'),
            ('htlc_stack_script_refund', dict(
                sig=sig[0].hex(), pk=pk[0].hex()),
             P(sig[0]) + P(pk[0]) + b'\x00'),
        )
        for name, fill, want in rows:
            text = getattr(examples, name).format(**fill)
            cx.event('templates')
            cx.eq('template ' + name, bytes(cx.ok(
                'template ' + name, ser.serialize, text)), want, text)
            cx.eq('template %s read back' % name, cx.ok(
                'deserialize', ser.deserialize, want), text)
        prog = g.b(g.pick((20, 32)))
        text = examples.p2w.format(prog.hex())
        cx.eq('template p2w', bytes(ser.serialize(text)), b'\x00' + P(prog))

    def case(self, cx, i):
        g = cx.g
        net = nets.NETS[i % 72] if i < 1000 else g.any_net()
        select(net)
        names = sorted(rscript.names(net))
        usable = [n for n in names if rscript.names(net)[n]
                  not in rscript.BANNED]
        if i < 72:
            for n in usable:
                self.text(cx, net, [n])
            for b in range(256):
                if not 1 <= b <= 77:
                    self.script(cx, net, bytes([b]))
            for a, v in rscript.ALIAS.items():
                cx.eq(a, bytes(cx.ok('serialize', ser.serialize, a)),
                      bytes([v]))
        if i < 1000:
            d = g.b(i + 1)
            self.text(cx, net, [d])
            self.text(cx, net, [g.pick(usable), d, g.pick(usable)])
            # every shorter declared length, with and without the data
            for cut in (1, 2, (i + 1) // 2, i + 1, i + 2, i + 3):
                s = rscript.push(d)
                if 0 < cut <= len(s):
                    self.script(cx, net, s[:-cut])
                    self.script(cx, net, b'\x51' + s[:-cut])
        for _ in range(3):
            toks = [g.pick(usable) if g.chance(.5) else
                    g.b(g.pick(PUSHLENS) if g.chance(.3)
                        else g.length(1000, 1) if g.chance(.3)
                        else g.r.randrange(1, 80))
                    for _ in range(g.r.randrange(0, 9))]
            self.text(cx, net, toks)
            bad = list(toks)
            bad.insert(g.r.randrange(len(bad) + 1), None)
            for tok in g.r.sample(UNKNOWN, 3) + [
                    'OP_CODESEPARATOR', 'OP_PUSHDATA4',
                    g.b(g.pick((1001, 1002, 1023, 1024, 2000, 65535, 65536))
                        ).hex(), g.b(20).hex()[1:],
                    g.b(33).hex() + 'g', 'OP_BLAKE256' if not net.decred
                    else 'OP_BLAKE']:
                t = ' '.join(tok if x is None else x if isinstance(x, str)
                             else x.hex() for x in bad)
                cx.refused('text that has no script', ser.serialize, t)
                if g.chance(.2):
                    cx.refused('text that has no script',
                               ser.hex_serialize, t)
        for _ in range(3):
            s = g.minimal_script(net)
            self.script(cx, net, s)
            self.script(cx, net, g.near(s))
            self.script(cx, net, g.near(g.near(s)))
            if s:
                self.script(cx, net, s[:g.r.randrange(len(s))])
            self.script(cx, net, g.b(g.length(400)))
            self.script(cx, net, g.script_sig(net))
            self.script(cx, net, s + g.pick((
                b'\x4c', b'\x4d', b'\x4d\x01', b'\x4c\x01', b'\x4d\x01\x00',
                b'\x4e', b'\x4e\x01\x00\x00\x00\x01', b'\xab', b'\x02\x01',
                b'\x4b', b'\x4c\xff' + g.b(254), b'\x4d\x00\x01' + g.b(255),
                b'\xba', b'\xfe', b'\xfa', b'\xc0', b'\xa8')))
        if g.chance(.3):
            # longer than what can be written, but readable
            n = g.pick((1001, 1023, 1024, 1025, 4095, 4096, 32767, 32768,
                        65535, g.r.randrange(1001, 65536)))
            s = b'\x4d' + n.to_bytes(2, 'little') + g.b(n)
            self.script(cx, net, s)
            self.script(cx, net, g.minimal_script(net) + s + b'\x51')
            self.script(cx, net, s[:-1])
            cx.event('long pushes')
        for _ in range(2):
            self.templates(cx, net)
        if i % 1201 == 5:
            cx.sample(net=net.name, text=' '.join(
                x if isinstance(x, str) else x.hex() for x in toks)[:300])


# ---- standardness -------------------------------------------------------

def push_only(net, s):
    '''-> True, False or None where opinions differ'''
    if len(s) > 0 and b'\x4e' in s or b'\x4f' in s or b'\x50' in s:
        i = 0
        while i < len(s):  # one of them as an opcode: not judged
            op = s[i]
            if op in (78, 79, 80):
                return None
            if op > 96:
                break
            i += 1 + (op if op <= 75 else 1 + s[i + 1] if op == 76
                      and i + 1 < len(s) else 2 + int.from_bytes(
                          s[i + 1:i + 3], 'little')
                      if op == 77 and i + 2 < len(s) else 9 ** 9
                      if op in (76, 77) else 0)
    items = rscript.parse(net, s)
    if items is None:
        return False
    return all(d is not None or op == 0 or 81 <= op <= 96
               for op, d, _ in items)


def good_key(k):
    return len(k) == 33 and k[0] in (2, 3) or len(k) == 65 and k[0] in (
        4, 6, 7)


def key_size(k):
    return len(k) in (33, 65)


def output_type(net, value, s):
    '''-> kind, '' for nonstandard, None if not judged'''
    k = raddr.classify(s)
    if k and k[0] in raddr.kinds(net):
        return k[0]
    if k:
        return ''
    if s[:1] == b'\x6a':
        if value or len(s) > 80:
            return ''
        p = push_only(net, s[1:])
        return None if p is None else 'opret' if p else ''
    items = rscript.parse(net, s)
    if not items:
        return ''
    if len(items) == 2 and items[1][0] == 0xac and items[0][1] is not None:
        key = items[0][1]
        if not key_size(key):
            return ''
        return 'p2pk' if good_key(key) and rscript.minimal(items[0]) \
            else None
    if len(items) >= 3 and items[-1][0] == 0xae:
        m, n = items[0], items[-2]
        keys = items[1:-2]
        if not (81 <= m[0] <= 83 and 81 <= n[0] <= 83 and m[1] is None
                and n[1] is None) or m[0] > n[0] or n[0] - 80 != len(keys) \
                or any(d is None or not key_size(d) for _, d, _ in keys):
            return ''
        return 'multisig' if all(
            good_key(x[1]) and rscript.minimal(x) for x in keys) else None
    return ''


def verdicts(net, t):
    '''-> (check_is_standard_tx, check_is_standard); None: not judged'''
    kinds = [(output_type(net, rtx.u(o['value']), o['script']), o)
             for o in t['outs']]
    bad = any(k == '' for k, _ in kinds)
    unsure = any(k is None for k, _ in kinds)
    if sum(k == 'opret' for k, _ in kinds) > 1:
        bad = True
    for k, o in kinds:
        v = rtx.u(o['value'])
        if k in ('p2pkh', 'p2sh', 'p2wsh', 'p2pk', 'multisig') and v < 550:
            bad = True
        if k == 'p2wpkh' and v < 550:
            unsure = True
    outs = False if bad else None if unsure else True
    if rtx.u(t['version']) not in (1, 2):
        bad = True
    if 3 * len(rtx.nowit(t)) + len(rtx.full(t)) > 400000:
        bad = True
    for i in t['ins']:
        p = push_only(net, rtx.sig(i))
        if p is False:
            bad = True
        unsure = unsure or p is None
    return False if bad else None if unsure else True, outs


class C26(Check):
    id = 'C26'
    quick, thorough = 14000, 250000
    rule = ('random, standard and nearly standard transactions (one defect '
            'at a time: version, weight around the limit, script signatures, '
            'output templates, dust values around the limit, several '
            'OP_RETURNs) on every network with Bitcoin-format transactions; '
            'answers compared with an independent reading of the policy; a '
            'state is network, defect and verdict')
    need = {'standard': 1500, 'nonstandard': 4000, 'outputs judged': 20000,
            'finality': 10000}

    def standard_tx(self, cx, net, i):
        '''a transaction inside the policy'''
        g = cx.g
        nin, nout = g.r.randrange(1, 4), g.r.randrange(1, 5)
        if g.chance(.006):   # up to the limit
            nin, nout = g.pick(((1, 0), (0, 1), (1, 1)))
            nin = 1 + nin * g.r.randrange(600)
            nout = 1 + nout * g.r.randrange(1100)
        t = g.tx(net, 'tx', big=.002, nin=nin, nout=nout, scripts=False)
        t['version'] = g.pick((1, 2)).to_bytes(4, 'little')
        opret = False
        for i in t['ins']:
            s = b''
            for _ in range(g.r.randrange(4)):
                s += bytes([g.pick([0] + list(range(81, 97)))]) \
                    if g.chance(.3) else rscript.push(g.b(
                        g.pick((1, 33, 65, 71, 72, 73, 75, 76, 105, 255,
                                256, 400))))
            if g.chance(.05):
                s = b'\x51' * 1650
            if nin > 50:
                s = s[:g.pick((0, 1))]
                s = b'\x51' if s else s
            i['stack'] = s[:0] if len(s) > 1650 else s
        for o in t['outs']:
            k = g.pick(raddr.kinds(net) + ('p2pk', 'multisig', 'opret'))
            if k == 'opret' and opret:
                k = 'p2pkh'
            opret = opret or k == 'opret'
            o['script'] = g.template(k)
            if k == 'opret':
                c = g.r.randrange(4)
                if c == 0:
                    o['script'] = b'\x6a'
                elif c == 1:
                    n = g.pick((78, 79, 79, 80 - 1, 5))
                    o['script'] = b'\x6a' + b'\x51' * n
            o['value'] = b'\0' * 8 if k == 'opret' else g.pick(
                (550, 551, 600, 1000, 546 + 300, 10 ** 8, 1 << 33,
                 g.r.randrange(550, 1 << 50))).to_bytes(8, 'little')
        if g.chance(.15):   # alike outputs and signatures
            a, b = g.pick(t['outs']), g.pick(t['outs'])
            if a['script'][:1] != b'\x6a':
                b['script'] = a['script']
                if b['value'] == b'\0' * 8 or g.chance(.5):
                    b['value'] = a['value']
            a, b = g.pick(t['ins']), g.pick(t['ins'])
            b['stack'] = a['stack']
        return t

    def defect(self, cx, net, t):
        g = cx.g
        c = g.pick(('none', 'none', 'version', 'sig', 'dust', 'value',
                    'script', 'near', 'opret', 'random', 'weight', 'opret2',
                    'multisig', 'p2pk', 'sig2'))
        o = t['outs'][-1] if g.chance(.3) else g.pick(t['outs'])
        i = t['ins'][-1] if g.chance(.3) else g.pick(t['ins'])
        if c == 'version':
            t['version'] = g.pick((b'\0' * 4, b'\x03\0\0\0', b'\xff' * 4,
                                   b'\x01\x01\0\0', b'\x02\0\0\x80',
                                   b'\x01\0\0\x80', b'\x01\0\x01\0',
                                   g.version()))
        elif c == 'sig':
            i['stack'] = g.pick((
                i['stack'] + bytes([g.r.randrange(97, 256)]),
                bytes([g.r.randrange(97, 256)]) + i['stack'],
                i['stack'] + b'\x05\x01', i['stack'] + b'\x4c',
                i['stack'] + b'\x61', b'\x60', b'\x61',
                i['stack'] + b'\x4d\xff'))[:1650]
        elif c == 'sig2':
            s = g.script_sig(net)
            i['stack'], i['redeem'] = s, b''
        elif c == 'dust':
            o['value'] = g.pick((0, 1, 293, 294, 329, 330, 545, 546, 547, 548,
                                 549, 550, 551)).to_bytes(8, 'little')
        elif c == 'value':
            o['value'] = g.b8()
        elif c == 'script':
            o['script'] = g.out_script(net)
        elif c == 'near':
            o['script'] = g.near(o['script'])
        elif c == 'opret':
            o['script'] = b'\x6a' + g.pick((
                b'', rscript.push(g.b(g.r.randrange(1, 90))),
                b'\x51' * g.r.randrange(70, 90), b'\x4c\x05ab', b'\x76',
                b'\x00', b'\x4c\x00', g.b(g.r.randrange(1, 90)),
                rscript.push(g.b(20)) + rscript.push(g.b(30)),
                rscript.push(g.b(20)) + b'\x61'))
            o['value'] = g.pick((b'\0' * 8, b'\0' * 8, b'\x01' + b'\0' * 7,
                                 g.b8()))
        elif c == 'opret2':
            for _ in range(g.r.randrange(1, 3)):
                same = [x for x in t['outs'] if x['script'][:1] == b'\x6a']
                t['outs'].append({
                    'value': b'\0' * 8, 'ver': b'\0\0',
                    'script': same[0]['script'] if same and g.chance(.4)
                    else g.template('opret')})
            g.r.shuffle(t['outs'])
        elif c == 'random':
            o['script'] = g.b(g.length(251))
        elif c == 'weight':
            n = g.pick((99000, 100000)) * 4
            base = 3 * len(rtx.nowit(t)) + len(rtx.full(t))
            room = 400000 - base
            if t['flag'] and t['wits'] is not None and g.chance(.5):
                # one weight unit per byte
                w = g.pick(t['wits'])
                w += [b'\x01' * 500] * 3
                pad = room - 3 * 501 - 40 + g.pick((0, 20, 40, 60))
                w.append(b'\x02' * max(0, pad))
                base = 3 * len(rtx.nowit(t)) + len(rtx.full(t))
                room = 400000 - base + g.pick((0, 0, -1, 1, -3, 2))
                w[-1] = w[-1] + b'\x03' * room if room > 0 else \
                    w[-1][:len(w[-1]) + room]
            else:
                # inputs of 41 bytes, then fine tuning with a script
                k = room // (41 * 4) - 3
                t['ins'] += [{'txid': g.b(32), 'index': b'\0' * 4,
                              'tree': b'\0', 'seq': b'\xff' * 4,
                              'stack': b'', 'redeem': b''}] * max(0, k)
                if t['wits'] is not None:
                    t['wits'] += [[]] * max(0, k)
                i = t['ins'][-1] = dict(t['ins'][-1])
                base = 3 * len(rtx.nowit(t)) + len(rtx.full(t))
                room = (400000 - base) // 4 + g.pick((0, 0, 1, -1))
                i['stack'] = b'\x51' * max(0, min(room, 252))
            del n
        elif c == 'multisig':
            n = g.r.randrange(0, 5)
            m = g.r.randrange(0, 6)
            ks = [g.pubkey() if g.chance(.85) else g.b(g.pick((20, 32, 34,
                                                               64, 66)))
                  for _ in range(n)]
            if ks and g.chance(.3):   # one key twice
                ks[g.r.randrange(n)] = g.pick(ks)
            n2 = n if g.chance(.7) else g.r.randrange(0, 17)
            o['script'] = bytes([80 + m if m else 0]) + b''.join(
                rscript.push(k) for k in ks) + bytes(
                [80 + n2 if n2 else 0]) + g.pick((b'\xae', b'\xae', b'\xaf',
                                                  b'\xac'))
        elif c == 'p2pk':
            k = g.pick((g.pubkey(), g.pubkey(), g.b(32), g.b(34), g.b(64),
                        g.b(20), g.b(66)))
            o['script'] = rscript.push(k) + g.pick((b'\xac', b'\xac', b'\xad',
                                                    b'\xae', b'\xac\xac'))
        return c

    def final(self, cx, o, t):
        g = cx.g
        lock = rtx.u(t['lock'])
        for _ in range(3):
            near = max(0, lock + g.pick((-2, -1, 0, 1, 2)))
            h = g.pick((near, 0, lock, g.u32()))
            ts = g.pick((near, 0, lock, g.u32()))
            kw = {}
            if g.chance(.9):
                kw['best_height'] = h
            if g.chance(.9):
                kw['best_timestamp'] = ts
            h, ts = kw.get('best_height', 0), kw.get('best_timestamp', 0)
            want = lock <= h if lock < 500000000 else lock <= ts
            if lock >= 500000000 and lock == ts:
                continue
            cx.event('finality')
            cx.eq('check_final', cx.ok('check_final', standard.check_final,
                                       o, **kw), want,
                  'lock %d height %d time %d' % (lock, h, ts))

    def case(self, cx, i):
        g = cx.g
        net = nets.NETS[i % 72] if i < 144 else g.any_net(
            nets.BITCOIN_LIKE) if g.chance(.9) else g.any_net()
        select(net)
        if g.chance(.12):
            t, c = g.tx(net, 'tx', long_scripts=True), 'any'
        else:
            t = self.standard_tx(cx, net, i)
            c = self.defect(cx, net, t)
            if g.chance(.15):
                c += '+' + self.defect(cx, net, t)
        if any(len(rtx.sig(i)) > 1650 for i in t['ins']):
            return
        if g.chance(.3):
            t['lock'] = g.r.randrange(499999990, 500000010).to_bytes(
                4, 'little')
        o = cx.ok('build', make, t)
        before = snapshot(o) if len(t['ins']) < 50 else None
        want_tx, want = verdicts(net, t)
        got = cx.ok('check_is_standard_tx', standard.check_is_standard_tx, o)
        cx.true('a yes or no', isinstance(got, bool), got)
        if want_tx is not None:
            cx.event('standard' if want_tx else 'nonstandard')
            cx.eq('check_is_standard_tx', got, want_tx, c)
        got = cx.ok('check_is_standard', standard.check_is_standard, o)
        cx.true('a yes or no', isinstance(got, bool), got)
        if want is not None:
            cx.eq('check_is_standard', got, want, c)
        for s in t['outs'][:6]:
            p = txout(s)
            k = output_type(net, rtx.u(s['value']), s['script'])
            got = cx.ok('is_standard_output_type',
                        standard.is_standard_output_type, p)
            cx.true('a yes or no', isinstance(got, bool), got)
            if k is not None:
                cx.event('outputs judged')
                cx.eq('is_standard_output_type', got, k != '', s['script'])
                got = cx.ok('is_op_return', standard.is_op_return, p)
                cx.eq('is_op_return', got, k == 'opret', s['script'])
            cx.state(net.name, k)
        for n in t['ins'][:4]:
            s = rtx.sig(n)
            k = push_only(net, s)
            good, got = cx.attempt(standard.is_push_only, s)
            if good and k is not None:
                cx.eq('is_push_only', got, k, s)
        small = cx.ok('check_tx_size_small', standard.check_tx_size_small, o)
        cx.eq('check_tx_size_small', small, len(rtx.nowit(t)) >= 82)
        self.final(cx, o, t)
        if before is not None and snapshot(o) != before:
            cx.fail('a check changed the transaction', c)
        if i < 3000 and i % 3 == 0:
            self.small(cx, net)
        cx.state(net.name, c, want_tx, want, shape(t)[:4])
        if i % 1201 == 5:
            cx.sample(net=net.name, tx=rtx.full(t)[:300], defect=c,
                      standard=str(want_tx))

    def small(self, cx, net):
        '''sizes around the small limit'''
        g = cx.g
        t = g.tx(net, 'tx', nin=1, nout=1, scripts=False)
        t['ins'][0].update(stack=b'', redeem=b'')
        base = 60
        t['outs'][0]['script'] = g.b(g.pick((21, 20, 22, 23, 1, 40)))
        o = cx.ok('build', make, t)
        cx.eq('check_tx_size_small', cx.ok(
            'check_tx_size_small', standard.check_tx_size_small, o),
            len(rtx.nowit(t)) >= 82)
        cx.true('length', len(rtx.nowit(t)) == base
                + len(t['outs'][0]['script']))
