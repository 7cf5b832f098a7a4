'''C13 C14 C15 C16: addresses and the scripts they stand for.'''
import string

from riemann import simple
from riemann.encoding import addresses as addr, base58, bech32, cashaddr
from riemann.tx import tx_builder as tb

from ..core import Check
from ..build import by, cmp_dcr_txout, cmp_txout, Diff, select
from ..gen import clone
from ..ref import addr as raddr, nets, prim, script as rscript, tx as rtx
from .wire import report

PREFIXES = sorted({p for n in nets.NETS for p in (n.p2pkh, n.p2sh)})


def some_hash(g, net, kind):
    n = 32 if kind == 'p2wsh' else 20
    c = g.r.random()
    h = g.b(n)
    if c < .08:
        k = g.r.randrange(1, n)
        h = b'\0' * k + h[k:]
    elif c < .2:  # bytes that mean something elsewhere
        s = g.pick(PREFIXES + [b'\x00\x14', b'\x00\x20', b'\xa9\x14',
                               b'\x76\xa9\x14', b'\x08', b'\x87',
                               b'\x88\xac', b'\x6a'])
        h = s + h[len(s):] if g.chance(.6) else h[:-len(s)] + s
    return h


def script_text(g, net):
    '''-> (text, bytes)'''
    names = rscript.names(net)
    items = []
    long = g.chance(.01)
    top = g.pick((40, 200, 520)) if long else 7
    for _ in range(g.r.randrange(1, top)):
        if g.chance(.5):
            n = g.pick(sorted(names))
            if names[n] in rscript.BANNED:
                continue
            items.append((n, bytes([names[n]])))
        else:
            d = g.b(g.pick((1, 20, 32, 33, 65, 75, 76, 100, 255, 256, 300)))
            items.append((d.hex(), rscript.push(d)))
    return ' '.join(a for a, _ in items), b''.join(b for _, b in items)


class C13(Check):
    id = 'C13'
    quick, thorough = 10000, 160000
    rule = ('every network and every output kind it supports, with random '
            'and telling hashes, keys and scripts: addresses made in every '
            'way compared with independent Base58Check, BIP173 and CashAddr '
            'encoders and read back; scripts that are nearly templates '
            'refused; a state is network, kind, address form and class of '
            'hash')
    need = {'addresses': 30000, 'refusals checked': 15000}

    def read(self, cx, net, kind, h, text):
        s = raddr.script(kind, h)
        cx.eq('to_output_script', bytes(cx.ok(
            'to_output_script', addr.to_output_script, text)), s, text)
        cx.eq('parse_hash', bytes(cx.ok(
            'parse_hash', addr.parse_hash, text)), h, text)

    def case(self, cx, i):
        g = cx.g
        net = nets.NETS[i % 72] if i < 720 else g.any_net()
        select(net)
        kinds = raddr.kinds(net)
        for kind in kinds:
            h = some_hash(g, net, kind)
            s = raddr.script(kind, h)
            x = s if g.chance(.7) else bytearray(s)
            want = raddr.encode(net, kind, h)
            cx.event('addresses')
            cx.eq('address of %s on %s' % (kind, net.name), cx.ok(
                'from_output_script', addr.from_output_script, x), want, s)
            self.read(cx, net, kind, h, want)
            old = raddr.encode(net, kind, h, False)
            got = cx.ok('from_output_script', addr.from_output_script, x,
                        cashaddr=False)
            cx.eq('legacy address', got, old, s)
            self.read(cx, net, kind, h, old)
            cx.eq('round trip', cx.ok(
                'from_output_script', addr.from_output_script,
                cx.ok('to_output_script', addr.to_output_script, old)), want)
            if net.segfmt == 'bech32' and kind[:3] == 'p2w':
                self.read(cx, net, kind, h, want.upper())
            raw = {'p2pkh': net.p2pkh, 'p2sh': net.p2sh,
                   'p2wpkh': b'\0\x14', 'p2wsh': b'\0\x20'}[kind] + h
            cx.eq('parse', bytes(cx.ok('parse', addr.parse, old)), raw)
            if net.cashaddr:
                cx.eq('parse', bytes(cx.ok('parse', addr.parse, want)),
                      (b'\0' if kind == 'p2pkh' else b'\x08') + h)
            cx.state(net.name, kind, h[:1] == b'\0', h[:2] in PREFIXES)
        self.made(cx, net)
        self.refusals(cx, net)
        if i % 1201 == 5:
            cx.sample(net=net.name, kind=kind, address=want)

    def made(self, cx, net):
        '''addresses from keys and scripts'''
        g = cx.g
        # whatever the bytes are that stand for a key
        pk = g.pubkey() if g.chance(.7) else g.b(g.pick((33, 33, 65, 65, 20,
                                                         32, 64)))
        h = prim.hash160(net, pk)
        if g.chance(.2):
            pk = bytearray(pk)
        text, ser = script_text(g, net)
        sh = prim.hash160(net, ser)
        wsh = prim.sha256(ser)
        E = raddr.encode
        rows = [(addr.make_p2pkh_address, (pk,), {}, 'p2pkh', h, True),
                (addr.make_legacy_p2pkh_address, (pk,), {}, 'p2pkh', h,
                 False),
                (addr.make_pkh_address, (pk,), {}, 'p2pkh', h, True),
                (addr.make_pkh_address, (pk,), {'cashaddr': False}, 'p2pkh',
                 h, False),
                (addr.make_p2sh_address, (text,), {}, 'p2sh', sh, True),
                (addr.make_legacy_p2sh_address, (text,), {}, 'p2sh', sh,
                 False),
                (addr.make_sh_address, (text,), {}, 'p2sh', sh, True),
                (addr.make_sh_address, (text, False, False), {}, 'p2sh', sh,
                 False)]
        if net.segwit:
            rows += [(addr.make_p2wpkh_address, (pk,), {}, 'p2wpkh', h, True),
                     (addr.make_pkh_address, (pk,), {'witness': True},
                      'p2wpkh', h, True),
                     (addr.make_pkh_address, (pk, True, False), {}, 'p2wpkh',
                      h, True),
                     (addr.make_p2wsh_address, (text,), {}, 'p2wsh', wsh,
                      True),
                     (addr.make_sh_address, (text, True), {}, 'p2wsh', wsh,
                      True)]
        for f, a, kw, kind, hh, cash in rows:
            cx.event('addresses')
            cx.eq(f.__name__, cx.ok(f.__name__, f, *a, **kw),
                  E(net, kind, hh, cash), a)
        for f, a, kind, hh in (
                (tb.make_p2pkh_output_script, (pk,), 'p2pkh', h),
                (tb.make_p2sh_output_script, (text,), 'p2sh', sh),
                (tb.make_p2wpkh_output_script, (pk,), 'p2wpkh', h),
                (tb.make_p2wsh_output_script, (text,), 'p2wsh', wsh)):
            if kind not in raddr.kinds(net):
                continue
            s = cx.ok(f.__name__, f, *a)
            cx.eq(f.__name__ + ' address', cx.ok(
                'from_output_script', addr.from_output_script, s),
                E(net, kind, hh))
        if not net.segwit:
            for f, a in ((addr.make_p2wpkh_address, pk),
                         (addr.make_p2wsh_address, text)):
                cx.refused('witness address without segwit', f, a)

    def refusals(self, cx, net):
        g = cx.g
        for _ in range(4):
            s = g.template(g.pick(raddr.KINDS))
            c = g.r.randrange(4)
            if c < 2:
                s = g.near(s)
            elif c == 2:
                h = g.b(g.pick((19, 20, 21, 32, 33)))
                s = g.pick((
                    b'\x76\xa9' + rscript.push(h) + b'\x88\xac',
                    b'\xa9' + rscript.push(h) + b'\x87',
                    bytes([g.r.randrange(0, 97)]) + rscript.push(h),
                    b'\x76\xa9' + rscript.push(h) + b'\x88',
                    b'\x76\xa9' + rscript.push(h) + b'\x88\xac\xac',
                    b'\xa9' + rscript.push(h) + b'\x87\x87',
                    b'\xa9' + rscript.push(h) + b'\x88',
                    b'\xa8' + rscript.push(h) + b'\x87',
                    b'\xaa' + rscript.push(h) + b'\x87',
                    b'\x00' + rscript.push(h) + b'\x00',
                    b'\x76\xa9\x4c' + bytes([len(h)]) + h + b'\x88\xac',
                    rscript.push(h) + b'\xac', h))
            k = raddr.classify(s)
            for kw in ({}, {'cashaddr': False}):
                if k and k[0] in raddr.kinds(net):
                    want = raddr.encode(net, k[0], k[1],
                                        kw.get('cashaddr', True))
                    cx.eq('address', cx.ok('from_output_script',
                                           addr.from_output_script, s, **kw),
                          want)
                else:
                    cx.refused('script without an address',
                               addr.from_output_script, s, **kw)
        for s in (g.b(g.length(60)), g.b(g.length(20000)), g.template('p2pk'),
                  g.template('multisig'), g.template('opret'),
                  g.minimal_script(net)):
            k = raddr.classify(s)
            if k is None:
                cx.refused('script without an address',
                           addr.from_output_script, s)


# ---- wrong addresses ----------------------------------------------------

ALNUM = string.ascii_letters + string.digits


def good(g, net):
    '''a valid address of a network'''
    kind = g.pick(raddr.kinds(net))
    return raddr.encode(net, kind, some_hash(g, net, kind), g.chance(.6))


def typo(g, s):
    i = g.r.randrange(len(s))
    c = g.r.randrange(9)
    if c <= 1:
        return s[:i] + g.pick(ALNUM) + s[i + 1:]
    if c == 2:
        return s[:i] + s[i + 1:]
    if c == 3:
        return s[:i] + g.pick(ALNUM) + s[i:]
    if c == 4 and len(s) > 1:
        i = g.r.randrange(len(s) - 1)
        return s[:i] + s[i + 1] + s[i] + s[i + 2:]
    if c == 5:
        return s[:i] + s[i].swapcase() + s[i + 1:]
    if c == 6:
        return s[:i] + g.pick(raddr.B32 if g.chance(.5) else raddr.B58) \
            + s[i + 1:]
    if c == 7:
        j = g.r.randrange(len(s))
        t = list(s)
        t[i], t[j] = t[j], t[i]
        return ''.join(t)
    return s[:i] + s[i] + s[i:]


def forged(g, pm, head, vals, nsum, want):
    """(symbols with one outside the alphabet, its place) for which the
    checksum adds up in the eyes of a decoder that gives that symbol the
    value -1 (not found) or one past the alphabet, or None"""
    n = len(vals) + nsum
    at = g.pick((n - 2, n - nsum, g.r.randrange(n - nsum, n),
                 g.r.randrange(n - nsum, n), g.r.randrange(n)))
    v = g.pick((-1, -1, 32, 33))
    full = list(vals) + [0] * nsum
    full[at] = v
    tail = [k for k in range(n - nsum, n) if k != at]
    free = tail + [k for k in range(2, len(vals) - 1) if k != at][
        :nsum - len(tail) + 2]
    for k in free:
        full[k] = 0
    bits = [(k, b) for k in free for b in range(5)]
    base = pm(head + full)
    rows = []
    for k, b in bits:
        u = list(full)
        u[k] ^= 1 << b
        rows.append(pm(head + u) ^ base)
    target = base ^ want
    pivots = []  # (vector, combination)
    for j, row in enumerate(rows):
        comb = 1 << j
        for q, qc, top in pivots:
            if row >> top & 1:
                row ^= q
                comb ^= qc
        if row > 0:
            pivots.append((row, comb, row.bit_length() - 1))
    comb = 0
    for q, qc, top in pivots:
        if target >> top & 1:
            target ^= q
            comb ^= qc
    if target:
        return None
    for j, (k, b) in enumerate(bits):
        if comb >> j & 1:
            full[k] ^= 1 << b
    return full, at


def phantom(g, net):
    """an address form whose checksum adds up only if a character outside
    the alphabet is given a value"""
    if g.chance(.25):  # base58: a digit of -1 or 58, paid by its neighbour
        s = raddr.b58check(net, g.pick((net.p2pkh, net.p2sh)) + g.b(20))
        d = raddr.B58
        for k in g.r.sample(range(1, len(s) - 1), len(s) - 2):
            if s[k + 1] == 'z' and s[k] != 'z':
                x = d[d.index(s[k]) + 1]
            elif s[k + 1] == '1' and s[k] != '1':
                x = d[d.index(s[k]) - 1]
            else:
                continue
            return s[:k] + x + g.pick('0OIl+/!_-.') + s[k + 2:]
    if net.cashaddr and g.chance(.6):
        head = [ord(c) & 31 for c in net.cashaddr] + [0]
        r = forged(g, raddr._pm_cash, head, raddr.to5(
            g.pick((b'\0', b'\x08')) + g.b(20)), 8, 0)
        pre = net.cashaddr + ':'
    else:
        hrp = net.hrp or 'bc'
        r = forged(g, raddr._pm_bech, raddr._hrpx(hrp), [0] + raddr.to5(
            g.b(g.pick((20, 32)))), 6, 1)
        pre = hrp + '1'
    if r is None:
        return pre
    full, at = r
    out = [raddr.B32[x] if 0 <= x < 32 else '' for x in full]
    out[at] = g.pick("bio")
    if g.chance(.5):
        out[at] = g.pick('!@$%^&*-_.,~"')
    return pre + ''.join(out)


def crafted(g, net):
    '''texts with a right checksum that name no output of the network'''
    other = g.any_net()
    n = g.pick((0, 1, 4, 18, 19, 20, 21, 22, 32, 33, 40))
    h = g.b(n)
    c = g.r.randrange(14)
    if c > 11:
        return phantom(g, net)
    if g.chance(.02):  # far too long
        h = g.b(g.r.randrange(40, 400))
        if net.cashaddr and g.chance(.5):
            return raddr.cash_enc(net.cashaddr, g.pick((b'\0', b'\x08')) + h)
        if net.hrp and g.chance(.4):
            return raddr.segwit_enc(net.hrp, 0, h)
        return raddr.b58check(net, g.pick((net.p2pkh, net.p2sh)) + h)
    if c == 0:
        return raddr.b58check(net, g.pick((net.p2pkh, net.p2sh)) + h)
    if c == 1:
        return raddr.b58check(net, g.pick(PREFIXES) + g.b(20))
    if c == 2:
        return raddr.b58check(net, g.b(g.pick((0, 1, 20, 21, 22, 25, 34))))
    if c == 3:
        return raddr.b58check(net, bytes([0, n]) + h)
    if c == 4:  # right payload, the other hash function or none
        p = g.pick((net.p2pkh, net.p2sh)) + g.b(20)
        return raddr.b58enc(p + g.pick((
            prim.sha256(p)[:4], b'\0' * 4, prim.hash256(net, p)[4:8],
            prim.hash256(nets.BY['decred_main' if not net.decred else
                                 'bitcoin_main'], p)[:4], b'')))
    hrp = g.pick((net.hrp or 'bc', net.hrp or 'bc', other.hrp or 'tb',
                  'BC', 'bc1', 'b', 'bitcoincash'))
    v = g.pick((0, 0, 0, 1, 2, 16, 17, 31))
    prog = g.b(g.pick((20, 32, 20, 32, 0, 1, 2, 16, 19, 21, 31, 33, 40, 41)))
    if c == 5:
        return raddr.segwit_enc(hrp.lower(), v, prog)
    if c == 6:
        vals = [v] + raddr.to5(prog)
        if len(vals) > 1:
            vals[-1] |= g.r.randrange(1, 32)
        return raddr.bech32_raw(hrp.lower(), vals)
    if c == 7:
        return raddr.bech32_raw(hrp.lower(), [v] + raddr.to5(prog)
                                + [0] * g.r.randrange(1, 3))
    if c == 8:
        return raddr.bech32_raw(hrp.lower(), [
            g.r.randrange(32) for _ in range(g.r.randrange(0, 60))])
    pre = g.pick([net.cashaddr or 'bitcoincash'] * 3 + [
        'bitcoincash', 'bchtest', 'bchreg', 'pref', 'bitcoincash:bitcoincash',
        'itcoincash'])
    vb = g.pick((b'\0', b'\x08', b'\0', b'\x08', b'\x01', b'\x09', b'\x10',
                 b'\x80', b'\x03', g.b(1)))
    if c == 9:
        return raddr.cash_enc(pre, vb + g.b(g.pick((20, 20, 19, 21, 24, 32,
                                                    64, 0))))
    vals = raddr.to5(vb + g.b(20))
    if c == 10:
        vals[-1] |= g.r.randrange(1, 4)
        return raddr.cash_raw(pre, vals)
    s = raddr.cash_raw(pre, vals)
    return g.pick((s.upper(), s.split(':', 1)[1], s + ':', ':' + s,
                   s.replace(':', ''), s.replace(':', '::'), s + ' ',
                   s[:20].upper() + s[20:], 'x' + s))


class C14(Check):
    id = 'C14'
    quick, thorough = 2500, 50000
    rule = ('valid addresses with typing mistakes (each position at least '
            'once per address form), case changes, white space, addresses of '
            'every other network, and texts with right checksums but wrong '
            'prefix, version, length, program or padding, on every network; '
            'what is read compared with independent decoders; a state is '
            'network, kind of mistake and outcome')
    need = {'texts': 200000, 'refused': 150000, 'read': 4000}

    def judge(self, cx, net, s, how):
        if net.cashaddr and s == s.upper() and ':' in s:
            return  # capitals are allowed, not required
        cx.event('texts')
        want = raddr.decode(net, s)
        scripts = {raddr.script(k, h) for k, h in want}
        hashes = {h for _, h in want}
        for name, f, allowed in (('to_output_script', addr.to_output_script,
                                  scripts),
                                 ('parse_hash', addr.parse_hash, hashes)):
            try:
                r = bytes(f(s))
            except Exception as e:
                if want:
                    cx.fail(name + ' refuses a valid address', '%r on %s: %r'
                            % (s, net.name, e))
                continue
            if r not in allowed:
                cx.fail('%s misreads (%s)' % (name, how), '%r on %s as %s, '
                        'allowed %s' % (s, net.name, r.hex(),
                                        [x.hex() for x in allowed]))
        cx.event('read' if want else 'refused')
        cx.state(net.name, how, len(want))

    def case(self, cx, i):
        g = cx.g
        net = nets.NETS[i % 72] if i < 720 else g.any_net()
        select(net)
        a = good(g, net)
        self.judge(cx, net, a, 'valid')
        for k in range(len(a)):
            for c in g.r.sample(ALNUM, 1) + [a[k].swapcase()]:
                self.judge(cx, net, a[:k] + c + a[k + 1:], 'replaced')
            self.judge(cx, net, a[:k] + a[k + 1:], 'removed')
            if k + 1 < len(a):
                self.judge(cx, net, a[:k] + a[k + 1] + a[k] + a[k + 2:],
                           'swapped')
            self.judge(cx, net, a[:k] + g.pick(ALNUM) + a[k:], 'added')
        for _ in range(12):
            self.judge(cx, net, typo(g, good(g, net)), 'typo')
            self.judge(cx, net, crafted(g, net), 'crafted')
            self.judge(cx, net, typo(g, typo(g, good(g, net))), 'two typos')
        for o in g.r.sample(nets.NETS, 6):
            s = good(g, o)
            self.judge(cx, net, s, 'of another network')
            if s.lower() != s.upper():
                self.judge(cx, net, s.upper(), 'in capitals')
        for s in (' ' + a, a + ' ', a + '\n', '\t' + a, '', '1', '111', '0',
                  ':', a + a, a[::-1], a.upper(), a.lower(), a.title(),
                  a[:len(a) // 2], a.replace('1', 'l'), a.replace('0', 'O'),
                  '1' + a, 'bitcoincash:' + a, 'bitcoin:' + a, a + '\u0661',
                  a[:-1] + '\u00e9', a.replace('q', '\u0071\u0301'),
                  (net.hrp or 'bc') + '1', (net.hrp or 'bc') + '1qqqqqq',
                  (net.cashaddr or 'bchtest') + ':',
                  g.pick(('\u212a', '\uff11', '\x00')) + a,
                  a + g.pick(('\x00', '\u00a0', '\u200b', '\r\n', '?x=1')),
                  a + a[-1] * max(0, g.pick((74, 75, 90, 91)) - len(a)),
                  a[0] * max(0, g.pick((89, 90, 91, 255)) - len(a)) + a):
            self.judge(cx, net, s, 'odd')
        if i % 601 == 5:
            cx.sample(net=net.name, address=a)


# ---- codecs -------------------------------------------------------------

class C15(Check):
    id = 'C15'
    quick, thorough = 7000, 120000
    rule = ('random and telling byte strings (leading zeros, lengths 0 to '
            '120), every witness version and program length, encoded and '
            'decoded with every codec on every network and compared with '
            'independent ones; damaged texts must be refused or be encodings '
            'themselves; a state is network, codec, length and outcome')
    need = {'encoded': 20000, 'damaged texts': 30000, 'refused': 20000}

    def b58(self, cx, net):
        g = cx.g
        d = g.b(g.pick((0, 1, 2, 3, 4, 5, 20, 21, 22, 25, 32, 33, 34, 37,
                        38, 64, 78, 82, 100, g.r.randrange(0, 120)))
                if g.chance(.98) else g.r.randrange(120, 900))
        if g.chance(.3):
            d = b'\0' * g.r.randrange(1, 30) + d
        want = raddr.b58check(net, d)
        cx.event('encoded', 2)
        cx.eq('base58.encode', cx.ok('base58', base58.encode, d), want, d)
        cx.eq('encode_with_checksum', base58.encode_with_checksum(d), want)
        cx.eq('base58.decode', bytes(cx.ok('base58', base58.decode, want)), d)
        cx.eq('decode_with_checksum', bytes(base58.decode_with_checksum(
            want)), d)
        cx.eq('has_checksum', base58.has_checksum(want), True)
        raw = raddr.b58enc(d)
        cx.eq('plain base58', cx.ok('base58', base58.encode, d, False), raw)
        cx.eq('plain base58 decoded', bytes(cx.ok(
            'base58', base58.decode, raw, False)), d)
        cx.eq('plain base58 decoded', bytes(cx.ok(
            'base58', base58.decode, raw, checksum=False)), d)
        cx.state(net.decred, 'base58', len(d), d[:1] == b'\0')
        for _ in range(6):
            s = typo(g, want) if want and g.chance(.8) else g.pick((
                '', '1', '11', '1111', raw, want[:-1], '1' + want, want + '1',
                ' ' + want, want + ' ', want + '0', want + 'I', want + 'l',
                want + 'O', want + '\u00e9', raddr.b58enc(d + b'\0' * 4)))
            self.damaged(cx, 'base58', base58.decode, s,
                         raddr.b58check_dec(net, s))
            ok = raddr.b58check_dec(net, s) is not None
            cx.eq('has_checksum', cx.ok('has_checksum', base58.has_checksum,
                                        s), ok, s)
            self.damaged(cx, 'plain base58',
                         lambda x: base58.decode(x, checksum=False), s,
                         raddr.b58dec(s))

    def damaged(self, cx, what, f, s, want):
        cx.event('damaged texts')
        try:
            r = f(s)
        except Exception:
            if want is not None:
                cx.fail(what + ' refuses an encoding', repr(s))
            cx.event('refused')
            return
        if want is None:
            cx.fail(what + ' accepts what is no encoding', '%r as %r' % (s, r))
        if r != want:
            cx.fail(what + ' misreads', '%r as %r, want %r' % (s, r, want))

    def seg(self, cx, net):
        g = cx.g
        hrp = net.hrp
        v = g.pick((0, 0, 0, 1, 2, 15, 16, g.r.randrange(17)))
        n = g.pick((20, 32)) if v == 0 else g.r.randrange(2, 41)
        p = g.b(n)

        def dec(s, h=hrp):
            r = raddr.segwit_dec(h, s)
            return r and bytes([r[0], len(r[1])]) + r[1]

        def raw(s, h):
            r = bech32.segwit_decode(h, s)
            if r == (None, None):
                raise ValueError(s)
            return r[0], bytes(r[1])

        if hrp:
            want = raddr.segwit_enc(hrp, v, p)
            cx.event('encoded')
            data = bytes([v, n]) + p
            cx.eq('bech32.encode', cx.ok('bech32', bech32.encode, data),
                  want, data)
            cx.eq('bech32.decode', bytes(cx.ok('bech32', bech32.decode,
                                               want)), data, want)
            cx.eq('bech32.decode', bytes(cx.ok('bech32', bech32.decode,
                                               want.upper())), data, want)
        else:
            cx.refused('bech32 without a prefix', bech32.encode,
                       bytes([v, n]) + p)
            cx.refused('bech32 without a prefix', bech32.decode,
                       raddr.segwit_enc('bc', v, p))
        h = hrp if hrp and g.chance(.4) else g.pick((
            'bc', 'tb', 'bcrt', 'a', 'ltc', 'test1', '1', 'x' * 20,
            '!~', 'split', 'ab1c'))
        if len(h) + 1 + (n * 8 + 4) // 5 + 7 > 90:
            h = 'bc'
        w2 = raddr.segwit_enc(h, v, p)
        cx.event('encoded')
        cx.eq('segwit_encode', cx.ok('segwit', bech32.segwit_encode, h, v, p),
              w2)
        cx.eq('segwit_decode', cx.ok('segwit', raw, w2, h), (v, p))
        cx.state(net.name, 'bech32', v, n)
        s0 = want if hrp else w2
        for _ in range(8):
            c = g.r.random()
            if c < .4:
                s = typo(g, s0)
            elif c < .8:
                s = crafted(g, net)
            else:
                s = g.pick((
                    s0.upper(), s0[:5] + s0[5:].upper(), s0[:-1], s0 + 'q',
                    s0 + ' ', '', '1', 'q', h + '1', s0.replace('1', ''),
                    raddr.bech32_raw(h, []), raddr.bech32_raw(h, [v]),
                    raddr.bech32_raw(h, [31] + raddr.to5(p)),
                    raddr.segwit_enc(h, 0, p[:19]),
                    raddr.bech32_raw(h, [v] + raddr.to5(p) + [0] * 40),
                    s0[:-6], s0[:-3] + 'qqq', s0 + '\x7f', '\u00e9' + s0))
            if hrp:
                self.damaged(cx, 'bech32', bech32.decode, s, dec(s))
            self.damaged(cx, 'segwit', lambda x: raw(x, h), s,
                         raddr.segwit_dec(h, s))
        # programs no segwit output can have
        for v2, n2 in ((0, g.pick((2, 19, 21, 31, 33, 40))),
                       (g.r.randrange(1, 17), g.pick((0, 1, 41, 42))),
                       (17, 20)):
            ok, r = cx.attempt(bech32.segwit_encode, 'bc', v2, g.b(n2))
            cx.event('refusals checked')
            if ok and r is not None:
                cx.fail('segwit encodes an impossible program',
                        '%d %d %r' % (v2, n2, r))

    def cash(self, cx, net):
        g = cx.g
        pre = net.cashaddr
        d = g.pick((b'\0', b'\x08', g.b(1))) + g.b(g.pick((
            20, 20, 20, 24, 28, 32, 40, 48, 56, 64, 0, 1, 5,
            g.r.randrange(70))) if g.chance(.95) else
            g.r.randrange(70, 1200))
        if not pre:
            cx.refused('cashaddr without a prefix', cashaddr.encode, d)
            cx.refused('cashaddr without a prefix', cashaddr.decode,
                       raddr.cash_enc('bitcoincash', d))
            return
        want = raddr.cash_enc(pre, d)
        cx.event('encoded')
        cx.eq('cashaddr.encode', cx.ok('cashaddr', cashaddr.encode, d), want)
        cx.eq('cashaddr.decode', bytes(cx.ok('cashaddr', cashaddr.decode,
                                             want)), d)
        cx.state(net.name, 'cashaddr', len(d))
        for _ in range(8):
            s = typo(g, want) if g.chance(.5) else crafted(g, net)
            if s == s.upper():
                continue
            self.damaged(cx, 'cashaddr', lambda x: bytes(cashaddr.decode(x)),
                         s, raddr.cash_dec(pre, s))

    def case(self, cx, i):
        g = cx.g
        net = nets.NETS[i % 72] if i < 720 else g.any_net()
        if g.chance(.15):
            net = g.pick([n for n in nets.NETS if n.cashaddr])
        select(net)
        for _ in range(2):
            self.b58(cx, net)
            self.seg(cx, net)
            self.cash(cx, net)
        if i % 901 == 5:
            cx.sample(net=net.name)


# ---- output builders ----------------------------------------------------

class C16(Check):
    id = 'C16'
    quick, thorough = 16000, 250000
    rule = ('random keys, scripts, values and data of every length, given to '
            'every output builder on every network; outputs compared with '
            'scripts made from independent hashes; values and data at and '
            'beyond the limits; a state is network, builder and length or '
            'value class')
    need = {'outputs': 60000, 'refusals checked': 20000}

    def out(self, cx, net, name, f, a, kw, value, script):
        o = cx.ok(name, f, *a, **kw)
        cx.event('outputs')
        s = {'value': value.to_bytes(8, 'little'), 'ver': b'\0\0',
             'script': script}
        d = Diff()
        (cmp_dcr_txout if net.decred else cmp_txout)(d, name, o, s)
        report(cx, name, d)

    def case(self, cx, i):
        g = cx.g
        net = nets.NETS[i % 72] if i < 720 else g.any_net()
        select(net)
        v = g.u64()
        # whatever the bytes are that stand for a key
        pk = g.pubkey() if g.chance(.7) else g.blob(g.pick((100, 600, 5000)))
        text, ser = script_text(g, net)
        h, sh = prim.hash160(net, pk), prim.hash160(net, ser)
        wsh = prim.sha256(ser)
        S = raddr.script
        pkx = bytearray(pk) if g.chance(.2) else pk
        rows = [('make_p2pkh_output', (v, pkx), {}, S('p2pkh', h)),
                ('make_pkh_output', (v, pkx), {}, S('p2pkh', h)),
                ('make_pkh_output', (v, pkx), {'witness': False},
                 S('p2pkh', h)),
                ('make_p2sh_output', (v, text), {}, S('p2sh', sh)),
                ('make_sh_output', (v, text), {}, S('p2sh', sh)),
                ('make_sh_output', (v, text, False), {}, S('p2sh', sh))]
        wit = [('make_p2wpkh_output', (v, pkx), {}, S('p2wpkh', h)),
               ('make_pkh_output', (v, pkx, True), {}, S('p2wpkh', h)),
               ('make_p2wsh_output', (v, text), {}, S('p2wsh', wsh)),
               ('make_sh_output', (v, text), {'witness': True},
                S('p2wsh', wsh))]
        sc = [('make_p2pkh_output_script', (pkx,), {}, S('p2pkh', h)),
              ('make_pkh_output_script', (pkx,), {}, S('p2pkh', h)),
              ('make_p2sh_output_script', (text,), {}, S('p2sh', sh)),
              ('make_sh_output_script', (text,), {}, S('p2sh', sh)),
              ('make_sh_script_pubkey', (ser,), {}, S('p2sh', sh))]
        wsc = [('make_p2wpkh_output_script', (pkx,), {}, S('p2wpkh', h)),
               ('make_pkh_output_script', (pkx, True), {}, S('p2wpkh', h)),
               ('make_p2wsh_output_script', (text,), {}, S('p2wsh', wsh)),
               ('make_sh_output_script', (text, True), {}, S('p2wsh', wsh)),
               ('make_sh_script_pubkey', (ser,), {'witness': True},
                S('p2wsh', wsh))]
        if net.segwit:
            rows, sc = rows + wit, sc + wsc
        else:
            for name, a, kw, _ in wit + wsc:
                cx.refused('witness output without segwit: ' + name,
                           getattr(tb, name), *a, **kw)
        for name, a, kw, want in rows:
            self.out(cx, net, name, getattr(tb, name), a, kw, v, want)
            cx.state(net.name, name, v.bit_length())
            for bad in (-1, 1 << 64, -(1 << 63), (1 << 64) + g.u64()):
                if g.chance(.25):
                    cx.refused('value out of range: ' + name,
                               getattr(tb, name), bad, *a[1:], **kw)
        for name, a, kw, want in sc:
            cx.eq(name, bytes(cx.ok(name, getattr(tb, name), *a, **kw)),
                  want, a)
        for name in ('make_p2pkh_output_script', 'make_pkh_output_script'):
            cx.refused('key that is not bytes', getattr(tb, name),
                       g.pick((pk.hex(), None, 5, list(pk))))
        # OP_RETURN
        n = i % 78
        d = g.b(n)
        want = b'\x6a' + (bytes([n]) if n <= 75 else b'\x4c' + bytes([n])) + d
        self.out(cx, net, 'make_op_return_output', tb.make_op_return_output,
                 (d if g.chance(.8) else bytearray(d),), {}, 0, want)
        cx.state(net.name, 'opret', n)
        if n:
            items = rscript.parse(net, want)
            assert items[1][1] == d and len(items) == 2
        for n in (78, g.r.randrange(78, 300), 256 + g.r.randrange(78), 65536):
            cx.refused('long OP_RETURN', tb.make_op_return_output, g.b(n))
        # straight from an address
        kind = g.pick(raddr.kinds(net))
        hh = some_hash(g, net, kind)
        text = raddr.encode(net, kind, hh, g.chance(.5))
        self.out(cx, net, 'simple.output', simple.output, (v, text), {}, v,
                 S(kind, hh))
        for bad in (-1, 1 << 64):
            cx.refused('value out of range', simple.output, bad, text)
        cx.refused('value that is not whole', simple.output, 1.5, text)
        if i % 1201 == 5:
            cx.sample(net=net.name, value=v, script=S(kind, hh))
