'''Reference address codecs (Base58Check, BIP173, CashAddr) and the address
<-> script relation. Independent of riemann.'''
from . import prim

B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
B32 = 'qpzry9x8gf2tvdw0s3jn54khce6mua7l'


def b58enc(b):
    n = int.from_bytes(b, 'big')
    s = ''
    while n:
        n, r = divmod(n, 58)
        s = B58[r] + s
    return '1' * (len(b) - len(b.lstrip(b'\x00'))) + s


def b58dec(s):
    n = 0
    for c in s:
        k = B58.find(c)
        if k < 0 or len(c) != 1:
            return None
        n = n * 58 + k
    z = len(s) - len(s.lstrip('1'))
    return b'\x00' * z + n.to_bytes((n.bit_length() + 7) // 8, 'big')


def b58check(net, b):
    return b58enc(b + prim.hash256(net, b)[:4])


def b58check_dec(net, s):
    raw = b58dec(s)
    if raw is None or len(raw) < 4:
        return None
    if prim.hash256(net, raw[:-4])[:4] != raw[-4:]:
        return None
    return raw[:-4]


def to5(b):
    n = int.from_bytes(b, 'big')
    bits = len(b) * 8
    pad = (-bits) % 5
    n <<= pad
    k = (bits + pad) // 5
    return [(n >> (5 * (k - 1 - i))) & 31 for i in range(k)]


def from5(v):
    '''strict: padding is less than 5 bits and all zero'''
    n = 0
    for x in v:
        n = (n << 5) | x
    bits = len(v) * 5
    pad = bits % 8
    if pad >= 5 or n & ((1 << pad) - 1):
        return None
    return (n >> pad).to_bytes(bits // 8, 'big')


def _pm_bech(vals):
    c = 1
    for v in vals:
        t = c >> 25
        c = ((c & 0x1ffffff) << 5) ^ v
        for i, g in enumerate((0x3b6a57b2, 0x26508e6d, 0x1ea119fa,
                               0x3d4233dd, 0x2a1462b3)):
            if (t >> i) & 1:
                c ^= g
    return c


def _hrpx(h):
    return [ord(c) >> 5 for c in h] + [0] + [ord(c) & 31 for c in h]


def bech32_raw(hrp, vals):
    pm = _pm_bech(_hrpx(hrp) + vals + [0] * 6) ^ 1
    return hrp + '1' + ''.join(
        B32[x] for x in vals + [(pm >> (5 * (5 - i))) & 31 for i in range(6)])


def bech32_dec_raw(s):
    if any(not 33 <= ord(c) <= 126 for c in s):
        return None
    if s != s.lower() and s != s.upper():
        return None
    s = s.lower()
    at = s.rfind('1')
    if at < 1 or len(s) - at < 7 or len(s) > 90:
        return None
    vals = [B32.find(c) for c in s[at + 1:]]
    if -1 in vals or _pm_bech(_hrpx(s[:at]) + vals) != 1:
        return None
    return s[:at], vals[:-6]


def segwit_ok(ver, prog):
    return (0 <= ver <= 16 and 2 <= len(prog) <= 40
            and (ver != 0 or len(prog) in (20, 32)))


def segwit_enc(hrp, ver, prog):
    return bech32_raw(hrp, [ver] + to5(prog))


def segwit_dec(hrp, s):
    r = bech32_dec_raw(s)
    if r is None or r[0] != hrp or not r[1]:
        return None
    prog = from5(r[1][1:])
    if prog is None or not segwit_ok(r[1][0], prog):
        return None
    return r[1][0], prog


def _pm_cash(vals):
    c = 1
    for v in vals:
        t = c >> 35
        c = ((c & 0x07ffffffff) << 5) ^ v
        for i, g in enumerate((0x98f2bc8e61, 0x79b76d99e2, 0xf33e5fb3c4,
                               0xae2eabe2a8, 0x1e4f43e470)):
            if (t >> i) & 1:
                c ^= g
    return c ^ 1


def cash_raw(prefix, vals):
    p = [ord(c) & 31 for c in prefix] + [0]
    pm = _pm_cash(p + vals + [0] * 8)
    return prefix + ':' + ''.join(
        B32[x] for x in vals + [(pm >> (5 * (7 - i))) & 31 for i in range(8)])


def cash_enc(prefix, data):
    return cash_raw(prefix, to5(data))


def cash_dec(prefix, s):
    if s[:len(prefix) + 1] != prefix + ':':
        return None
    vals = [B32.find(c) for c in s[len(prefix) + 1:]]
    if -1 in vals or len(vals) < 8:
        return None
    if _pm_cash([ord(c) & 31 for c in prefix] + [0] + vals) != 0:
        return None
    return from5(vals[:-8])


# ---- scripts ------------------------------------------------------------

KINDS = ('p2pkh', 'p2sh', 'p2wpkh', 'p2wsh')


def script(kind, h):
    if kind == 'p2pkh':
        return b'\x76\xa9\x14' + h + b'\x88\xac'
    if kind == 'p2sh':
        return b'\xa9\x14' + h + b'\x87'
    return bytes([0, len(h)]) + h


def classify(s):
    '''output script -> (kind, hash) or None'''
    if len(s) == 25 and s[:3] == b'\x76\xa9\x14' and s[23:] == b'\x88\xac':
        return 'p2pkh', s[3:23]
    if len(s) == 23 and s[:2] == b'\xa9\x14' and s[22:] == b'\x87':
        return 'p2sh', s[2:22]
    if len(s) == 22 and s[:2] == b'\x00\x14':
        return 'p2wpkh', s[2:]
    if len(s) == 34 and s[:2] == b'\x00\x20':
        return 'p2wsh', s[2:]
    return None


def kinds(net):
    return KINDS if net.segwit else KINDS[:2]


def encode(net, kind, h, cashaddr=True):
    '''the address text for a hash, or None if the network has none'''
    if kind in ('p2wpkh', 'p2wsh'):
        if not net.segwit:
            return None
        if net.segfmt == 'base58':
            return b58check(net, script(kind, h))
        return segwit_enc(net.hrp, 0, h) if net.hrp else None
    if net.cashaddr and cashaddr:
        return cash_enc(net.cashaddr,
                        (b'\x00' if kind == 'p2pkh' else b'\x08') + h)
    return b58check(net, (net.p2pkh if kind == 'p2pkh' else net.p2sh) + h)


def decode(net, s):
    '''address text -> set of admissible (kind, hash); empty = must refuse'''
    out = []
    raw = b58check_dec(net, s)
    if raw is not None:
        for kind, p in (('p2pkh', net.p2pkh), ('p2sh', net.p2sh)):
            if raw[:len(p)] == p and len(raw) == len(p) + 20:
                out.append((kind, raw[len(p):]))
        if net.segwit and net.segfmt == 'base58':
            k = classify(raw)
            if k and k[0].startswith('p2w'):
                out.append(k)
    if net.hrp and net.segfmt == 'bech32':
        r = segwit_dec(net.hrp, s)
        if r and r[0] == 0:
            out.append(('p2wpkh' if len(r[1]) == 20 else 'p2wsh', r[1]))
    if net.cashaddr:
        d = cash_dec(net.cashaddr, s)
        if d is not None and len(d) == 21 and d[0] in (0, 8):
            out.append(('p2pkh' if d[0] == 0 else 'p2sh', d[1:]))
    return out
