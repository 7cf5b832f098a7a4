'''Independent BLAKE-224/256/384/512 (round 3), written from the SHA-3
submission document: pad the whole message first, then compress block by
block. Shares no structure with riemann.blake256, which is incremental.'''
import struct
from functools import lru_cache

_PI = '''243F6A88 85A308D3 13198A2E 03707344 A4093822 299F31D0 082EFA98 EC4E6C89
452821E6 38D01377 BE5466CF 34E90C6C C0AC29B7 C97C50DD 3F84D5B5 B5470917
9216D5D9 8979FB1B D1310BA6 98DFB5AC 2FFD72DB D01ADFB7 B8E1AFED 6A267E96
BA7C9045 F12C7F99 24A19947 B3916CF7 0801F2E2 858EFC16 636920D8 71574E69'''
_W = [int(x, 16) for x in _PI.split()]
C32 = _W[:16]
C64 = [(_W[2 * i] << 32) | _W[2 * i + 1] for i in range(16)]


def _isqrt(n):
    import math
    return math.isqrt(n)


# IVs are those of SHA-2: fractional square roots of primes
_P1 = [2, 3, 5, 7, 11, 13, 17, 19]
_P2 = [23, 29, 31, 37, 41, 43, 47, 53]


def _frac(p, bits):
    return _isqrt(p << (2 * bits)) & ((1 << bits) - 1)


IV = {
    256: [_frac(p, 32) for p in _P1],
    512: [_frac(p, 64) for p in _P1],
    384: [_frac(p, 64) for p in _P2],
    224: [_frac(p, 64) & 0xffffffff for p in _P2],
}

_SIG = '''
0123456789abcdef ea489fd61c02b753 b8c052fdae367194 7931dcbe265a40f8
9057fe4adc6813b2 2c6a0b834d75fe19 c51fed4a0763928b db7ec13950f4862a
6fe9b308c2d714a5 a2847615fb9e3cd0'''
SIGMA = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0]]

_STEPS = [(0, 4, 8, 12), (1, 5, 9, 13), (2, 6, 10, 14), (3, 7, 11, 15),
          (0, 5, 10, 15), (1, 6, 11, 12), (2, 7, 8, 13), (3, 4, 9, 14)]


def blake(bits, msg, salt=b''):
    big = bits > 256
    wb = 8 if big else 4
    w = wb * 8
    mask = (1 << w) - 1
    block = 16 * wb
    C = C64 if big else C32
    rounds = 16 if big else 14
    r1, r2, r3, r4 = (32, 25, 16, 11) if big else (16, 12, 8, 7)
    fmt = '>16Q' if big else '>16L'
    n = len(msg)
    lenbytes = 2 * wb
    # padding: 1, zeroes, a 1 bit (only for 256/512) and the length
    k = (-(n + 1 + lenbytes)) % block
    pad = bytearray(b'\x80' + b'\x00' * k)
    if bits in (256, 512):
        pad[-1] |= 1
    data = msg + bytes(pad) + (8 * n).to_bytes(lenbytes, 'big')
    s = salt.rjust(4 * wb, b'\x00')[-4 * wb:]
    s = [int.from_bytes(s[i * wb:(i + 1) * wb], 'big') for i in range(4)]
    h = list(IV[bits])
    for b in range(len(data) // block):
        hashed = min(n, (b + 1) * block) - b * block  # message bytes in block
        t = 0 if hashed <= 0 else 8 * min(n, (b + 1) * block)
        m = struct.unpack(fmt, data[b * block:(b + 1) * block])
        t0, t1 = t & mask, t >> w
        v = h + [s[i] ^ C[i] for i in range(4)] + [
            t0 ^ C[4], t0 ^ C[5], t1 ^ C[6], t1 ^ C[7]]
        for r in range(rounds):
            sg = SIGMA[r % 10]
            for j, (a, bb, c, d) in enumerate(_STEPS):
                x, y = sg[2 * j], sg[2 * j + 1]
                va, vb, vc, vd = v[a], v[bb], v[c], v[d]
                va = (va + vb + (m[x] ^ C[y])) & mask
                vd ^= va
                vd = (vd >> r1) | (vd << (w - r1)) & mask
                vc = (vc + vd) & mask
                vb ^= vc
                vb = (vb >> r2) | (vb << (w - r2)) & mask
                va = (va + vb + (m[y] ^ C[x])) & mask
                vd ^= va
                vd = (vd >> r3) | (vd << (w - r3)) & mask
                vc = (vc + vd) & mask
                vb ^= vc
                vb = (vb >> r4) | (vb << (w - r4)) & mask
                v[a], v[bb], v[c], v[d] = va, vb, vc, vd
        h = [h[i] ^ s[i % 4] ^ v[i] ^ v[i + 8] for i in range(8)]
    return b''.join(x.to_bytes(wb, 'big') for x in h)[:bits // 8]


@lru_cache(4096)
def blake256(msg):
    return blake(256, msg)
