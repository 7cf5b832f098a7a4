'''Reference primitives. Nothing here imports riemann.'''
import hashlib
from .blake import blake256


def vi(n):
    '''canonical compact size'''
    if n < 0xfd:
        return bytes([n])
    if n <= 0xffff:
        return b'\xfd' + n.to_bytes(2, 'little')
    if n <= 0xffffffff:
        return b'\xfe' + n.to_bytes(4, 'little')
    return b'\xff' + n.to_bytes(8, 'little')


def vi_width(n, width):
    if width == 1:
        return bytes([n])
    k = {3: 2, 5: 4, 9: 8}[width]
    return bytes([{2: 0xfd, 4: 0xfe, 8: 0xff}[k]]) + n.to_bytes(k, 'little')


def vi_read(b, at=0):
    '''-> (number, length) or None when truncated or not minimal'''
    if at >= len(b):
        return None
    f = b[at]
    if f < 0xfd:
        return f, 1
    k = {0xfd: 2, 0xfe: 4, 0xff: 8}[f]
    raw = b[at + 1:at + 1 + k]
    if len(raw) != k:
        return None
    n = int.from_bytes(raw, 'little')
    if len(vi(n)) != k + 1:
        return None
    return n, k + 1


def sha256(b):
    return hashlib.sha256(b).digest()


def rmd160(b):
    return hashlib.new('ripemd160', b).digest()


def dsha(b):
    return sha256(sha256(b))


def hash256(net, b):
    return blake256(blake256(b)) if net.decred else dsha(b)


def hash160(net, b):
    return rmd160(blake256(b) if net.decred else sha256(b))


def b2b(data, person):
    return hashlib.blake2b(data, digest_size=32, person=person).digest()
