'''A small script interpreter and transaction reader, from the consensus rules.
Signatures are replaced by a commitment to key and digest: sign() makes one,
and the interpreter accepts it when the digest it computes itself (from the
transaction's bytes) is the one committed to. Nothing here imports riemann.'''
import hashlib

from .blake import blake256
from .prim import hash160, hash256, rmd160, sha256, vi, vi_read
from . import tx as rtx


# ---- reading transactions -----------------------------------------------

class Bad(Exception):
    pass


class Reader:
    def __init__(self, b):
        self.b, self.at = bytes(b), 0

    def take(self, n):
        if self.at + n > len(self.b):
            raise Bad('truncated')
        r = self.b[self.at:self.at + n]
        self.at += n
        return r

    def count(self):
        r = vi_read(self.b, self.at)
        if r is None:
            raise Bad('count')
        self.at += r[1]
        return r[0]

    def var(self):
        return self.take(self.count())

    def txin(self):
        return {'txid': self.take(32), 'index': self.take(4), 'tree': b'\0',
                'stack': self.var(), 'redeem': b'', 'seq': self.take(4)}

    def txout(self):
        return {'value': self.take(8), 'ver': b'\0\0', 'script': self.var()}

    def ins(self):
        return [self.txin() for _ in range(self.count())]

    def outs(self):
        return [self.txout() for _ in range(self.count())]


def read(net, b):
    '''a transparent transaction -> spec'''
    r = Reader(b)
    t = {'version': r.take(4), 'flag': False, 'wits': None, 'js': [],
         'spends': [], 'souts': [], 'jspk': None, 'jssig': None,
         'bsig': None, 'expiry': None, 'vb': None}
    if net.family == 'decred':
        t['kind'] = 'decred'
        t['ins'] = [{'txid': r.take(32), 'index': r.take(4),
                     'tree': r.take(1), 'seq': r.take(4)}
                    for _ in range(r.count())]
        t['outs'] = [{'value': r.take(8), 'ver': r.take(2),
                      'script': r.var()} for _ in range(r.count())]
        t['lock'], t['expiry'] = r.take(4), r.take(4)
        t['wits'] = [{'value': r.take(8), 'height': r.take(4),
                      'index': r.take(4), 'stack': r.var(), 'redeem': b''}
                     for _ in range(r.count())]
    elif net.family in ('overwinter', 'sapling'):
        t['kind'] = net.family
        if t['version'] + r.take(4) != (
                b'\x03\0\0\x80\x70\x82\xc4\x03' if net.family == 'overwinter'
                else b'\x04\0\0\x80\x85\x20\x2f\x89'):
            raise Bad('header')
        t['ins'], t['outs'] = r.ins(), r.outs()
        t['lock'], t['expiry'] = r.take(4), r.take(4)
        if net.family == 'sapling':
            t['vb'] = r.take(8)
            if r.count() or r.count():
                raise Bad('shielded')
        if r.count():
            raise Bad('joinsplits')
    else:
        t['kind'] = 'tx'
        if net.family == 'bitcoin' and r.b[4:6] == b'\0\1':
            t['flag'] = True
            r.take(2)
        t['ins'], t['outs'] = r.ins(), r.outs()
        if t['flag']:
            t['wits'] = [[r.var() for _ in range(r.count())]
                         for _ in t['ins']]
        t['lock'] = r.take(4)
        if net.family == 'sprout':
            t['kind'] = 'sprout'
            if t['version'] == b'\2\0\0\0' and r.count():
                raise Bad('joinsplits')
    if r.at != len(r.b):
        raise Bad('bytes left over')
    return t


# ---- signatures ---------------------------------------------------------

def sign(pk, digest, typ):
    return (b'\x30\x44\x02\x20' + sha256(b'r' + pk + digest) + b'\x02\x20'
            + sha256(b's' + pk + digest) + bytes([typ]))


# ---- scripts ------------------------------------------------------------

def num(b, size=4):
    if len(b) > size:
        raise Bad('number too long')
    if not b:
        return 0
    n = int.from_bytes(b, 'little')
    if b[-1] & 0x80:
        return -(n ^ (0x80 << 8 * (len(b) - 1)))
    return n


def enc(n):
    if n == 0:
        return b''
    a = abs(n)
    b = a.to_bytes((a.bit_length() + 8) // 8, 'little')
    if n < 0:
        b = b[:-1] + bytes([b[-1] | 0x80])
    return b


def true(b):
    return any(b[:-1]) or bool(b) and b[-1] not in (0, 0x80)


class Spend:
    '''one input of a transaction and the output it spends'''

    def __init__(self, net, t, idx, out):
        self.net, self.t, self.idx, self.out = net, t, idx, out

    def check(self):
        '''raises Bad unless the input may spend the output'''
        net, t, idx = self.net, self.t, self.idx
        spk = self.out['script']
        if t['kind'] == 'decred':
            w = t['wits'][idx]
            if w['value'] != self.out['value']:
                raise Bad('amount')
            sig = w['stack'] + w['redeem']
        else:
            sig = rtx.sig(t['ins'][idx])
        wit = (t['wits'] or [[]] * len(t['ins']))[idx] if t['flag'] else []
        p2sh = len(spk) == 23 and spk[:2] == b'\xa9\x14' and spk[22:] == \
            b'\x87'
        if p2sh and not self.pushes(sig):
            raise Bad('script signature is not push only')
        stack = self.run(sig, [], False)
        before = list(stack)
        stack = self.run(spk, stack, False)
        self.truth(stack)
        program = spk
        if p2sh:
            stack = before
            redeem = stack.pop()
            if self.program(redeem):
                if sig != self.push(redeem):
                    raise Bad('witness malleated')
                program = redeem
            else:
                stack = self.run(redeem, stack, False)
                self.truth(stack)
        elif self.program(spk) and sig:
            raise Bad('witness malleated')
        if net.segwit and self.program(program):
            self.witness(program, wit)
            return 'witness'
        if wit:
            raise Bad('unexpected witness')
        if len(stack) != 1:
            raise Bad('stack not clean')
        return 'legacy'

    def program(self, s):
        return self.net.segwit and len(s) in (22, 34) and s[0] == 0 and \
            s[1] == len(s) - 2

    def push(self, b):
        return (bytes([len(b)]) if len(b) < 76 else b'\x4c'
                + bytes([len(b)])) + b

    def witness(self, program, wit):
        h = program[2:]
        if len(h) == 20:
            if len(wit) != 2:
                raise Bad('witness size')
            script = b'\x76\xa9\x14' + h + b'\x88\xac'
            stack = list(wit)
        else:
            if not wit or sha256(wit[-1]) != h:
                raise Bad('witness script does not match')
            script, stack = wit[-1], list(wit[:-1])
        stack = self.run(script, stack, True)
        self.truth(stack)
        if len(stack) != 1:
            raise Bad('stack not clean')

    def truth(self, stack):
        if not stack or not true(stack[-1]):
            raise Bad('false')

    def pushes(self, s):
        try:
            return all(op <= 96 for op, _ in self.ops(s))
        except Bad:
            return False

    @staticmethod
    def ops(s):
        i = 0
        while i < len(s):
            op = s[i]
            i += 1
            if 1 <= op <= 78:
                k = {76: 1, 77: 2, 78: 4}.get(op, 0)
                n = int.from_bytes(s[i:i + k], 'little') if k else op
                if i + k + n > len(s):
                    raise Bad('push past the end')
                yield op, s[i + k:i + k + n]
                i += k + n
            else:
                yield op, None

    def digest(self, script, typ, segwit):
        t, net = self.t, self.net
        acp, base = bool(typ & 0x80), typ & 0x1f
        if base not in (1, 3) or base == 3 and self.idx >= len(t['outs']):
            raise Bad('hash type')
        if bool(typ & 0x40) != (net.forkid is not None):
            raise Bad('fork id')
        code = vi(len(script)) + script
        if t['kind'] == 'decred':
            return rtx.decred(t, self.idx, base, script, acp)
        if t['kind'] == 'tx':
            if segwit or net.forkid is not None:
                return rtx.bip143(net, t, self.idx, base, code,
                                  self.out['value'], acp)
            return rtx.legacy(net, t, self.idx, base, code, acp)
        return rtx.digest(net, t, self.idx, base, code, self.out['value'],
                          acp)

    def checksig(self, sig, pk, script, segwit):
        if len(pk) not in (33, 65) or not sig:
            return False
        return sig == sign(pk, self.digest(script, sig[-1], segwit), sig[-1])

    def run(self, script, stack, segwit):
        st = list(stack)
        alt = []
        flow = []
        net = self.net
        if len(script) > 10000:
            raise Bad('script too long')

        def pop():
            if not st:
                raise Bad('empty stack')
            return st.pop()
        n_ops = 0
        for op, data in self.ops(script):
            if data is not None:
                if len(data) > 520:
                    raise Bad('push too long')
                if all(flow):
                    st.append(data)
                continue
            if op > 96:
                n_ops += 1
                if n_ops > 201:
                    raise Bad('too many operations')
            if op in (99, 100):         # IF NOTIF
                v = False
                if all(flow):
                    x = pop()
                    if segwit and x not in (b'', b'\1'):
                        raise Bad('minimal if')
                    v = true(x) == (op == 99)
                flow.append(v)
                continue
            if op == 103:               # ELSE
                if not flow:
                    raise Bad('else')
                flow[-1] = not flow[-1]
                continue
            if op == 104:               # ENDIF
                if not flow:
                    raise Bad('endif')
                flow.pop()
                continue
            if not all(flow):
                continue
            if op == 0:
                st.append(b'')
            elif op == 79 or 81 <= op <= 96:
                st.append(enc(op - 80))
            elif op == 97:
                pass
            elif op == 105:             # VERIFY
                if not true(pop()):
                    raise Bad('verify')
            elif op == 107:
                alt.append(pop())
            elif op == 108:
                if not alt:
                    raise Bad('empty alt stack')
                st.append(alt.pop())
            elif op == 109:             # 2DROP
                pop()
                pop()
            elif op == 110:             # 2DUP
                if len(st) < 2:
                    raise Bad('empty stack')
                st += st[-2:]
            elif op == 116:
                st.append(enc(len(st)))
            elif op == 117:
                pop()
            elif op == 118:
                x = pop()
                st += [x, x]
            elif op == 120:             # OVER
                if len(st) < 2:
                    raise Bad('empty stack')
                st.append(st[-2])
            elif op == 124:             # SWAP
                a, b = pop(), pop()
                st += [a, b]
            elif op == 130:             # SIZE
                x = pop()
                st += [x, enc(len(x))]
            elif op in (135, 136):      # EQUAL EQUALVERIFY
                e = pop() == pop()
                if op == 135:
                    st.append(b'\1' if e else b'')
                elif not e:
                    raise Bad('equalverify')
            elif op == 145:             # NOT
                st.append(b'' if num(pop()) else b'\1')
            elif op in (147, 148, 154, 155, 156, 157, 163, 164):
                b, a = num(pop()), num(pop())
                v = {147: a + b, 148: a - b, 154: int(bool(a and b)),
                     155: int(bool(a or b)), 156: int(a == b),
                     157: int(a == b), 163: min(a, b), 164: max(a, b)}[op]
                if op == 157:
                    if not v:
                        raise Bad('numequalverify')
                else:
                    st.append(enc(v))
            elif op == 166:
                st.append(rmd160(pop()))
            elif op == 167:
                st.append(hashlib.sha1(pop()).digest())
            elif op == 168:
                st.append((blake256 if net.decred else sha256)(pop()))
            elif op == 169:
                st.append(hash160(net, pop()))
            elif op == 170:
                st.append(hash256(net, pop()))
            elif op == 192 and net.decred:
                st.append(sha256(pop()))
            elif op in (172, 173):
                pk, sig = pop(), pop()
                v = self.checksig(sig, pk, script, segwit)
                if op == 172:
                    st.append(b'\1' if v else b'')
                elif not v:
                    raise Bad('checksigverify')
            elif op in (174, 175):
                n = num(pop())
                if not 0 <= n <= 20:
                    raise Bad('key count')
                pks = [pop() for _ in range(n)][::-1]
                m = num(pop())
                if not 0 <= m <= n:
                    raise Bad('signature count')
                sigs = [pop() for _ in range(m)][::-1]
                # the extra element, which Decred does not have
                if not net.decred and pop() != b'':
                    raise Bad('null dummy')
                k = 0
                for pk in pks:
                    if k < m and self.checksig(sigs[k], pk, script, segwit):
                        k += 1
                if op == 174:
                    st.append(b'\1' if k == m else b'')
                elif k != m:
                    raise Bad('checkmultisigverify')
            elif op == 177:             # CHECKLOCKTIMEVERIFY
                if not st:
                    raise Bad('empty stack')
                v = num(st[-1], 5)
                lock = rtx.u(self.t['lock'])
                if v < 0 or (v < 500000000) != (lock < 500000000) or \
                        v > lock or \
                        self.t['ins'][self.idx]['seq'] == b'\xff' * 4:
                    raise Bad('locktime')
            elif op == 178:             # CHECKSEQUENCEVERIFY
                if not st:
                    raise Bad('empty stack')
                v = num(st[-1], 5)
                if v < 0:
                    raise Bad('negative sequence')
                if v & (1 << 31):
                    continue
                q = rtx.u(self.t['ins'][self.idx]['seq'])
                ver = rtx.u(self.t['version'][:2 if net.decred else 4])
                if ver < 2 or q & (1 << 31) or \
                        (v ^ q) & (1 << 22) or v & 0xffff > q & 0xffff:
                    raise Bad('sequence')
            else:
                raise Bad('opcode %d' % op)
        if flow:
            raise Bad('unbalanced')
        return st
