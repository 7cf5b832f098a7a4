'''The bytes the library copies: every request for memory is counted.

Steps and peak memory do not show a parser that copies the rest of its input
for each element it reads: every copy is one step and is freed at once.  This
runs the library under an allocator (allocs.c, preloaded) that adds up all that
is asked for, on inputs of up to some hundred kilobytes made of very many very
small elements, and on inputs four times shorter.

As a module: probe(repo, seed, network).  As a script (in the child): prints,
for the shorter and the longer inputs, one row per request: name, bytes of
input, bytes asked for, whether it was answered.
'''
import ctypes
import json
import os
import random
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
LIMIT = (1 << 20, 10000)     # bytes: fixed, per byte of input
GROWTH = (500000, 5)         # for four times the input: fixed, times as much
GROWING = ('from_bytes', 'deserialize', 'blake256', 'cashaddr', 'bech32')


def library(folder):
    so = os.path.join(folder, 'allocs.so')
    for cc in ('cc', 'gcc', 'clang'):
        try:
            p = subprocess.run([cc, '-O1', '-shared', '-fPIC', '-o', so,
                                os.path.join(HERE, 'allocs.c')],
                               stdout=subprocess.DEVNULL,
                               stderr=subprocess.DEVNULL)
        except OSError:
            continue
        if p.returncode == 0:
            return so
    return None


def probe(repo, seed, network):
    '''-> two lists of (name, bytes of input, bytes asked for, answered)'''
    with tempfile.TemporaryDirectory(prefix='verif-allocs-') as d:
        so = library(d)
        if so is None:
            return None
        env = dict(os.environ, LD_PRELOAD=so, PYTHONMALLOC='malloc',
                   PYTHONDONTWRITEBYTECODE='1')
        p = subprocess.run(
            [sys.executable, '-B', '-S', os.path.abspath(__file__), repo, so,
             str(seed), network], env=env, stdout=subprocess.PIPE,
            stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=600)
    if p.returncode != 0:
        raise RuntimeError('the allocation probe failed: %s'
                           % p.stderr.decode()[-400:])
    return json.loads(p.stdout)


class Sized:
    '''arguments that stand for n bytes'''

    def __init__(self, n, parts):
        self.n, self.parts = n, parts

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        return (self.n, self.parts)[i]


def size(n):
    if n < 0xfd:
        return bytes([n])
    if n < 0x10000:
        return b'\xfd' + n.to_bytes(2, 'little')
    return b'\xfe' + n.to_bytes(4, 'little')


def requests(r, network, n):
    import riemann
    from riemann import simple, utils
    from riemann.encoding import addresses, bech32, cashaddr
    from riemann.script import serialization as ser
    from riemann.networks import standard
    from riemann.tx import tx, tx_builder as tb, sprout, overwinter, \
        sapling, decred
    item = r.choice((b'\0', b'\1x', b'\0\1x', b'\2xy'))
    k = n // len(item)
    stack = size(k * (2 if len(item) == 3 and item[0] == 0 else 1)) + item * k
    one_in = b'\7' * 36 + b'\0' + b'\xff' * 4
    one_out = b'\1' + bytes(7) + b'\0'
    i, o = n // 41, n // 9
    many_ins = size(i) + one_in * i
    many_outs = size(o) + one_out * o
    name, x = r.choice((('', stack), (' (cut)', stack[:-1]),
                        (' (a huge count)', b'\xff' * 9 + stack[5:])))
    yield 'InputWitness.from_bytes' + name, tx.InputWitness.from_bytes, x
    heads = {'tx': (tx.Tx, b'\1\0\0\0', b''),
             'sprout': (sprout.SproutTx, b'\2\0\0\0', b'\0'),
             'overwinter': (overwinter.OverwinterTx,
                            b'\3\0\0\x80\x70\x82\xc4\x03', bytes(5)),
             'sapling': (sapling.SaplingTx,
                         b'\4\0\0\x80\x85\x20\x2f\x89', bytes(15))}
    fam = next((f for f in heads if f in network), 'tx')
    cls, head, tail = heads[fam]
    for what, body in (('inputs', many_ins + b'\1' + one_out),
                       ('outputs', b'\1' + one_in + many_outs),
                       ('a huge count', b'\xff' + b'\xff' * 8
                        + many_ins[5:])):
        yield '%s.from_bytes (%s)' % (cls.__name__, what), cls.from_bytes, \
            head + body + bytes(4) + tail
    if fam == 'tx':
        b = head + b'\0\1\1' + one_in + b'\1' + one_out + stack + bytes(4)
        yield 'Tx.from_bytes (witness)', tx.Tx.from_bytes, b
        w = n // 43
        b = head + b'\0\1' + size(w) + one_in * w \
            + b'\1' + one_out + b'\1\0' * w + bytes(4)
        yield 'Tx.from_bytes (witnesses)', tx.Tx.from_bytes, b
        t = tx.Tx.from_bytes(b)
        for name in ('copy', 'no_witness', 'to_bytes'):
            yield name, (lambda x, name=name: getattr(t, name)()), b
    code = r.choice((b'\x51', b'\x00', b'\1a', b'\x76\x87'))
    script = (code * n)[:n - n % len(code)]
    yield 'deserialize', ser.deserialize, script
    yield 'hex_deserialize', ser.hex_deserialize, script.hex()
    text = (r.choice(('OP_1', 'OP_0', 'aa', 'OP_DUP')) + ' ') * (n // 6)
    yield 'serialize', ser.serialize, text.strip()
    yield 'TxOut.from_bytes', tx.TxOut.from_bytes, bytes(8) \
        + size(n) + bytes(n)
    yield 'TxIn.from_bytes', tx.TxIn.from_bytes, b'\7' * 36 \
        + size(n) + b'\x51' * n + bytes(4)
    yield 'blake256', utils.blake256, bytes(n)
    data = r.choice((b'\0', b'\xff', b'\7')) * (n // 4)
    yield 'bech32.encode', bech32.encode, data
    yield 'bech32.decode', bech32.decode, 'bc1' + 'q' * n
    if riemann.network.CASHADDR_PREFIX:
        yield 'cashaddr.encode', cashaddr.encode, data
        text = cashaddr.encode(data)
        yield 'cashaddr.decode', cashaddr.decode, text
        yield 'parse', addresses.parse, text
    n //= 8     # what is read above can be hostile; this is only large
    if 'decred' in network:
        i, o = n // 60, n // 20
        ins = [decred.DecredTxIn(decred.DecredOutpoint(
            b'\7' * 32, bytes(4), b'\0'), b'\xff' * 4)] * i
        outs = [decred.DecredTxOut(b'\1' + bytes(7), bytes(2), b'')] * o
        wits = [decred.DecredInputWitness(bytes(8), bytes(4), bytes(4), b'',
                                          b'')] * i

        def build(ins, outs, wits):
            return decred.DecredTx(b'\1\0\0\0', ins, outs, bytes(4),
                                   bytes(4), wits)
        few = (ins, outs[:1], wits), (ins[:1], outs, wits[:1])
    else:
        i, o = n // 41, n // 9
        ins = [tx.TxIn(tx.Outpoint(b'\7' * 32, bytes(4)), b'', b'',
                       b'\xff' * 4)] * i
        outs = [tx.TxOut(b'\1' + bytes(7), b'')] * o
        wits = [tx.InputWitness([])] * i

        def build(ins, outs, wits):
            if fam == 'sprout':
                return sprout.SproutTx(b'\1\0\0\0', ins, outs, bytes(4), [],
                                       None, None)
            if fam == 'overwinter':
                return overwinter.OverwinterTx(ins, outs, bytes(4), bytes(4),
                                               [], None, None)
            if fam == 'sapling':
                return sapling.SaplingTx(ins, outs, bytes(4), bytes(4),
                                         bytes(8), [], [], [], None, None,
                                         None)
            flag = riemann.network.SEGWIT_TX_FLAG if signed else None
            return tx.Tx(b'\1\0\0\0', flag, ins, outs,
                         wits if signed else None, bytes(4))
        few = (ins, outs[:1], wits), (ins[:1], outs, wits[:1])
    signed = r.random() < .5
    code = b'\x51' if 'decred' in network else b'\1\x51'
    kw = {} if fam == 'sprout' or 'decred' in network else \
        {'prevout_value': bytes(8)}
    name = 'script_code' if fam in ('overwinter', 'sapling') else 'script'
    for what, parts in zip(('inputs', 'outputs'), few):
        yield 'building (%s)' % what, (lambda x: build(*x[1])), \
            Sized(n, parts)
        try:
            t = build(*parts)
        except Exception:
            continue
        for op in ('sighash_all', 'sighash_single'):
            for acp in (False, True):
                yield '%s (%s%s)' % (op, what, ', anyone can pay' * acp), (
                    lambda x: getattr(t, op)(
                        index=0, anyone_can_pay=acp, **{name: code}, **kw)), \
                    Sized(n, None)
        if fam == 'tx' and 'decred' not in network:
            yield 'check_is_standard_tx (%s)' % what, (
                lambda x: standard.check_is_standard_tx(t)), Sized(n, None)
        yield 'a copy (%s)' % what, (lambda x: t.copy()), Sized(n, None)
        fees = () if 'decred' in network else ([1] * len(parts[0]),)
        yield 'calculate_fee (%s)' % what, (
            lambda x: t.calculate_fee(*fees)), Sized(n, None)
    yield 'make_witness', tb.make_witness, [b'x'] * (n // 4)
    yield 'simple.outpoint', lambda x: simple.outpoint(x, 0), 'a' * n * 8


def main(repo, so, seed, network):
    count = ctypes.CDLL(so).monitored_allocations
    count.restype = ctypes.c_ulonglong
    sys.path.insert(0, repo)
    import riemann
    riemann.select_network(network)
    out = []
    n = random.Random(int(seed)).randrange(18000, 23000)
    if not network.startswith(('zcash', 'decred')):
        n *= 3      # the others have no limit of 100 kB
    for times in (1, 1, 4):     # the first fills what is kept for later
        rows = []
        for name, f, x in requests(random.Random(int(seed)), network,
                                   n * times):
            before = count()
            try:
                f(x)
                ok = True
            except Exception:
                ok = False
            rows.append((name, len(x), count() - before, ok))
        out.append(rows)
    json.dump(out[1:], sys.stdout)


if __name__ == '__main__':
    main(*sys.argv[1:])
