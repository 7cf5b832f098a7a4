'''A catalogue of library operations for history and concurrency monitors.

run(net, seed) performs a handful of operations chosen by the seed on inputs
that are drawn before the network is looked at, so that one seed gives the
same bytes, texts and keys to every network. It returns plain data: the
results, or the types of the exceptions raised.
'''
import random

import riemann
from riemann import simple, utils
from riemann import blake256 as lib_blake
from riemann.encoding import addresses, base58, bech32, cashaddr
from riemann.networks import standard
from riemann.script import serialization as ser
from riemann.tx import tx_builder as tb

from . import build
from .build import B, CLASS, SH, by, make, sighash, snapshot
from .gen import Gen
from .ref import addr as raddr, nets, script as rscript, tx as rtx
from .ref.prim import vi


def plain(x):
    if isinstance(x, SH.ByteData):
        return snapshot(x)
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, (bytearray, memoryview)):
        return bytes(x)
    return x


def attempt(f, *a, **k):
    try:
        return plain(f(*a, **k))
    except Exception as e:
        return 'raised ' + type(e).__name__


class Inputs:
    '''drawn without reference to the network'''

    def __init__(self, seed):
        self.seed = seed
        r = random.Random('ops/%d' % seed)
        g = self.g = Gen(r)
        main = nets.BY['bitcoin_main']
        self.h20, self.h32 = r.randbytes(20), r.randbytes(32)
        self.pk = g.pubkey()
        self.msg = g.blob(150)
        self.n = g.u64()
        self.m = g.u32()
        self.script = g.minimal_script(main, hi=200)
        self.bad = g.near(self.script)
        self.ops = ' '.join(g.pick(sorted(set(rscript.names(main)) | {
            'OP_BLAKE256', 'OP_SHA256'}) + ['aabb', 'OP_BOGUS'])
            for _ in range(g.r.randrange(1, 5)))
        self.ops = self.ops.replace('OP_CODESEPARATOR', 'OP_DUP')
        self.raw = bytes(g.pick((168, 192, 118, 172, 186, 0x51, 171, 80))
                         for _ in range(g.r.randrange(1, 4)))
        self.templates = [g.template(k, self.h32 if k == 'p2wsh' else
                                     self.h20) for k in raddr.KINDS]
        n = g.pick(nets.NETS)
        self.addrs = [raddr.encode(n, k, self.h32 if k == 'p2wsh' else
                                   self.h20) for k in raddr.kinds(n)]
        self.addrs += [raddr.encode(nets.BY[m], 'p2pkh', self.h20)
                       for m in ('bitcoin_main', 'bitcoin_test',
                                 'bitcoin_cash_main')]
        self.addrs = [a for a in self.addrs if a]
        self.txseed = r.randrange(1 << 60)
        # Bitcoin-format transaction, the same for every network
        self.t = g.tx(main, 'tx', nin=g.r.randrange(1, 4),
                      nout=g.r.randrange(1, 4), big=0)
        self.plan = [r.random() for _ in range(40)]


_cache = {}


def inputs(seed):
    if seed not in _cache:
        if len(_cache) > 4000:
            _cache.clear()
        _cache[seed] = Inputs(seed)
    return _cache[seed]


def own_tx(net, seed):
    '''a transaction in the network's format'''
    g = Gen(random.Random('tx/%d' % inputs(seed).txseed))
    return g.tx(net, nin=g.r.randrange(1, 4), nout=g.r.randrange(1, 4),
                big=0)


def digests(o, t, net, x, n=2):
    g = Gen(random.Random('sig/%d' % x.seed))
    out = []
    if t['kind'] == 'decred' and not t['wits']:
        return out
    for _ in range(n):
        idx = g.r.randrange(len(t['ins']))
        typ = g.pick((rtx.ALL, rtx.SINGLE))
        s = g.template('p2pkh')
        if t['kind'] != 'decred':
            s = vi(len(s)) + s
        out.append(attempt(sighash, o, t, net, idx, typ, s, g.b8(),
                           g.chance(.5)))
    return out


def groups(net, x):
    '''-> [(name, function returning plain data)]'''
    def hashes():
        return [attempt(f, x.msg) for f in (
            utils.sha256, utils.rmd160, utils.hash160, utils.hash256,
            utils.blake256, utils.blake2b, utils.blake2s)] + [
                attempt(lib_blake.BLAKE(512).digest, x.msg)]

    def scripts():
        return [attempt(f, a) for f, a in (
            (ser.serialize, x.ops), (ser.hex_serialize, x.ops),
            (ser.deserialize, x.script), (ser.deserialize, x.raw),
            (ser.deserialize, x.bad), (ser.hex_deserialize, x.raw.hex()),
            (ser.serialize, 'OP_DUP OP_SHA256 OP_BLAKE256 ' + x.h20.hex()))]

    def to_addresses():
        return [attempt(addresses.from_output_script, s)
                for s in x.templates] + [
            attempt(addresses.from_output_script, x.templates[0],
                    cashaddr=False),
            attempt(addresses.from_output_script, x.script)] + [
            attempt(f, x.pk) for f in (
                addresses.make_p2pkh_address, addresses.make_p2wpkh_address,
                addresses.make_legacy_p2pkh_address)] + [
            attempt(f, o + x.h20.hex()) for f in (
                addresses.make_p2sh_address, addresses.make_p2wsh_address,
                addresses.make_sh_address,
                addresses.make_legacy_p2sh_address)
            # names whose meaning depends on the network
            for o in ('OP_DUP ', 'OP_SHA256 ', 'OP_BLAKE256 OP_1 ')]

    def from_addresses():
        out = []
        for a in x.addrs:
            out.append([attempt(f, a) for f in (
                addresses.to_output_script, addresses.parse,
                addresses.parse_hash)])
            out.append(attempt(simple.output, x.n, a))
        own = raddr.encode(net, 'p2sh', x.h20)
        out += [attempt(addresses.to_output_script, own),
                attempt(addresses.parse_hash, own)]
        return out

    def codecs():
        return [attempt(base58.encode, x.msg[:40]),
                attempt(base58.decode, raddr.b58check(
                    nets.BY['bitcoin_main'], x.h20)),
                attempt(base58.decode, raddr.b58check(
                    nets.BY['decred_main'], x.h20)),
                attempt(base58.has_checksum, raddr.b58check(net, x.h20)),
                attempt(bech32.encode, b'\0\x14' + x.h20),
                attempt(bech32.encode, b'\0\x20' + x.h32),
                attempt(bech32.decode, raddr.segwit_enc('bc', 0, x.h20)),
                attempt(bech32.decode, raddr.segwit_enc('tb', 0, x.h32)),
                attempt(cashaddr.encode, b'\0' + x.h20),
                attempt(cashaddr.decode, raddr.cash_enc(
                    'bitcoincash', b'\x08' + x.h20)),
                attempt(cashaddr.decode, raddr.cash_enc(
                    'bchtest', b'\0' + x.h20))]

    def outputs():
        return [attempt(f, *a) for f, a in (
            (tb.make_p2pkh_output, (x.n, x.pk)),
            (tb.make_p2wpkh_output, (x.n, x.pk)),
            (tb.make_p2sh_output, (x.n, 'OP_1 ' + x.h20.hex())),
            (tb.make_p2wsh_output, (x.n, 'OP_1 ' + x.h20.hex())),
            (tb.make_p2sh_output, (x.n, 'OP_SHA256 OP_1 ' + x.h20.hex())),
            (tb.make_p2wsh_output, (x.n, 'OP_SHA256 OP_1 ' + x.h20.hex())),
            (tb.make_sh_output_script, ('OP_SHA256 ' + x.h20.hex(),)),
            (tb.make_sh_output_script, ('OP_SHA256 ' + x.h20.hex(), True)),
            (tb.make_op_return_output, (x.h32,)),
            (tb.make_sh_script_pubkey, (x.script,)),
            (tb.make_sh_script_pubkey, (x.script, True)))]

    def inputs_():
        o = attempt(tb.make_outpoint, x.h32, x.m)
        r = [o, attempt(simple.outpoint, x.h32.hex(), x.m)]
        try:
            p = tb.make_outpoint(x.h32, x.m)
            r += [attempt(tb.make_witness_input, p, x.m),
                  attempt(tb.make_legacy_input, p, b'\1\2', b'', x.m),
                  attempt(simple.unsigned_input, p),
                  attempt(tb.make_witness, [x.h20, x.pk])]
            i = simple.unsigned_input(p)
            out = tb.make_p2pkh_output(x.n, x.pk)
            r.append(attempt(simple.unsigned_legacy_tx, [i], [out],
                             lock_time=x.m, expiry=x.m % 499999999,
                             tx_joinsplits=[]))
        except Exception as e:
            r.append('raised ' + type(e).__name__)
        return r

    def own():
        t = own_tx(net, x.seed)
        try:
            o = make(t)
        except Exception as e:
            return 'raised ' + type(e).__name__
        out = [plain(o), digests(o, t, net, x), attempt(o.copy)]
        vals = [x.n + k for k in range(len(t['ins']))]
        out.append(attempt(o.calculate_fee, *(
            [] if net.decred else [vals])))
        if t['kind'] != 'decred':
            out.append(attempt(CLASS[t['kind']].from_bytes, rtx.full(t)))
            out.append(attempt(CLASS[t['kind']].from_bytes,
                               rtx.full(t)[:-3]))
        return out

    def bitcoin():
        try:
            o = make(x.t)
        except Exception as e:
            return 'raised ' + type(e).__name__
        return [plain(o), digests(o, x.t, net, x),
                attempt(B.Tx.from_bytes, rtx.full(x.t)),
                attempt(standard.check_is_standard_tx, o),
                attempt(standard.check_is_standard, o),
                attempt(standard.check_tx_size_small, o),
                attempt(o.calculate_fee, [x.n] * len(x.t['ins']))]

    def parts():
        i, o = x.t['ins'][0], x.t['outs'][0]
        return [attempt(B.TxIn.from_bytes, rtx.txin(i)),
                attempt(B.TxOut.from_bytes, rtx.txout(o)),
                attempt(B.Outpoint.from_bytes, rtx.outpoint(i)),
                attempt(build.txin, i), attempt(build.txout, o),
                attempt(B.InputWitness.from_bytes, rtx.witness(
                    [x.h20, x.pk])),
                attempt(SH.VarInt, x.n), attempt(SH.VarInt.from_bytes,
                                                 vi(x.n) + b'\7'),
                attempt(B.TxIn.from_bytes, rtx.txin(i)[:-2])]

    def foreign():
        '''classes of every family: refused where they do not belong'''
        out = []
        for name in ('decred_main', 'zcash_sprout_main',
                     'zcash_overwinter_test', 'zcash_sapling_main'):
            n2 = nets.BY[name]
            t = own_tx(n2, x.seed)
            out.append(attempt(make, t))
            if not n2.decred:
                out.append(attempt(CLASS[t['kind']].from_bytes,
                                   rtx.full(t)))
        return out

    def current():
        c = riemann.get_current_network()
        return [attempt(riemann.get_current_network_name), c is
                riemann.network, c.SYMBOL, c.SEGWIT, c.FORKID,
                c.NETWORK_NAME, c.SUBNET_NAME]

    return [('hashes', hashes), ('scripts', scripts),
            ('to addresses', to_addresses),
            ('from addresses', from_addresses), ('codecs', codecs),
            ('outputs', outputs), ('inputs', inputs_), ('own', own),
            ('bitcoin', bitcoin), ('parts', parts), ('foreign', foreign),
            ('current', current)]


NAMES = [n for n, _ in groups(nets.NETS[0], inputs(0))]


def run(net, seed, only=None):
    '''-> {group: results} for some groups chosen by the seed'''
    x = inputs(seed)
    todo = groups(net, x)
    if only is not None:
        todo = [p for p in todo if p[0] in only]
    return {n: f() for n, f in todo}


def chosen(seed, k=5):
    r = random.Random('groups/%d' % seed)
    return r.sample(NAMES, k)
