'''C20 C21 C22: the selected network, concurrency, network parameters.'''
import os
import subprocess
import sys

import riemann
from riemann import networks, simple, utils
from riemann.encoding import addresses
from riemann.networks import networks as nmod
from riemann.script import serialization as ser
from riemann.tx import tx_builder as tb

from .. import core, ops
from ..core import Check, REPO
from ..build import B, by, make, select, sighash, snapshot, show
from ..ref import addr as raddr, nets, script as rscript, tx as rtx
from ..ref.prim import vi
from ..zygote import Died, Zygote

BAD = ['', ' ', 'bitcoin', 'main', 'bitcoin_', '_main', 'BITCOIN_MAIN',
       'Bitcoin_main', 'bitcoin_main ', ' bitcoin_main', 'bitcoin_mainn',
       'bitcoin-main', 'bitcoin main', 'bitcoin_regtest', 'bitcoin_testnet',
       'bitcoin_simnet', 'decred_reg', 'decred', 'viacoin_reg', 'zcash_main',
       'zcash_sapling', 'zcash_sprout_simnet', 'litecoin_mai', 'bitcon_main',
       'bitcoin_main\n', 'bitcoin_main\0', 'BitcoinMain', 'ethereum_main',
       'bitcoin_main,litecoin_main', None, 0, 1, b'bitcoin_main',
       ('bitcoin_main',), True]


def bad_name(g):
    c = g.r.random()
    if c < .6:
        return g.pick(BAD)
    n = g.pick(nets.NAMES)
    if c < .7:
        n = n.upper()
    elif c < .8:
        n = n[:-1]
    elif c < .9:
        n = n + g.pick('x _0')
    else:
        n = g.pick(nets.NETS).chain + '_' + g.pick(('simnet', 'regtest', 'x',
                                                    'live', 'MAIN'))
    return n if n not in nets.BY else ''


class C20(Check):
    id = 'C20'
    quick, thorough = 640, 12000
    rule = ('random histories of selections (also refused ones), operations '
            'on inputs shared by all networks, refused operations and '
            'operations on objects built earlier; every result compared '
            'with the one the same operations give in a process forked '
            'before anything else happened, with only the current network '
            'selected; a state is previous network, current network and '
            'operation group')
    need = {'selections': 3000, 'refused selections': 700,
            'compared with a fresh process': 5000, 'old objects': 5000,
            'no selection': 30}

    def setup(self, cx):
        self.z = Zygote()
        self.start = {c: dict(vars(c)) for c in vars(nmod).values()
                      if isinstance(c, type)}
        self.memo = {}

    def ask(self, cx, *a):
        if a not in self.memo:
            if len(self.memo) > 3000:
                self.memo.clear()
            try:
                self.memo[a] = self.z.call('mon.conc', *a)
            except Died as e:
                cx.fail('fresh process', '%s %s' % (a, e))
        return self.memo[a]

    def judge(self, cx, net, seed, groups, prev):
        got = ops.run(net, seed, groups)
        want = self.ask(cx, 'fresh', net.name, seed, tuple(groups))
        for k in got:
            cx.event('compared with a fresh process')
            cx.state(prev, net.name, k)
            if got[k] != want[k]:
                w, h = str(want[k]), str(got[k])
                n = next((j for j in range(min(len(w), len(h)))
                          if w[j] != h[j]), 0)
                cx.fail('%s on %s depend on the history' % (k, net.name),
                        'here ...%s..., in a fresh process ...%s...'
                        % (h[max(0, n - 60):n + 60],
                           w[max(0, n - 60):n + 60]))

    def initial(self, cx):
        g = cx.g
        s = g.r.randrange(1 << 30)
        gs = tuple(ops.chosen(s, 3))
        name, got = self.ask(cx, 'initial', s, gs)
        cx.eq('the initial selection', name, 'bitcoin_main')
        cx.eq('results without a selection', got, self.ask(
            cx, 'fresh', 'bitcoin_main', s, gs))
        cx.event('no selection')

    def case(self, cx, i):
        g = cx.g
        if i < 8:
            self.interpreter(cx, i)
        self.initial(cx)
        seeds = [g.r.randrange(1 << 30) for _ in range(g.pick((1, 2, 4)))]
        pool = [g.any_net() for _ in range(g.r.randrange(2, 7))]
        if g.chance(.5):
            pool.append(g.pick(nets.DECRED))
        if g.chance(.4):     # variants of one chain
            c = g.pick(pool).chain
            pool += [n for n in nets.NETS if n.chain == c]
        if g.chance(.3):     # networks that share a prefix
            p = g.pick(nets.NETS).p2pkh
            pool += [n for n in nets.NETS if n.p2pkh == p]
        net = g.pick(pool)
        select(net)
        prev = None
        live = []
        for _ in range(g.pick((8, 14, 30))):
            c = g.r.random()
            if c < .4:
                prev, net = net.name, g.pick(pool)
                cx.event('selections')
                r = cx.ok('select_network', riemann.select_network, net.name)
                cx.eq('the name of the current network', cx.ok(
                    'get_current_network_name',
                    riemann.get_current_network_name), net.name)
            elif c < .5:
                bad = bad_name(g)
                cx.event('refused selections')
                cx.refused('select_network(%r)' % (bad,),
                           riemann.select_network, bad)
                cx.eq('the current network after a refused selection',
                      riemann.get_current_network_name(), net.name)
                cx.true('the current network after a refused selection',
                        riemann.get_current_network().P2PKH_PREFIX
                        == net.p2pkh)
            elif c < .6:
                s = g.pick(seeds)
                x = ops.inputs(s)
                t = x.t if g.chance(.5) else ops.own_tx(net, s)
                ok, o = cx.attempt(make, t)
                if ok:
                    live.append((o, t, s, net, self.lasting(o)))
            s = g.pick(seeds)
            gs = ops.chosen(g.r.randrange(1 << 20), g.pick((1, 1, 2, 3)))
            self.judge(cx, net, s, gs, prev)
            for o, t, s, n0, was in live[-6:]:
                cx.event('old objects')
                now = self.lasting(o)
                if now != was:
                    k = [k for k in was if now.get(k) != was[k]]
                    cx.fail('an object built earlier changed',
                            '%s built on %s, now %s: %s' % (
                                t['kind'], n0.name, net.name, k))
                x = ops.inputs(s)
                if t is x.t:
                    w = self.ask(cx, 'fresh_object', net.name, s)
                    if not isinstance(w, str):
                        cx.eq('digests on %s of an object built on %s'
                              % (net.name, n0.name), ops.digests(
                                  o, t, net, x), w[1])
                        cx.event('old objects used')
        if i % 101 == 5:
            cx.sample(pool=[n.name for n in pool], seeds=seeds)

    @staticmethod
    def lasting(o):
        return snapshot(o)

    def interpreter(self, cx, i):
        '''really fresh interpreters'''
        code = ('import sys; sys.path.insert(0, %r); %s\nimport riemann\n'
                'print(riemann.get_current_network_name())\n'
                'from riemann.encoding import addresses as a\n'
                'print(a.make_p2pkh_address(b"\\2" * 33))\n' % (
                    REPO, ('import riemann', 'import riemann.tx.decred',
                           'from riemann.tx import sapling',
                           'import riemann.simple',
                           'from riemann.encoding import cashaddr',
                           'from riemann.networks import standard',
                           'from riemann.script import examples',
                           'import riemann.tx.tx_builder')[i % 8]))
        p = subprocess.run([sys.executable, '-B', '-S', '-c', code],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=120, cwd='/', env={
                               'PATH': '/usr/bin:/bin'})
        main = nets.BY['bitcoin_main']
        from ..ref.prim import hash160
        want = 'bitcoin_main\n%s\n' % raddr.encode(
            main, 'p2pkh', hash160(main, b'\2' * 33))
        cx.eq('a fresh interpreter', p.stdout.decode(), want,
              p.stderr.decode()[-300:])

    def finish(self, cx):
        for c, was in self.start.items():
            now = dict(vars(c))
            for k in was:
                if not k.startswith('__') and k in now and \
                        isinstance(was[k], (str, bytes, int, type(None))):
                    cx.eq('%s.%s after all histories' % (c.__name__, k),
                          now[k], was[k])


# ---- C21 ----------------------------------------------------------------

class C21(Check):
    id = 'C21'
    quick, thorough = 1000, 20000
    coverage = False
    rule = ('2 to 6 threads on one network, on shared and separate objects '
            'and inputs, in a process forked before the library was used '
            '(cold) or after (warm); scheduled deterministically by a seed '
            'with hand-overs at library lines or bytecodes, or left to the '
            'interpreter switching every microsecond; every result compared '
            'with the one the same calls give alone; a state is a distinct '
            'interleaving')
    need = {'schedules': 300, 'switches': 20000, 'results': 3000,
            'switch places': 200}
    assumptions = Check.assumptions + [
        'threads are interleaved at bytecode granularity under the GIL; no '
        'free-threaded build is installed']

    def setup(self, cx):
        self.z = Zygote()
        self.places = set()

    def case(self, cx, i):
        g = cx.g
        net = nets.NETS[i % 72] if i < 144 else g.any_net()
        seed = g.r.randrange(1 << 40)
        width = g.pick((2, 2, 3, 4, 6)) if not net.decred else \
            g.pick((2, 3))
        c = g.r.random()
        if c < .15:
            mode = ('free',)
        elif c < .45:
            mode = ('line', g.pick((.5, .2, .05)), False, 0)
        elif c < .6:
            mode = ('line', g.pick((.02, .005)), False, 0)
        elif c < .8:
            mode = ('line', .3, False, g.pick((20, 100, 400)))
        else:
            mode = ('opcode', g.pick((.2, .05, .01)), True,
                    g.pick((0, 50)))
        if net.decred and mode[0] != 'free':
            mode = mode[:1] + (min(mode[1], .03), False, mode[3])
        warm = g.chance(.3)
        try:
            want, lines = self.z.call(
                'mon.conc', 'sequential', net.name, seed, width,
                i % 32 in (3, 12))
            got, err, stats, left = self.z.call(
                'mon.conc', 'concurrent', net.name, seed, width, mode, warm)
        except Died as e:
            cx.fail('no answer', '%s %s' % (mode, e))
        core._lines.update(tuple(x) for x in lines)
        cx.event('schedules')
        cx.event(mode[0] + ' schedules')
        cx.event('switches', stats.get('switches', 0))
        cx.event('points', stats.get('points', 0))
        new = set(stats.get('places', ())) - self.places
        self.places |= new
        cx.event('switch places', len(new))
        if stats:
            cx.state(stats['trail'])
        else:
            cx.state(net.name, seed, 'free')
        for k in range(width):
            if err[k]:
                cx.fail('a thread failed', '%s, thread %d of %d on %s: %s'
                        % (mode, k, width, net.name, err[k]))
            for a, b in zip(got[k], want[k]):
                cx.event('results')
                if a != b:
                    w, h = str(b), str(a)
                    n = next((j for j in range(min(len(w), len(h)))
                              if w[j] != h[j]), 0)
                    cx.fail('concurrent use differs', '%s, thread %d of %d '
                            'on %s: ...%s... alone ...%s...' % (
                                mode, k, width, net.name,
                                h[max(0, n - 80):n + 80],
                                w[max(0, n - 80):n + 80]))
            cx.eq('results of a thread', len(got[k]), len(want[k]))
        cx.eq('the selected network afterwards', left, net.name)
        if i % 301 == 5:
            cx.sample(net=net.name, width=width, mode=str(mode), **{
                k: v for k, v in stats.items() if k != 'places'})


# ---- C22 ----------------------------------------------------------------

class C22(Check):
    id = 'C22'
    quick, thorough = 72 * 6, 72 * 60
    rule = ('each of the 72 networks selected, in a new order each round; '
            'its attributes, the addresses, scripts, fork id digests and '
            'opcodes it produces and accepts compared with a table of '
            'published parameters; all 256 opcode bytes and all names on '
            'every network; a state is network and parameter')
    need = {'parameters': 3000, 'opcodes': 90000, 'addresses': 3000,
            'digests': 300}
    exhaustive = ('72 networks; on each, all 256 opcode bytes and every '
                  'opcode name of either table')

    def setup(self, cx):
        import random
        self.order = {}
        for k in range(100):
            xs = list(nets.NETS)
            if k:
                random.Random('order/%d/%d' % (cx.seed, k)).shuffle(xs)
            self.order[k] = xs

    def case(self, cx, i):
        g = cx.g
        # shards take every eighth case: walk each round in shard order
        net = self.order[i // 72 % 100][i % 72]
        cx.ok('select_network', riemann.select_network, net.name)
        n = cx.ok('get_current_network', riemann.get_current_network)
        for k, want in (
                ('SYMBOL', net.symbol), ('NETWORK_NAME', net.chain),
                ('SUBNET_NAME', net.subnet), ('P2PKH_PREFIX', net.p2pkh),
                ('P2SH_PREFIX', net.p2sh), ('SEGWIT', net.segwit),
                ('FORKID', net.forkid),
                ('CASHADDR_PREFIX', net.cashaddr)):
            cx.event('parameters')
            cx.state(net.name, k)
            cx.eq('%s of %s' % (k, net.name), getattr(n, k), want)
        if net.segwit and net.hrp:
            cx.eq('BECH32_HRP of ' + net.name, n.BECH32_HRP, net.hrp)
        cx.eq('name', riemann.get_current_network_name(), net.name)
        cx.true('the supported name selects that class',
                networks.get_network(net.name) is n)
        self.addresses(cx, net)
        self.opcodes(cx, net)
        self.digests(cx, net)
        if i % 97 == 5:
            cx.sample(net=net.name)

    def addresses(self, cx, net):
        g = cx.g
        for _ in range(3):
            h20, h32 = g.r.randbytes(20), g.r.randbytes(32)
            for kind in raddr.KINDS:
                h = h32 if kind == 'p2wsh' else h20
                s = raddr.script(kind, h)
                want = raddr.encode(net, kind, h)
                cx.event('addresses')
                cx.state(net.name, kind)
                if want is None:
                    if kind not in raddr.kinds(net):
                        cx.refused('a %s address on %s' % (kind, net.name),
                                   addresses.from_output_script, s)
                    continue
                if net.segfmt != 'bech32' and kind.startswith('p2w'):
                    continue
                cx.eq('%s address on %s' % (kind, net.name), cx.ok(
                    'from_output_script', addresses.from_output_script, s),
                    want)
                cx.eq('%s script on %s' % (kind, net.name), by(cx.ok(
                    'to_output_script', addresses.to_output_script, want)),
                    s)
                if net.cashaddr:
                    old = raddr.encode(net, kind, h, cashaddr=False)
                    cx.eq('legacy %s address on %s' % (kind, net.name),
                          addresses.from_output_script(s, cashaddr=False),
                          old)
                    cx.eq('legacy %s script' % kind, by(
                        addresses.to_output_script(old)), s)
        # addresses of other networks
        for other in g.r.sample(nets.NETS, 12):
            kind = g.pick(raddr.kinds(other))
            h = g.r.randbytes(32 if kind == 'p2wsh' else 20)
            a = raddr.encode(other, kind, h)
            if a is None:
                continue
            may = raddr.decode(net, a)
            ok, r = cx.attempt(addresses.to_output_script, a)
            cx.event('addresses')
            if ok and by(r) not in [raddr.script(*m) for m in may]:
                cx.fail('an address of %s read on %s' % (
                    other.name, net.name), '%s -> %s' % (a, by(r).hex()))
            if not ok and may and not (net.segfmt != 'bech32' and all(
                    m[0].startswith('p2w') for m in may)):
                cx.fail('an address of %s refused on %s' % (
                    other.name, net.name), a)

    def opcodes(self, cx, net):
        t = rscript.table(net)
        for b in range(256):
            cx.event('opcodes')
            if 1 <= b <= 77:
                continue
            s = bytes([b])
            if b in rscript.BANNED or b not in t:
                cx.refused('opcode %d on %s' % (b, net.name),
                           ser.deserialize, s)
                continue
            cx.eq('opcode %d on %s' % (b, net.name), cx.ok(
                'deserialize', ser.deserialize, s), t[b])
            cx.eq('%s on %s' % (t[b], net.name), bytes(cx.ok(
                'serialize', ser.serialize, t[b])), s)
            cx.state(net.name, b)
        if not net.decred:
            cx.refused('OP_BLAKE256 on ' + net.name, ser.serialize,
                       'OP_BLAKE256')

    def digests(self, cx, net):
        '''the fork id, seen through a digest'''
        if net.family != 'bitcoin':
            return
        g = cx.g
        t = g.tx(net, flag=g.chance(.5), nin=2, nout=2, big=0)
        o = cx.ok('build', make, t)
        s = g.template('p2pkh')
        s = vi(len(s)) + s
        for typ in (rtx.ALL, rtx.SINGLE):
            a = (1, typ, s, g.b8(), g.chance(.5))
            cx.event('digests')
            cx.eq('digest on ' + net.name, by(cx.ok(
                'digest', sighash, o, t, net, *a)), rtx.digest(net, t, *a))
