'''C04 C05 C28 C29: signature digests.'''
from ..core import Check
from ..build import (by, make, select, sighash, snapshot, CLASS, SH)
from ..gen import clone, shape
from ..ref import nets, tx as rtx
from ..ref.prim import vi
from .wire import wrap, long_out, recut

ALL, NONE, SINGLE = rtx.ALL, rtx.NONE, rtx.SINGLE


def prep(s):
    return vi(len(s)) + s


def indices(g, t, k=2):
    n = len(t['ins'])
    out = [g.r.randrange(n) for _ in range(k)]
    if g.chance(.3):
        out.append(n - 1)
    if n > 250:
        out += [min(n - 1, x) for x in (251, 252, 253, 255, 256)]
    return out


def requests(cx, net, t, k=2):
    '''legitimate digest requests for t: (idx, typ, script, amount, acp, js)'''
    g = cx.g
    kind = t['kind']
    out = []
    if t['ins']:
        types = [ALL, SINGLE]
        if kind in ('overwinter', 'sapling'):
            types = [ALL, NONE, SINGLE]
        for idx in indices(g, t, k):
            for typ in types:
                if typ == SINGLE and idx >= len(t['outs']):
                    continue
                for acp in (False, True):
                    if kind == 'sprout' and t['js'] and \
                            (acp or typ == SINGLE):
                        continue
                    s = g.sign_script(net, 1650 if kind in ('tx', 'sprout')
                                      else 1650)
                    if kind != 'decred':
                        s = prep(s)
                    out.append((idx, typ, s, g.b8(), acp, False))
    elif kind == 'sprout':
        out.append((0, ALL, b'\0', b'', False, False))
    if kind in ('overwinter', 'sapling') and (t['js'] or t['spends']
                                              or t['souts']):
        out.append((0, ALL, b'', b'', False, True))
    g.r.shuffle(out)
    return out


def base_types(t):
    return 'w' if t['flag'] else 'l'


class Digests(Check):
    '''compare every digest with the reference'''
    quick, thorough = 7000, 120000
    need = {'digests': 5000, 'siblings': 500}

    def net(self, cx):
        raise NotImplementedError

    def tx(self, cx, net):
        raise NotImplementedError

    def judge(self, cx, o, t, net, q, again=True):
        g = cx.g
        idx, typ, script, amount, acp, js = q
        want = rtx.digest(net, t, idx, typ, script, amount, acp, js)
        w = wrap(g, 0 if g.chance(.85) else 1)
        kw = dict(net=net, idx=idx, typ=typ, script=w(script),
                  amount=w(amount), acp=acp, js=js, style=g.r.randrange(16))
        if t['kind'] == 'tx' and net.forkid is None and not t['flag'] \
                and g.chance(.6):
            kw['amount'] = None
        got = cx.ok('digest', sighash, o, t, **kw)
        cx.event('digests')
        cx.eq('%s digest, type %d%s, input %d of %d, %d outputs on %s'
              % (t['kind'], typ, ' anyone can pay' * acp, idx,
                 len(t['ins']), len(t['outs']), net.name), by(got), want,
              rtx.full(t)[:60])
        cx.state(net.name, t['kind'], t['flag'], typ, acp, js,
                 min(len(t['ins']), 5), min(len(t['outs']), 5), min(idx, 4),
                 len(vi(len(script))))

    def case(self, cx, i):
        g = cx.g
        net = self.net(cx)
        select(net)
        t = self.tx(cx, net)
        o = cx.ok('build', make, t, wrap(g, g.pick((0, 0, 1))))
        if t['kind'] != 'decred' and g.chance(.3) and not long_out(t):
            o = cx.ok('parse', CLASS[t['kind']].from_bytes, rtx.full(t))
        before = snapshot(o)
        qs = requests(cx, net, t)
        t2 = o2 = None
        large = t['kind'] == 'decred' and len(t['ins']) + len(t['outs']) > 200
        if large:  # BLAKE in Python is slow
            qs = qs[:4]
        if g.chance(.5) and not large:
            t2, f = g.sibling(net, t)
            o2 = cx.ok('build', make, t2)
        for q in qs:
            self.judge(cx, o, t, net, q)
            if o2 is not None:
                self.judge(cx, o2, t2, net, q)
                cx.event('siblings')
        for q in qs[:3]:  # asking again gives the same
            self.judge(cx, o, t, net, q)
            idx, typ, script, amount, acp, js = q
            if not js and t['ins']:
                q2 = (idx, typ, script, g.b8(), acp, js) if g.chance(.5) \
                    else (idx, typ, prep(g.sign_script(net))
                          if t['kind'] != 'decred' else g.sign_script(net),
                          amount, acp, js)
                self.judge(cx, o, t, net, q2)
        if snapshot(o) != before:
            cx.fail('signing changed the transaction', t['kind'])
        if i % 401 == 3 and qs:
            cx.sample(net=net.name, tx=rtx.full(t), request=str(qs[0]))


class C04(Digests):
    id = 'C04'
    rule = ('random transactions without the witness marker on networks '
            'without a fork id; every type with and without ANYONECANPAY for '
            'several inputs and scripts (empty to 1650 bytes), in random '
            'order, repeated, and interleaved with a transaction that differs '
            'in one field; digests compared with an independent '
            'implementation of the original algorithm; a state is network, '
            'shape and request')

    def net(self, cx):
        g = cx.g
        if g.chance(.1):
            return g.pick(nets.SPROUT + nets.OVERWINTER + nets.SAPLING)
        return g.any_net(nets.PLAIN)

    def tx(self, cx, net):
        return cx.g.tx(net, 'tx', flag=False, long_scripts=True, big=.008)


class C05(Digests):
    id = 'C05'
    rule = ('random witness-marked transactions on every network, and '
            'transactions of both kinds on the networks with a fork id; every '
            'type with and without ANYONECANPAY for several inputs, scripts '
            'and amounts, in random order, repeated, and interleaved with a '
            'transaction that differs in one field; digests compared with an '
            'independent BIP143 implementation; a state is network, shape '
            'and request')

    def net(self, cx):
        g = cx.g
        if g.chance(.35):
            return g.pick(nets.FORKID)
        return g.any_net(nets.BITCOIN_LIKE)

    def tx(self, cx, net):
        flag = True if net.forkid is None else cx.g.chance(.4)
        return cx.g.tx(net, 'tx', flag=flag, long_scripts=True, big=.008)

    def judge(self, cx, o, t, net, q, again=True):
        Digests.judge(self, cx, o, t, net, q, again)
        if cx.g.chance(.3):
            # the method for BIP143 itself, whatever the network
            idx, typ, script, amount, acp, js = q
            kw = {'anyone_can_pay': acp} if acp or cx.g.chance(.5) else {}
            cx.event('direct digests')
            cx.eq('segwit_sighash, type %d%s, input %d of %d, %d outputs on '
                  '%s' % (typ, ' anyone can pay' * acp, idx, len(t['ins']),
                          len(t['outs']), net.name), by(cx.ok(
                              'segwit_sighash', o.segwit_sighash, index=idx,
                              sighash_type=typ, prevout_value=amount,
                              script=script, **kw)),
                  rtx.bip143(nets.NETS[0], t, idx, typ, script, amount, acp))


# ---- what a digest commits to -------------------------------------------

def committed(t, bip143, idx, typ, acp, js, field, pos):
    '''does a digest for input idx commit to this field? (None: not judged)'''
    k = t['kind']
    if field in ('version', 'lock', 'expiry', 'vb'):
        return True
    if field in ('txid', 'index', 'tree'):
        return pos == idx and not js or not acp
    if field == 'seq':
        if pos == idx and not js:
            return True
        return typ == ALL and not acp
    if field in ('stack', 'redeem', 'wit', 'jssig', 'bsig', 'auth'):
        return False
    if field in ('value', 'script', 'ver'):
        if typ == ALL:
            return True
        if typ == NONE:
            return False
        if pos == idx:
            return True
        if pos > idx:
            return False
        # outputs before the one signed: Decred keeps their version
        return field == 'ver'
    if field in ('js', 'jspk', 'spend', 'sout'):
        return True
    if field == 'in+':  # one more input at the end
        return not acp
    if field == 'out+':
        return typ == ALL
    what, of = field.split()    # twin or swap
    if of in ('js', 'spends', 'souts'):
        return True
    if js and typ != ALL:
        return None
    if of == 'ins':
        return True if not acp else False if min(pos) > idx or \
            what == 'swap' and idx not in pos else None
    if typ == ALL:
        return True
    if typ == NONE or min(pos) > idx:
        return False
    if what == 'twin':
        return None
    a, b = (t['outs'][x] for x in pos)
    return idx in pos or k == 'decred' and a['ver'] != b['ver']


def place(g, xs):
    return len(xs) - 1 if g.chance(.2) else g.r.randrange(len(xs))


def rearrange(g, net, t):
    '''an element repeated beside itself, or two exchanged'''
    k = t['kind']
    of = g.pick([f for f in ('ins', 'outs', 'outs', 'js', 'spends', 'souts')
                 if t.get(f)])
    n, what = clone(t), g.pick(('twin', 'swap'))
    xs = n[of]
    if what == 'swap':
        def held(x):    # what every digest that commits to x depends on
            return (x['txid'], x['index'], k == 'decred' and x['tree']) \
                if of == 'ins' else \
                rtx.full(dict(t, js=[x])) if of == 'js' else \
                {y: x[y] for y in x if y != 'spend_auth_sig' and (
                    y != 'ver' or k == 'decred')}
        a, b = place(g, xs), place(g, xs)
        if a == b or held(xs[a]) == held(xs[b]):
            return None
        for v in (xs, n['wits'] if of == 'ins' and n['wits'] else []):
            if v:
                v[a], v[b] = v[b], v[a]
        return n, 'swap ' + of, (a, b)
    if of == 'js' and len(xs) == 5:
        return None
    a = place(g, xs)
    xs.insert(a + 1, xs[a])
    if of == 'ins' and n['wits']:
        n['wits'].insert(a + 1, n['wits'][a])
    if k != 'tx' and len(rtx.full(n)) > 99000:
        return None
    return n, 'twin ' + of, (a + 1,)


def change(g, net, t):
    '''-> (changed spec, field, position)'''
    k = t['kind']
    if g.chance(.2):
        c = rearrange(g, net, t)
        if c:
            return c
    opts = ['version'] * (k in ('tx', 'decred')) + ['lock']
    opts += ['in'] * 4 * bool(t['ins']) + ['out'] * 4 * bool(t['outs'])
    opts += ['in+', 'out+']
    if t['expiry'] and k != 'sprout':
        opts.append('expiry')
    if t['wits']:
        opts += ['wit'] * 2
    if t.get('js'):
        opts += ['js', 'js', 'jspk', 'jssig']
    if t.get('spends'):
        opts += ['spend', 'auth', 'vb', 'bsig']
    if t.get('souts'):
        opts += ['sout', 'vb', 'bsig']
    while True:
        n = clone(t)
        f, pos = g.pick(opts), None
        if f in ('version', 'lock', 'expiry', 'jspk', 'jssig', 'vb', 'bsig'):
            lim = 16 if (f, k) == ('version', 'decred') else \
                28 if f == 'expiry' and k != 'decred' else None
            n[f] = g.flip(n[f], lim)
            if f == 'expiry' and k != 'decred' and rtx.u(n[f]) > 499999999:
                continue
        elif f == 'in':
            pos = place(g, n['ins'])
            fs = ['txid', 'index', 'seq']
            fs += ['tree'] if k == 'decred' else ['stack', 'redeem']
            f = g.pick(fs)
            i = n['ins'][pos]
            if f in ('stack', 'redeem'):
                other = i['redeem' if f == 'stack' else 'stack']
                i[f] = g.blob(min(100, 1650 - len(other)))
            else:
                i[f] = g.flip(i[f])
        elif f == 'out':
            pos = place(g, n['outs'])
            f = g.pick(('value', 'script') + ('ver',) * (k == 'decred'))
            o = n['outs'][pos]
            if f == 'script' and g.chance(.3):
                o[f] = o[f] + g.b(1) if g.chance(.5) or not o[f] \
                    else o[f][:-1]
            else:
                o[f] = g.flip(o[f]) if o[f] else b'\x6a'
        elif f == 'wit':
            pos = g.r.randrange(len(n['wits']))
            n['wits'][pos] = g.dcr_wit(net) if k == 'decred' else g.witness()
        elif f == 'in+':
            n['ins'].append(g.txin(net, scripts=False))
            if n['wits']:
                n['wits'].append([] if k == 'tx' else g.dcr_wit(net))
        elif f == 'out+':
            n['outs'].append(g.txout(net))
        elif f == 'js':
            pos = g.r.randrange(len(n['js']))
            j = n['js'][pos]
            x = g.pick(sorted(set(j) - {'vpub_old', 'vpub_new'}))
            if x == 'zkproof':
                j = j[x]
                x = g.pick(sorted(j))
            elif g.chance(.2):
                x = g.pick([v for v, w in (('vpub_old', 'vpub_new'), (
                    'vpub_new', 'vpub_old')) if not rtx.u(j[w])])
            j[x] = g.flip(j[x])
        elif f in ('spend', 'sout', 'auth'):
            vec = n['souts' if f == 'sout' else 'spends']
            pos = place(g, vec)
            s = vec[pos]
            x = 'spend_auth_sig' if f == 'auth' else g.pick(
                sorted(set(s) - {'spend_auth_sig'}))
            if x == 'zkproof':
                y = g.pick(sorted(s[x]))
                s[x][y] = g.flip(s[x][y])
            else:
                s[x] = g.flip(s[x])
        if n != t:
            return n, f, pos


class C28(Check):
    id = 'C28'
    quick, thorough = 2800, 56000
    rule = ('for random transactions of every format on every network, a '
            'digest before and after changing one thing (a field of an input '
            'or output at a random position, a witness or signature, an '
            'added, repeated or exchanged input, output or shielded part, '
            'script, amount, index, type); whether '
            'the two digests may differ is decided by a table of what each '
            'type commits to; a state is format, type, thing and relation to '
            'the signed index')
    need = {'changes judged': 10000, 'uncommitted': 2500, 'committed': 4000}

    def ask(self, cx, o, t, net, q):
        idx, typ, script, amount, acp, js = q
        return by(cx.ok('digest', sighash, o, t, net, idx, typ, script,
                        amount, acp, js, cx.g.r.randrange(4)))

    def case(self, cx, i):
        if i < 8:
            for n, v in (('ALL', 1), ('NONE', 2), ('SINGLE', 3),
                         ('FORKID', 0x40), ('ANYONECANPAY', 0x80)):
                cx.eq('the number of SIGHASH_' + n,
                      getattr(SH, 'SIGHASH_' + n), v)
        g = cx.g
        net = g.any_net()
        select(net)
        nin, nout = g.r.randrange(1, 6), g.r.randrange(1, 6)
        c = g.r.random()
        if c < .06:
            nin = g.r.randrange(6, 41)
        elif c < .12:
            nout = g.r.randrange(6, 41)
        elif c < .14 and not net.decred:
            nin = g.pick((64, 100, 128, 252, 253, 254, 256, 260))
        elif c < .16 and not net.decred:
            nout = g.pick((64, 100, 128, 252, 253, 254, 256, 260))
        many = not net.decred and g.chance(.012)
        if many:
            nin, nout = g.pick(((0, 1), (1, 0), (1, 1)))
            nin = g.r.randrange(500, 1700) if nin else 3
            nout = g.r.randrange(500, 1700) if nout else 3
        t = g.tx(net, big=0, nin=nin, nout=nout,
                 scripts=not many and g.chance(.5))
        if many:    # as short as they can be
            for x in t['outs']:
                x['script'] = x['script'][:3]
            t['wits'] = t['wits'] and [x[:1] if len(x) else x
                                       for x in t['wits']]
        if t['kind'] == 'sapling' and len(rtx.full(t)) < 30000 \
                and g.chance(.15):
            # long lists of what is shielded
            c = g.r.randrange(3)
            if c != 1:
                t['spends'] = [g.spend() for _ in range(g.r.randrange(6, 41))]
            if c:
                t['souts'] = [g.sout() for _ in range(g.r.randrange(6, 41))]
            t['bsig'] = t['bsig'] or g.b(64)
        o = cx.ok('build', make, t)
        b143 = net.forkid is not None or t['flag'] or \
            t['kind'] in ('overwinter', 'sapling')
        qs = requests(cx, net, t, 1)
        if many:
            g.r.shuffle(qs)
        qs = qs[:2 if many else 5]
        ds = {}
        for q in qs:
            d = ds[q] = self.ask(cx, o, t, net, q)
            idx, typ, script, amount, acp, js = q
            # the request itself
            if not js and t['ins']:
                s2 = g.sign_script(net)
                if t['kind'] != 'decred':
                    s2 = prep(s2)
                if s2 != script:
                    self.must(cx, q, t, 'script code', d, self.ask(
                        cx, o, t, net, (idx, typ, s2, amount, acp, js)), True)
                if b143:
                    self.must(cx, q, t, 'amount', d, self.ask(
                        cx, o, t, net, (idx, typ, script, g.flip(amount), acp,
                                        js)), True)
                elif t['kind'] == 'tx':
                    self.must(cx, q, t, 'amount', d, self.ask(
                        cx, o, t, net, (idx, typ, script, g.flip(amount), acp,
                                        js)), False)
            for _ in range(3):
                t2, f, pos = change(g, net, t)
                if t['kind'] == 'sprout' and f == 'in+' and not t['ins']:
                    continue
                o2 = cx.ok('build', make, t2)
                want = committed(t, b143, idx, typ, acp, js, f, pos)
                self.must(cx, q, t, f, d, self.ask(cx, o2, t2, net, q), want,
                          pos if not isinstance(pos, int) else
                          (pos > idx) - (pos < idx))
        # different requests give different digests
        seen = {}
        for q, d in ds.items():
            if d in seen and rtx.digest(net, t, *q) != rtx.digest(
                    net, t, *seen[d]):  # alike inputs can be asked alike
                cx.fail('two requests share a digest', '%s %s' % (
                    q, seen[d]))
            seen[d] = q
        if i % 401 == 3:
            cx.sample(net=net.name, kind=t['kind'], requests=len(qs))

    def must(self, cx, q, t, field, d1, d2, want, rel=None):
        if want is None:
            return
        cx.event('changes judged')
        cx.event('committed' if want else 'uncommitted')
        idx, typ, _, _, acp, js = q
        if isinstance(rel, tuple):
            rel = (min(rel) > idx) - (max(rel) < idx)
        cx.state(t['kind'], t['flag'], typ, acp, js, field, rel)
        if want and d1 == d2:
            cx.fail('digest ignores ' + field, 'format %s type %d acp %s '
                    'input %d' % (t['kind'], typ, acp, idx))
        if not want and d1 != d2:
            cx.fail('digest follows ' + field, 'format %s type %d acp %s '
                    'input %d' % (t['kind'], typ, acp, idx))


# ---- refusals -----------------------------------------------------------

class C29(Check):
    id = 'C29'
    quick, thorough = 9000, 120000
    rule = ('unsafe or meaningless digest requests of every kind on every '
            'network and format (SINGLE past the outputs, NONE where '
            'unsupported, index past the inputs, no script, no amount or one '
            'of a wrong size, ANYONECANPAY or SINGLE where JoinSplits forbid '
            'them), each beside a legitimate request for the same '
            'transaction; a state is format, network and request')
    need = {'refusals checked': 10000, 'answered': 5000}

    def bad(self, cx, why, net, t, o, idx, typ, script, amount, acp, js=False):
        cx.event('refusals checked')
        cx.state(t['kind'], net.name, t['flag'], why, typ, acp)
        try:
            d = sighash(o, t, net, idx, typ, script, amount, acp, js,
                        cx.g.r.randrange(16))
        except Exception as e:
            if why == 'SINGLE past the outputs' and idx < len(t['ins']):
                cx.true('refused by failing: ' + why,
                        isinstance(e, (NotImplementedError, ValueError,
                                       TypeError)),
                        '%s on %s: %r' % (t['kind'], net.name, e))
            return
        cx.fail('answered: ' + why, '%s on %s, %d inputs, %d outputs, input '
                '%s type %s acp %s amount %r: %s' % (
                    t['kind'], net.name, len(t['ins']), len(t['outs']), idx,
                    typ, acp, amount, by(d).hex() if d is not None else d))

    def case(self, cx, i):
        g = cx.g
        net = g.any_net() if i >= 72 else nets.NETS[i]
        select(net)
        kind = 'tx' if g.chance(.1) and not net.decred else None
        nout = g.pick((None, 1, 1, 2, 3))
        t = g.tx(net, kind, big=.004, nin=g.pick((None, 1, 2, 3, 5)),
                 nout=nout, scripts=g.chance(.5))
        k = t['kind']
        o = cx.ok('build', make, t)
        before = snapshot(o)
        nin, nout = len(t['ins']), len(t['outs'])
        zc = k in ('overwinter', 'sapling')
        need_amount = zc or k == 'tx' and (
            t['flag'] or net.forkid is not None)
        pre = (lambda s: s) if k == 'decred' else prep

        def script():
            return pre(g.sign_script(net))

        types = (ALL, NONE, SINGLE) if zc else (ALL, SINGLE)
        for typ, acp in ((a, b) for a in types for b in (False, True)):
            amount = g.b8()
            if nin:
                # past the inputs
                for idx in (nin, nin + g.r.randrange(1, 9), 0xffff,
                            1 << 31):
                    self.bad(cx, 'index past the inputs', net, t, o, idx, typ,
                             script(), amount, acp)
                idx = g.r.randrange(nin)
                inside = typ != SINGLE or idx < nout
                forbidden = k == 'sprout' and t['js'] and (
                    acp or typ == SINGLE)
                if inside and not forbidden:
                    # missing script
                    self.bad(cx, 'no script', net, t, o, idx, typ, None,
                             amount, acp)
                    if need_amount:
                        for a in (None, b'', amount[:7], amount + b'\0',
                                  g.b(g.r.randrange(0, 8)), g.b(9), 5,
                                  amount.hex()):
                            self.bad(cx, 'wrong amount', net, t, o, idx, typ,
                                     script(), a, acp)
                    d = cx.ok('legitimate request', sighash, o, t, net, idx,
                              typ, script(), amount, acp, False,
                              g.r.randrange(4))
                    cx.event('answered')
                    cx.true('a digest has 32 bytes', len(by(d)) == 32)
                if forbidden:
                    self.bad(cx, 'forbidden with JoinSplits', net, t, o, idx,
                             typ, script(), amount, acp)
            if typ == SINGLE:
                # past the outputs
                for idx in (nout, nout + 1, nin - 1, nin):
                    if idx >= nout:
                        self.bad(cx, 'SINGLE past the outputs', net, t, o,
                                 idx, typ, script(), amount, acp)
                # Python would count from the end: another output than the
                # one the input is paired with
                for idx in (-1, -2, -nin or -3, -g.r.randrange(1, 9)):
                    self.bad(cx, 'SINGLE at a negative index', net, t, o,
                             idx, typ, script(), amount, acp)
        if zc:
            for acp in (True,):
                for typ in types:
                    self.bad(cx, 'JoinSplit digest with ANYONECANPAY', net, t,
                             o, 0, typ, b'', b'', acp, True)
            if t['js'] or t['spends']:
                d = cx.ok('legitimate request', sighash, o, t, net, 0, ALL,
                          b'', b'', False, True)
                cx.event('answered')
                cx.true('a digest has 32 bytes', len(by(d)) == 32)
        if k == 'sprout' and t['js'] and not nin:
            for typ, acp in ((ALL, True), (SINGLE, False), (SINGLE, True)):
                self.bad(cx, 'forbidden with JoinSplits', net, t, o, 0, typ,
                         b'\0', b'', acp)
        if k in ('tx', 'decred'):
            for a in ((), (0,), (0, script())):
                cx.refused('SIGHASH_NONE', o.sighash_none, *a)
        if k == 'tx':
            # the method for BIP143 itself
            for idx, typ, s, a, why in [
                    (x, SINGLE, script(), g.b8(), 'SINGLE past the outputs')
                    for x in range(nout, max(nin, nout + 1))] + [
                    (g.r.randrange(nin), NONE, script(), g.b8(), 'NONE'),
                    (nin, ALL, script(), g.b8(), 'index past the inputs'),
                    (0, ALL, None, g.b8(), 'no script'),
                    (0, ALL, script(), None, 'wrong amount'),
                    (0, ALL, script(), g.b(7), 'wrong amount'),
                    (0, ALL, script(), g.b(9), 'wrong amount'),
                    (0, ALL, script(), b'', 'wrong amount')]:
                for acp in (False, True):
                    cx.event('refusals checked')
                    cx.refused('segwit_sighash, %s, input %d of %d, %d '
                               'outputs' % (why, idx, nin, nout),
                               o.segwit_sighash, index=idx, sighash_type=typ,
                               prevout_value=a, script=s, anyone_can_pay=acp)
        if snapshot(o) != before:
            cx.fail('a refused request changed the transaction', k)
        if i % 501 == 3:
            cx.sample(net=net.name, kind=k, inputs=nin, outputs=nout)
