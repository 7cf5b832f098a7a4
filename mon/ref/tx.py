'''Reference transaction encoders and signature digests over plain specs.

A spec is a dict. Inputs: txid index tree stack redeem seq. Outputs: value
ver script. Transactions: kind version flag ins outs wits lock expiry js jspk
jssig spends souts vb bsig. Nothing here imports riemann.
'''
from .prim import vi, vi_read, hash256, dsha, b2b
from .blake import blake256

ALL, NONE, SINGLE, FORKID, ACP = 1, 2, 3, 0x40, 0x80


# ---- parts --------------------------------------------------------------

def outpoint(i):
    return i['txid'] + i['index']


def sig(i):
    return i['stack'] + i['redeem']


def txin(i, script=None, seq=None):
    s = sig(i) if script is None else script
    return outpoint(i) + vi(len(s)) + s + (i['seq'] if seq is None else seq)


def txout(o):
    return o['value'] + vi(len(o['script'])) + o['script']


def item(x):
    return vi(len(x)) + x


def witness(w):
    return vi(len(w)) + b''.join(item(x) for x in w)


def vec(xs):
    return vi(len(xs)) + b''.join(xs)


def dcr_outpoint(i):
    return i['txid'] + i['index'] + i['tree']


def dcr_txin(i, seq=None):
    return dcr_outpoint(i) + (i['seq'] if seq is None else seq)


def dcr_txout(o):
    return o['value'] + o['ver'] + vi(len(o['script'])) + o['script']


def dcr_wit(w):
    s = w['stack'] + w['redeem']
    return w['value'] + w['height'] + w['index'] + vi(len(s)) + s


JS_HEAD = (('vpub_old', 8), ('vpub_new', 8), ('anchor', 32),
           ('nullifiers', 64), ('commitments', 64), ('ephemeral_key', 32),
           ('random_seed', 32), ('vmacs', 64))
SPROUT_PROOF = (('pi_sub_a', 33), ('pi_prime_sub_a', 33), ('pi_sub_b', 65),
                ('pi_prime_sub_b', 33), ('pi_sub_c', 33),
                ('pi_prime_sub_c', 33), ('pi_sub_k', 33), ('pi_sub_h', 33))
SAPLING_PROOF = (('pi_sub_a', 48), ('pi_sub_b', 96), ('pi_sub_c', 48))
SPEND = (('cv', 32), ('anchor', 32), ('nullifier', 32), ('rk', 32))
SOUT = (('cv', 32), ('cmu', 32), ('ephemeral_key', 32),
        ('enc_ciphertext', 580), ('out_ciphertext', 80))


def proof(p):
    return b''.join(p[k] for k, _ in
                    (SPROUT_PROOF if 'pi_sub_h' in p else SAPLING_PROOF))


def joinsplit(j):
    return (b''.join(j[k] for k, _ in JS_HEAD) + proof(j['zkproof'])
            + j['encoded_notes'])


def spend(s, auth=True):
    return (b''.join(s[k] for k, _ in SPEND) + proof(s['zkproof'])
            + (s['spend_auth_sig'] if auth else b''))


def sout(s):
    return b''.join(s[k] for k, _ in SOUT) + proof(s['zkproof'])


def hsig(t, j):
    return b2b(j['random_seed'] + j['nullifiers'] + t['jspk'],
               b'ZcashComputehSig')


def primary(t, j):
    return (j['anchor'] + j['nullifiers'] + j['commitments'] + j['vpub_old']
            + j['vpub_new'] + hsig(t, j) + j['vmacs'])


# ---- whole transactions -------------------------------------------------

def nowit(t):
    return (t['version'] + vec([txin(i) for i in t['ins']])
            + vec([txout(o) for o in t['outs']]) + t['lock'])


def full(t):
    k = t['kind']
    if k == 'tx':
        if not t['flag']:
            return nowit(t)
        return (t['version'] + b'\x00\x01' + vec([txin(i) for i in t['ins']])
                + vec([txout(o) for o in t['outs']])
                + b''.join(witness(w) for w in t['wits'] or []) + t['lock'])
    if k == 'sprout':
        r = nowit(t)
        if t['version'] == b'\x02\x00\x00\x00':
            r += vec([joinsplit(j) for j in t['js']])
            if t['js']:
                r += t['jspk'] + t['jssig']
        return r
    if k == 'overwinter':
        return (b'\x03\x00\x00\x80\x70\x82\xc4\x03'
                + vec([txin(i) for i in t['ins']])
                + vec([txout(o) for o in t['outs']])
                + t['lock'] + t['expiry']
                + vec([joinsplit(j) for j in t['js']])
                + (t['jspk'] + t['jssig'] if t['js'] else b''))
    if k == 'sapling':
        return (b'\x04\x00\x00\x80\x85\x20\x2f\x89'
                + vec([txin(i) for i in t['ins']])
                + vec([txout(o) for o in t['outs']])
                + t['lock'] + t['expiry'] + t['vb']
                + vec([spend(s) for s in t['spends']])
                + vec([sout(s) for s in t['souts']])
                + vec([joinsplit(j) for j in t['js']])
                + (t['jspk'] + t['jssig'] if t['js'] else b'')
                + (t['bsig'] if t['spends'] or t['souts'] else b''))
    if k == 'decred':
        return (t['version'] + vec([dcr_txin(i) for i in t['ins']])
                + vec([dcr_txout(o) for o in t['outs']])
                + t['lock'] + t['expiry']
                + vec([dcr_wit(w) for w in t['wits']]))
    raise ValueError(k)


def dcr_prefix(t):
    return (t['version'][:2] + b'\x01\x00'
            + vec([dcr_txin(i) for i in t['ins']])
            + vec([dcr_txout(o) for o in t['outs']])
            + t['lock'] + t['expiry'])


def dcr_witness(t):
    return (t['version'][:2] + b'\x02\x00'
            + vec([dcr_wit(w) for w in t['wits']]))


def dcr_signing(t):
    return (t['version'][:2] + b'\x03\x00'
            + vec([item(w['stack'] + w['redeem']) for w in t['wits']]))


def txid_le(net, t):
    if t['kind'] == 'decred':
        return blake256(dcr_prefix(t))
    return hash256(net, nowit(t) if t['kind'] == 'tx' else full(t))


def wtxid_le(net, t):
    if t['kind'] == 'tx' and t['flag']:
        return hash256(net, full(t))
    return None


def u(b):
    return int.from_bytes(b, 'little')


def fee(t, values):
    outs = sum(u(o['value']) for o in t['outs'])
    if t['kind'] == 'decred':
        return sum(u(w['value']) for w in t['wits']) - outs
    f = sum(values) - outs
    for j in t.get('js') or []:
        f += u(j['vpub_new']) - u(j['vpub_old'])
    if t['kind'] == 'sapling':
        f += int.from_bytes(t['vb'], 'little', signed=True)
    return f


# ---- signature digests --------------------------------------------------

def strip(script):
    n, k = vi_read(script)
    assert len(script) == n + k
    return script[k:]


def _legacy_pre(t, idx, script, typ, acp):
    ins = t['ins']
    outs = [txout(o) for o in t['outs']]
    if typ == SINGLE:
        outs = [b'\xff' * 8 + b'\x00'] * idx + [outs[idx]]
    pos = [idx] if acp else range(len(ins))
    vin = [txin(ins[n],
                script=script if n == idx else b'',
                seq=(ins[n]['seq'] if n == idx or typ == ALL
                     else b'\x00' * 4))
           for n in pos]
    return t['version'] + vec(vin) + vec(outs) + t['lock']


def legacy(net, t, idx, typ, script, acp):
    pre = _legacy_pre(t, idx, strip(script), typ, acp)
    return hash256(net, pre + (typ | (ACP if acp else 0)).to_bytes(4, 'little'))


def sprout(net, t, idx, typ, script, acp):
    if t['ins']:
        pre = _legacy_pre(t, idx, strip(script), typ, acp)
    else:
        pre = t['version'] + vi(0) + vec([txout(o) for o in t['outs']]) \
            + t['lock']
    if t['version'] == b'\x02\x00\x00\x00':
        pre += vec([joinsplit(j) for j in t['js']])
        if t['js']:
            pre += t['jspk'] + b'\x00' * 64
    return hash256(net, pre + (typ | (ACP if acp else 0)).to_bytes(4, 'little'))


def bip143(net, t, idx, typ, script, amount, acp):
    z = b'\x00' * 32
    ins, outs = t['ins'], t['outs']
    hp = z if acp else hash256(net, b''.join(outpoint(i) for i in ins))
    hs = z if acp or typ != ALL else hash256(
        net, b''.join(i['seq'] for i in ins))
    ho = hash256(net, b''.join(txout(o) for o in outs)) if typ == ALL else \
        hash256(net, txout(outs[idx]))
    ht = typ | (ACP if acp else 0)
    if net.forkid is not None:
        ht |= FORKID | (net.forkid << 8)
    i = ins[idx]
    return hash256(net, t['version'] + hp + hs + outpoint(i) + script + amount
                   + i['seq'] + ho + t['lock'] + ht.to_bytes(4, 'little'))


def zip143(net, t, idx, typ, script, amount, acp, js=False):
    '''ZIP143 / ZIP243. idx None or js True: the JoinSplit digest'''
    z = b'\x00' * 32
    ins, outs = t['ins'], t['outs']
    d = (b'\x03\x00\x00\x80\x70\x82\xc4\x03' if t['kind'] == 'overwinter'
         else b'\x04\x00\x00\x80\x85\x20\x2f\x89')
    d += z if acp else b2b(b''.join(outpoint(i) for i in ins),
                           b'ZcashPrevoutHash')
    d += z if acp or typ != ALL else b2b(b''.join(i['seq'] for i in ins),
                                         b'ZcashSequencHash')
    if typ == ALL:
        d += b2b(b''.join(txout(o) for o in outs), b'ZcashOutputsHash')
    elif typ == SINGLE:
        d += b2b(txout(outs[idx]), b'ZcashOutputsHash')
    else:
        d += z
    d += b2b(b''.join(joinsplit(j) for j in t['js']) + t['jspk'],
             b'ZcashJSplitsHash') if t['js'] else z
    if t['kind'] == 'sapling':
        d += b2b(b''.join(spend(s, False) for s in t['spends']),
                 b'ZcashSSpendsHash') if t['spends'] else z
        d += b2b(b''.join(sout(s) for s in t['souts']),
                 b'ZcashSOutputHash') if t['souts'] else z
    d += t['lock'] + t['expiry']
    if t['kind'] == 'sapling':
        d += t['vb']
    d += (typ | (ACP if acp else 0)).to_bytes(4, 'little')
    if not js:
        i = ins[idx]
        d += outpoint(i) + script + amount + i['seq']
    return b2b(d, b'ZcashSigHash' + (
        b'\x19\x1b\xa8\x5b' if t['kind'] == 'overwinter'
        else b'\xbb\x09\xb8\x76'))


def decred(t, idx, typ, script, acp):
    ins = list(t['ins'])
    outs = list(t['outs'])
    if typ == SINGLE:
        outs = [dict(o, value=b'\xff' * 8, script=b'')
                for o in outs[:idx]] + [outs[idx]]
        ins = [i if n == idx else dict(i, seq=b'\x00' * 4)
               for n, i in enumerate(ins)]
    scripts = [script if n == idx else b'' for n in range(len(t['wits']))]
    if acp:
        ins, scripts = [ins[idx]], [script]
    pre = blake256(dcr_prefix(dict(t, ins=ins, outs=outs)))
    wit = blake256(t['version'][:2] + b'\x03\x00'
                   + vec([item(s) for s in scripts]))
    return blake256((typ | (ACP if acp else 0)).to_bytes(4, 'little')
                    + pre + wit)


def digest(net, t, idx, typ, script, amount, acp, js=False):
    k = t['kind']
    if k == 'tx':
        if net.forkid is not None or t['flag']:
            return bip143(net, t, idx, typ, script, amount, acp)
        return legacy(net, t, idx, typ, script, acp)
    if k == 'sprout':
        return sprout(net, t, idx, typ, script, acp)
    if k == 'decred':
        return decred(t, idx, typ, script, acp)
    return zip143(net, t, idx, typ, script, amount, acp, js)
