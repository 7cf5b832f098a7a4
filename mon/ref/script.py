'''Reference Bitcoin script coding, from the published opcode numbers.'''

_NAMES = '''NOP VER IF NOTIF VERIF VERNOTIF ELSE ENDIF VERIFY RETURN
TOALTSTACK FROMALTSTACK 2DROP 2DUP 3DUP 2OVER 2ROT 2SWAP IFDUP DEPTH DROP DUP
NIP OVER PICK ROLL ROT SWAP TUCK CAT SUBSTR LEFT RIGHT SIZE INVERT AND OR XOR
EQUAL EQUALVERIFY RESERVED1 RESERVED2 1ADD 1SUB 2MUL 2DIV NEGATE ABS NOT
0NOTEQUAL ADD SUB MUL DIV MOD LSHIFT RSHIFT BOOLAND BOOLOR NUMEQUAL
NUMEQUALVERIFY NUMNOTEQUAL LESSTHAN GREATERTHAN LESSTHANOREQUAL
GREATERTHANOREQUAL MIN MAX WITHIN RIPEMD160 SHA1 SHA256 HASH160 HASH256
CODESEPARATOR CHECKSIG CHECKSIGVERIFY CHECKMULTISIG CHECKMULTISIGVERIFY NOP1
CHECKLOCKTIMEVERIFY CHECKSEQUENCEVERIFY NOP4 NOP5 NOP6 NOP7 NOP8 NOP9
NOP10'''.split()
BASE = {0: 'OP_0', 79: 'OP_1NEGATE', 80: 'OP_RESERVED',
        255: 'OP_INVALIDOPCODE'}
for _i in range(16):
    BASE[81 + _i] = 'OP_%d' % (_i + 1)
for _i, _n in enumerate(_NAMES):
    BASE[97 + _i] = 'OP_' + _n
assert BASE[185] == 'OP_NOP10' and BASE[172] == 'OP_CHECKSIG'
DECRED = {168: 'OP_BLAKE256', 192: 'OP_SHA256'}
# names that are accepted as text but read back under another name
ALIAS = {'OP_NOP2': 177, 'OP_NOP3': 178}
BANNED = {171, 78}


def table(net):
    t = dict(BASE)
    if net.decred:
        t.update(DECRED)
    return t


def names(net):
    return {v: k for k, v in table(net).items()}


def push(data):
    '''the shortest length-tagged push'''
    n = len(data)
    assert 1 <= n <= 1000
    if n <= 75:
        return bytes([n]) + data
    if n <= 255:
        return b'\x4c' + bytes([n]) + data
    return b'\x4d' + n.to_bytes(2, 'little') + data


def parse(net, s):
    '''-> list of (opcode, data or None, raw bytes) or None if refused'''
    t = table(net)
    out = []
    i = 0
    while i < len(s):
        op = s[i]
        if 1 <= op <= 75:
            a, n = i + 1, op
        elif op == 76:
            if i + 2 > len(s):
                return None
            a, n = i + 2, s[i + 1]
        elif op == 77:
            if i + 3 > len(s):
                return None
            a, n = i + 3, int.from_bytes(s[i + 1:i + 3], 'little')
        elif op in BANNED or op not in t:
            return None
        else:
            out.append((op, None, s[i:i + 1]))
            i += 1
            continue
        if a + n > len(s):
            return None
        out.append((op, s[a:a + n], s[i:a + n]))
        i = a + n
    return out


def minimal(item):
    op, data, raw = item
    return data is None or (1 <= len(data) <= 1000 and raw == push(data))


def text(net, items):
    t = table(net)
    return ' '.join(t[o] if d is None else d.hex() for o, d, _ in items)


def split_script_sig(net, s):
    '''the (stack, redeem) split of an input's script signature'''
    items = parse(net, s)
    if not items or not all(minimal(x) for x in items):
        return s, b''
    op, data, raw = items[-1]
    if data is None or parse(net, data) is None:
        return s, b''
    return s[:len(s) - len(raw)], raw
