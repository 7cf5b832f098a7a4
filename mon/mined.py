'''Constants that appear in /repo's current source. They bias generated inputs
towards whatever the code treats specially; constants that were not there when
the framework was built are used most. They steer the workload and nothing
else: no verdict depends on them.'''
import ast
import json
import os

REPO = os.environ.get('VERIF_REPO', '/repo')
BASE = os.path.join(os.path.dirname(__file__), '..', 'corpus',
                    'base_consts.json')


def collect(root=None):
    root = root or os.path.join(REPO, 'riemann')
    ints, byts, strs = set(), set(), set()
    for d, dirs, fs in os.walk(root):
        dirs[:] = [x for x in dirs if x not in ('tests', 'examples',
                                                '__pycache__')]
        for f in sorted(fs):
            if not f.endswith('.py'):
                continue
            try:
                tree = ast.parse(open(os.path.join(d, f),
                                      encoding='utf8').read())
            except (SyntaxError, OSError, UnicodeError):
                continue
            docs = set()
            for n in ast.walk(tree):
                if isinstance(n, ast.Expr) and isinstance(n.value,
                                                          ast.Constant):
                    docs.add(id(n.value))
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant) and id(n) not in docs:
                    v = n.value
                    if isinstance(v, bool):
                        continue
                    if isinstance(v, int):
                        ints.add(v)
                    elif isinstance(v, bytes) and 0 < len(v) <= 80:
                        byts.add(v)
                    elif isinstance(v, str) and 0 < len(v) <= 60:
                        strs.add(v)
                        h = v[2:] if v[:2] == '0x' else v
                        if len(h) % 2 == 0 and len(h) <= 120:
                            try:
                                byts.add(bytes.fromhex(h))
                            except ValueError:
                                pass
                # simple constant arithmetic: 1 << 20, 2 ** 32 - 1, 64 * 3
                if isinstance(n, (ast.BinOp, ast.UnaryOp)):
                    try:
                        v = _const(n)
                    except (ValueError, TypeError, ZeroDivisionError,
                            OverflowError):
                        continue
                    if isinstance(v, int) and abs(v) < 1 << 80:
                        ints.add(v)
    byts.discard(b'')
    return ints, byts, strs


def _const(n):
    if isinstance(n, ast.Constant) and isinstance(n.value, int):
        return n.value
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        return -_const(n.operand)
    if isinstance(n, ast.BinOp):
        a, b = _const(n.left), _const(n.right)
        if isinstance(n.op, ast.Pow) and 0 <= b <= 80 and abs(a) <= 256:
            return a ** b
        if isinstance(n.op, ast.LShift) and 0 <= b <= 80:
            return a << b
        if isinstance(n.op, ast.Add):
            return a + b
        if isinstance(n.op, ast.Sub):
            return a - b
        if isinstance(n.op, ast.Mult):
            return a * b
        if isinstance(n.op, ast.BitOr):
            return a | b
        if isinstance(n.op, ast.FloorDiv):
            return a // b
    raise ValueError


def load():
    '''-> dict of sorted lists: ints, byts, new_ints, new_byts, strs'''
    i, b, s = collect()
    try:
        base = json.load(open(BASE))
    except (OSError, ValueError):
        base = {'ints': [], 'byts': [], 'strs': []}
    bi, bb, bs = (set(base['ints']), {bytes.fromhex(x) for x in base['byts']},
                  set(base['strs']))
    return {
        'ints': sorted(i), 'byts': sorted(b), 'strs': sorted(s),
        'new_ints': sorted(i - bi), 'new_byts': sorted(b - bb),
        'new_strs': sorted(s - bs)}


def save_base():
    i, b, s = collect()
    with open(BASE, 'w') as f:
        json.dump({'ints': sorted(i), 'byts': sorted(x.hex() for x in b),
                   'strs': sorted(s)}, f)
        f.write('\n')


if __name__ == '__main__':
    save_base()
