'''The order in which callers pass arguments by position.

corpus/signatures.json records the parameter names, in order, of every public
function, class and method.  `call` passes a request on either as it came or,
every few calls, with its leading arguments by position in the recorded order,
so that reordered or renamed parameters show in what comes out.
'''
import inspect
import json
import os

PATH = os.path.join(os.path.dirname(__file__), '..', 'corpus',
                    'signatures.json')
MODULES = ('riemann', 'riemann.utils', 'riemann.simple', 'riemann.tx.shared',
           'riemann.tx.tx', 'riemann.tx.tx_builder', 'riemann.tx.decred',
           'riemann.tx.sprout', 'riemann.tx.overwinter', 'riemann.tx.sapling',
           'riemann.tx.zcash_shared', 'riemann.encoding.addresses',
           'riemann.encoding.base58', 'riemann.encoding.bech32',
           'riemann.encoding.cashaddr', 'riemann.script.serialization',
           'riemann.networks.standard')
_table = None
_n = 0


def names(f):
    out = []
    for p in inspect.signature(f).parameters.values():
        if p.kind not in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD):
            break
        out.append(p.name)
    return out


def key(f):
    f = getattr(f, '__func__', f)
    return '%s.%s' % (getattr(f, '__module__', ''),
                      getattr(f, '__qualname__', ''))


def collect():
    import importlib
    out = {}
    for m in MODULES:
        mod = importlib.import_module(m)
        for n, x in vars(mod).items():
            if n.startswith('_') or getattr(x, '__module__', '') != m:
                continue
            if inspect.isclass(x):
                out[key(x)] = names(x)
                for a, v in vars(x).items():
                    w = getattr(v, '__func__', v)
                    if not a.startswith('_') and inspect.isfunction(w):
                        out[key(w)] = names(w)[not isinstance(
                            v, staticmethod):]
            elif inspect.isfunction(x):
                out[key(x)] = names(x)
    return {k: v for k, v in out.items() if len(v) > 1}


def save():
    with open(PATH, 'w') as f:
        json.dump(collect(), f, indent=0, sort_keys=True)
        f.write('\n')


def order(f):
    global _table
    if _table is None:
        with open(PATH) as h:
            _table = json.load(h)
    return _table.get(key(f)) or names(f)


def call(f, /, *a, **k):
    global _n
    if k:
        _n += 1
        if _n % 3 == 0:
            order(call)
            if key(f) in _table:
                a = list(a)
                for n in _table[key(f)][len(a):]:
                    if n not in k:
                        break
                    a.append(k.pop(n))
    return f(*a, **k)


if __name__ == '__main__':
    save()
