import importlib

WHERE = {}
for _m, _ids in {
        'wire': 'C01 C02 C03 C11 C12', 'sign': 'C04 C05 C28 C29',
        'chains': 'C06 C07 C08 C09', 'scripts': 'C10 C26',
        'addrs': 'C13 C14 C15 C16', 'builders': 'C17',
        'objects': 'C18 C19 C27 C30', 'global_': 'C20 C21 C22',
        'nums': 'C23 C24 C25', 'world': 'C31 C32',
        'spend': 'C33', 'retain': 'C34'}.items():
    for _i in _ids.split():
        WHERE[_i] = _m


def get(cid):
    m = importlib.import_module('mon.checks.' + WHERE[cid])
    return getattr(m, cid)()
