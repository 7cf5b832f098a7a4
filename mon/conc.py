'''Entry points that run inside processes forked from the zygote.'''
import random
import sys

import riemann

from . import core, ops, sched
from .build import by, make, select, snapshot, CLASS
from .ref import nets, tx as rtx


def fresh(name, seed, groups):
    '''one selection, then the operations'''
    select(nets.BY[name])
    return ops.run(nets.BY[name], seed, groups)


def fresh_object(name, seed):
    '''digests of the shared Bitcoin-format transaction'''
    net = nets.BY[name]
    select(net)
    x = ops.inputs(seed)
    try:
        o = make(x.t)
    except Exception as e:
        return 'raised ' + type(e).__name__
    return [snapshot(o), ops.digests(o, x.t, net, x), ops.attempt(o.copy)]


def initial(seed, groups):
    '''no selection at all'''
    net = nets.BY['bitcoin_main']
    return [riemann.get_current_network_name(),
            ops.run(net, seed, groups)]


# ---- concurrency --------------------------------------------------------

def shared_objects(net, seed):
    x = ops.inputs(seed)
    out = []
    for t in (ops.own_tx(net, seed), x.t):
        try:
            out.append((make(t), t))
        except Exception:
            pass
        if t['kind'] != 'decred':
            try:
                out.append((CLASS[t['kind']].from_bytes(rtx.full(t)), t))
            except Exception:
                pass
    return out


def use(o, t, net, x, r):
    '''a thread's work on a shared object'''
    todo = [lambda: snapshot(o), lambda: ops.digests(o, t, net, x, 2),
            lambda: ops.attempt(o.copy), lambda: o.to_bytes(),
            lambda: (len(o), o.hex(), o == by(o), bytes(iter(o))[:20]),
            lambda: ops.attempt(o.calculate_fee, *(
                [] if t['kind'] == 'decred' else [[7] * len(t['ins'])])),
            lambda: ops.attempt(setattr, o, 'lock_time', b'\1\1\1\1'),
            lambda: ops.attempt(lambda: o.sighash_none())]
    return [(k, ops.plain(todo[k]())) for k in
            r.sample(range(len(todo)), len(todo))]


def jobs(net, seed, width):
    r = random.Random('jobs/%d' % seed)
    objs = shared_objects(net, seed)
    for k in range(width):
        ops.inputs(seed + k)
    ops.own_tx(net, seed)
    same = r.random() < .4
    g0 = ops.chosen(seed, r.choice((1, 2, 3)))
    out = []
    for k in range(width):
        s = seed if same or r.random() < .4 else seed + k
        gs = g0 if r.random() < .5 else ops.chosen(seed + 7 * k, 2)
        rs = r.randrange(1 << 60)

        def job(s=s, gs=gs, rs=rs):
            q = random.Random(rs)
            x = ops.inputs(s)
            part = []
            if q.random() < .7:
                x0 = ops.inputs(seed)
                for o, t in objs:
                    part.append(use(o, t, net, x0, q))
            for n, f in ops.groups(net, x):
                if n in gs:
                    part.append((n, f()))
            if q.random() < .3:
                x0 = ops.inputs(seed)
                for o, t in objs:
                    part.append(use(o, t, net, x0, q))
            return part
        out.append(job)
    return out


def sequential(name, seed, width, lines=False):
    net = nets.BY[name]
    if lines:
        core.watch_lines()
    select(net)
    return [j() for j in jobs(net, seed, width)], sorted(core._lines)


def concurrent(name, seed, width, mode, warm):
    net = nets.BY[name]
    select(net)
    if warm:
        sequential(name, seed + 1, 1)
    js = jobs(net, seed, width)
    stats = {}
    if mode[0] == 'free':
        out, err = sched.free(js)
    else:
        c = sched.Controlled(js, seed, *mode[1:])
        out = c.run()
        err = c.err
        stats = {'switches': c.switches, 'points': c.points,
                 'trail': c.trail.hexdigest(), 'places': sorted(c.places)}
    err = ['%s: %s' % (type(e).__name__, e) if e else None for e in err]
    left = riemann.get_current_network_name()
    return out, err, stats, left
