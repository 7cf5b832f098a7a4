'''C31 C32: what the library does to, and takes from, everything around it.'''
import gc
import hashlib
import json
import os
import random
import resource
import signal
import subprocess
import sys
import tempfile
import threading
import tracemalloc
import warnings

from .. import allocs
from ..core import Check, Cx, REPO, load_check, run_case


STDLIB = ('builtins', 'hashlib', 'os', 'struct', 'binascii', 'math', 'random',
          'functools', 'itertools', 'operator', 'types', 'typing', 'io',
          'codecs', 'collections', 'time', 'threading', '_thread', 'copy',
          'pickle', 'json', 'string', 'abc', 'enum', 'warnings', 'signal')


def world():
    '''what the rest of the process may rely on'''
    w = {'environment': dict(os.environ), 'directory': os.getcwd(),
         'module path': list(sys.path),
         'recursion limit': sys.getrecursionlimit(),
         'digits limit': sys.get_int_max_str_digits(),
         'switch interval': sys.getswitchinterval(),
         'hooks': [id(x) for x in (
             sys.excepthook, sys.displayhook, sys.unraisablehook,
             sys.breakpointhook, threading.excepthook, sys.getprofile(),
             sys.gettrace(), sys.stdin, sys.stdout, sys.stderr,
             sys.__stdout__, sys.__stderr__)],
         'import machinery': [id(x) for x in sys.meta_path
                              + sys.path_hooks],
         'random state': hashlib.sha256(
             repr(random.getstate()).encode()).hexdigest(),
         'collector': (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
         'warning filters': [repr(f) for f in warnings.filters],
         'threads': threading.active_count(),
         'descriptors': sorted(os.listdir('/proc/self/fd')),
         'signals': [(n, id(signal.getsignal(n)) if callable(
             signal.getsignal(n)) else signal.getsignal(n))
             for n in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM,
                       signal.SIGHUP, signal.SIGUSR1, signal.SIGUSR2,
                       signal.SIGPIPE, signal.SIGCHLD)],
         'limits': [resource.getrlimit(x) for x in (
             resource.RLIMIT_NOFILE, resource.RLIMIT_AS,
             resource.RLIMIT_CORE, resource.RLIMIT_STACK)]}
    m = os.umask(0o22)
    os.umask(m)
    w['umask'] = m
    if 'locale' in sys.modules:
        w['locale'] = sys.modules['locale'].setlocale(
            sys.modules['locale'].LC_ALL)
    if 'decimal' in sys.modules:
        w['decimal'] = repr(sys.modules['decimal'].getcontext())
    if 'logging' in sys.modules:
        lg = sys.modules['logging']
        w['logging'] = [repr(h) for h in lg.root.handlers] + [
            lg.root.level, lg.root.manager.disable]
    for n in STDLIB:
        if n in sys.modules:
            w['module ' + n] = {k: id(v) for k, v in vars(
                sys.modules[n]).items() if not k.startswith('__')}
    w['module builtins'].pop('_', None)
    return w


# before anything of the library is loaded
START = world()

import riemann  # noqa: E402
from riemann import simple, utils  # noqa: E402
from riemann.blake256 import BLAKE  # noqa: E402
from riemann.encoding import addresses as addr, base58, bech32, cashaddr  # noqa: E402
from riemann.networks import standard  # noqa: E402
from riemann.script import serialization as ser  # noqa: E402
from riemann.tx import tx_builder as tb  # noqa: E402

from .. import mined, ops  # noqa: E402
from ..build import B, CLASS, D, S, SH, Z, make, select, sighash  # noqa: E402
from ..ref import nets, tx as rtx  # noqa: E402

B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
B32 = 'qpzry9x8gf2tvdw0s3jn54khce6mua7l'

# ---- C31: the audit monitor ---------------------------------------------

FORBIDDEN = ('socket.', 'subprocess.', 'shutil.', 'tempfile.', 'urllib.',
             'http.', 'ftplib.', 'smtplib.', 'poplib.', 'imaplib.', 'nntplib.',
             'telnetlib.', 'sqlite3.', 'ctypes.', 'fcntl.', 'mmap.', 'pty.',
             'syslog.', 'resource.', 'webbrowser.', 'signal.', 'glob.',
             'time.sleep', '_thread.', 'builtins.input', 'sys.addaudithook',
             'sys.settrace', 'sys.setprofile', 'sys.set_', 'sys.excepthook',
             'cpython.run_', 'gc.', 'ensurepip.', 'venv.', 'winreg.',
             'os.system', 'os.exec', 'os.posix_spawn', 'os.spawn', 'os.fork',
             'os.forkpty', 'os.startfile', 'os.kill', 'os.putenv',
             'os.unsetenv', 'os.remove', 'os.rename', 'os.rmdir', 'os.mkdir',
             'os.link', 'os.symlink', 'os.truncate', 'os.utime', 'os.chmod',
             'os.chown', 'os.chflags', 'os.lockf', 'os.chdir', 'os.walk',
             'os.fwalk', 'os.setxattr', 'os.removexattr', 'os.add_dll')
# reading the interpreter's own modules and the library's sources
READABLE = tuple({os.path.realpath(p) + os.sep for p in (
    sys.prefix, sys.base_prefix, os.path.dirname(os.__file__),
    os.path.join(REPO, 'riemann'))})


class Watch:
    '''audit hook; records while armed'''

    def __init__(self):
        self.on = False
        self.seen = 0
        self.kinds = {}
        self.bad = []
        sys.addaudithook(self.hook)

    def hook(self, name, args):
        if not self.on:
            return
        self.seen += 1
        self.kinds[name] = self.kinds.get(name, 0) + 1
        if name == 'open':
            path, mode, flags = (args + (None,) * 3)[:3]
            if isinstance(path, int):
                self.bad.append('open %r' % (path,))
                return
            p = os.path.realpath(os.fsdecode(path))
            w = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC
                         | os.O_APPEND) if isinstance(flags, int) else 1
            if w or not (p + os.sep).startswith(READABLE):
                self.bad.append('open %r %r' % (path, mode))
        elif name in ('os.listdir', 'os.scandir'):
            p = os.path.realpath(os.fsdecode(args[0] or '.'))
            if not (p + os.sep).startswith(READABLE):
                self.bad.append('%s %r' % (name, args[0]))
        elif name.startswith(FORBIDDEN):
            self.bad.append('%s %r' % (name, args))


class Stream:
    def __init__(self):
        self.text = ''

    def write(self, s):
        self.text += str(s)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


# ---- C31: other interpreters --------------------------------------------

def in_another(argv):
    '''run in a child process: results of the catalogue as hashes'''
    spec = json.loads(argv)
    if spec.get('time'):
        import time
        t = spec['time']
        time.time = lambda: float(t)
        time.time_ns = lambda: t * 10 ** 9
    if spec.get('random') is not None:
        random.seed(spec['random'])
    if spec.get('digits'):
        sys.set_int_max_str_digits(spec['digits'])
    if spec.get('decimal'):
        import decimal
        c = decimal.Context(prec=spec['decimal'], Emax=4, Emin=-4,
                            rounding=decimal.ROUND_UP)
        decimal.setcontext(c)
        decimal.DefaultContext = c
    if 'collector' in spec:
        gc.set_threshold(*([60, 3, 3] if spec['collector'] else [0]))
    out = []
    if 'slices' in spec:
        return slices_(spec['slices'])

    def go():
        # before any network is selected
        for name, seed, groups in spec['jobs'][:1]:
            for k, v in sorted(ops.run(nets.NETS[0], seed, groups).items()):
                out.append([k, digest(v)])
        for name, seed, groups in spec['jobs']:
            net = nets.BY[name]
            select(net)
            for k, v in sorted(ops.run(net, seed, groups).items()):
                out.append([k, digest(v)])
    if spec.get('thread'):
        t = threading.Thread(target=go)
        t.start()
        t.join()
    else:
        go()
    return out


def slices_(todo):
    bad, done = [], 0
    for c, seed, a, b in todo:
        check = load_check(c)
        cx = Cx(check, seed, 'quick')
        check.setup(cx)
        for i in range(a, b):
            v = run_case(check, cx, i)
            done += 1
            if v:
                bad.append((c, i, '%s: %s' % v))
                break
    return {'bad': bad, 'done': done}


def digest(v):
    return hashlib.sha256(repr(v).encode()).hexdigest()[:24]


CONFIGS = [
    ('string hashing 1', [], {'PYTHONHASHSEED': '1'}, {}),
    ('string hashing 77', [], {'PYTHONHASHSEED': '77'}, {}),
    ('string hashing 4096', [], {'PYTHONHASHSEED': '4096'}, {}),
    ('assertions off', ['-O'], {}, {}),
    ('docstrings off', ['-OO'], {}, {}),
    ('development mode', ['-X', 'dev'], {}, {}),
    ('C locale', ['-X', 'utf8=0'], {'LC_ALL': 'C', 'LANG': 'C',
                                    'PYTHONCOERCECLOCALE': '0'}, {}),
    ('another time zone', [], {'TZ': 'Pacific/Kiritimati',
                               'LC_ALL': 'tr_TR.UTF-8'}, {}),
    ('another time', [], {}, {'time': 4102444800}),
    ('another random state', [], {}, {'random': 5}),
    ('short integers in text', [], {}, {'digits': 640}),
    ('another thread', [], {}, {'thread': True}),
    ('another decimal context', [], {}, {'decimal': 3}),
    ('warnings are errors', ['-W', 'error', '-bb'], {}, {}),
    ('a busy collector', [], {}, {'collector': 1}),
    ('no collector', [], {}, {'collector': 0}),
    ('another directory and environment', [], 'decoys', {}),
]


# checks whose workload runs in this process and touches nothing else
OTHERS = ('C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 '
          'C17 C18 C19 C23 C24 C25 C26 C27 C28 C29 C30 C33').split()


def in_child(opts, env, cwd, spec):
    code = ('import sys\nsys.path[:0] = [%r, %r]\n'
            'from mon.checks import world\nimport json\n'
            'print(json.dumps(world.in_another(sys.stdin.read())))\n'
            % (REPO, os.path.dirname(os.path.dirname(os.path.dirname(
                os.path.abspath(__file__))))))
    return subprocess.run(
        [sys.executable, '-B', '-S'] + opts + ['-c', code],
        input=json.dumps(spec).encode(), env=env, cwd=cwd,
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)


class C31(Check):
    id = 'C31'
    quick, thorough = 1600, 24000
    coverage = True
    rule = ('catalogue operations (hashes, scripts, addresses, codecs, '
            'builders, transactions of every family, parsing, digests, '
            'selections and refused ones) on every network with an audit '
            'hook, captured streams and descriptors, and a snapshot of '
            'process-wide state before and after; the same operations in '
            'interpreters with other string hashing, optimization, locale, '
            'clock, random state, thread, directory and environment; a '
            'state is network, group of operations and configuration')
    need = {'operations watched': 4000, 'states of the process compared': 1000,
            'results compared between interpreters': 1500,
            'workloads of other checks watched': 1000,
            'cases of other checks in other interpreters': 15000}

    def setup(self, cx):
        # load what the workload itself needs before watching
        for n in nets.NETS[:3]:
            select(n)
            ops.run(n, 1)
        self.others = {}
        for c in OTHERS:
            self.others[c] = k = load_check(c)
            k.setup(Cx(k, 1, 'quick'))
            for j in range(3):
                o = Cx(k, 1, 'quick')
                run_case(k, o, j)
        self.first = [(k, difference(START[k], v))
                      for k, v in world().items()
                      if k not in ('descriptors', 'hooks')
                      and START.get(k, v) != v]
        self.watch = Watch()
        self.out = [tempfile.TemporaryFile(), tempfile.TemporaryFile()]

    def case(self, cx, i):
        for k, d in self.first:
            cx.fail('the library changes the ' + k, 'since the start: ' + d)
        g = cx.g
        net = nets.NETS[i % 72] if i < 288 else g.any_net()
        seed = g.r.randrange(1 << 40)
        names = g.r.sample(ops.NAMES, 4)
        ops.inputs(seed)
        so, se = sys.stdout, sys.stderr
        a, b = Stream(), Stream()
        sys.stdout, sys.stderr = a, b
        keep = [os.dup(1), os.dup(2)]
        for n in (0, 1):
            self.out[n].seek(0)
            self.out[n].truncate()
            os.dup2(self.out[n].fileno(), n + 1)
        before = world()
        self.watch.bad.clear()
        try:
            self.watch.on = True
            try:
                select(net)
                for bad in ('bitcoin', '', 'Bitcoin_main', net.name + ' '):
                    ops.attempt(riemann.select_network, bad)
                r = ops.run(net, seed, names)
                # the workload of another check, for what it does
                other = self.others[g.pick(OTHERS)]
                ocx = Cx(other, cx.seed, 'quick')
                k = g.r.randrange(other.quick)
                ocx.begin(k)
                try:
                    other.case(ocx, k)
                except Exception:
                    pass
            finally:
                self.watch.on = False
            after = world()
        finally:
            sys.stdout, sys.stderr = so, se
            for n in (0, 1):
                os.dup2(keep[n], n + 1)
                os.close(keep[n])
        cx.event('operations watched', len(r) + 5)
        cx.event('workloads of other checks watched')
        cx.state(other.id, k)
        cx.event('audit events seen', self.watch.seen)
        self.watch.seen = 0
        if self.watch.bad:
            cx.fail('the library reaches outside', '; '.join(
                x[:200] for x in self.watch.bad[:4]))
        text = a.text + b.text
        for f in self.out:
            f.seek(0)
            text += f.read().decode(errors='replace')
        if text:
            cx.fail('the library prints', repr(text[:300]))
        for k in before:
            if before[k] != after.get(k):
                cx.fail('the library changes the ' + k,
                        difference(before[k], after.get(k)))
        cx.event('states of the process compared')
        for n in names:
            cx.state(net.name, n)
        if i % 397 == 3:
            cx.sample(net=net.name, groups=', '.join(names))
        if i % 41 in (3, 12, 21, 30):
            self.elsewhere(cx, i)
        if i % 41 == 7:
            slices = []
            for c in g.r.sample(OTHERS, 4):
                n = self.others[c].quick
                a = g.r.randrange(n)
                slices.append((c, cx.seed, a, min(n, a + 50)))
            self.properties(cx, g.pick([
                k for k in CONFIGS[:-1] if 'digits' not in k[3]]), slices)

    def elsewhere(self, cx, i):
        g = cx.g
        name, opts, env, spec = CONFIGS[(i // 41 * 4 + i % 41 // 9) % len(CONFIGS)] \
            if i < 1200 else g.pick(CONFIGS)
        jobs = []
        for _ in range(8):
            net = g.any_net()
            jobs.append((net.name, g.r.randrange(1 << 40),
                         g.r.sample(ops.NAMES, 5)))
        want = []
        select(nets.NETS[0])
        for n, seed, groups in jobs[:1]:
            for k, v in sorted(ops.run(nets.NETS[0], seed, groups).items()):
                want.append([k, digest(v)])
        for n, seed, groups in jobs:
            net = nets.BY[n]
            select(net)
            for k, v in sorted(ops.run(net, seed, groups).items()):
                want.append([k, digest(v)])
        d = None
        e = {'PATH': '/usr/bin:/bin', 'PYTHONDONTWRITEBYTECODE': '1',
             'VERIF_REPO': REPO, 'PYTHONHASHSEED': '0'}
        cwd = '/'
        if env == 'decoys':
            d = tempfile.mkdtemp(prefix='verif-c31-')
            for f in ('network', 'riemann.json', 'riemann.cfg', '.riemann',
                      'riemann.ini', 'bitcoin.conf', 'cache'):
                with open(os.path.join(d, f), 'w') as fh:
                    fh.write('decred_main\n')
            cwd = d
            e.update(HOME=d, RIEMANN_NETWORK='decred_main', DEBUG='1',
                     NETWORK='litecoin_main', BITCOIN_NETWORK='regtest',
                     RIEMANN_DEBUG='1', TESTNET='1')
            for s in mined.load()['new_strs']:
                if s.replace('_', '').isalnum() and not s[0].isdigit() and \
                        s not in ('PATH', 'VERIF_REPO'):
                    e[s] = '1'
        else:
            e.update(env)
        try:
            p = in_child(opts, e, cwd, dict(spec, jobs=jobs))
        finally:
            if d:
                left = sorted(os.listdir(d))
                for f in left:
                    os.unlink(os.path.join(d, f))
                os.rmdir(d)
                if len(left) != 7:
                    cx.fail('files appear', repr(left))
        try:
            got = json.loads(p.stdout)
        except ValueError:
            cx.fail('no result with ' + name, '%r %r' % (
                p.stdout[:200], p.stderr.decode(errors='replace')[-800:]))
        cx.eq('number of results with ' + name, len(got), len(want))
        for (k, v), (k2, v2) in zip(got, want):
            cx.event('results compared between interpreters')
            if (k, v) != (k2, v2):
                cx.fail('%s depend on %s' % (k2, name), '%r' % (
                    [j[:2] for j in jobs],))
        cx.state(name, jobs[0][0])
        cx.event('interpreters')

    def properties(self, cx, config, slices):
        '''other checks hold in other interpreters too'''
        name, opts, env, spec = config
        e = {'PATH': '/usr/bin:/bin', 'PYTHONDONTWRITEBYTECODE': '1',
             'VERIF_REPO': REPO, 'PYTHONHASHSEED': '0'}
        p = in_child(opts, dict(e, **env), '/', dict(spec, slices=slices))
        try:
            got = json.loads(p.stdout)
        except ValueError:
            cx.fail('no result with ' + name, '%r %r' % (
                p.stdout[:200], p.stderr.decode(errors='replace')[-800:]))
        for c, k, what in got['bad']:
            # is it the interpreter?
            q = in_child([], e, '/', {'slices': [s for s in slices
                                                 if s[0] == c]})
            if json.loads(q.stdout)['bad']:
                cx.event('failures found in this interpreter too')
            else:
                cx.fail('%s does not hold with %s' % (c, name),
                        'case %d: %s' % (k, what))
        cx.event('cases of other checks in other interpreters', got['done'])
        for s in slices:
            cx.state(name, s[0], s[2])

    def finish(self, cx):
        slices = []
        for c in OTHERS[-cx.i - 1::8]:
            n = self.others[c].quick
            a = cx.r.randrange(n)
            slices.append((c, cx.seed, a, a + n // 7))
        self.properties(cx, CONFIGS[3], slices)
        # every module can be imported first, quietly
        root = os.path.join(REPO, 'riemann')
        mods = []
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in (
                'tests', 'examples', '__pycache__'))
            for f in sorted(fs):
                if f.endswith('.py'):
                    m = os.path.relpath(os.path.join(d, f), REPO)[:-3]
                    mods.append(m.replace(os.sep, '.').replace(
                        '.__init__', ''))
        for m in mods[-cx.i - 1::8]:
            p = subprocess.run(
                [sys.executable, '-B', '-S', '-c', FIRST % (REPO, m)],
                stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120,
                cwd='/', env={'PATH': '/usr/bin:/bin'})
            if p.returncode or p.stdout or p.stderr:
                cx.fail('importing %s first' % m, repr(
                    (p.stdout + p.stderr).decode(errors='replace')[-600:]))
            cx.event('modules imported first')


FIRST = '''
import os, sys
sys.path.insert(0, %r)
import hashlib, struct, typing, random
ok = tuple(os.path.realpath(p) + os.sep for p in (
    sys.prefix, sys.base_prefix, os.path.dirname(os.__file__), sys.path[0]))
def hook(name, args):
    if name == 'open':
        p, w = args[0], args[2]
        if isinstance(p, int) or w & 3 or not os.path.realpath(
                os.fsdecode(p)).startswith(ok):
            os.write(2, ('opens %%r' %% (args,)).encode())
    elif name.startswith(('socket.', 'subprocess.', 'os.system', 'os.exec',
            'os.fork', 'os.posix_spawn', 'os.putenv', 'os.remove', 'os.mkdir',
            'os.rename', 'time.sleep', '_thread.start')):
        os.write(2, ('does %%s %%r' %% (name, args)).encode())
sys.addaudithook(hook)
import %s
'''


def difference(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        ks = [k for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]
        return ', '.join('%s: %r -> %r' % (k, a.get(k), b.get(k))
                         for k in ks[:5])[:500]
    return ('%r -> %r' % (a, b))[:500]


# ---- C32 ----------------------------------------------------------------

class TooMuch(BaseException):
    pass


class Meter:
    '''counts the steps the library takes (lines, jumps, calls) and stops it
    when the allowance is used up'''

    def __init__(self):
        self.n = self.limit = 0
        self.root = os.path.join(REPO, 'riemann') + os.sep
        m = sys.monitoring
        m.use_tool_id(4, 'verif-meter')
        ev = m.events
        for e in (ev.LINE, ev.PY_START):
            m.register_callback(4, e, self.step)
        m.register_callback(4, ev.JUMP, self.jump)
        self.on = m.events.LINE | m.events.PY_START | m.events.JUMP

    def step(self, code, *_):
        if not code.co_filename.startswith(self.root):
            return sys.monitoring.DISABLE
        self.n += 1
        if self.n > self.limit:
            raise TooMuch()

    def jump(self, code, *_):
        if not code.co_filename.startswith(self.root):
            return sys.monitoring.DISABLE
        self.n += 1
        if self.n > self.limit:
            raise TooMuch()

    def run(self, limit, f, *a, **k):
        '''-> (answered, steps)'''
        self.n, self.limit = 0, limit
        sys.monitoring.set_events(4, self.on)
        try:
            f(*a, **k)
            return True, self.n
        except TooMuch:
            return None, self.n
        except Exception:
            return False, self.n
        finally:
            sys.monitoring.set_events(4, 0)
            self.limit = 1 << 62


STEPS = 60000, 600     # at rest, and per byte or character given
MEMORY = 1 << 20, 1000


class C32(Check):
    id = 'C32'
    quick, thorough = 1000, 16000
    coverage = False
    case_cpu = 60
    rule = ('hostile and large inputs (counts of up to 2^64-1 with little '
            'behind them, thousands of minimal parts, deep truncation, '
            'random bytes, long texts of each alphabet, huge integers) given '
            'to every parser, decoder, script and number function and to '
            'operations on large transactions; the steps the library takes '
            '(lines, calls and jumps) and the memory it allocates must stay '
            'within a fixed amount per byte of input, answered or refused; '
            'inputs of 100 to 200 kB made of tiny elements also under an '
            'allocator that adds up all that is ever asked for; '
            'a state is function, kind and size of input and outcome')
    need = {'requests metered': 20000, 'requests with memory traced': 3000,
            'inputs over 10000 bytes': 300, 'growths judged': 200}

    def setup(self, cx):
        self.meter = Meter()
        self.worst = {}

    def judge(self, cx, name, n, how, f, *a, **k):
        limit = STEPS[0] + STEPS[1] * n
        traced = cx.r.random() < .2
        if traced:
            tracemalloc.start()
        try:
            ok, steps = self.meter.run(limit, f, *a, **k)
            peak = tracemalloc.get_traced_memory()[1] if traced else 0
        finally:
            if traced:
                tracemalloc.stop()
        cx.event('requests metered')
        cx.event('steps counted', steps)
        if ok is None:
            cx.fail('%s takes too many steps' % name, 'more than %d for %d '
                    'bytes (%s): %r' % (limit, n, how, brief_args(a)))
        if traced:
            cx.event('requests with memory traced')
            if peak > MEMORY[0] + MEMORY[1] * n:
                cx.fail('%s takes too much memory' % name, '%d bytes for %d '
                        'bytes (%s): %r' % (peak, n, how, brief_args(a)))
        if n > 10000:
            cx.event('inputs over 10000 bytes')
        w = self.worst.setdefault(name, [0, 0])
        w[0] = max(w[0], steps / (STEPS[0] / 10 + n))
        w[1] = max(w[1], peak / (MEMORY[0] / 10 + n))
        cx.state(name, how, n.bit_length(), ok)

    def size(self, g):
        return g.pick((0, 1, 10, 60, 300, 1000, 3000,
                       g.r.randrange(2000))) if g.chance(.93) else \
            g.r.randrange(10000, 40000)

    def raw(self, cx, net):
        '''-> (kind, bytes)'''
        g = cx.g
        n = self.size(g)
        big = g.pick((b'\xff' * 9, b'\xfe\xff\xff\xff\xff',
                      b'\xff\0\0\0\0\x01\0\0\0', b'\xfd\xff\xff',
                      b'\xff' + b'\xff' * 7 + b'\x7f',
                      b'\xfe' + (1 << g.r.randrange(17, 27)).to_bytes(
                          4, 'little'),
                      b'\xfe' + (1 << g.r.randrange(17, 27)).to_bytes(
                          4, 'little')))
        c = g.r.randrange(10)
        if c == 9:
            return 'a bare count', big + g.pick((
                bytes(n), b'\1' * n, g.r.randbytes(n)))
        head = g.pick((b'\1\0\0\0', b'\2\0\0\0', b'\1\0\0\0\0\1',
                       b'\3\0\0\x80\x70\x82\xc4\x03',
                       b'\4\0\0\x80\x85\x20\x2f\x89'))
        if c == 0:
            return 'random', g.r.randbytes(n)
        if c == 1:
            return 'a huge count', head + big + g.r.randbytes(n)
        if c == 2:
            return 'a huge count and zeros', head + big + bytes(n)
        if c == 3:   # a huge count of the smallest inputs
            return 'empty inputs', head + big + (
                bytes(37) + b'\xff' * 4) * (n // 41)
        if c == 4:
            return 'empty outputs', head + b'\1' + bytes(41) + big + \
                bytes(9) * (n // 9)
        if c == 5:
            return 'empty witnesses', b'\1\0\0\0\0\1\1' + bytes(41) + b'\1' \
                + bytes(9) + big + g.pick((b'\0', b'\1\0', b'\1x')) * n
        if c == 6:
            return 'a huge script', bytes(36) + big + g.r.randbytes(n)
        if c == 7:
            return 'one byte over and over', g.pick((
                b'\0', b'\xff', b'\1', b'\x51', b'\x4c', b'\x4d', b'\xfd',
                b'\xac')) * n
        t = g.tx(net, big=.3)
        b = rtx.full(t)
        return 'a transaction', b[:g.r.randrange(len(b))] \
            if g.chance(.3) else b

    def case(self, cx, i):
        g = cx.g
        net = nets.NETS[i % 72] if i < 144 else g.pick(
            nets.SPROUT + nets.OVERWINTER + nets.SAPLING + nets.DECRED) \
            if g.chance(.5) else g.any_net()
        select(net)
        cls = [B.Tx, B.TxIn, B.TxOut, B.Outpoint, B.InputWitness,
               B.WitnessStackItem, SH.VarInt, SH.ByteData]
        if net.decred:
            cls += [D.DecredOutpoint, D.DecredTxIn, D.DecredTxOut]
        elif net.family != 'bitcoin':
            cls += [CLASS[net.family]] * 3
            cls += [S.SaplingJoinsplit, S.SaplingShieldedSpend,
                    S.SaplingShieldedOutput] if net.family == 'sapling' \
                else [Z.SproutJoinsplit]
        for _ in range(4):
            how, b = self.raw(cx, net)
            for c in g.r.sample(cls, 3):
                self.judge(cx, c.__name__ + '.from_bytes', len(b), how,
                           c.from_bytes, b)
            self.judge(cx, 'deserialize', len(b), how, ser.deserialize, b)
            g.pick((self.bytes_in, self.bytes_in, self.text_in,
                    self.number_in))(cx, net, how, b)
        if g.chance(.5):
            self.text_in(cx, net, how, b)
        if g.chance(.25):
            self.large(cx, net)
        if g.chance(.15):
            self.growth(cx, net)
        if i % 121 == 11:
            self.copied(cx)
        if i % 397 == 3:
            cx.sample(net=net.name, kind=how, bytes=b)

    def bytes_in(self, cx, net, how, b):
        g = cx.g
        n = len(b)
        for name, f in g.r.sample([
                ('hex_deserialize', lambda x: ser.hex_deserialize(x.hex())),
                ('from_output_script', addr.from_output_script),
                ('base58.encode', lambda x: base58.encode(x[:600])),
                ('bech32.encode', bech32.encode),
                ('cashaddr.encode', cashaddr.encode),
                ('le2i', utils.le2i), ('be2i', utils.be2i),
                ('change_endianness', utils.change_endianness),
                ('blake256', utils.blake256), ('sha256', utils.sha256),
                ('hash160', utils.hash160), ('hash256', utils.hash256),
                ('blake2b', utils.blake2b), ('blake2s', utils.blake2s),
                ('BLAKE(512)', lambda x: BLAKE(512).digest(x)),
                ('make_op_return_output', tb.make_op_return_output),
                ('make_p2pkh_output', lambda x: tb.make_p2pkh_output(1, x)),
                ('make_witness', lambda x: tb.make_witness([x] * 3)),
                ('make_p2pkh_address', addr.make_p2pkh_address),
                ('make_outpoint', lambda x: tb.make_outpoint(x, 1)),
                ('length_prepend', tb.length_prepend)], 3):
            self.judge(cx, name, n, how, f, b)

    def text_in(self, cx, net, how, b):
        g = cx.g
        n = self.size(g)
        c = g.r.randrange(8)
        if c == 0:
            how, s = 'base58 letters', ''.join(g.r.choices(B58, k=n))
        elif c == 1:
            how, s = 'ones', '1' * n
        elif c == 2:
            how, s = 'bech32 letters', (net.hrp or 'bc') + '1' + ''.join(
                g.r.choices(B32, k=n))
        elif c == 3:
            how, s = 'cashaddr letters', (net.cashaddr or 'bchtest') + ':' \
                + ''.join(g.r.choices(B32, k=n))
        elif c == 4:
            how, s = 'hex', g.r.randbytes(n // 2).hex()
        elif c == 5:
            how, s = 'opcodes', ' '.join(g.r.choices((
                'OP_1', 'OP_DUP', 'OP_0', 'aa', 'OP_BOGUS', 'OP_2'),
                k=n // 5))
        elif c == 6:
            how, s = 'text', g.pick((' ', '\n', 'é', '\U0001f600',
                                     'OP_', ':', 'q')) * n
        else:
            how, s = 'a long push', g.r.randbytes(n).hex() + ' OP_DROP'
        n = len(s)
        for name, f in g.r.sample([
                ('to_output_script', addr.to_output_script),
                ('parse', addr.parse), ('parse_hash', addr.parse_hash),
                ('base58.decode', base58.decode),
                ('has_checksum', base58.has_checksum),
                ('bech32.decode', bech32.decode),
                ('cashaddr.decode', cashaddr.decode),
                ('serialize', ser.serialize),
                ('make_p2sh_address', addr.make_p2sh_address),
                ('make_sh_output', lambda x: tb.make_sh_output(1, x)),
                ('simple.output', lambda x: simple.output(1, x)),
                ('simple.outpoint', lambda x: simple.outpoint(x, 1)),
                ('Tx.from_hex', B.Tx.from_hex),
                ('select_network', riemann.select_network)], 4):
            self.judge(cx, name, n, how, f, s)
            select(net)

    def number_in(self, cx, net, how, b):
        g = cx.g
        v = (1 << g.r.randrange(0, 30000)) - g.pick((0, 1, 2))
        if g.chance(.1):
            v = -v
        n = (abs(v).bit_length() + 7) // 8
        how = 'number'
        for name, f in g.r.sample([
                ('i2le', utils.i2le), ('i2be', utils.i2be),
                ('i2le_padded', lambda x: utils.i2le_padded(x, 8)),
                ('i2be_padded', lambda x: utils.i2be_padded(x, 4)),
                ('i2le_script', utils.i2le_script),
                ('VarInt', SH.VarInt),
                ('make_outpoint', lambda x: tb.make_outpoint(b'1' * 32, x)),
                ('make_p2pkh_output', lambda x: tb.make_p2pkh_output(
                    x, b'\2' * 33)),
                ('simple.output', lambda x: simple.output(x, 'x'))], 3):
            self.judge(cx, name, n, how, f, v)

    # ---- twice the parts, twice the work ---------------------------------

    def series(self, cx, net):
        '''-> (what grows, parts, request(parts) -> [(name, f, args)])'''
        g = cx.g
        kind = {'bitcoin': 'tx'}.get(net.family, net.family)
        seed = g.r.randrange(1 << 30)
        acp = g.chance(.5)

        def tx(n_in, n_out, n_wit=0, item=0, spends=0):
            t = g.tx(net, big=0, nin=1, nout=1, scripts=False,
                     flag=bool(n_wit) if kind == 'tx' and net.segwit
                     else False)
            r = random.Random(seed)
            for name, k in (('ins', n_in), ('outs', n_out), ('wits', n_in)):
                if t[name]:
                    t[name] = [dict(t[name][0]) if name != 'wits' or
                               kind == 'decred' else [] for _ in range(k)]
            for x in t['ins']:
                x['txid'] = r.randbytes(32)
                x['seq'] = b'\xff' * 4
                x['stack'] = x['redeem'] = b''
            for x in t['outs']:
                x['value'] = b'\0\0\1' + bytes(5)
                x['script'] = b'\0\x14' + bytes(20) if kind == 'tx' else b''
            if kind == 'tx':
                t['version'] = b'\1\0\0\0'
            if kind == 'decred':
                t['wits'] = [dict(w, stack=b'', redeem=b'')
                             for w in t['wits']]
            elif kind == 'tx' and t['flag']:
                t['wits'] = [[b'x' * item] * n_wit for _ in t['ins']]
            if kind in ('sprout', 'overwinter', 'sapling'):
                t['js'], t['jspk'], t['jssig'] = [], None, None
            if kind == 'sapling':
                t['spends'] = [g.spend() for _ in range(spends)]
                t['souts'] = []
                t['bsig'] = bytes(64) if spends else None
                if not spends:
                    t['vb'] = bytes(8)
            return t

        def requests(t):
            o = make(t)
            b = rtx.full(t)
            script = b'\1\xac'
            out = [('building', make, (t,)), ('copy', o.copy, ()),
                   ('to_bytes', o.to_bytes, ()), ('hex', o.hex, ()),
                   ('fee', o.calculate_fee, () if kind == 'decred' else
                    ([0] * len(t['ins']),))]
            for typ in (1, 3):
                out.append(('digest', sighash, (
                    o, t, net, 0, typ, script, bytes(8), acp)))
                if len(t['ins']) == len(t['outs']):
                    out.append(('digest', sighash, (
                        o, t, net, len(t['ins']) - 1, typ, script, bytes(8),
                        False)))
            if kind != 'decred':
                out.append(('from_bytes', type(o).from_bytes, (b,)))
                out.append(('from_hex', type(o).from_hex, (b.hex(),)))
                out.append(('cut short', type(o).from_bytes, (b[:-5],)))
            if kind == 'tx':
                out += [('no_witness', o.no_witness, ()),
                        ('check_is_standard_tx',
                         standard.check_is_standard_tx, (o,)),
                        ('check_final', standard.check_final, (o, 1, 1))]
            return out

        top = 500 if kind != 'decred' else 400
        if kind == 'sapling' and g.chance(.4):
            return 'spends', 60, lambda n: requests(tx(1, 1, 0, 0, n))
        c = g.r.randrange(9)
        if c == 0:
            return 'inputs', top, lambda n: requests(tx(n, 1))
        if c == 1:
            return 'outputs', top, lambda n: requests(tx(1, n))
        if c == 2:
            return 'both', top * 2 // 3, lambda n: requests(
                tx(n, n, bool(net.segwit)))
        if c == 3 and kind == 'tx' and net.segwit:
            return 'witness items', 1500, lambda n: requests(tx(1, 1, n, 1))
        if c == 4:
            part = g.pick(('OP_DUP ', 'OP_1 ', 'aabb ', 'OP_0 ', 'xx ',
                           '00' * 60 + ' ', 'OP_IF OP_ENDIF '))

            def f(n):
                s = (part * n).strip()
                out = [('serialize', ser.serialize, (s,)),
                       ('hex_serialize', ser.hex_serialize, (s,)),
                       ('make_script_sig', tb.make_script_sig, (s, s)),
                       ('make_sh_output_script', tb.make_sh_output_script,
                        (s,))]
                if part != 'xx ':
                    b = ser.serialize(s)
                    out += [('deserialize', ser.deserialize, (b,)),
                            ('hex_deserialize', ser.hex_deserialize,
                             (b.hex(),))]
                return out
            return 'tokens', 1500, f
        if c == 5:
            ch = g.pick('q1zZ2')

            def f(n):
                p = (net.hrp or 'bc') + '1' + ch * n
                q = (net.cashaddr or 'bchtest') + ':' + ch * n
                out = []
                for s in (ch * n, p, q):
                    out += [('to_output_script', addr.to_output_script, (s,)),
                            ('parse', addr.parse, (s,)),
                            ('parse_hash', addr.parse_hash, (s,)),
                            ('base58.decode', base58.decode, (s,)),
                            ('has_checksum', base58.has_checksum, (s,)),
                            ('bech32.decode', bech32.decode, (s,)),
                            ('cashaddr.decode', cashaddr.decode, (s,))]
                return out
            return 'letters', 1500, f
        if c == 6:
            def f(n):
                b = random.Random(seed).randbytes(n)
                return [('base58.encode', base58.encode, (b,)),
                        ('bech32.encode', bech32.encode, (b'\0\x14' + b,)),
                        ('cashaddr.encode', cashaddr.encode, (b,)),
                        ('from_output_script', addr.from_output_script,
                         (b,)),
                        ('blake256', utils.blake256, (b,)),
                        ('BLAKE(512)', BLAKE(512).digest, (b,)),
                        ('change_endianness', utils.change_endianness, (b,)),
                        ('le2i', utils.le2i, (b,)),
                        ('length_prepend', tb.length_prepend, (b,)),
                        ('ByteData', lambda x: SH.ByteData() + x, (b,)),
                        ('VarInt', SH.VarInt.from_bytes, (b,))]
            return 'bytes', 4000, f
        if c == 7:
            def f(n):
                v = 1 << (8 * n - 1)
                return [('i2le', utils.i2le, (v,)), ('i2be', utils.i2be, (v,)),
                        ('i2le_padded', utils.i2le_padded, (v, n)),
                        ('i2be_padded', utils.i2be_padded, (v, n)),
                        ('i2le_script', utils.i2le_script, (v,))]
            return 'bytes of a number', 2000, f

        def f(n):
            b = bytes(4) + b'\xfd' + n.to_bytes(2, 'little')
            return [('cut short', B.Tx.from_bytes, (b + (
                bytes(37) + b'\xff' * 4) * (n - 1),)),
                    ('cut short', B.InputWitness.from_bytes, (
                        b[4:] + b'\1x' * (n - 1),)),
                    ('make_witness', tb.make_witness, ([b'x'] * n,)),
                    ('make_tx', lambda k: simple.unsigned_legacy_tx(
                        [simple.unsigned_input(simple.outpoint(
                            '%064x' % j, 0)) for j in range(k)], [
                                tb.make_op_return_output(b'')]), (n,))]
        return 'parts', 700, f

    def growth(self, cx, net):
        what, n, f = self.series(cx, net)
        few, many = [], []
        which = None
        for rows, k in ((few, n), (many, 4 * n)):
            asked = f(k)
            which = which or cx.g.r.sample(range(len(asked)),
                                           min(5, len(asked)))
            for name, g, a in (asked[j] for j in which):
                rows.append((name, *self.meter.run(20 * STEPS[1] * 1000000,
                                                   g, *a)))
        for (name, ok, s1), (_, ok4, s4) in zip(few, many):
            cx.event('growths judged')
            cx.state('growth', net.family, what, name)
            w = self.worst.setdefault('growth of ' + name, [0, 0])
            if s1 > 5000:
                w[0] = max(w[0], s4 / s1)
            if ok == ok4 and s4 > 5 * s1 + 20000:
                cx.fail('%s: work out of proportion' % name, '%d %s: %d '
                        'steps, %d: %d (%s)' % (n, what, s1, 4 * n, s4,
                                                net.name))

    def copied(self, cx):
        '''all the memory ever asked for, on large inputs'''
        g = cx.g
        c = g.r.random()
        net = g.pick(nets.SPROUT + nets.OVERWINTER + nets.SAPLING
                     if c < .25 else
                     [x for x in nets.NETS if x.decred] if c < .4 else
                     [x for x in nets.NETS if x.family == 'bitcoin' and
                      (c > .65 or x.cashaddr)])
        both = allocs.probe(REPO, g.r.randrange(1 << 30), net.name)
        if both is None:
            return  # no C compiler
        small = {x[0]: x for x in both[0]}
        for name, n, asked, ok in both[1]:
            cx.event('allocations added up')
            cx.event('inputs over 10000 bytes')
            cx.state('allocations', name, ok)
            w = self.worst.setdefault('allocations of ' + name, [0, 0])
            w[1] = max(w[1], asked / n)
            if asked > allocs.LIMIT[0] + allocs.LIMIT[1] * n:
                cx.fail('%s copies its input too often' % name.split(' ')[0],
                        '%d bytes asked for in all, for %d bytes (%s on %s)'
                        % (asked, n, name, net.name))
            _, n1, asked1, ok1 = small.get(name, (0, 0, 0, None))
            if ok1 and ok and n1 * 4.1 > n and \
                    any(x in name for x in allocs.GROWING):
                cx.event('growths of allocations judged')
                if asked > allocs.GROWTH[0] + allocs.GROWTH[1] * asked1:
                    cx.fail('%s copies the more often the longer its input'
                            % name.split(' ')[0],
                            '%d bytes asked for in all, for %d bytes, and %d '
                            'for %d (%s on %s)' % (asked1, n1, asked, n, name,
                                                   net.name))

    def large(self, cx, net):
        g = cx.g
        t = g.tx(net, big=.6, nout=g.r.randrange(1, 60))
        n = len(rtx.full(t))
        o = make(t)
        k = g.r.randrange(len(t['ins'])) if t['ins'] else 0
        script = b'\x19' + g.b(25)
        self.judge(cx, 'building', n, 'a transaction', make, t)
        self.judge(cx, 'copy', n, 'a transaction', o.copy)
        a = () if net.decred else ([1] * len(t['ins']),)
        self.judge(cx, 'calculate_fee', n, 'a transaction',
                   o.calculate_fee, *a)
        self.judge(cx, 'digest', n, 'a transaction', sighash, o, t, net, k,
                   g.pick((1, 3)), script, bytes(8), g.chance(.5))
        if t['kind'] == 'tx':
            self.judge(cx, 'check_is_standard_tx', n, 'a transaction',
                       standard.check_is_standard_tx, o)


def brief_args(a):
    s = repr(a)
    return s if len(s) < 400 else s[:400] + '...'
