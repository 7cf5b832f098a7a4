'''Running a check: shards, per-case determinism, monitors, evidence, replay.

A check is a class with id, quick and thorough case counts, a rule text, the
event counts a run must reach, and case(cx, i). A case drives the real library
and its oracle reports through cx. Cases i = 0..n-1 are dealt to SHARDS fresh
processes (case i goes to shard i % SHARDS, run in order), so that the history
each case sees is reproducible.
'''
import hashlib
import json
import os
import random
import resource
import signal
import subprocess
import sys
import time
import traceback

from .golden import call

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
SHARDS = 8
PY = '/opt/venv/bin/python'
CASE_CPU = 60.0
SOFT = {'quick': 150.0, 'thorough': 800.0}


class Violation(Exception):
    def __init__(self, key, msg):
        Exception.__init__(self, '%s: %s' % (key, msg))
        self.key, self.msg = key, msg


class Hang(BaseException):
    pass


class Cx:
    '''what a case sees'''

    def __init__(self, check, seed, tier):
        self.check, self.seed, self.tier = check, seed, tier
        self.events = {}
        self.states = set()
        self.samples = []
        self.found = []
        self.r = self.g = None
        self.i = None
        self.trivial = True

    def begin(self, i):
        from .gen import Gen
        self.i = i
        self.r = random.Random('%d/%s/%d' % (self.seed, self.check.id, i))
        self.g = Gen(self.r)
        self.trivial = True

    # ---- observations ---------------------------------------------------

    def event(self, kind, n=1):
        self.events[kind] = self.events.get(kind, 0) + n

    def state(self, *sig):
        '''a non-trivial situation the oracle judged'''
        self.trivial = False
        h = hashlib.blake2b(repr(sig).encode(), digest_size=7).hexdigest()
        if len(self.states) < 60000:
            self.states.add(h)

    def sample(self, **kw):
        if len(self.samples) < 3:
            from .build import show
            self.samples.append({k: v if isinstance(v, (int, str)) or v is None
                                 else show(v) for k, v in kw.items()})

    # ---- verdicts -------------------------------------------------------

    def fail(self, key, msg):
        raise Violation(key, msg)

    def eq(self, key, got, want, ctx=''):
        self.event('comparisons')
        if got != want:
            from .build import show
            self.fail(key, 'got %s, want %s %s' % (show(got), show(want),
                                                   ctx and '[%s]' % show(ctx)))

    def true(self, key, cond, ctx=''):
        self.event('comparisons')
        if not cond:
            from .build import show
            self.fail(key, show(ctx))

    def ok(self, key, f, /, *a, **k):
        '''a legitimate request, which must be answered'''
        self.event('calls')
        try:
            return call(f, *a, **k)
        except Exception as e:
            self.fail(key, 'raised %s%s' % (brief(e), where(e)))

    def refused(self, key, f, /, *a, **k):
        '''an illegitimate request, which must raise'''
        self.event('refusals checked')
        try:
            r = f(*a, **k)
        except Exception:
            return
        from .build import show
        self.fail(key, 'accepted, giving %s' % show(r))

    def attempt(self, f, /, *a, **k):
        '''-> (True, result) or (False, exception)'''
        self.event('calls')
        try:
            return True, call(f, *a, **k)
        except Exception as e:
            return False, e


def brief(e):
    s = '%s: %s' % (type(e).__name__, e)
    return s if len(s) < 300 else s[:300] + '...'


def where(e):
    for f in reversed(traceback.extract_tb(e.__traceback__)):
        if '/riemann/' in f.filename:
            return ' at %s:%s' % (f.filename.split('/riemann/')[-1], f.name)
    return ''


# ---- worker -------------------------------------------------------------

def _alarm(*_):
    raise Hang()


_lines = set()
_dup = set()


def watch_lines():
    '''record which lines of the library run, at almost no cost'''
    mon = sys.monitoring
    root = os.path.join(REPO, 'riemann') + os.sep
    try:
        mon.use_tool_id(3, 'verif')
    except ValueError:
        return

    def line(code, no):
        fn = code.co_filename
        if fn.startswith(root):
            _lines.add((fn[len(root):], no))
        return mon.DISABLE

    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)


def load_check(cid):
    from . import checks
    return checks.get(cid)


def run_case(check, cx, i):
    '''-> violation (key, msg) or None'''
    cx.begin(i)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, check.case_cpu)
    try:
        check.case(cx, i)
    except Violation as e:
        return e.key, e.msg
    except Hang:
        return 'hang', 'no answer within %d s of processor time' \
            % check.case_cpu
    except Exception as e:
        return 'raised', brief(e) + where(e) + ' ' + \
            ''.join(traceback.format_exc().splitlines(True)[-6:])[:900]
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return None


def worker(cid, seed, tier, shard, n, only=None):
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    t0 = time.monotonic()
    check = load_check(cid)
    cx = Cx(check, seed, tier)
    if check.coverage:
        watch_lines()
    done = nontrivial = 0
    bad = []
    check.setup(cx)
    for i in ([only] if only is not None else range(shard, n, SHARDS)):
        v = run_case(check, cx, i)
        done += 1
        nontrivial += not cx.trivial
        if v:
            bad.append({'case': i, 'shard': shard, 'key': v[0],
                        'what': v[1][:2000]})
            if len(bad) >= 5:
                break
        if time.monotonic() - t0 > SOFT[tier]:
            break
    if not bad:
        cx.begin(-1 - shard)
        try:
            check.finish(cx)
        except Violation as e:
            bad.append({'case': -1, 'shard': shard, 'key': e.key,
                        'what': e.msg[:2000]})
    return {'done': done, 'nontrivial': nontrivial, 'events': cx.events,
            'states': sorted(cx.states), 'samples': cx.samples, 'bad': bad,
            'lines': sorted(_lines)}


def spawn(cid, seed, tier, shard, n, only=None):
    env = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'),
           'HOME': '/nonexistent', 'LANG': 'C.UTF-8',
           'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1',
           'VERIF_REPO': REPO}
    py = PY if os.path.exists(PY) else sys.executable
    return subprocess.Popen(
        [py, '-B', '-S', os.path.join(ROOT, 'check.py'), '--worker', cid,
         str(seed), tier, str(shard), str(n), '' if only is None
         else str(only)],
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env,
        cwd=ROOT, stdin=subprocess.DEVNULL)


# ---- parent -------------------------------------------------------------

def known_findings():
    '''mechanism keys of findings that were recorded and not repaired'''
    out = {}
    try:
        lines = open(os.path.join(ROOT, 'KNOWN_FINDINGS.txt')).read()
    except OSError:
        return out
    for ln in lines.splitlines():
        if ln.startswith('known: property='):
            f = ln[len('known: property='):].split(' ', 2)
            out[(f[0], f[1].partition('=')[2])] = f[2] if len(f) > 2 else ''
    return out


def tree_digest():
    '''of the library's sources'''
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(os.path.join(REPO, 'riemann'))):
        ds[:] = sorted(x for x in ds if x not in ('tests', '__pycache__'))
        for f in sorted(fs):
            if f.endswith('.py'):
                p = os.path.join(d, f)
                h.update(p[len(REPO):].encode() + b'\0'
                         + open(p, 'rb').read() + b'\0')
    return h.hexdigest()


def total_lines():
    n = 0
    for d, ds, fs in os.walk(os.path.join(REPO, 'riemann')):
        ds[:] = [x for x in ds if x not in ('tests', 'examples')]
        for f in fs:
            if not f.endswith('.py'):
                continue
            try:
                c = compile(open(os.path.join(d, f)).read(), f, 'exec')
            except SyntaxError:
                continue
            todo = [c]
            lines = set()
            while todo:
                c = todo.pop()
                lines |= {x[2] for x in c.co_lines() if x[2]}
                todo += [k for k in c.co_consts if hasattr(k, 'co_lines')]
            n += len(lines)
    return n


def effort(tier):
    '''A tree that is not the one the framework was last validated on gets
    more cases. What is judged, and how, is the same.'''
    if os.environ.get('VERIF_EFFORT'):  # for experiments
        return float(os.environ['VERIF_EFFORT'])
    try:
        base = open(os.path.join(ROOT, 'corpus', 'tree.sha256')).read().strip()
    except OSError:
        return 1
    return 1 if base == tree_digest() else 3


def main(argv):
    if argv[0] == '--worker':
        cid, seed, tier, shard, n, only = argv[1:7]
        r = worker(cid, int(seed), tier, int(shard), int(n),
                   int(only) if only else None)
        sys.stdout.write(json.dumps(r))
        return 0
    if argv[0] == '--replay':
        return replay(argv[1])
    cid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    return run(cid, tier, seed)


def run(cid, tier, seed):
    t0 = time.monotonic()
    check = load_check(cid)
    mult = effort(tier)
    n = int((check.quick if tier == 'quick' else check.thorough) * mult)
    ps = [(s, spawn(cid, seed, tier, s, n)) for s in range(min(SHARDS, n))]
    rs, broken = [], []
    for s, p in ps:
        out, err = p.communicate()
        try:
            rs.append(json.loads(out))
        except ValueError:
            broken.append((s, p.returncode, err.decode(errors='replace')))
    known = known_findings()
    bad, seen_known = [], {}
    for r in rs:
        for b in r['bad']:
            k = (cid, b['key'])
            if k in known:
                seen_known[k] = known[k]
            else:
                bad.append(b)
    for s, rc, err in broken:
        # the library could not be imported, or took its process down
        bad.append({'case': -2, 'shard': s, 'key': 'worker died',
                    'what': 'exit %s: %s' % (rc, err[-1500:])})
    ev, states, lines = {}, set(), set()
    for r in rs:
        for k, v in r['events'].items():
            ev[k] = ev.get(k, 0) + v
        states |= set(r['states'])
        lines |= {tuple(x) for x in r['lines']}
    done = sum(r['done'] for r in rs)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    cov = {
        'evaluations': done,
        'distinct_nontrivial': len(states),
        'rule': check.rule,
        'samples': [x for r in rs for x in r['samples']][:6] or ['none'],
        'nontrivial_cases': sum(r['nontrivial'] for r in rs),
        'monitor_events': dict(sorted(ev.items())),
        'library_lines_executed': len(lines),
        'library_lines_total': total_lines(),
        'effort_factor': mult,
        'processes': len(ps)}
    if check.exhaustive:
        cov['exhaustive_part'] = check.exhaustive
    json.dump({'property': cid, 'tier': tier, 'seed': seed,
               'level': 'exploration', 'coverage': cov,
               'assumptions': check.assumptions,
               'wall_s': round(time.monotonic() - t0, 2),
               'violations': len(bad)},
              open(os.path.join(ROOT, 'evidence', cid + '.json'), 'w'),
              indent=1)
    print('%s %s seed=%d: %d cases, %d distinct states, %s; %.1f s'
          % (cid, tier, seed, done, len(states), ', '.join(
              '%s %d' % x for x in sorted(ev.items())),
             time.monotonic() - t0))
    for (c, k), text in sorted(seen_known.items()):
        print('KNOWN-FINDING: property=%s %s %s' % (c, k, text))
    if bad:
        bad.sort(key=lambda b: b['case'] if b['case'] >= 0 else 1 << 60)
        d = os.path.join(ROOT, 'evidence', 'replays')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%d.json' % (cid, seed))
        json.dump({'property': cid, 'seed': seed, 'tier': tier, 'n': n,
                   'violations': bad}, open(p, 'w'), indent=1)
        for b in bad[:5]:
            print('  case %d (shard %d): %s: %s' % (
                b['case'], b['shard'], b['key'], b['what']))
        print('VIOLATION property=%s replay=%s' % (cid, p))
        return 1
    # on a slow machine fewer cases fit into the time limit; what they must
    # have shown shrinks with them, but never to nothing
    part = max(.05, min(1, done / check.quick)) * .6
    short = [k for k, v in check.need.items() if ev.get(k, 0) < v * part]
    if short:
        print('INCONCLUSIVE: the monitors saw too little: %s' % ', '.join(
            '%s %d < %d' % (k, ev.get(k, 0), check.need[k] * part)
            for k in short))
        return 2
    return 0


def replay(path):
    d = json.load(open(path))
    b = d['violations'][0]
    cid = d['property']
    for how in ('alone', 'after its history'):
        if b['case'] < 0 and how == 'alone':
            continue
        p = spawn(cid, d['seed'], d['tier'], b['shard'], d['n'],
                  b['case'] if how == 'alone' else None)
        out, err = p.communicate()
        try:
            bad = json.loads(out)['bad']
        except ValueError:
            bad = [{'case': b['case'], 'key': 'worker died',
                    'what': err.decode(errors='replace')[-1500:]}]
        if bad:
            print('replayed %s: %s: %s' % (how, bad[0]['key'],
                                           bad[0]['what']))
            print('VIOLATION property=%s replay=%s' % (cid, path))
            return 1
    print('the recorded case does not fail on this tree')
    return 0


class Check:
    id = None
    quick = 400
    thorough = 8000
    rule = ''
    need = {}
    coverage = True
    case_cpu = CASE_CPU
    exhaustive = None
    assumptions = ['the reference models in /verif/mon/ref are right; they '
                   'are written from the published specifications and do not '
                   'import the library']

    def setup(self, cx):
        pass

    def case(self, cx, i):
        raise NotImplementedError

    def finish(self, cx):
        pass
