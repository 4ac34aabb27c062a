"""Runs a check: generate cases, execute them on the real code under Jython,
judge the recorded events with the check's oracle, write the evidence."""
import importlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VF_REPO', '/repo')
EVID = os.environ.get('VF_EVIDENCE', os.path.join(VERIF, 'evidence'))
STALL = 60          # s without an event before a case is re-run on a step budget
STEP_LIMIT = 6000000
JAVA = ['java', '-Xmx3g', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=4',
        '-Dpython.home=/usr/share/jython', '-Dpython.executable=/usr/bin/jython',
        '-Dpython.cachedir.skip=true', '-jar', '/usr/share/java/jython.jar',
        '-B', '-S']

ZONES = ['UTC', 'America/St_Johns', 'Asia/Kathmandu', 'Pacific/Auckland',
         'America/New_York', 'Asia/Tokyo']


HANGS = 3


class Inconclusive(Exception):
    pass


# ------------------------------------------------------------------ values
def S(s):
    """a Python-2 byte string"""
    if isinstance(s, bytes):
        s = s.decode('latin-1')
    return {'s': s}


def U(s):
    """a Python-2 unicode string"""
    if s.isascii():
        return s
    return {'u': [ord(c) for c in s]}


def A(b):
    return {'a': bytes(b).hex()}


def V(name):
    return {'v': name}


def TD(days=0, seconds=0, us=0):
    return {'td': [days, seconds, us]}


def DT(*a, tz=None):
    return {'dt': list(a), 'tz': tz}


def D(d):
    """dict of already encoded values (keys are byte strings)"""
    return {'d': [[S(k), v] for k, v in d.items()]}


class Obj(dict):
    """a dumped instance"""
    cls = None


def dec(v):
    """driver JSON -> Python 3 value (Python-2 str and unicode both -> str)"""
    if isinstance(v, dict):
        if 's' in v:
            return v['s']
        if 'u' in v:
            return ''.join(map(chr, v['u']))
        if 't' in v:
            return tuple(dec(x) for x in v['t'])
        if 'l' in v:
            return [dec(x) for x in v['l']]
        if 'a' in v:
            return bytes.fromhex(v['a'])
        if 'f' in v:
            return float(v['f'])
        if 'dt' in v:
            return ('dt', tuple(v['dt']), v['tz'])
        if 'td' in v:
            return ('td', tuple(v['td']))
        if 'o' in v:
            o = Obj((k, dec(x)) for k, x in v['d'])
            o.cls = v['o']
            return o
        if 'd' in v:
            return dict((hk(dec(k)), dec(x)) for k, x in v['d'])
        return v
    return v


def hk(k):
    return k if not isinstance(k, list) else tuple(k)


def kind(v):
    """'s' byte string, 'u' unicode, else JSON type name"""
    if isinstance(v, str):
        return 'u'
    if isinstance(v, dict):
        return next(iter(v))
    return type(v).__name__


class R:
    """one recorded outcome"""

    def __init__(self, r):
        self.raw = r
        self.skipped = r[0] == 'n'
        self.ok = r[0] == 'v'
        self.val = dec(r[1]) if self.ok else None
        self.exc = r[1] if r[0] == 'e' else None
        self.mro = r[2] if r[0] == 'e' else []
        self.msg = r[3] if r[0] == 'e' else ''

    def isa(self, *names):
        return any(n in self.mro for n in names)

    @property
    def ordinary(self):
        """an ordinary Python exception, not an interpreter breakdown"""
        return self.exc is not None and 'Exception' in self.mro

    def __repr__(self):
        if self.ok:
            return 'returned %s' % short(self.val)
        if self.skipped:
            return 'not run'
        return 'raised %s(%s)' % (self.exc, self.msg)


def short(v, n=300):
    s = ascii(v)
    return s if len(s) <= n else s[:n] + '...'


# --------------------------------------------------------------- execution
class Shard:
    def __init__(self, cases, root, n, opts):
        self.cases = cases
        self.n = n
        self.opts = opts
        self.dir = os.path.join(root, 's%s' % n)
        self.scratch = os.path.join(self.dir, 'scratch')
        os.makedirs(self.scratch)
        self.out = os.path.join(self.dir, 'out')
        self.start()

    def start(self):
        inp = os.path.join(self.dir, 'in')
        with open(inp, 'w') as f:
            for i, c in self.cases:
                f.write(json.dumps(dict(c.get('fx', {}), i=i, s=c['s'])) +
                        '\n')
        open(self.out, 'w').close()
        self.err = open(os.path.join(self.dir, 'err'), 'wb')
        # no result may depend on the local time zone
        env = dict(os.environ, TZ=ZONES[self.n % len(ZONES)], LANG='C.UTF-8',
                   PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
                   TMPDIR=os.path.join(self.dir, 'tmp'))
        os.makedirs(env['TMPDIR'], exist_ok=True)
        for k in ('JYTHONPATH', 'PYTHONPATH', 'CLASSPATH'):
            env.pop(k, None)
        env.update(self.opts.pop('env', {}))
        cwd = os.path.join(self.scratch, self.opts.pop('cwd', '.'))
        os.makedirs(cwd, exist_ok=True)
        cmd = JAVA[:1] + self.opts.pop('java', []) + JAVA[1:]
        cmd += [os.path.join(HERE, 'jydriver.py'), REPO, inp, self.out,
                self.scratch]
        cmd += ['%s=%s' % kv for kv in self.opts.items()]
        self.p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL,
                                  stdout=self.err, stderr=self.err,
                                  cwd=cwd, env=env,
                                  start_new_session=True)
        self.size = 0
        self.moved = time.time()

    def stalled(self):
        s = os.path.getsize(self.out)
        if s != self.size:
            self.size, self.moved = s, time.time()
        return time.time() - self.moved > STALL

    def kill(self):
        try:
            os.killpg(self.p.pid, 9)
        except OSError:
            pass
        self.p.wait()

    def results(self):
        res, end = {}, None
        with open(self.out, 'rb') as f:
            for line in f:
                if not line.endswith(b'\n'):
                    break
                o = json.loads(line)
                if 'end' in o:
                    end = o
                else:
                    res[o['i']] = o
        return res, end

    def errtext(self):
        with open(os.path.join(self.dir, 'err'), 'rb') as f:
            return f.read()[-2000:].decode('latin-1')


class Run:
    """results and monitor totals of one execution of a list of cases"""

    def __init__(self):
        self.res = {}
        self.hangs = {}
        self.lines = {}
        self.events = 0
        self.ops = 0
        self.fx = []

    def add(self, res, end):
        for i, o in res.items():
            if 'hang' in o:
                self.hangs[i] = o
            else:
                self.res[i] = o['r']
        if end:
            self.events += end['events']
            if 'fx' in end:
                self.fx.append(end['fx'])
            for k, v in end['lines'].items():
                self.lines.setdefault(k, set()).update(v)


def execute(cases, shards=None, trace=0, order=1, opts=None, total=800):
    """run cases (list of dicts with 's') over several JVMs"""
    n = len(cases)
    if shards is None:
        shards = max(min(n, 2), min(6, n // 150))
    root = tempfile.mkdtemp(prefix='vf-')
    run = Run()
    t0 = time.time()
    cnt = 0
    try:
        todo = []
        idx = list(enumerate(cases))
        for k in range(shards):
            part = idx[k::shards][::order]
            if part:
                todo.append(part)
        active = []
        for part in todo:
            o = dict(opts or {})
            if trace:
                o['trace'] = trace
            active.append(Shard(part, root, cnt, o))
            cnt += 1
        while active:
            time.sleep(0.05)
            if time.time() - t0 > total:
                if run.hangs:
                    break
                raise Inconclusive('out of time after %d s' % total)
            for sh in list(active):
                rc = sh.p.poll()
                if rc is None:
                    if not sh.stalled():
                        continue
                    sh.kill()
                    rc = -9
                active.remove(sh)
                res, end = sh.results()
                run.add(res, end)
                if end:
                    continue
                left = [(i, c) for i, c in sh.cases if i not in res]
                if not left:
                    if 'limit' in sh.opts:
                        continue
                    raise Inconclusive('no end record: ' + sh.errtext())
                if len(run.hangs) >= HANGS:
                    # enough to report; the rest would take hours
                    for o in active:
                        o.kill()
                    active = []
                    break
                if 'limit' in sh.opts:
                    raise Inconclusive('case %s neither ends nor exceeds the '
                                       'step budget: rc %s %s' %
                                       (left[0][0], rc, sh.errtext()))
                if len(res) == 0 and rc not in (-9, 77) and \
                        time.time() - t0 < STALL and 'tried' in sh.opts:
                    raise Inconclusive('driver failed: ' + sh.errtext())
                # the case in progress is decided on a step budget
                o = dict(opts or {}, limit=STEP_LIMIT)
                active.append(Shard(left[:1], root, cnt, o))
                cnt += 1
                if left[1:]:
                    o = dict(opts or {}, tried=1)
                    active.append(Shard(left[1:], root, cnt, o))
                    cnt += 1
                if cnt > 40 and not run.hangs:
                    raise Inconclusive('too many restarts: ' + sh.errtext())
        run.ops = sum(len(r) for r in run.res.values())
    finally:
        for sh in locals().get('active', []):
            sh.kill()
        shutil.rmtree(root, ignore_errors=True)
    return run


# ------------------------------------------------------------------- check
class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.counts = {}
        self.distinct = {}
        self.viol = []

    def hit(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def see(self, name, key):
        """count distinct observed states/values"""
        self.distinct.setdefault(name, set()).add(key)

    @property
    def thorough(self):
        return self.tier == 'thorough'


def load(pid):
    return importlib.import_module('vf.checks.' + pid.lower())


def known(pid):
    ret = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == pid:
                ret[m.group(2)] = m.group(3).strip()
    return ret


def lines_total():
    tot = {}
    base = os.path.join(REPO, 'messaging')
    for d, _, fs in os.walk(base):
        if os.path.basename(d) == 'test':
            continue
        for f in fs:
            if f.endswith('.py'):
                tot[os.path.relpath(os.path.join(d, f), base)] = 1
    return tot


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    replay = None
    if '--replay' in argv:
        replay = argv[argv.index('--replay') + 1]
    if '--thorough' in argv:
        tier = 'thorough'
    t0 = time.time()
    mod = load(pid)
    ctx = Ctx(pid, tier, seed)
    rng = random.Random('%s/%s/%s' % (pid, seed, tier))
    os.makedirs(EVID, exist_ok=True)
    rdir = os.path.join(EVID, 'replay')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if not replay and f.startswith(pid + '-'):
            os.unlink(os.path.join(rdir, f))
    status, why = 0, ''
    run = Run()
    cases = []
    nontriv = set()
    samples = []
    try:
        if hasattr(mod, 'custom'):
            cases, run, nontriv, samples = mod.custom(ctx, rng, replay)
        else:
            if replay:
                # in every time zone
                cases = [json.load(open(replay))['case']] * len(ZONES)
            else:
                cases = list(mod.gen(rng, ctx))
            run = execute(cases, trace=0 if replay else
                          max(1, len(cases) // 120),
                          opts=getattr(mod, 'OPTS', None),
                          shards=len(ZONES) if replay else
                          getattr(mod, 'SHARDS', None))
            for i, c in enumerate(cases):
                if i in run.hangs:
                    h = run.hangs[i]
                    if h['at'] == 'memory':
                        ctx.viol.append(('memory', 'no result within 3 GB of '
                                         'memory', c))
                        continue
                    ctx.viol.append(('hang', 'no result after %d line events '
                                     '(in %s)' % (h['hang'], h['at']), c))
                    continue
                if i not in run.res:
                    continue
                rs = [R(r) for r in run.res[i]]
                try:
                    for key, msg in mod.judge(c, rs, ctx):
                        ctx.viol.append((key, msg, c))
                except Exception as e:
                    if os.environ.get('VF_DEBUG'):
                        raise
                    # an observation the oracle cannot even read is not what
                    # the property promises
                    ctx.viol.append(('unreadable', 'observation outside the '
                                     'form the property gives it: %s: %s; %s' %
                                     (type(e).__name__, e, short(rs)), c))
                k = mod.nontrivial(c, rs) if hasattr(mod, 'nontrivial') else \
                    json.dumps(c['s'])
                if isinstance(k, list):
                    nontriv.update(k)
                elif k is not None:
                    nontriv.add(k)
            step = max(1, len(cases) // 4)
            for i in range(0, len(cases), step):
                samples.append({'case': short(cases[i]['s'], 400),
                                'observed': short(run.res.get(i), 400)})
        if not replay and not ctx.viol:
            for k, v in getattr(mod, 'NEED', {}).items():
                got = ctx.counts.get(k, len(ctx.distinct.get(k, ())))
                if got < v:
                    raise Inconclusive('monitor saw only %d of %d "%s"' %
                                       (got, v, k))
    except Inconclusive as e:
        if not ctx.viol:
            status, why = 2, str(e)

    kn = known(pid)
    new = [v for v in ctx.viol if v[0] not in kn]
    seen = sorted(set(v[0] for v in ctx.viol if v[0] in kn))
    for k in seen:
        print('KNOWN-FINDING: property=%s key=%s %s' % (pid, k, kn[k]))
    if new:
        status = 1
        shown = {}
        for key, msg, case in new:
            shown.setdefault(key, []).append((msg, case))
        n = 0
        for key, l in list(shown.items())[:12]:
            n += 1
            path = os.path.join(rdir, '%s-%d.json' % (pid, n))
            msg, case = min(l, key=lambda mc: len(json.dumps(mc[1])))
            with open(path, 'w') as f:
                json.dump({'property': pid, 'key': key, 'message': msg,
                           'case': case, 'seed': seed, 'tier': tier}, f,
                          indent=1)
            print('VIOLATION property=%s replay=%s' % (pid, path))
            print('  [%s] x%d %s' % (key, len(l), msg[:700]))
    evals = getattr(ctx, 'evaluations', None) or len(cases)
    cov = {
        'evaluations': evals,
        'distinct_nontrivial': len(nontriv),
        'rule': mod.RULE,
        'samples': samples[:6],
        'operations_observed': run.ops,
        'monitor_counts': ctx.counts,
        'distinct_observed': {k: len(v) for k, v in ctx.distinct.items()},
        'traced_line_events': run.events,
        'lines_reached': {k: len(v) for k, v in sorted(run.lines.items())},
    }
    cov.update(getattr(ctx, 'extra', {}))
    ev = {'property': pid, 'tier': tier, 'seed': seed,
          'level': getattr(mod, 'LEVEL', 'exploration'), 'coverage': cov,
          'assumptions': getattr(mod, 'ASSUME', []),
          'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    if status == 2:
        ev['coverage']['inconclusive'] = why
    if not replay:
        with open(os.path.join(EVID, pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    if status == 2:
        print('INCONCLUSIVE property=%s %s' % (pid, why))
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d operations, '
          '%s%d new violations, %.1f s' %
          (pid, tier, seed, evals, len(nontriv), run.ops,
           ''.join('%s=%d ' % kv for kv in sorted(ctx.counts.items())),
           len(new), time.time() - t0))
    return status
