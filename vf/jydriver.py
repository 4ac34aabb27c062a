# Runs under Jython 2.7.  Interprets recorded histories ("cases") against the
# real python-messaging code and logs, for every operation, what was observed
# at the client boundary: the returned value or the exception (with its MRO).
#
#   jydriver.py REPO CASES.jsonl OUT.jsonl SCRATCH key=value...
#
# Options: trace=K   run every K-th case with a line monitor (coverage evidence)
#          seed=1    seed the random numbers for every step
#          clock=T   the clock shows T seconds since 1970 (and goes on)
#          effects=1 report what calls do besides returning a result
#          limit=N   abort (as "hang") a case after N line events in messaging/
import sys
import os
import json
import random
import array
import datetime
import types

REPO, CASES, OUT, SCRATCH = sys.argv[1:5]
OPTS = dict(a.split('=', 1) for a in sys.argv[5:])
sys.path.insert(0, REPO)
HERE = os.path.dirname(os.path.abspath(sys.argv[0]))

from java.lang import Runtime, OutOfMemoryError, StackOverflowError, Throwable
from java.util.concurrent.atomic import AtomicInteger

out = open(OUT, 'ab')


def dumps(o):
    return json.dumps(o, separators=(',', ':'))


# ----------------------------------------------------------------- values
def de(v, env):
    """JSON -> Python 2 value"""
    if isinstance(v, dict):
        if 's' in v:
            return v['s'].encode('latin-1')
        if 'u' in v:
            return u''.join([unichr(c) for c in v['u']])
        if 'v' in v:
            return look(v['v'], env)
        if 'p' in v:
            return os.path.join(SCRATCH, v['p'].encode('latin-1'))
        if 't' in v:
            return tuple([de(x, env) for x in v['t']])
        if 'd' in v:
            return dict([(de(k, env), de(x, env)) for k, x in v['d']])
        if 'a' in v:
            return array.array('B', v['a'].decode('hex'))
        if 'td' in v:
            return datetime.timedelta(*v['td'])
        if 'dt' in v:
            tz = de(v['tz'], env) if v.get('tz') is not None else None
            return datetime.datetime(*v['dt'], **{'tzinfo': tz})
        if 'fo' in v:
            from messaging.utils import FixedOffset
            return FixedOffset(v['fo'], 'x')
        if 'tz' in v:
            return RefTz(v['tz'])
        if 'sw' in v:
            return SwitchTz(*v['sw'])
        if 'long' in v:
            return long(v['long'])
        if 'date' in v:
            return datetime.date(*v['date'])
        if 'obj' in v:
            return Thing()
        if 'f' in v:
            return float(v['f'])
        raise ValueError('bad value %r' % v)
    if isinstance(v, list):
        return [de(x, env) for x in v]
    return v


class Thing(object):
    """a value no encoder knows, which prints the same everywhere"""
    def __repr__(self):
        return '<thing>'


class RefTz(datetime.tzinfo):
    """a tzinfo that does not come from the library"""
    def __init__(self, minutes):
        self.m = minutes

    def utcoffset(self, dt):
        return datetime.timedelta(minutes=self.m)

    def dst(self, dt):
        return datetime.timedelta(0)

    def tzname(self, dt):
        return 'ref'


class SwitchTz(RefTz):
    """a tzinfo whose offset changes at a local time"""
    def __init__(self, minutes, at, then):
        self.m = minutes
        self.at = datetime.datetime(*at)
        self.then = then

    def utcoffset(self, dt):
        late = dt is not None and dt.replace(tzinfo=None) >= self.at
        return datetime.timedelta(minutes=self.then if late else self.m)


def mod(name):
    __import__(name)
    return sys.modules[name]


def look(path, env):
    """'$x.a.b' -> from environment; 'pkg.mod:a.b' -> from a module"""
    if path.startswith('$'):
        bits = path[1:].split('.')
        if bits[0] not in env:
            raise Missing()
        o = env[bits[0]]
        bits = bits[1:]
    else:
        m, _, p = path.partition(':')
        o = mod(m)
        bits = p.split('.') if p else []
    for b in bits:
        if b.isdigit():
            o = o[int(b)]
        else:
            o = getattr(o, b)
    return o


def public(o):
    ret = {}
    names = dir(o)
    for n in names:
        if n.startswith('_'):
            continue
        try:
            a = getattr(o, n)
        except Exception, e:
            ret[n] = jyhelpers.Raw({'!': type(e).__name__})
            continue
        if callable(a):
            continue
        ret[n] = a
    return ret


def ser(o, depth=0):
    if o is None or o is True or o is False:
        return o
    t = type(o)
    if t is int or t is long:
        return o
    if t is float:
        return {'f': repr(o)}
    if t is str:
        return {'s': o.decode('latin-1')}
    if t is unicode:
        cps = map(ord, o)
        if cps and max(cps) > 126:
            return {'u': cps}
        return o
    if t.__name__ == 'Raw':
        return o.v
    if depth > 12:
        return {'?': 'deep'}
    if t is list:
        return {'l': [ser(x, depth + 1) for x in o]}
    if t is tuple:
        return {'t': [ser(x, depth + 1) for x in o]}
    if t is dict:
        items = [[ser(k, depth + 1), ser(x, depth + 1)] for k, x in o.items()]
        items.sort(key=dumps)
        return {'d': items}
    if isinstance(o, array.array):
        if o.typecode == 'B':
            return {'a': ''.join(['%02x' % x for x in o])}
        return {'l': [ser(x) for x in o]}
    if isinstance(o, datetime.datetime):
        tz = None
        if o.tzinfo is not None:
            off = o.utcoffset()
            tz = off.days * 86400 + off.seconds
        return {'dt': [o.year, o.month, o.day, o.hour, o.minute, o.second,
                       o.microsecond], 'tz': tz}
    if isinstance(o, datetime.timedelta):
        return {'td': [o.days, o.seconds, o.microseconds]}
    if isinstance(o, (int, long)):
        return int(o)
    if isinstance(o, basestring):
        return ser(o[:])
    if isinstance(o, (types.FunctionType, types.MethodType, types.ModuleType,
                      types.ClassType)) or isinstance(o, type):
        return {'?': 'callable'}
    cls = o.__class__.__name__
    pub = public(o)
    return {'o': cls, 'd': [[k, ser(pub[k], depth + 1)] for k in sorted(pub)]}


def exc(e):
    c = e.__class__
    try:
        mro = [k.__name__ for k in c.__mro__]
    except AttributeError:
        mro = [c.__name__]
    try:
        msg = str(e).replace(SCRATCH, '~')[:200].decode('latin-1')
    except Exception:
        msg = u'?'
    return ['e', c.__name__, mro, msg]


import jyhelpers
jyhelpers.setup(globals())


def step(st, env):
    op = st[0]
    store = None
    if op == 'c':
        store = st[1]
        f = look(st[2], env)
        args = [de(a, env) for a in st[3]]
        kw = {}
        if len(st) > 4:
            kw = dict([(str(k), de(x, env)) for k, x in st[4].items()])
        r = f(*args, **kw)
    elif op == 'h':
        store = st[1]
        f = getattr(jyhelpers, st[2])
        r = f(*[de(a, env) for a in st[3]])
    elif op == 'g':
        store = st[1]
        r = look(st[2], env)
    elif op == 's':
        path, _, attr = st[1].rpartition('.')
        setattr(look(path, env), attr, de(st[2], env))
        r = None
    elif op == 'si':
        look(st[1], env)[de(st[2], env)] = de(st[3], env)
        r = None
    elif op == 'di':
        del look(st[1], env)[de(st[2], env)]
        r = None
    elif op == 'x':
        # store a constant
        store = st[1]
        r = de(st[2], env)
    else:
        raise SystemError('unknown op %s' % op)
    if store:
        env[store] = r
        if op in ('c', 'x') and not (len(st) > 5 and st[5]):
            if op == 'c' and type(r) in (list, tuple, str, unicode, dict):
                return r
            return None
    return r


class Missing(Exception):
    """what an earlier step should have made is not there"""


def do(st, env):
    """the record of one step; an operation on something an earlier failed
    step should have made is not executed"""
    try:
        r = step(st, env)
        try:
            return ['v', ser(r)]
        except Exception, e:
            return ['v', {'?': 'unserialisable %s' % e}]
    except (KeyboardInterrupt, SystemError):
        raise
    except Missing:
        return ['n']
    except Exception, e:
        return exc(e)
    except (StackOverflowError, ), e:
        return ['e', 'StackOverflowError', ['StackOverflowError'], '']
    except OutOfMemoryError:
        raise
    except Throwable, e:
        n = e.getClass().getName()
        return ['e', n, [n], '']
    except:
        e = sys.exc_info()[1]
        return exc(e) if isinstance(e, BaseException) else \
            ['e', str(sys.exc_info()[0]), [], '']


def run_case(case):
    env = {}
    rs = []
    for k, st in enumerate(case['s']):
        if SEED:
            random.seed(k)
        rs.append(do(st, env))
    return rs


# ----------------------------------------------------------------- monitor
PKG = os.path.join(REPO, 'messaging') + os.sep
lines = {}
events = [0]
LIMIT = int(OPTS.get('limit', '0'))
TRACE = int(OPTS.get('trace', '0'))
SEED = OPTS.get('seed')
current = [None]


def tracer(frame, event, arg):
    fn = frame.f_code.co_filename
    if not fn.startswith(PKG):
        return None
    if event == 'line' or event == 'call':
        events[0] += 1
        s = lines.get(fn)
        if s is None:
            s = lines[fn] = set()
        s.add(frame.f_lineno)
        if LIMIT and events[0] > LIMIT:
            out.write(dumps({'i': current[0], 'hang': events[0],
                             'at': '%s:%d' % (fn[len(PKG):],
                                              frame.f_lineno)}) + '\n')
            out.flush()
            os.fsync(out.fileno())
            Runtime.getRuntime().halt(77)
    return tracer


def main():
    if 'clock' in OPTS:
        import time
        now = time.time
        shift = int(OPTS['clock']) - now()
        time.time = staticmethod(lambda: now() + shift)
    jyhelpers.setup(globals())
    jyhelpers.warm()
    fx = None
    if OPTS.get('effects'):
        import jyeffects as fx
        fx.D.update(globals())
        fx.install()
    n = 0
    maxev = 0
    for line in open(CASES, 'rb'):
        case = json.loads(line)
        current[0] = case['i']
        tr = LIMIT or (TRACE and n % TRACE == 0)
        n += 1
        if tr:
            if LIMIT:
                events[0] = 0
            e0 = events[0]
            sys.settrace(tracer)
            try:
                r = run_case(case)
            except OutOfMemoryError:
                if not LIMIT:
                    raise
                # alone in a new process: the memory went to this case
                sys.settrace(None)
                out.write(dumps({'i': case['i'], 'hang': events[0],
                                 'at': 'memory'}) + '\n')
                out.flush()
                Runtime.getRuntime().halt(77)
            finally:
                sys.settrace(None)
            maxev = max(maxev, events[0] - e0)
        else:
            if fx:
                fx.begin(case)
            r = run_case(case)
            if fx:
                r.append(['fx', fx.end(case)])
        out.write(dumps({'i': case['i'], 'r': r}) + '\n')
        out.flush()
    cov = dict([(k[len(PKG):], sorted(v)) for k, v in lines.items()])
    end = {'end': n, 'lines': cov, 'events': events[0], 'maxev': maxev}
    if fx:
        end['fx'] = [fx.COUNT, sorted(fx.FUNCS)]
    out.write(dumps(end) + '\n')
    out.close()


main()
