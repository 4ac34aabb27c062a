# Runs inside Jython: wraps every function and method of the package and
# watches, for every call that comes from outside of it, what the call does
# besides returning a result.
import sys
import os
import types
import threading

FX = []                 # what was seen since the last report
COUNT = {'calls': 0, 'watched_args': 0, 'fd_looks': 0, 'tree_looks': 0,
         'raised': 0, 'written': 0, 'state_looks': 0}
FUNCS = set()
D = {}
local = threading.local()


def add(kind, what):
    FX.append([kind, what])


# ------------------------------------------------------------------ output
class Recorder(object):
    def __init__(self, name):
        self.name = name

    def write(self, s):
        if s.strip():
            add('output', '%s: %r' % (self.name, s[:60]))

    def writelines(self, l):
        for s in l:
            self.write(s)

    def flush(self):
        pass

    def isatty(self):
        return False


# ------------------------------------------------------------------- files
def fds():
    COUNT['fd_looks'] += 1
    out = []
    for n in os.listdir('/proc/self/fd'):
        try:
            t = os.readlink('/proc/self/fd/' + n)
        except OSError:
            continue
        if t.startswith(D['SCRATCH']) or t.startswith(D['REPO']) or \
                t == '/dev/full':
            out.append(t)
    out.sort()
    return out


def tree(top):
    """names, sizes, permissions and contents of the files below"""
    COUNT['tree_looks'] += 1
    out = {}
    for d, ds, fs in os.walk(top):
        for f in fs:
            p = os.path.join(d, f)
            try:
                st = os.lstat(p)
                # Jython cannot open a fifo without waiting for its writer
                if st.st_mode & 0170000 == 0100000 and st.st_size < 10 ** 6:
                    h = open(p, 'rb')
                    c = h.read()
                    h.close()
                else:
                    c = ''
                out[p] = (st.st_size, st.st_mode, int(st.st_mtime * 1000),
                          hash(c))
            except (OSError, IOError):
                out[p] = None
        for x in ds:
            out[os.path.join(d, x)] = 'dir'
    return out


# ------------------------------------------------------------------- calls
def watched(o):
    """whether a call has no business changing the value"""
    if o is None or isinstance(o, (int, long, float, str, unicode, bool)):
        return False
    if hasattr(o, 'next') or hasattr(o, 'read'):
        return False        # reading on is what they are for
    return True


def view(o):
    if not watched(o):
        return None
    try:
        return D['dumps'](D['ser'](o))
    except Exception, e:
        return 'unserialisable ' + type(e).__name__


def wrap(f, name, skip):
    FUNCS.add(name)

    def wrapper(*args, **kw):
        if getattr(local, 'inside', False):
            return f(*args, **kw)
        local.inside = True
        COUNT['calls'] += 1
        try:
            watch = list(args[skip:]) + sorted(kw.values())
            before = [view(a) for a in watch]
            COUNT['watched_args'] += len([b for b in before if b is not None])
            here = current['dir']
            f0 = fds()
            t0 = tree(here)
            r0 = current['seeded']
            try:
                return f(*args, **kw)
            except:
                COUNT['raised'] += 1
                raise
            finally:
                after = [view(a) for a in watch]
                for k in range(len(before)):
                    if before[k] != after[k]:
                        add('argument', '%s changed its argument %d: %s -> %s'
                            % (name, k, before[k][:80], after[k][:80]))
                f1 = fds()
                for p in f0:
                    if p in f1:
                        f1.remove(p)
                if f1:
                    add('open file', '%s left %r open' % (name, f1))
                t1 = tree(here)
                if t0 != t1:
                    target = None
                    if name.endswith('.to_file') and watch:
                        target = os.path.join(os.getcwd(), str(watch[0]))
                        COUNT['written'] += 1
                    for p in sorted(set(t0) | set(t1)):
                        if t0.get(p) != t1.get(p) and p != target:
                            add('files', '%s: %s %r -> %r' % (
                                name, p, t0.get(p), t1.get(p)))
                if current['seeded'] != r0:
                    add('random', '%s seeded the random numbers' % name)
        finally:
            local.inside = False
    wrapper.__name__ = getattr(f, '__name__', 'f')
    wrapper.__doc__ = getattr(f, '__doc__', None)
    return wrapper


def install():
    import random
    seed = random.seed

    def noted(*a):
        if getattr(local, 'inside', False):
            current['seeded'] += 1
        return seed(*a)
    random.seed = noted
    for m in sorted(sys.modules):
        mod = sys.modules[m]
        if mod is None or not (m == 'messaging' or m.startswith('messaging.')):
            continue
        for n, o in sorted(vars(mod).items()):
            if getattr(o, '__module__', None) != m:
                continue
            if isinstance(o, types.FunctionType):
                # everywhere it was imported to
                w = wrap(o, m + ':' + n, 0)
                for m2 in sys.modules.values():
                    if m2 is not None and hasattr(m2, '__dict__') and \
                            vars(m2).get(n) is o:
                        setattr(m2, n, w)
            elif isinstance(o, (type, types.ClassType)):
                for k, a in sorted(vars(o).items()):
                    nm = '%s:%s.%s' % (m, n, k)
                    if k.startswith('__') and k not in ('__init__',):
                        continue
                    try:
                        if isinstance(a, types.FunctionType):
                            setattr(o, k, wrap(a, nm, 1))
                        elif isinstance(a, staticmethod):
                            setattr(o, k, staticmethod(
                                wrap(a.__get__(None, o), nm, 0)))
                        elif isinstance(a, classmethod):
                            g = a.__get__(None, o).im_func
                            setattr(o, k, classmethod(wrap(g, nm, 1)))
                        elif isinstance(a, property):
                            setattr(o, k, property(
                                a.fget and wrap(a.fget, nm + '.get', 1),
                                a.fset and wrap(a.fset, nm + '.set', 1),
                                a.fdel and wrap(a.fdel, nm + '.del', 1)))
                    except (TypeError, AttributeError):
                        pass


# ----------------------------------------------------------- process state
def state():
    """the settings of the process and the tables of the package"""
    import locale
    import signal
    import socket
    import threading
    import warnings
    import mimetypes
    import codecs
    COUNT['state_looks'] += 1
    um = os.umask(022)
    os.umask(um)
    st = {'cwd': os.getcwd(), 'cwd holds': sorted(os.listdir('.')),
          'tmp holds': sorted(os.listdir(os.environ['TMPDIR'])), 'umask': um, 'path': list(sys.path),
          'environ': sorted(os.environ.items()),
          'recursion': sys.getrecursionlimit(),
          'encoding': sys.getdefaultencoding(),
          'timeout': socket.getdefaulttimeout(),
          'filters': len(warnings.filters),
          'mimetypes': sorted(mimetypes.types_map.items()),
          'locale': locale.getlocale(),
          'threads': len([t for t in threading.enumerate()]),
          'trace': sys.gettrace() is None,
          'stdout': type(sys.stdout).__name__,
          'stderr': type(sys.stderr).__name__}
    for n in ('ascii', 'utf-8', 'utf-16be', 'latin-1', 'gsm0338'):
        try:
            st['codec ' + n] = id(codecs.lookup(n).encode) and True
        except LookupError:
            st['codec ' + n] = False
    for m in sorted(sys.modules):
        mod = sys.modules[m]
        if mod is None or not m.startswith('messaging'):
            continue
        for n, o in vars(mod).items():
            if n.startswith('_'):
                continue
            if isinstance(o, (dict, list, tuple, set, frozenset, int, str,
                              unicode, long)):
                st['%s.%s' % (m, n)] = D['dumps'](D['ser'](
                    sorted(o) if isinstance(o, (set, frozenset)) else o))
            elif isinstance(o, (type, types.ClassType)) and \
                    getattr(o, '__module__', None) == m:
                for k, a in vars(o).items():
                    if not k.startswith('_') and isinstance(
                            a, (dict, list, tuple, set, int, str, unicode)):
                        st['%s.%s.%s' % (m, n, k)] = D['dumps'](D['ser'](
                            sorted(a) if isinstance(a, set) else a))
    return st


current = {'dir': None, 'seeded': 0, 'state': None}


def begin(case):
    current['dir'] = os.path.join(D['SCRATCH'], case.get('dir') or '.')
    if current['state'] is None:
        current['state'] = state()
        sys.stdout = Recorder('stdout')
        sys.stderr = Recorder('stderr')
        current['state']['stdout'] = current['state']['stderr'] = 'Recorder'
        current['tables'] = [k for k in current['state']
                             if current['state'][k] not in
                             ('[]', '{"d":[]}', '{"t":[]}')]


def end(case):
    """-> the effects of the case"""
    if case.get('look'):
        new = state()
        old = current['state']
        for k in sorted(current['tables']):
            # a table that was empty at first, or a name that appeared, is a
            # memo
            if new.get(k) != old.get(k):
                add('state', '%s: %s -> %s' % (k, str(old[k])[:80],
                                               str(new.get(k))[:80]))
        current['state'] = new
    l = FX[:]
    del FX[:]
    return l
