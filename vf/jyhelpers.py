# Helpers run inside Jython; each only uses the public API of the library.
import sys
import os
import array
import time

D = {}


def setup(g):
    D.update(g)


def warm():
    import datetime
    datetime.datetime.strptime('01/01/01', '%y/%m/%d')
    import xml.dom.minidom
    import mimetypes
    mimetypes.init()
    import messaging.sms
    import messaging.sms.wap
    import messaging.mms.mms_pdu


SUBMIT_ATTRS = ('request_status', 'ref', 'rand_id', 'pid', 'csca', 'klass',
                'validity', 'fmt', 'text', 'number')


def pdus(l):
    return [[p.pdu, p.length, p.cnt, p.seq] for p in l]


def submit(number, text, attrs):
    """new SmsSubmit, set attributes, to_pdu; -> rows + scalar attributes"""
    from messaging.sms import SmsSubmit
    s = SmsSubmit(number, text)
    for k, v in attrs:
        setattr(s, str(k), v)
    rows = pdus(s.to_pdu())
    return [rows, s.fmt, s.dcs]


def to_pdu(s):
    return pdus(s.to_pdu())


def dview(s):
    ret = {}
    for k in ('csca', 'number', 'pid', 'dcs', 'fmt', 'date', 'text', 'type',
              'sr', 'mtype', 'pdu'):
        ret[k] = getattr(s, k)
    udh = s.udh
    if udh is None:
        ret['udh'] = None
    else:
        ret['udh'] = udhview(udh)
    ret['data'] = s.data
    return ret


def udhview(udh):
    u = {'concat': None, 'ports': None}
    if udh.concat is not None:
        c = udh.concat
        u['concat'] = [c.ref, c.cnt, c.seq, c.eight_bits]
    if udh.ports is not None:
        p = udh.ports
        u['ports'] = [p.dest_port, p.orig_port, p.eight_bits]
    u['headers'] = dict([(k, list(v)) for k, v in udh.headers.items()])
    return u


def udh_bytes(hexs):
    from messaging.sms.udh import UserDataHeader
    return udhview(UserDataHeader.from_bytes(array.array('B', hexs.decode('hex'))))


def deliver(pdu, strict=True):
    from messaging.sms import SmsDeliver
    return dview(SmsDeliver(pdu, strict))


def deliver_obj(pdu, strict=True):
    from messaging.sms import SmsDeliver
    return SmsDeliver(pdu, strict)


def gsm_enc(u, errors):
    import messaging.sms.gsm0338
    return u.encode('gsm0338', errors)


def gsm_dec(s, errors):
    import messaging.sms.gsm0338
    return s.decode('gsm0338', errors)


def gsm_sweep(lo, hi):
    """[(cp, hex or None, is_gsm)] for a code point range"""
    from messaging.sms import is_gsm_text
    ret = []
    for cp in xrange(lo, hi):
        if 0xd800 <= cp <= 0xdfff:
            continue
        u = unichr(cp)
        try:
            e = u.encode('gsm0338').encode('hex')
        except UnicodeError:
            e = None
        ret.append([cp, e, is_gsm_text(u)])
    return ret


def modes(cps, mode):
    r = []
    for cp in cps:
        try:
            r.append(unichr(cp).encode('gsm0338', mode).encode('hex'))
        except UnicodeError:
            r.append(None)
    return r


def it(data):
    from messaging.mms.iterator import PreviewIterator
    return PreviewIterator(data)


def dec1(where, name, data, *extra):
    """one decode on a cursor over data; observes value/exception, what is
    left, and whether the preview cursor is in step with the read cursor"""
    from messaging.mms import wsp_pdu, mms_pdu
    from messaging.mms.iterator import PreviewIterator
    cls = wsp_pdu.Decoder if where == 'wsp' else mms_pdu.MMSDecoder
    bi = PreviewIterator(data)
    f = getattr(cls, 'decode_' + name)
    try:
        r = ['v', D['ser'](f(bi, *extra))]
    except Exception, e:
        r = D['exc'](e)
    pv = []
    try:
        pv.append(bi.preview())
    except StopIteration:
        pv.append(None)
    left = []
    while True:
        try:
            left.append(bi.next())
        except StopIteration:
            break
    return {'r': Raw(r), 'left': array.array('B', left), 'pv': pv[0]}


class Raw(object):
    def __init__(self, v):
        self.v = v


def enc1(where, name, *args):
    from messaging.mms import wsp_pdu, mms_pdu
    cls = wsp_pdu.Encoder if where == 'wsp' else mms_pdu.MMSEncoder
    r = getattr(cls, 'encode_' + name)(*args)
    return array.array('B', r)


def hdrs(m):
    return dict(m.headers)


def partview(p):
    return {'headers': dict(p.headers), 'data': p.data, 'len': len(p),
            'ct': p.content_type, 'ctp': p.content_type_parameters}


def mview(m):
    return {'headers': dict(m.headers), 'ct': m.content_type,
            'parts': [partview(p) for p in m.data_parts]}


def from_data(data):
    from messaging.mms.message import MMSMessage
    return mview(MMSMessage.from_data(data))


def from_file(path):
    from messaging.mms.message import MMSMessage
    return mview(MMSMessage.from_file(path))


def write_file(path, data):
    d = os.path.dirname(path)
    if not os.path.isdir(d):
        os.makedirs(d)
    f = open(path, 'wb')
    f.write(data)
    f.close()


def read_file(path):
    f = open(path, 'rb')
    try:
        return f.read()
    finally:
        f.close()


def remove_file(path):
    os.unlink(path)


def exists(path):
    return os.path.exists(path)


def push(s):
    from messaging.sms.wap import (extract_push_notification,
                                   is_mms_notification)
    p = extract_push_notification(s)
    return {'headers': dict(p.headers), 'isn': is_mms_notification(p)}


def carry(pdu, csca, sender, ts):
    """what the network makes of an SMS-SUBMIT: an SMS-DELIVER (octets only)"""
    b = [int(pdu[i:i + 2], 16) for i in range(0, len(pdu), 2)]
    b = b[b[0] + 1:]
    fo = b[0]
    dl = (b[2] + 1) // 2
    p = 4 + dl
    pid, dcs = b[p], b[p + 1]
    p += 2
    p += {0: 0, 2: 1, 1: 7, 3: 7}[(fo >> 3) & 3]
    return csca + '%02x' % (fo & 0x40 | 0x04) + sender + \
        '%02x%02x' % (pid, dcs) + ts + ''.join(['%02x' % x for x in b[p:]])


def journey(msgs, seed, repeats, same):
    """submit messages, carry them in shuffled order, decode what arrives;
    msgs: [number, text, attrs, csca, sender, ts]"""
    import random
    from messaging.sms import SmsSubmit, SmsDeliver
    sent = []
    s = None
    for number, text, attrs, csca, sender, ts in msgs:
        if s is None or not same:
            s = SmsSubmit(number, text)
        else:
            s.number = number
            s.text = text
        for k, v in attrs:
            setattr(s, str(k), v)
        for p in s.to_pdu():
            sent.append(carry(p.pdu, csca, sender, ts))
    rnd = random.Random(seed)
    n = len(sent)
    for _ in range(repeats):
        sent.append(sent[rnd.randrange(n)])
    rnd.shuffle(sent)
    return receive(sent)


def receive(sent):
    """what arrives, by the attributes and by the data of the old API"""
    from messaging.sms import SmsDeliver
    ret = []
    for pdu in sent:
        d = SmsDeliver(pdu)
        c = d.udh and d.udh.concat
        a = d.data
        ret.append([d.number, c and [c.ref, c.cnt, c.seq] or None, d.text,
                    a['number'], 'cnt' in a and [a['ref'], a['cnt'], a['seq']]
                    or None, a['text']])
    return ret


def is_push(s):
    from messaging.sms.wap import is_a_wap_push_notification
    return is_a_wap_push_notification(s)


def push_sms(pdus):
    """decode the SMS of a push as they arrive and put them together"""
    from messaging.sms import SmsDeliver
    from messaging.sms.wap import is_a_wap_push_notification
    parts = {}
    ports = None
    for p in pdus:
        d = SmsDeliver(p)
        c = d.udh.concat
        parts[c and c.seq or 1] = d.text
        ports = d.udh.ports.dest_port
    text = ''.join([parts[k] for k in sorted(parts)])
    ret = push(text)
    ret['is'] = is_a_wap_push_notification(text)
    ret['port'] = ports
    return ret


def pit(kind, data, ops):
    """operations n(ext) p(review) r(eset) l(oop over 2) a(ll) i(ter) on a
    PreviewIterator; what each gave, None for StopIteration"""
    from messaging.mms.iterator import PreviewIterator
    if kind == 'gen':
        src = (x for x in data)
    elif kind == 'str':
        src = ''.join([chr(x) for x in data])
    elif kind == 'array':
        src = array.array('B', data)
    elif kind == 'tuple':
        src = tuple(data)
    else:
        src = data
    it = PreviewIterator(src)
    out = []
    for o in ops:
        try:
            if o == 'n':
                out.append(it.next())
            elif o == 'p':
                out.append(it.preview())
            elif o == 'r':
                out.append(it.reset_preview())
            elif o == 'i':
                out.append(iter(it) is it)
            elif o == 'l':
                l = []
                for x in it:
                    l.append(x)
                    if len(l) == 2:
                        break
                out.append(l)
            elif o == 'a':
                out.append(list(it))
        except StopIteration:
            out.append('stop')
    return Raw([ord(x) if type(x) is str and len(x) == 1 else
                [ord(y) if type(y) is str else y for y in x]
                if type(x) is list else x for x in out])


def cur1(where, name, data, tails):
    """one decode of data; if it succeeds, the same octets in front of other
    tails and without their last one.  -> [outcome, left, next octet] each"""
    d = dec1(where, name, data)
    ret = [d]
    if d['r'].v[0] == 'v':
        k = len(data) - len(d['left'])
        for t in tails:
            ret.append(dec1(where, name, data[:k] + t))
        if k:
            ret.append(dec1(where, name, data[:k - 1]))
    return ret


def mms_rt(m):
    """encode a message and decode it again"""
    from messaging.mms.message import MMSMessage
    b = m.encode()
    r = {'bytes': array.array('B', b)}
    try:
        r['back'] = mview(MMSMessage.from_data(array.array('B', b)))
    except Exception, e:
        r['back'] = Raw(D['exc'](e))
    return r


def dbl(data):
    """decode, encode and decode again"""
    from messaging.mms.message import MMSMessage
    m = MMSMessage.from_data(data)
    return [mview(m), mms_rt(m)]


def pageview(p):
    return dict([(k, getattr(p, k) and [partview(getattr(p, k)[0])] +
                  list(getattr(p, k)[1:])) for k in ('image', 'audio', 'text')]
                + [('duration', p.duration), ('n', p.number_of_parts())])


def whole(m):
    """all that can be seen of a message"""
    return [mview(m), [pageview(p) for p in m.pages], m.width, m.height,
            m.smil()]


def outcome(f, *a):
    try:
        return f(*a)
    except Exception, e:
        return Raw(D['exc'](e))


def pure(m, path):
    """encode, encode, to_file: octets, and what can be seen in between"""
    v = [whole(m)]
    b = [array.array('B', m.encode())]
    v.append(whole(m))
    b.append(array.array('B', m.encode()))
    ret = m.to_file(path)
    v.append(whole(m))
    b.append(array.array('B', read_file(path)))
    d1 = D['dumps'](D['ser'](outcome(from_data, array.array('B', b[2]))))
    d2 = D['dumps'](D['ser'](outcome(from_file, path)))
    v = [D['dumps'](D['ser'](x)) for x in v]
    return {'b': b, 'v0': v[0], 'same': [x == v[0] for x in v], 'back': d1,
            'files': d1 == d2 or [d1, d2]}


def both(data, path):
    """the same octets decoded in memory and from a file"""
    write_file(path, ''.join([chr(x) for x in data]))
    r = [outcome(from_data, array.array('B', data)), outcome(from_file, path)]
    r.append(read_file(path) == ''.join([chr(x) for x in data]))
    return r


def given(ops, ctype, params, headers, path):
    """two messages and two parts that were given the same values; one of
    each is used and changed by the operations of the interface.
    -> what is seen of the values and the others before and after"""
    from messaging.mms.message import MMSMessage, MMSMessagePage, DataPart
    value = (ctype, params)
    ms, ps = [], []
    for k in (0, 1):
        m, p = MMSMessage(), DataPart()
        p.set_data('octets', 'image/gif', params)
        p.headers['Content-Type'] = value
        m.headers['Content-Type'] = value
        for n in headers:
            m.headers[n] = headers[n]
        m.add_data_part(p)
        ms.append(m)
        ps.append(p)

    def seen():
        return D['dumps'](D['ser']([value, headers, whole(ms[1]),
                                    ps[1].headers, ps[1].data,
                                    array.array('B', ms[1].encode())]))
    write_file(path, 'a file')
    first = seen()
    m, p = ms[0], ps[0]
    did = []
    for op in ops:
        def go():
            if op == 'page':
                g = MMSMessagePage()
                g.add_text('text')
                g.add_image(path)
                m.add_page(g)
            elif op == 'part':
                m.add_data_part(DataPart())
            elif op == 'encode':
                m.encode()
            elif op == 'smil':
                m.smil()
            elif op == 'to_file':
                m.to_file(path + '.out')
            elif op == 'text':
                p.set_text('another')
            elif op == 'data':
                p.set_data('more', 'a/b')
            elif op == 'file':
                p.from_file(path)
            elif op == 'content_type':
                p.content_type = 'c/d'
            elif op == 'views':
                [x.data for x in m.data_parts]
                [len(x) for x in m.data_parts]
                m.content_type
        r = outcome(go)
        now = seen()
        did.append([op, now == first, r is None or D['ser'](r)])
        if now != first:
            return [did, first, now]
    return [did, '', '']


def sized(m, p, wanted, path):
    """the message with files of the wanted sizes: written and read back"""
    from messaging.mms.message import MMSMessage
    out = []
    for size in wanted:
        n = max(size - 40, 0)
        for k in range(8):
            body = ('abcdefghijklmnopqrstuvwxy' * (n // 25 + 1))[:n]
            p.set_data(body, 'application/x-a')
            want = m.encode()
            if len(want) == size:
                break
            if k == 4:
                # a length of one octet more lies in between
                m.headers['Subject'] = 'sized'
            n = max(n + size - len(want), 0)
        m.to_file(path)
        f = read_file(path)
        say = []
        for g in (lambda: MMSMessage.from_file(path),
                  lambda: MMSMessage.from_data(array.array('B', f))):
            try:
                say.append(''.join(
                    [chr(ord(x)) for x in g().data_parts[-1].data]) == body)
            except Exception, e:
                say.append(repr(e))
        out.append([len(f), f == ''.join([chr(x) for x in want])] + say)
    return out


def unwritable(m, missing, directory):
    """-> what to_file says of targets that cannot take the octets"""
    out = []
    for t in ('/dev/full', os.path.join(missing, 'x'), directory or '.'):
        try:
            out.append(Raw(['v', D['ser'](m.to_file(t))]))
        except Exception:
            out.append(Raw(D['exc'](sys.exc_info()[1])))
    return out


def fails(m, path):
    """to_file of a message that cannot be encoded"""
    a = outcome(lambda: array.array('B', m.encode()))
    before = os.path.exists(path) and read_file(path) or None
    b = outcome(m.to_file, path)
    after = os.path.exists(path) and read_file(path) or None
    return [a, b, before, after]


def page(m, i):
    return m.pages[i]


def slot(page, name):
    return getattr(page, name)[0]


def smil3(m):
    """the SMIL of a message as returned, listed and encoded"""
    from messaging.mms.message import MMSMessage
    r = {'smil': m.smil()}
    p = m.data_parts
    r['part'] = p and [p[0].data, p[0].content_type] or None
    p = MMSMessage.from_data(array.array('B', m.encode())).data_parts[0]
    r['enc'] = [p.data, p.content_type]
    r['again'] = m.smil()
    return r


def snap(m, pages, parts):
    r = {'pages': [pageview(p) for p in pages],
         'parts': [partview(p) for p in parts],
         'ct': m.headers['Content-Type'], 'npages': len(m.pages),
         'list': [partview(p) for p in m.data_parts]}
    for p, v in zip(pages, r['pages']):
        v['parts'] = len(p.data_parts)
    return r


class OverBudget(Exception):
    pass


def counted(budget, f, *a):
    """outcome of f(*a) and the number of lines of the library it executed;
    beyond the budget it is interrupted"""
    pkg = os.path.join(D['REPO'], 'messaging') + os.sep
    n = [0]

    def tr(frame, event, arg):
        if not frame.f_code.co_filename.startswith(pkg):
            return None
        n[0] += 1
        if n[0] > budget:
            raise OverBudget(n[0])
        return tr
    old = sys.gettrace()
    sys.settrace(tr)
    try:
        try:
            r = f(*a)
        except Exception, e:
            r = Raw(D['exc'](e))
    finally:
        sys.settrace(old)
    return r, n[0]


def damaged(datas, intact, base, per, same):
    """decode each of datas on a step budget, every time followed by the
    intact message -> [[outcome, steps, following message as at first]]"""
    from messaging.mms.message import MMSMessage
    from messaging.mms.mms_pdu import MMSDecoder
    from hashlib import md5
    dumps, ser = D['dumps'], D['ser']

    def run(dec, d):
        m = dec is None and MMSMessage.from_data(d) or dec.decode_data(d)
        v = mview(m)
        for p in v['parts']:
            if p['len'] > 300:
                p['data'] = '%d %s' % (p['len'], md5(p['data']).hexdigest())
        return v
    first = outcome(run, None, array.array('B', intact))
    out = [first]
    first = dumps(ser(first))
    dec = same and MMSDecoder() or None
    for d in datas:
        budget = base + per * len(d)
        r, n = counted(budget, run, dec, array.array('B', d))
        if len(intact) < 3000 or len(out) % (len(intact) // 600) == 1:
            again = dumps(ser(outcome(run, dec, array.array('B', intact))))
        out.append([r, n, again == first])
    return out


def clean(where):
    """remove the files of a job (inside the scratch directory)"""
    import shutil
    p = os.path.join(D['SCRATCH'], where)
    if where and os.path.isdir(p):
        shutil.rmtree(p)


def run_job(job):
    """job: [directory, steps]"""
    clean(job[0])
    env = {}
    return D['dumps']([D['do'](st, env) for st in job[1]])


def package():
    return dict([(m, sys.modules[m]) for m in sorted(sys.modules)
                 if sys.modules[m] is not None and
                 (m == 'messaging' or m.startswith('messaging.'))])


def imported_again():
    """the modules of the package as they are before their first use"""
    live = package()
    for m in live:
        del sys.modules[m]
    try:
        for m in sorted(live):
            try:
                __import__(m)
            except ImportError:
                # Jython has a module under a second name
                pass
        return package()
    finally:
        for m in package():
            del sys.modules[m]
        sys.modules.update(live)


PLAIN = (dict, list, set, array.array)
ATOMS = (type(None), bool, int, long, float, str, unicode)


def shown(o, depth=0):
    """what is remembered in a value"""
    if isinstance(o, ATOMS):
        return repr(o)
    if depth > 6:
        return '...'
    if isinstance(o, dict):
        return 'dict' + repr(sorted([(shown(k, depth + 1),
                                      shown(o[k], depth + 1)) for k in o]))
    if isinstance(o, (set, frozenset)):
        return 'set' + repr(sorted([shown(x, depth + 1) for x in o]))
    if isinstance(o, (list, tuple, array.array)):
        return type(o).__name__ + repr([shown(x, depth + 1) for x in o])
    c = getattr(o, '__class__', type(o))
    if str(getattr(c, '__module__', '')).startswith('messaging') and \
            hasattr(o, '__dict__') and not isinstance(o, type):
        return c.__name__ + shown(vars(o), depth + 1)
    return c.__name__


def slots(mods):
    """(path, holder, name, value) of what the package can remember in"""
    import types
    for m in sorted(mods):
        todo = [(m, mods[m])]
        while todo:
            path, holder = todo.pop()
            for name, o in sorted(vars(holder).items()):
                if name.startswith('__'):
                    continue
                p = path + '.' + name
                if isinstance(o, types.ModuleType):
                    continue
                if isinstance(o, (type, types.ClassType)):
                    if o.__module__ == m:
                        todo.append((p, o))
                    continue
                f = getattr(o, 'fget', None) or getattr(o, '__func__', o)
                if isinstance(f, (staticmethod, classmethod)):
                    f = f.__get__(None, object)
                    f = getattr(f, 'im_func', f)
                if isinstance(f, types.FunctionType):
                    for k, v in enumerate(f.func_defaults or ()):
                        yield '%s default %d' % (p, k), None, None, v
                    for k, v in enumerate(f.func_closure or ()):
                        yield '%s cell %d' % (p, k), None, None, \
                            v.cell_contents
                    for k, v in sorted(vars(f).items()):
                        yield p + '.' + k, f, k, v
                    continue
                yield p, holder, name, o


FIRST = {}


def learned(restore):
    """the names of what the package remembers since it was imported;
    restore: make it forget that"""
    import copy
    if not FIRST:
        for path, holder, name, o in slots(imported_again()):
            FIRST[path] = o
    out = []
    mods = package()
    for m in list(mods):
        if mods[m] in [mods[x] for x in mods if len(x) < len(m)]:
            del mods[m]
    for path, holder, name, o in list(slots(mods)):
        if path not in FIRST:
            out.append(path)
            if restore and holder is not None:
                delattr(holder, name)
            continue
        f = FIRST[path]
        if shown(o) == shown(f):
            continue
        out.append(path)
        if not restore:
            continue
        try:
            f = copy.deepcopy(f)
            if type(o) is type(f) and isinstance(o, (dict, set)):
                o.clear()
                o.update(f)
            elif type(o) is type(f) and isinstance(o, (list, array.array)):
                o[:] = f
            elif hasattr(o, '__dict__') and type(o).__name__ == \
                    type(f).__name__ and not isinstance(f, ATOMS):
                vars(o).clear()
                vars(o).update(vars(f))
            elif holder is not None:
                setattr(holder, name, f)
        except Exception:
            pass
    return out, len(FIRST)


def threads(jobs, n, seed, rate, rounds):
    """jobs: for every thread, its list of jobs (JSON).  Run all of them one
    after the other, twice, and then every list in its own thread at once,
    disturbed at random lines.  -> differences and what was observed"""
    import random
    import threading
    from java.lang import Thread
    from java.util.concurrent.locks import LockSupport
    jobs = D['json'].loads(jobs)
    pkg = os.path.join(D['REPO'], 'messaging') + os.sep
    old = sys.gettrace()
    sys.settrace(None)
    expect = [[run_job(j) for j in l] for l in jobs]
    again = [[run_job(j) for j in l] for l in jobs]
    sure = [[x == y for x, y in zip(a, b)] for a, b in zip(expect, again)]
    last = [[None, None]]
    stats = [{'events': 0, 'switches': 0, 'naps': 0, 'pairs': set()}
             for _ in range(n)]
    bad = []
    done = [0]
    start = threading.Event()

    def work(t, cold=None):
        rnd = random.Random(seed * 1000 + t + (cold or 0) * 77)
        st = stats[t]
        pairs = st['pairs']

        def tr(frame, event, arg):
            if not frame.f_code.co_filename.startswith(pkg):
                return None
            st['events'] += 1
            here = (frame.f_code.co_name, frame.f_lineno)
            o = last[0]
            if o[0] is not None and o[0] != t:
                st['switches'] += 1
                if len(pairs) < 50000:
                    pairs.add((o[1], here))
            last[0] = [t, here]
            x = rnd.random()
            if x < (cold and .1 or rate):
                st['naps'] += 1
                if x < rate * .7:
                    Thread.yield()
                elif x < rate * .97:
                    LockSupport.parkNanos(20000)
                else:
                    Thread.sleep(1)
            return tr
        start.wait()
        sys.settrace((rate or cold) and tr or None)
        try:
            for r in range(cold and 1 or rounds):
                for k in range(len(jobs[t])):
                    if cold and k:
                        break
                    if cold:
                        k = cold % len(jobs[t])
                    k = (k + r * 3) % len(jobs[t])
                    x = run_job(jobs[t][k])
                    done[0] += 1
                    if sure[t][k] and x != expect[t][k]:
                        bad.append([t, k, expect[t][k], x])
        except:
            bad.append([t, -1, '', repr(sys.exc_info()[:2])])
        sys.settrace(None)

    ts = [threading.Thread(target=work, args=(t,)) for t in range(n)]
    for t in ts:
        t.setDaemon(True)
        t.start()
    start.set()
    for t in ts:
        t.join(100)
    stuck = len([t for t in ts if t.isAlive()])
    # what is remembered may be incomplete while another thread learns it
    memory, looks = learned(False)
    colds = 0
    end = time.time() + 5
    while memory and colds < 40 and not stuck and not bad and \
            time.time() < end:
        colds += 1
        learned(True)
        start.clear()
        ts = [threading.Thread(target=work, args=(t, colds))
              for t in range(n)]
        for t in ts:
            t.setDaemon(True)
            t.start()
        start.set()
        for t in ts:
            t.join(100)
        stuck = len([t for t in ts if t.isAlive()])
    pairs = set()
    for s in stats:
        pairs |= s['pairs']
    after = [[run_job(j) for j in l] for l in jobs]
    sys.settrace(old)
    late = len([1 for a, b, c in zip(expect, after, sure) for x, y, z in
                zip(a, b, c) if z and x != y])
    return {'bad': bad[:5], 'nbad': len(bad), 'stuck': stuck, 'late': late,
            'memory': memory[:20], 'looks': looks, 'colds': colds,
            'sure': sum([sum(x) for x in sure]),
            'n': sum([len(x) for x in sure]),
            'events': sum([s['events'] for s in stats]),
            'naps': sum([s['naps'] for s in stats]),
            'switches': sum([s['switches'] for s in stats]),
            'pairs': ['%s:%d/%s:%d' % (a + b) for a, b in sorted(pairs)[:4000]]}


def interleave(jobs, seed):
    """run the steps of several jobs (JSON) in a random merge; the step k of
    every job sees the same random numbers as when alone.  -> results"""
    import random
    jobs = D['json'].loads(jobs)
    rnd = random.Random(seed)
    for j in jobs:
        clean(j[0])
    envs = [{} for j in jobs]
    out = [[] for j in jobs]
    order = []
    for k, j in enumerate(jobs):
        order += [k] * len(j[1])
    rnd.shuffle(order)
    switches = len([1 for a, b in zip(order, order[1:]) if a != b])
    for k in order:
        n = len(out[k])
        random.seed(n)
        out[k].append(D['do'](jobs[k][1][n], envs[k]))
    return Raw([out, switches])


def spoil(o, depth=0, seen=None):
    """change everything that can be reached from an object or a value"""
    import datetime
    if seen is None:
        seen = {}
    if depth > 5 or id(o) in seen:
        return 0
    seen[id(o)] = o
    n = 0
    if isinstance(o, dict):
        for v in o.values():
            n += spoil(v, depth + 1, seen)
        o.clear()
        o['Subject'] = 'spoilt'
        return n + 1
    if isinstance(o, (list, tuple)):
        for v in list(o):
            n += spoil(v, depth + 1, seen)
        if isinstance(o, list):
            del o[:]
            o.append(0)
            n += 1
        return n
    if isinstance(o, array.array):
        for i in range(len(o)):
            o[i] = (o[i] + 1) % 256
        if len(o):
            o.pop()
        return 1
    if o is None or isinstance(o, (int, long, float, basestring, bool,
                                   datetime.datetime, datetime.timedelta,
                                   datetime.tzinfo)) or callable(o):
        return 0
    names = []
    for a in dir(o):
        if a.startswith('_'):
            continue
        try:
            v = getattr(o, a)
        except Exception:
            continue
        if callable(v):
            continue
        names.append((a, v))
    # first what it refers to, one attribute may reset others
    for a, v in names:
        n += spoil(v, depth + 1, seen)
    for a, v in names:
        for w in ('spoilt', 77, None):
            try:
                setattr(o, a, w)
                n += 1
                break
            except Exception:
                pass
    return n


def spoil_some(o, names):
    for n in names:
        setattr(o, n, 'spoilt')


def _factories():
    from messaging.mms import message, mms_pdu, wsp_pdu
    from messaging.sms import SmsSubmit, SmsDeliver
    from messaging.sms.udh import UserDataHeader
    from messaging.sms import wap
    from messaging.mms.iterator import PreviewIterator

    def ser(o):
        return D['ser'](o)

    def sub(number, text):
        return SmsSubmit(number, text)

    def subview(s):
        # what it encodes and the attributes that say so
        # (fmt is set by to_pdu, see known_findings.txt)
        return [ser(getattr(s, a)) for a in
                ('number', 'text', 'csca', 'validity', 'klass', 'pid',
                 'rand_id', 'request_status')] + [ser(pdus(s.to_pdu()))]

    def filled():
        m = message.MMSMessage()
        g = message.MMSMessagePage()
        g.add_text('hello')
        m.add_page(g)
        p = message.DataPart()
        p.set_data('data', 'x/y', {'Name': 'n'})
        p.headers['Content-ID'] = '<1>'
        m.add_data_part(p)
        m.headers['To'] = '+123'
        return m

    def mmv(m):
        return [ser(whole(m)), ser(array.array('B', m.encode()))]

    def table(f):
        return lambda *a: f(*[str(x) for x in a])

    W, P = wsp_pdu.Encoder, wsp_pdu.Decoder
    E, M = mms_pdu.MMSEncoder, mms_pdu.MMSDecoder

    def dec_(cls, name):
        return lambda b: getattr(cls, 'decode_' + name)(PreviewIterator(b))

    def enc_(cls, name):
        return lambda *a: getattr(cls, 'encode_' + name)(*a)
    r = {
        'MMSMessage': (message.MMSMessage, mmv),
        'filled': (filled, mmv),
        'DataPart': (message.DataPart, lambda p: ser(partview(p))),
        'Page': (message.MMSMessagePage, lambda p: ser(pageview(p))),
        'from_data': (lambda b: message.MMSMessage.from_data(b),
                      lambda m: ser(mview(m))),
        'decoder': (lambda b: mms_pdu.MMSDecoder().decode_data(b),
                    lambda m: ser(mview(m))),
        'SmsSubmit': (sub, subview),
        'to_pdu': (lambda n, t: sub(n, t).to_pdu(), lambda l: ser(pdus(l))),
        'SmsDeliver': (lambda p: SmsDeliver(p), lambda d: ser(dview(d))),
        'data': (lambda p: SmsDeliver(p).data, ser),
        'udh': (lambda b: UserDataHeader.from_bytes(b),
                lambda u: ser(udhview(u))),
        'push': (lambda s: wap.extract_push_notification(s),
                 lambda m: ser(dict(m.headers))),
        'headers': (table(wsp_pdu.get_header_field_names), ser),
        'params': (table(wsp_pdu.get_well_known_parameters), ser),
    }
    for n in ('uint_var', 'text_string', 'short_integer', 'long_integer',
              'integer_value', 'value_length', 'version_value', 'token_text',
              'media_type', 'content_type_value', 'parameter', 'header',
              'constrained_encoding', 'quoted_string'):
        if hasattr(W, 'encode_' + n):
            r['enc ' + n] = (enc_(W, n), ser)
    for n in ('from_value', 'encoded_string_value', 'message_type_value',
              'status_value', 'mms_field_name', 'header'):
        r['menc ' + n] = (enc_(E, n), ser)
    for n in ('content_type_value', 'parameter', 'header', 'accept_value',
              'media_type'):
        r['dec ' + n] = (dec_(P, n), ser)
    for n in ('header', 'from_value', 'expiry_value', 'delivery_time_value',
              'content_type_value'):
        r['mdec ' + n] = (dec_(M, n), ser)
    return r


def alias(kind, args):
    """two objects of one kind; one and everything that it gives is changed;
    what the other and a new one state before and after"""
    import random
    make, view = _factories()[kind]
    args2 = [a[:] if isinstance(a, array.array) else a for a in args]
    dumps = D['dumps']

    def see(o, late=False):
        random.seed(1)
        try:
            return dumps(view(o))
        except Exception:
            if not late:
                raise
            # it could be seen before, or its like could
            return 'raised %r' % (sys.exc_info()[1],)

    def new(a=args):
        random.seed(1)
        return make(*[x[:] if isinstance(x, array.array) else x for x in a])
    b = new()
    first = see(b)
    inputs = [x[:] if isinstance(x, array.array) else x for x in args]
    random.seed(1)
    a = make(*inputs)
    kept = inputs == args2
    see(a)
    b2 = new()
    n = spoil(a)
    spoil([x for x in inputs if isinstance(x, array.array)])
    try:
        c = see(new(), True)
    except Exception:
        c = 'raised %r' % (sys.exc_info()[1],)
    return {'n': n, 'kept': kept, 'first': first,
            'same': [see(x, True) == first for x in (b, b2)] + [c == first],
            'now': c}


def input_later(data):
    """does a decoded message depend on the octets it was made from?"""
    from messaging.mms.message import MMSMessage
    d = array.array('B', data)
    m = MMSMessage.from_data(d)
    a = D['dumps'](D['ser'](mview(m)))
    spoil([d])
    return a == D['dumps'](D['ser'](mview(m)))


def environment():
    """what the process sees of its environment"""
    import time
    import locale
    from java.util import Locale
    from java.lang import System
    return {'zone': time.strftime('%H:%M', time.localtime(0)),
            'locale': Locale.getDefault().toString(),
            'encoding': System.getProperty('file.encoding'),
            'cwd': os.path.basename(os.getcwd()),
            'year': time.localtime(time.time())[0],
            'lang': os.environ.get('LANG')}
