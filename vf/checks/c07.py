"""C07 encoding is repeatable and always reflects the current settings"""
from ..core import S, U, V, TD, DT, dec
from ..gen import *
from ..ref import gsm, tpdu
from .c08 import plain
import json

RULE = ('histories of 4-25 operations (change a setting, encode, read back) '
        'on one SmsSubmit; distinct = different histories; non-trivial = at '
        'least two encodings')
NEED = {'encodings': 1500, 'repeats': 300, 'changes': 1500}


def mktext(rng, alpha):
    n = rng.choice([0, 3, 20, 70, 71, 140, 141, 160, 161, rng.randint(1, 350)])
    if alpha == 0:
        return gsm_text(rng, n)
    if alpha == 4:
        return octets(rng, n)
    return non_gsm(rng, ucs2_text(rng, max(1, n)))


def tvp(t):
    return S(t) if isinstance(t, bytes) else U(t)


def tpl(t):
    return t.decode('latin-1') if isinstance(t, bytes) else t


def gen(rng, ctx):
    # recorded defect: the coding chosen for the first text is kept
    yield {'s': [['c', 's', 'messaging.sms:SmsSubmit', [S('600123'), S('hola')]],
                 ['h', None, 'to_pdu', [V('$s')]],
                 ['s', '$s.text', U('привет')],
                 ['h', None, 'to_pdu', [V('$s')]]],
           'x': {'sticky': True}}
    for i in range(scale(ctx, 700, 10000)):
        alpha = rng.choice([0, 0, 4, 8])
        explicit = alpha == 4 or rng.random() < .4
        t = mktext(rng, alpha)
        num = number(rng)
        st = [['c', 's', 'messaging.sms:SmsSubmit', [S(num), tvp(t)]]]
        ops = [['new', None]]
        if explicit:
            st.append(['s', '$s.fmt', alpha])
            ops.append(['fmt', alpha])
        state = {'number': num, 'text': tpl(t)}
        for _ in range(rng.randint(4, 25)):
            k = rng.random()
            if k < .45:
                for _ in range(rng.choice([1, 1, 2, 3])):
                    st.append(['h', None, 'to_pdu', [V('$s')]])
                    ops.append(['enc', None])
                continue
            at = rng.choice(['text', 'text', 'ref', 'pid', 'request_status',
                             'klass', 'validity', 'csca', 'number', 'rand_id',
                             'read'])
            if at == 'read':
                a = rng.choice(['text', 'pid', 'request_status', 'klass',
                                'validity', 'csca', 'number'])
                st.append(['g', None, '$s.' + a])
                ops.append(['read', a])
                continue
            if at == 'text':
                old, t = t, mktext(rng, alpha)
                if len(old) > 1 and rng.random() < .5:
                    # one of the same length
                    k = rng.randrange(len(old) - 1)
                    a, b = old[k:k + 1], old[k + 1:k + 2]
                    t = rng.choice([old[:k] + b + a + old[k + 2:],
                                    old[::-1], old[:k + 1] + old[k:k + 1] +
                                    old[k + 2:]])
                v, m = tvp(t), tpl(t)
            elif at in ('ref', 'pid', 'rand_id'):
                v = m = rng.randrange(256)
                if at == 'rand_id' and rng.random() < .3:
                    v = m = None
            elif at == 'request_status':
                v = m = rng.random() < .5
            elif at == 'klass':
                v = m = rng.randrange(4)
            elif at == 'validity':
                k = rng.random()
                if k < .2:
                    v = m = None
                elif k < .6:
                    v, s = relative(rng)
                    m = ['rel', s, plain(v)]
                else:
                    v, a, q = absolute(rng)
                    m = ['abs', list(a), q, plain(v)]
            elif at in ('csca', 'number'):
                m = number(rng)
                v = pystr(rng, m)
                if at == 'csca' and rng.random() < .2:
                    v = m = None
            st.append(['s', '$s.' + at, v])
            ops.append(['set', at, m])
        yield {'s': st, 'x': {'alpha': alpha, 'ops': ops, 'explicit': explicit,
                              'start': state}}


def nontrivial(c, rs):
    if sum(1 for s in c['s'] if s[0] == 'h') > 1:
        return json.dumps(c['s'])


def addr(n):
    return (0x91 if n[0] == '+' else 0x81, n.lstrip('+'))


def judge(c, rs, ctx):
    x = c['x']
    if x.get('sticky'):
        if rs[3].ok:
            p = tpdu.parse_submit(rs[3].val[0][0])
            if p['text'] != 'привет':
                yield 'text', 'changed text encoded as %a' % p['text']
        elif rs[3].isa('UnicodeError'):
            yield 'fmt-sticky', repr(rs[3])
        else:
            yield 'refused', repr(rs[3])
        return
    st = dict(x['start'], pid=0, request_status=False, klass=None,
              validity=None, csca=None, ref=None, rand_id=None)
    # the text object's default class
    prev = None
    dirty = True
    lastref = None
    for op, r in zip(x['ops'], rs):
        if op[0] in ('new', 'fmt'):
            if not r.ok:
                yield 'setup', repr(r)
                return
        elif op[0] == 'set':
            if not r.ok:
                yield 'set-' + op[1], '%r: %r' % (op, r)
                return
            st[op[1]] = op[2]
            dirty = True
            ctx.hit('changes')
            if op[1] == 'ref':
                lastref = op[2]
        elif op[0] == 'read':
            want = st[op[1]]
            if op[1] == 'validity' and want:
                want = want[-1]
                want = tuple(map(lambda v: tuple(v) if isinstance(v, list)
                                 else v, want))
            if not r.ok or r.val != want:
                yield 'read-' + op[1], ('%s reads %r, it was set to %r' %
                                        (op[1], r, want))
                return
        else:
            ctx.hit('encodings')
            if not r.ok:
                yield 'refused', 'after %r: %r' % (st, r)
                return
            rows = r.val
            texts = []
            shape = []
            for row in rows:
                try:
                    p = tpdu.parse_submit(row[0])
                except tpdu.Bad as e:
                    yield 'malformed', '%s: %s' % (row[0], e)
                    return
                t = p['text']
                texts.append(t.decode('latin-1') if isinstance(t, bytes) else t)
                vp = st['validity']
                want = {
                    'smsc': addr(st['csca']) if st['csca'] else None,
                    'dest': addr(st['number']),
                    'pid': st['pid'],
                    'srr': st['request_status'],
                    'vpf': 0 if vp is None else 2 if vp[0] == 'rel' else 3,
                    'vp': None if vp is None else ref_relative(vp[1]) if
                    vp[0] == 'rel' else ref_absolute(vp[1], vp[2]),
                    'dcs': x['alpha'] | (0 if st['klass'] is None else
                                         0x10 | st['klass']),
                }
                if lastref is not None:
                    want['mr'] = lastref
                for k, v in want.items():
                    if p[k] != v:
                        yield 'stale-' + k, ('%s is %r, not %r, in %s' %
                                             (k, p[k], v, row[0]))
                        return
                if lastref is None:
                    lastref = p['mr']
                if len(rows) > 1 and p['ies'] and st['rand_id'] is not None \
                        and p['ies'][0][1][0] != st['rand_id']:
                    yield 'stale-rand_id', '%r' % p['ies']
                    return
                ies = [(i, d[1:]) for i, d in p['ies']]
                shape.append((p['first'], p['udl'], p['text'], repr(ies),
                              row[1:]))
            if ''.join(texts) != st['text']:
                yield 'stale-text', ('%a was encoded instead of %a' %
                                     (''.join(texts)[:60], st['text'][:60]))
                return
            if not dirty:
                ctx.hit('repeats')
                same = rows == prev[0] if (len(rows) == 1 or st['rand_id'] is
                                           not None) else shape == prev[1]
                if not same:
                    yield 'repeat', ('the same object encodes to %r and then '
                                     'to %r' % (prev[0], rows))
                    return
            prev = (rows, shape)
            dirty = False
