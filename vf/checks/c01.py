"""C01 an SMS-SUBMIT PDU says exactly what the SmsSubmit object says"""
from ..core import S, U
from ..gen import *
from ..ref import gsm, tpdu
import json

RULE = ('SmsSubmit objects over the cross product of number length/parity/'
        'prefix, SMSC (absent, national, international, odd and even), '
        'reference, PID (all 256), status report, class, explicit or automatic '
        'coding, validity kind, text length incl. multipart; distinct = '
        'different parameter tuples')
NEED = {'pdus': 500, 'multipart': 50}
ASSUME = ['PDU octets are judged by an independent TS 23.040 parser '
          '(vf/ref/tpdu.py)']


def make(rng, i, ctx):
    o = {}
    num = number(rng, n=3 + i % 18)
    csca = None
    if i % 3:
        csca = number(rng, n=3 + (i // 3) % 18)
    attrs = []
    raw = num
    pad = rng.random()
    if csca is not None:
        attrs.append(('csca', pystr(rng, csca)))
    elif rng.random() < .2:
        attrs.append(('csca', rng.choice([S(''), None])))
    o.update(num=num, csca=csca)
    if rng.random() < .6:
        o['ref'] = rng.choice([0, 1, 127, 128, 254, 255, rng.randrange(256)])
        attrs.append(('ref', o['ref']))
    if rng.random() < .8:
        o['pid'] = i % 256
        attrs.append(('pid', o['pid']))
    if rng.random() < .5:
        o['srr'] = rng.random() < .7
        attrs.append(('request_status', o['srr']))
    if rng.random() < .6:
        o['klass'] = rng.randrange(4)
        attrs.append(('klass', o['klass']))
    if rng.random() < .4:
        o['rand_id'] = rng.randrange(256)
        attrs.append(('rand_id', o['rand_id']))
    k = rng.random()
    if k < .3:
        v, s = relative(rng)
        attrs.append(('validity', v))
        o['vp'] = ['rel', s]
    elif k < .6:
        v, a, q = absolute(rng)
        attrs.append(('validity', v))
        o['vp'] = ['abs', list(a), q]
    elif k < .7:
        attrs.append(('validity', None))
    alpha = rng.choice([0, 4, 8])
    units = rng.choice([0, 1, 5, 20, 69, 70, 71, 139, 140, 141, 159, 160, 161,
                        rng.randint(1, 400)])
    if alpha == 0:
        t = gsm_text(rng, units)
        tv = U(t)
    elif alpha == 4:
        t = octets(rng, units)
        tv = S(t)
        t = t.decode('latin-1')
    else:
        t = ucs2_text(rng, units)
        tv = U(t)
    if alpha == 0 and rng.random() < .5:
        pass
    elif alpha == 8 and not gsm.is_gsm(t) and rng.random() < .5:
        pass
    else:
        attrs.append(('fmt', alpha))
    o.update(alpha=alpha, text=t)
    rng.shuffle(attrs)
    return {'s': [['h', None, 'submit', [pystr(rng, num), tv,
                                         [{'t': [S(k), v]} for k, v in attrs]]]],
            'x': o}


def gen(rng, ctx):
    for i in range(scale(ctx, 3000, 40000)):
        yield make(rng, i, ctx)


def nontrivial(c, rs):
    return json.dumps(c['s'])


def addr(n):
    return (0x91 if n[0] == '+' else 0x81, n.lstrip('+'))


def judge(c, rs, ctx):
    o, r = c['x'], rs[0]
    if not r.ok:
        yield 'refused', 'valid message: %r' % r
        return
    rows, fmt, dcs = r.val
    ctx.hit('multipart', len(rows) > 1)
    refs = set()
    for row in rows:
        ctx.hit('pdus')
        try:
            p = tpdu.parse_submit(row[0])
        except tpdu.Bad as e:
            yield 'malformed', '%s: %s' % (row[0], e)
            continue

        def neq(what, got, want):
            if got != want:
                return [(what, '%s is %r, not %r, in %s' %
                         (what, got, want, row[0]))]
            return []
        yield from neq('service-centre', p['smsc'],
                       addr(o['csca']) if o['csca'] else None)
        yield from neq('destination', p['dest'], addr(o['num']))
        if 'ref' in o:
            yield from neq('message-reference', p['mr'], o['ref'])
        refs.add(p['mr'])
        yield from neq('protocol-identifier', p['pid'], o.get('pid', 0))
        yield from neq('status-report-request', p['srr'], o.get('srr', False))
        yield from neq('reject-duplicates', p['rd'], False)
        yield from neq('reply-path', p['rp'], False)
        want = o['alpha']
        if 'klass' in o:
            want |= 0x10 | o['klass']
        yield from neq('coding-scheme', p['dcs'], want)
        yield from neq('udhi', p['udhi'], len(rows) > 1)
        vp = o.get('vp')
        if vp is None:
            yield from neq('validity-format', p['vpf'], 0)
        elif vp[0] == 'rel':
            yield from neq('validity-format', p['vpf'], 2)
            yield from neq('validity', p['vp'], ref_relative(vp[1]))
        else:
            yield from neq('validity-format', p['vpf'], 3)
            yield from neq('validity', p['vp'],
                           ref_absolute(vp[1], vp[2]))
        if len(rows) > 1:
            ids = [d for i, d in p['ies'] if i == 0]
            if len(ids) != 1 or len(p['ies']) != 1:
                yield 'concat-ie', 'information elements %r' % p['ies']
            elif 'rand_id' in o:
                yield from neq('concat-reference', ids[0][0], o['rand_id'])
        ctx.see('first_octets', p['first'])
    if len(refs) > 1:
        yield 'message-reference', 'parts of one message: %r' % refs
