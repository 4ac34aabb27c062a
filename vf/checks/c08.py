"""C08 invalid settings are refused and change nothing"""
from ..core import S, U, V, TD, DT
from ..gen import *
from ..ref import tpdu
import json

RULE = ('histories of valid and invalid assignments to number, csca, class '
        'and validity (and constructor arguments); distinct = different '
        'histories; non-trivial = with at least one refused operation')
NEED = {'refused': 1500, 'accepted': 1000}

BADNUM = ['1', '12', '+1', '+12', '+', '1' * 21, '+' + '1' * 21, '1' * 40,
          'abc', '12a4', '+34x600', '++34600', '34+600', '600-123-456',
          '600 123 456', '(600)123', ' 600123', '600123 ', '600123a',
          'a600123', '*100#', '#123', '12345\n6', '\n123456', '-600123',
          '0x600123', '600.123', '٦٠٠١٢٣', '６００１２３', '600123\x00',
          '1e10', '600,123', '٣٤٦٠٠١٢٣', '+ 34600123', '12٣45']


def goodnum(rng):
    return number(rng)


def badnum(rng):
    if rng.random() < .7:
        return rng.choice(BADNUM)
    n = number(rng)
    k = rng.randrange(len(n) + 1)
    ch = rng.choice('+-*#abcdefABCDEFxX.,;:/()_ \t\x00')
    n = n[:k] + ch + n[k:]
    if k == 0 and ch == '+' and n[1] != '+':
        n = '+' + n
    return n


def gen(rng, ctx):
    for b in BADNUM:
        yield {'s': [['c', 's', 'messaging.sms:SmsSubmit', [U(b), S('x')]]],
               'x': ['ctor', b]}
    for b in BADNUM:
        for at in ('number', 'csca'):
            yield hist(rng, [(at, 'bad', b)])
    for k in (-1, 4, 5, 255, -256, 16):
        yield hist(rng, [('klass', 'range', k)])
    for v in (S('1'), '1', {'f': 1.0}, S(''), [1], {'t': [1]}, {'obj': 1},
              {'d': []}):
        yield hist(rng, [('klass', 'type', v)])
    for v in (1, 0, S('1 day'), '2010', {'f': 3600.0}, {'obj': 1},
              {'t': [2010, 1, 1]}, True, {'date': [2010, 1, 1]}, [], S(''),
              False, {'d': []}, {'long': 0}):
        yield hist(rng, [('validity', 'type', v)])
    for i in range(scale(ctx, 500, 8000)):
        ops = []
        for _ in range(rng.randint(2, 12)):
            at = rng.choice(['number', 'csca', 'klass', 'validity'])
            if at in ('number', 'csca'):
                if rng.random() < .5:
                    ops.append((at, 'ok', goodnum(rng)))
                else:
                    ops.append((at, 'bad', badnum(rng)))
            elif at == 'klass':
                k = rng.random()
                if k < .4:
                    ops.append((at, 'ok', rng.randrange(4)))
                elif k < .7:
                    ops.append((at, 'range', rng.choice([-1, 4, 99, -3, 7,
                                                         128, 2 ** 30])))
                else:
                    ops.append((at, 'type', rng.choice(
                        [S('0'), '2', {'f': 2.0}, [0], {'obj': 1}])))
            else:
                k = rng.random()
                if k < .3:
                    v, s = relative(rng)
                    ops.append((at, 'ok', v))
                elif k < .6:
                    ops.append((at, 'ok', absolute(rng)[0]))
                elif k < .7:
                    ops.append((at, 'ok', None))
                else:
                    ops.append((at, 'type', rng.choice(
                        [S('1h'), 3600, {'f': 1.5}, {'obj': 1}, [],
                         {'date': [2012, 2, 29]}, 0, False, S('')])))
        yield hist(rng, ops)


def hist(rng, ops):
    n0 = number(rng)
    st = [['c', 's', 'messaging.sms:SmsSubmit', [S(n0), S('hola')]],
          ['s', '$s.csca', S('+34600999')], ['s', '$s.klass', 1],
          ['s', '$s.validity', TD(1)]]
    for at, kind, v in ops:
        if at in ('number', 'csca'):
            v = U(v) if kind == 'bad' else pystr(rng, v)
        st.append(['s', '$s.' + at, v])
        st.append(['g', None, '$s.' + at])
    st.append(['h', None, 'to_pdu', [{'v': '$s'}]])
    return {'s': st, 'x': ['hist', n0, [list(o) for o in ops]]}


def nontrivial(c, rs):
    if any(r.exc for r in rs):
        return json.dumps(c['s'])


def plain(v):
    """what an encoded value reads back as"""
    from ..core import dec
    if isinstance(v, dict) and 'dt' in v:
        tz = v.get('tz')
        if isinstance(tz, dict):
            tz = tz['fo'] * 60
        return ('dt', tuple((v['dt'] + [0] * 7)[:7]), tz)
    if isinstance(v, dict) and 'td' in v:
        return ('td', tuple(v['td']))
    return dec(v)


def judge(c, rs, ctx):
    x = c['x']
    if x[0] == 'ctor':
        if rs[0].exc != 'ValueError':
            yield 'number', 'SmsSubmit(%a): %r' % (x[1], rs[0])
        else:
            ctx.hit('refused')
        return
    if not all(r.ok for r in rs[:4]):
        yield 'setup', repr(rs[:4])
        return
    cur = {'number': x[1], 'csca': '+34600999', 'klass': 1,
           'validity': ('td', (1, 0, 0))}
    for k, (at, kind, v) in enumerate(x[2]):
        w, g = rs[4 + 2 * k], rs[5 + 2 * k]
        if kind == 'ok':
            ctx.hit('accepted')
            if not w.ok:
                yield at, 'valid %s %r refused: %r' % (at, v, w)
                return
            cur[at] = v if at in ('number', 'csca') else plain(v)
        else:
            exp = {'bad': ('ValueError',), 'range': ('ValueError',),
                   'type': ('TypeError',)}[kind]
            if not w.exc or not w.isa(*exp):
                yield at, '%s = %r: %r' % (at, v, w)
            else:
                ctx.hit('refused')
        if not g.ok or g.val != cur[at]:
            yield at, ('after %s = %r it reads %r, not %r' %
                       (at, v, g, cur[at]))
            return
    r = rs[-1]
    if not r.ok:
        yield 'encode', 'after the history: %r' % r
        return
    try:
        p = tpdu.parse_submit(r.val[0][0])
    except tpdu.Bad as e:
        yield 'encode', '%s: %s' % (r.val[0][0], e)
        return
    got = (p['dest'][1], p['smsc'][1], p['dcs'] & 0x13)
    want = (cur['number'].lstrip('+'), cur['csca'].lstrip('+'),
            0x10 | cur['klass'])
    if got != want:
        yield 'encode', 'the PDU has %r, the object %r' % (got, want)
