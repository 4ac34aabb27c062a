"""C05 Pdu objects: length is what AT+CMGS needs, text form is clean hex"""
from ..core import S, U
from ..gen import *
from ..ref import gsm, tpdu
from . import c01
import json

RULE = ('the C01 message space (addresses, SMSC, options, validity, coding, '
        'text length incl. multipart); distinct = different parameter tuples')
NEED = {'pdus': 1000, 'smsc': 300}


def gen(rng, ctx):
    for i in range(scale(ctx, 2500, 30000)):
        yield c01.make(rng, i * 7 + 3, ctx)


def nontrivial(c, rs):
    return json.dumps(c['s'])


def judge(c, rs, ctx):
    r = rs[0]
    if not r.ok:
        yield 'refused', repr(r)
        return
    rows = r.val[0]
    if not rows:
        yield 'no-pdu', 'to_pdu() returned an empty list'
    for pdu, length, cnt, seq in rows:
        ctx.hit('pdus')
        if not isinstance(pdu, str) or len(pdu) % 2 or \
                any(ch not in '0123456789ABCDEF' for ch in pdu):
            yield 'hex', 'not clean upper-case hexadecimal: %a' % pdu
            continue
        smsc = int(pdu[:2], 16)
        ctx.hit('smsc', smsc > 0)
        want = len(pdu) // 2 - 1 - smsc
        if length != want or isinstance(length, bool):
            yield 'length', ('length %r, but %d octets after the service '
                             'centre of %s' % (length, want, pdu))
        ctx.see('lengths', length)
