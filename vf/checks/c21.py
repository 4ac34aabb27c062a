"""C21 the preview iterator never loses or repeats an octet"""
from ..core import S
from ..gen import scale
import json

RULE = ('all operation sequences of length up to 6 over data of 0-3 octets, '
        'and random sequences of 10-200 operations (next, preview, reset, '
        'loop, drain, iter) with several mixes over lists, arrays, strings, '
        'tuples and generators; every outcome compared with a two-cursor '
        'model; distinct = different (data, operations)')
NEED = {'operations': 100000, 'stops': 10000, 'cached_reads': 5000,
        'states': 3000}
KINDS = ['list', 'array', 'str', 'tuple', 'gen']


def gen(rng, ctx):
    import itertools
    chunk = []
    for n in range(0, 4):
        for ln in range(1, scale(ctx, 7, 9)):
            for ops in itertools.product('npr', repeat=ln):
                data = [rng.randrange(256) for _ in range(n)]
                chunk.append([rng.choice(KINDS), data, ''.join(ops)])
                if len(chunk) == 20:
                    yield mk(chunk)
                    chunk = []
    for _ in range(scale(ctx, 2500, 40000)):
        n = rng.choice([0, 1, 2, 3, 5, 10, 30, 100])
        data = [rng.choice([0, 1, 31, 127, 128, 255, rng.randrange(256)])
                for _ in range(n)]
        mix = rng.choice(['npr', 'nnp', 'ppppn', 'ppppr', 'nppprli', 'ppn',
                          'pppppppnr', 'nprlia'])
        ops = ''.join(rng.choice(mix) for _ in range(rng.randint(10, 200)))
        chunk.append([rng.choice(KINDS), data, ops])
        if len(chunk) == 5:
            yield mk(chunk)
            chunk = []
    if chunk:
        yield mk(chunk)


def mk(chunk):
    return {'s': [['h', None, 'pit', [S(k), d, S(o)]] for k, d, o in chunk],
            'x': None}


def nontrivial(c, rs):
    return json.dumps(c['s'])


def model(data, ops, ctx):
    pos = pv = 0
    seen = 0
    out = []
    n = len(data)
    for o in ops:
        ctx.hit('operations')
        ctx.see('states', (n, pos, pv, o))
        if o == 'n':
            pv = 0
            if pos < n:
                out.append(data[pos])
                if pos < seen:
                    ctx.hit('cached_reads')
                pos += 1
            else:
                ctx.hit('stops')
                out.append('stop')
        elif o == 'p':
            if pos + pv < n:
                out.append(data[pos + pv])
                pv += 1
                seen = max(seen, pos + pv)
            else:
                ctx.hit('stops')
                out.append('stop')
        elif o == 'r':
            pv = 0
            out.append(None)
        elif o == 'i':
            out.append(True)
        else:
            pv = 0
            k = n if o == 'a' else min(n, pos + 2)
            out.append(data[pos:k])
            pos = k
    return out


def judge(c, rs, ctx):
    for st, r in zip(c['s'], rs):
        kind, data, ops = st[3][0]['s'], st[3][1], st[3][2]['s']
        want = model(data, ops, ctx)
        if not r.ok:
            yield 'breakdown', '%s: %r' % (ops, r)
        elif r.val != want:
            k = next((i for i, (a, b) in enumerate(zip(r.val, want))
                      if a != b), len(want))
            yield 'differs', '%s %r %s: operation %d gave %r, not %r' % (
                kind, data, ops[:k + 1], k, r.val[k:k + 1], want[k:k + 1])
