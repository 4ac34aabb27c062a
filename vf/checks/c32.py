"""C32 message objects are independent of each other and of history"""
import json
import re
from .. import pool
from ..core import S, U, A, D, R, Run, execute, dec
from ..mmsgen import *
from ..gen import scale
from ..ref import wsp

RULE = ('the workloads of the other checks as jobs with their own objects, '
        'run in one order, the reverse order and a shuffled one, in merges of '
        'the steps of 3-8 jobs and alone in a new process, with the random '
        'numbers seeded per step: every job has to give the same results; and '
        'two objects or values made alike, of which one is changed in '
        'everything it reaches; two messages and parts given the same values; distinct = different jobs, merges and values')
NEED = {'jobs': 800, 'orders': 1600, 'merges': 130, 'merged': 600,
        'switches': 900, 'fresh': 20, 'alias': 300, 'kinds': 30,
        'changes': 1500, 'late_input': 40, 'failed_steps': 300,
        'given_values': 200}


def aliases(rng, ctx):
    def a(kind, *args):
        return {'s': [['h', None, 'alias', [S(kind), list(args)]]],
                'x': ['alias', kind]}
    for k in ('MMSMessage', 'filled', 'DataPart', 'Page'):
        yield a(k)
    for v in ('1.1', '1.2', '1.3', '1.4'):
        yield a('headers', S(v))
        yield a('params', S(v))
    from . import c12, c14, c18
    from ..pool import Quick
    r = rng
    pdus = [c['s'][0][3][0]['s'] for c in c12.gen(r, Quick())]
    # a header in the user data
    withudh = [p for p in pdus if 2 * int(p[:2], 16) + 4 < len(p) and
               int(p[2 + 2 * int(p[:2], 16):][:2], 16) & 0x40]
    for _ in range(scale(ctx, 25, 300)):
        m = message(rng)[0]
        yield a('from_data', A(m))
        yield a('decoder', A(m))
        yield {'s': [['h', None, 'input_later', [A(m)]]], 'x': ['input']}
        yield {'s': [['h', None, 'input_later', [A(m)]]], 'x': ['input']}
    for _ in range(scale(ctx, 25, 300)):
        p = rng.choice(pdus)
        yield a('SmsDeliver', S(p))
        yield a('SmsDeliver', S(rng.choice(withudh)))
        yield a('data', S(p))
        t = rng.choice(['short', 'x' * 200, '中' * 90, '[' * 100])
        t += str(rng.randrange(10 ** 6))
        yield a('SmsSubmit', S('+123456'), U(t))
        yield a('to_pdu', S('+123456'), U(t))
    for i in range(scale(ctx, 60, 600)):
        ops = ['page', 'part', 'encode', 'smil', 'to_file', 'text', 'data',
               'file', 'content_type', 'views']
        ops = [rng.choice(ops) for _ in range(rng.randint(2, 9))]
        ct = rng.choice(['application/vnd.wap.multipart.mixed',
                         'application/vnd.wap.multipart.related',
                         'image/jpeg', 'x/y'])
        pr = {rng.choice(['Start', 'Name', 'x-' + token(rng, 3)]):
              S(token(rng, 5)) for _ in range(rng.choice([0, 1, 1, 2]))}
        hs = {n: S(token(rng, 5)) for n in rng.sample(
            ['To', 'Cc', 'Subject', 'Transaction-Id'], 2)}
        yield {'s': [['h', None, 'given', [
            [S(o) for o in ops], S(ct), D(pr), D(hs), {'p': 'given.gif'}]]],
            'x': ['given']}
    udhs = [c['s'][0][3][0]['s'] for c in c14.gen(r, Quick())
            if c['s'][0][2] == 'udh_bytes']
    for _ in range(scale(ctx, 15, 150)):
        yield a('udh', A(bytes.fromhex(rng.choice(udhs))))
    ps = [c['s'][0][3][0] for c in c18.gen(r, Quick())
          if c['s'][0][2] == 'push']
    for _ in range(scale(ctx, 10, 100)):
        yield a('push', rng.choice(ps))
    for _ in range(scale(ctx, 6, 60)):
        n = rng.choice([1, 200, 10 ** 6])
        t = token(rng, 6)
        yield a('enc uint_var', n)
        yield a('enc text_string', S(t))
        yield a('enc short_integer', n % 128)
        yield a('enc long_integer', n)
        yield a('enc integer_value', n)
        yield a('enc value_length', n)
        yield a('enc version_value', S('1.%d' % (n % 7)))
        yield a('enc token_text', S(t))
        ct = rng.choice(['image/jpeg', 'x/' + t])
        yield a('enc media_type', S(ct))
        yield a('enc constrained_encoding', S(t))
        yield a('enc content_type_value', S(ct),
                D({'Name': S(t), t: S('v')}))
        yield a('enc content_type_value', S(ct), D({}))
        yield a('enc parameter', S('Name'), S(t))
        yield a('enc header', S('Content-ID'), S(t))
        yield a('menc from_value', S(rng.choice(['', t])))
        yield a('menc encoded_string_value', S(t))
        yield a('menc message_type_value', S('m-send-req'))
        yield a('menc status_value', S('Retrieved'))
        yield a('menc mms_field_name', S('To'))
        yield a('menc header', S('To'), S(t))
        b = ctype(rng)[0]
        yield a('dec content_type_value', A(b + b'\x81'))
        yield a('mdec content_type_value', A(b))
        yield a('dec parameter', A(param(rng)[0]))
        yield a('dec header', A(b'\x8e' + wsp.text(t)))
        yield a('dec accept_value', A(wsp.short(0x03)))
        yield a('dec media_type', A(media(rng)[0]))
        yield a('mdec header', A(header(rng)[0]))
        yield a('mdec from_value', A(value(rng, 'From')[0]))
        yield a('mdec expiry_value', A(value(rng, 'Expiry')[0]))
        yield a('mdec delivery_time_value', A(value(rng, 'Delivery-Time')[0]))


def plain(x):
    """observations without the text of exceptions, which may name files"""
    if isinstance(x, str):
        return re.sub(' at 0x[0-9a-f]+', '', x)
    if isinstance(x, list):
        if len(x) > 3 and x[0] == 'e' and isinstance(x[2], list):
            x = x[:3]
        return [plain(y) for y in x]
    if isinstance(x, dict):
        return {k: plain(y) for k, y in x.items()}
    return x


def where(a, b):
    a, b = json.dumps(a), json.dumps(b)
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    i = max(0, i - 60)
    return '...%s, not ...%s' % (b[i:i + 200], a[i:i + 200])


def custom(ctx, rng, replay):
    if replay:
        import random
        o = json.load(open(replay))
        ctx.seed, ctx.tier = o['seed'], o['tier']
        rng = random.Random('%s/%s/%s' % ('C32', ctx.seed, ctx.tier))
    per = scale(ctx, 45, 300)
    jobs = []
    for src, l in sorted(pool.jobs(rng, per, 4000).items()):
        for s in l:
            n = len(jobs)
            jobs.append({'s': pool.place(s, 'j%d' % n), 'src': src,
                         'plain': s})
    # what fails must not have a consequence either
    bad = []
    for _ in range(len(jobs) // 8):
        m = bytearray(message(rng)[0] or b'\0')
        del m[rng.randrange(len(m)):]
        s = [['h', None, 'from_data', [A(m)]]]
        bad.append({'s': s, 'src': 'damage', 'plain': s})
    jobs += bad
    rng.shuffle(jobs)
    n = len(jobs)
    run = Run()
    opts = {'seed': 1}

    def go(order, shards, **kw):
        r = execute([jobs[i] for i in order], shards=shards, opts=dict(opts),
                    **kw)
        run.events += r.events
        run.ops += r.ops
        for k, v in r.lines.items():
            run.lines.setdefault(k, set()).update(v)
        return {i: plain(r.res.get(k, 'hang')) for k, i in enumerate(order)}

    base = go(range(n), 3, trace=max(1, n // 60))
    outs = {'reverse': go(range(n)[::-1], 2)}
    sh = list(range(n))
    rng.shuffle(sh)
    outs['shuffled'] = go(sh, 4)
    ctx.hit('jobs', n)
    for r in base.values():
        ctx.hit('failed_steps', sum(x[0] == 'e' for x in r))
    suspects = []
    for name, o in outs.items():
        for i in range(n):
            ctx.hit('orders')
            if o[i] != base[i]:
                suspects.append((name, i, base[i], o[i], None))
    # merges
    groups, cases = [], []
    for _ in range(scale(ctx, 150, 2500)):
        if rng.random() < .4:
            src = rng.choice(pool.SOURCES)
            cand = [i for i in range(n) if jobs[i]['src'] == src]
        else:
            cand = range(n)
        g = rng.sample(list(cand), rng.choice([3, 4, 6, 8]))
        # (two groups that run at the same time must not share files)
        at = ['m%dj%d' % (len(groups), i) for i in g]
        groups.append(g)
        cases.append({'s': [['h', None, 'interleave', [json.dumps(
            [[w, pool.place(jobs[i]['plain'], w)] for w, i in zip(at, g)]),
            rng.randrange(10 ** 6)]]], 'x': g})
    al = list(aliases(rng, ctx))
    r = execute(cases + al, shards=6)
    run.ops += r.ops
    for k, g in enumerate(groups):
        o = R(r.res[k][0]) if k in r.res else None
        if o is None or not o.ok:
            ctx.viol.append(('merge', repr(o), cases[k]))
            continue
        out, sw = r.res[k][0][1]
        ctx.hit('merges')
        ctx.hit('switches', sw)
        for i, x in zip(g, out):
            ctx.hit('merged')
            x = plain(x)
            if x != base[i]:
                suspects.append(('merged', i, base[i], x, cases[k]))
    # alone in a new process
    pick = rng.sample(range(n), scale(ctx, 28, 240))
    alone = {}

    def fresh(l):
        l = list(l)
        x = execute([jobs[i] for i in l], shards=len(l), opts=dict(opts))
        run.ops += x.ops
        return {i: plain(x.res.get(k, 'hang')) for k, i in enumerate(l)}
    for k in range(0, len(pick), 14):
        alone.update(fresh(pick[k:k + 14]))
    for i in pick:
        ctx.hit('fresh')
        if alone[i] != base[i]:
            suspects.append(('alone', i, alone[i], base[i], None))
    # a job that is not deterministic even when alone says nothing
    look = sorted(set(s[1] for s in suspects), key=lambda i: len(
        json.dumps(jobs[i])))[:10]
    sure = {}
    for _ in range(3 if look else 0):
        for i, x in fresh(look).items():
            sure.setdefault(i, []).append(x)
    for name, i, want, got, case in suspects:
        if i in sure and sure[i][0] == sure[i][1] == sure[i][2]:
            ctx.viol.append((name, '%s: %s' % (jobs[i]['src'], where(
                want, got)), case or {'s': jobs[i]['s']}))
    samples = []
    for k, c in enumerate(al):
        o = R(r.res[len(cases) + k][0])
        if c['x'][0] == 'input':
            ctx.hit('late_input')
            if o.ok and o.val is not True or not o.ok:
                ctx.viol.append(('input', 'changing the octets that were '
                                 'decoded changes the message: %r' % o, c))
            continue
        if c['x'][0] == 'given':
            if not o.ok:
                ctx.viol.append(('given', repr(o), c))
                continue
            for op, same, _ in o.val[0]:
                ctx.hit('given_values')
                if not same:
                    ctx.viol.append(('given', '%s of one changes the other: '
                                     '%s' % (op, where(o.val[1], o.val[2])),
                                     c))
            continue
        if not o.ok:
            ctx.hit('not_made')
            continue
        v = o.val
        ctx.hit('alias')
        ctx.hit('changes', v['n'])
        ctx.see('kinds', c['x'][1])
        if not v['kept'] and c['x'][1] in ('from_data', 'decoder'):
            ctx.viol.append(('argument', '%s changes its argument' %
                             c['x'][1], c))
        # (the references of a SmsSubmit count up)
        if not all(v['same'][c['x'][1] == 'SmsSubmit':]):
            ctx.viol.append(('shared', '%s: %r: %s' % (
                c['x'][1], v['same'], where(v['first'], v['now'])), c))
        if k % 100 == 0:
            samples.append({'case': str(c)[:300], 'observed': str(v)[:300]})
    allc = jobs + cases + al
    ctx.evaluations = n * 3 + len(cases) + len(al) + len(pick)
    nontriv = set(json.dumps(c['s']) for c in allc)
    return allc, run, nontriv, samples
