"""C31 threads using different message objects do not disturb each other"""
import json
from .. import pool
from ..gen import scale

RULE = ('groups of 2-8 threads, each running its own jobs (the workloads of '
        'the other checks: of one kind in all threads, or mixed) on its own '
        'objects at the same time, on a virtual machine without global lock, '
        'with yields and naps at random lines; results are compared with those '
        'of the same jobs one after the other, before and after; if the package remembers anything since it was '
        'imported, also with threads that start when it knows nothing; distinct = '
        'different groups')
NEED = {'runs': 1400, 'compared': 1400, 'events': 1500000, 'switches': 100000,
        'naps': 10000, 'interleavings': 20000, 'groups': 28, 'sources': 23,
        'state_looks': 3000}
ASSUME = ['schedules are sampled (free-running threads with injected yields '
          'and naps), not enumerated']
SHARDS = 3


def group(rng, jobs, n, per, sources, name):
    l = []
    for t in range(n):
        mine = []
        for k in range(per):
            src = rng.choice(sources)
            d = 'g%st%dk%d' % (name, t, k)
            mine.append([d, pool.place(rng.choice(jobs[src]), d)])
        l.append(mine)
    rate = rng.choice([0, .002, .02, .02, .1])
    return {'s': [['h', None, 'threads', [json.dumps(l), n,
                                          rng.randrange(10 ** 6),
                                          {'f': rate}, 2]]],
            'x': {'n': n, 'runs': 2 * n * per, 'sources': sources
                  if len(sources) == 1 else []}}


def gen(rng, ctx):
    jobs = pool.jobs(rng, 60, 3500)
    g = 0
    for i in range(scale(ctx, 1, 12)):
        for src in pool.SOURCES:
            for n in (4, 8):
                g += 1
                yield group(rng, jobs, n, 4, [src], g)
    for i in range(scale(ctx, 10, 250)):
        g += 1
        yield group(rng, jobs, rng.choice([2, 4, 8, 8]), 5, pool.SOURCES, g)


def nontrivial(c, rs):
    return [json.dumps(j[1]) for l in json.loads(c['s'][0][3][0]) for j in l]


def judge(c, rs, ctx):
    r = rs[0]
    if not r.ok:
        yield 'refused', repr(r)
        return
    v = r.val
    ctx.evaluations = getattr(ctx, 'evaluations', 0) + c['x']['runs']
    ctx.hit('groups')
    for s in c['x']['sources']:
        ctx.see('sources', s)
    ctx.hit('runs', c['x']['runs'])
    ctx.hit('compared', 2 * v['sure'])
    for k in ('events', 'switches', 'naps'):
        ctx.hit(k, v[k])
    ctx.hit('state_looks', v['looks'])
    ctx.hit('cold_runs', v['colds'] * c['x']['n'])
    for m in v['memory']:
        ctx.see('learning', m)
    for p in v['pairs']:
        ctx.see('interleavings', p)
    for t, k, want, got in v['bad']:
        yield 'disturbed', 'thread %d of %d, job %d: %s' % (
            t, c['x']['n'], k, where(want, got))
    if v['stuck']:
        yield 'stuck', '%d of %d threads did not end' % (v['stuck'],
                                                          c['x']['n'])
    if v['late']:
        yield 'after', '%d jobs have other results afterwards' % v['late']


def where(a, b):
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    i = max(0, i - 60)
    return 'alone ...%s, together ...%s' % (a[i:i + 200], b[i:i + 200])
