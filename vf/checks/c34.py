"""C34 results depend on nothing of the process environment"""
import json
import random
from .. import pool
from ..core import Run, execute, dec
from ..gen import scale
from .c32 import plain, where

RULE = ('the workloads of the other checks as jobs with their own objects, '
        'each run in a plain environment and in others: eight time zones '
        '(half hours, across the date line, with daylight saving), Turkish, '
        'German, Thai, Hindi and Japanese locales, three default encodings, '
        'another working directory, no HOME, a clock of 1999 and of 2040; '
        'the results have to be equal; distinct = different jobs')
NEED = {'jobs': 700, 'compared': 5000, 'environments': 8, 'sources': 28,
        'zones': 6, 'locales': 5, 'encodings': 3, 'years': 3}
SOURCES = sorted(set(pool.SOURCES + ['c01', 'c05', 'c09', 'c13', 'c19', 'c21',
                                     'c26', 'c33']))


def E(zone, lang, java, **kw):
    # (LC_ALL decides how Jython itself passes file names on)
    return dict({'env': {'TZ': zone, 'LANG': lang, 'LC_ALL': 'C.UTF-8'},
                 'java': java, 'seed': 1}, **kw)


def J(lang, country, enc='UTF-8', variant=None):
    r = ['-Duser.language=' + lang, '-Duser.country=' + country,
         '-Dfile.encoding=' + enc]
    return r + (['-Duser.variant=' + variant] if variant else [])


# (locales with digits of their own make Jython itself fail)
BASE = E('UTC', 'C.UTF-8', J('en', 'US'))
ENVS = [
    ('tokyo', E('Asia/Tokyo', 'ja_JP.UTF-8', J('ja', 'JP'), cwd='elsewhere')),
    ('istanbul', E('Europe/Istanbul', 'tr_TR.UTF-8', J('tr', 'TR'))),
    ('st johns', E('America/St_Johns', 'C', J('en', 'CA', 'US-ASCII'),
                   clock=930000000)),
    ('berlin', E('Europe/Berlin', 'de_DE.UTF-8', J('de', 'DE'))),
    ('bangkok', E('Asia/Bangkok', 'th_TH', J('th', 'TH', 'ISO-8859-1'))),
    ('chatham', E('Pacific/Chatham', 'C.UTF-8', J('en', 'NZ'),
                  clock=2220000000)),
    ('kolkata', E('Asia/Kolkata', 'hi_IN.UTF-8', J('hi', 'IN'))),
    ('los angeles', E('America/Los_Angeles', 'C.UTF-8', J('en', 'US'),
                      clock=4100000000, cwd='a b')),
]
ENVS[6][1]['env']['HOME'] = '/nonexistent'
ENVS[6][1]['env']['PYTHONIOENCODING'] = 'ascii'


def custom(ctx, rng, replay):
    if replay:
        jobs = [json.load(open(replay))['case']]
    else:
        jobs = []
        for src, l in sorted(pool.jobs(rng, scale(ctx, 30, 250), 4000,
                                       SOURCES).items()):
            for s in l:
                jobs.append({'s': pool.place(s, 'j%d' % len(jobs)),
                             'src': src})
        rng.shuffle(jobs)
    probe = {'s': [['h', None, 'environment', []]]}
    run = Run()

    def go(opts, shards):
        cases = [probe] * shards + jobs
        r = execute(cases, shards=shards, opts=dict(opts))
        run.events += r.events
        run.ops += r.ops
        e = dec(r.res[0][0][1])
        ctx.see('environments', json.dumps(e, sort_keys=True))
        ctx.see('zones', e['zone'])
        ctx.see('locales', e['locale'][:2])
        ctx.see('encodings', e['encoding'])
        ctx.see('years', e['year'])
        return [plain(r.res.get(k + shards, 'hang'))
                for k in range(len(jobs))]

    base = go(BASE, 3)
    ctx.hit('jobs', len(jobs))
    suspects = {}
    for name, opts in ENVS:
        for k, x in enumerate(go(opts, 3)):
            ctx.hit('compared')
            ctx.see('sources', jobs[k].get('src'))
            if x != base[k]:
                suspects.setdefault(k, []).append((name, opts, x))
    # what is not the same twice in one environment says nothing
    sure = go(BASE, 2) if suspects else base
    for k, l in suspects.items():
        if sure[k] != base[k]:
            continue
        for name, opts, x in l:
            ctx.viol.append((name, '%s: %s' % (
                jobs[k].get('src'), where(base[k], x)), jobs[k]))
    ctx.evaluations = len(jobs) * (len(ENVS) + 1)
    samples = [{'case': str(j['s'])[:300], 'observed': str(b)[:300]}
               for j, b in list(zip(jobs, base))[:4]]
    return jobs, run, set(json.dumps(j['s']) for j in jobs), samples
