"""Jobs for the concurrency and independence checks: the step lists of the
other checks' workloads."""
import importlib
import json
import random

SOURCES = ['c02', 'c03', 'c04', 'c06', 'c07', 'c08', 'c10', 'c11', 'c12',
           'c14', 'c15', 'c16', 'c17', 'c18', 'c20', 'c22', 'c23', 'c24',
           'c25', 'c26', 'c27', 'c28', 'c29']
RARE = ('gsm_sweep',)


class Quick:
    """a context of the quick tier for the generators"""
    thorough = False
    tier = 'quick'

    def hit(self, *a):
        pass

    see = hit


def jobs(rng, per, limit=6000, sources=SOURCES):
    """{source: [step list]}"""
    out = {}
    for name in sources:
        mod = importlib.import_module('vf.checks.' + name)
        r = random.Random('%s %s' % (name, rng.random()))
        l = [c['s'] for c in mod.gen(r, Quick())]
        l = [s for s in l if len(json.dumps(s)) < limit and
             not any(st[2] in RARE for st in s if len(st) > 2)]
        r.shuffle(l)
        out[name] = l[:per]
    return out


def place(s, where):
    """the same steps with their files in another directory"""
    if isinstance(s, list):
        return [place(x, where) for x in s]
    if isinstance(s, dict):
        if set(s) == {'p'}:
            return {'p': where + '/' + s['p']}
        return {k: place(v, where) for k, v in s.items()}
    return s


def exceptions(rs):
    """observations without the text of exceptions, which may name files"""
    return [r[:3] for r in rs]
