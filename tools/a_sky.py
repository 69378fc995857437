"""Celestial coordinates and the rotations between their systems: spec/Sky.tla against harness/sky.cpp."""
import json
import random
from vf import Area


class SkyArea(Area):
    driver = 'sky'

    def line(self, op):
        o = op['op']
        ang = lambda a: [a['u'], a['n']]
        if o == 'coord':
            a = [op[k] for k in ('r', 'kind', 'type', 'how', 'a', 'b')]
        elif o in ('set1', 'set2'):
            a = [op['r'], op['a']]
        elif o == 'setboth':
            a = [op['r'], op['a'], op['b']]
        elif o == 'copy':
            a = [op['r'], op['q'], op['how']]
        elif o == 'look':
            a = [op['r']]
        elif o == 'dir':
            a = ang(op['a']) + ang(op['b']) + [int(op['f'])]
        elif o == 'rot':
            a = [op['k']] + ang(op['a'])
        elif o == 'mat':
            a = [op['k']] + ang(op['a']) + [int(op['f'])]
        else:
            a = []
        return ' '.join(map(str, [o] + a))


SKY = SkyArea()


def sky(ctx, mode, tests=None, label=None, invariants=()):
    files = {'given.ndjson': '\n'.join(json.dumps(t) for t in tests) + '\n'} if tests else None
    return ctx.model('SkyMC', label or mode, consts={'Mode': '"%s"' % mode}, action_constraint='Emit', view='view', files=files, invariants=list(invariants))


def c19(ctx):
    ctx.start(SKY)
    sky(ctx, 'laws', invariants=['InvLaws'])
    ctx.replay(SKY, sky(ctx, 'rots', label='pairs of conversions'), None, 'pairs of conversions')
    r = random.Random(ctx.seed * 7919 + 1)
    ang = lambda lo, hi: {'u': r.choice(['deg', 'rad']), 'n': r.randint(-60, 60)} if r.random() < .1 else {'u': 'deg', 'n': r.randint(lo * 1000, hi * 1000)} if r.random() < .7 else {'u': 'rad', 'n': r.randint(int(lo * 17.4), int(hi * 17.4))}
    tests = []
    for _ in range(400 if ctx.quick else 12000):
        u = r.choice(['deg', 'rad'])
        s = 1000 if u == 'deg' else 17.4
        f = r.random() < .15
        w, h = (r.choice([1, 1, 1, .0002]) for _ in range(2))
        t = [{'op': 'dir', 'a': {'u': u, 'n': r.randint(int(-180 * s * w), int(360 * s * w))}, 'b': {'u': u, 'n': r.randint(int(-90 * s * h), int(90 * s * h))}, 'f': f}]
        gal = False
        for _ in range(r.randint(1, 3)):
            k = r.choice(['hh', 'hr', 'er', 're', 'gr', 'rg'])
            a = ang(-180, 360)
            if r.random() < .5:
                t.append({'op': 'mat', 'k': k, 'a': a, 'f': r.random() < .5})
            if not gal and r.random() < .4:
                t.append({'op': 'again'})
            t.append({'op': 'rot', 'k': k, 'a': a})
            gal = gal or k in ('gr', 'rg')
        tests.append(t)
    ctx.replay(SKY, sky(ctx, 'given', tests, 'random conversions'), None, 'random conversions')


def c21(ctx):
    ctx.start(SKY)
    ctx.replay(SKY, sky(ctx, 'coords', invariants=['InvLast']), None, 'coordinates')
    r = random.Random(ctx.seed * 6151 + 1)
    val = lambda: r.choice([0, r.randint(-360000, 360000), r.randint(-6283, 6283), r.randint(-10 ** 9, 10 ** 9)])
    tests = []
    for _ in range(600 if ctx.quick else 20000):
        have, t = set(), []
        for _ in range(r.randint(3, 14)):
            if not have or r.random() < .25:
                q = r.randint(1, 3)
                have.add(q)
                t.append({'op': 'coord', 'r': q, 'kind': r.choice(['horizon', 'ha', 'ra', 'ecliptic', 'galactic']), 'type': r.choice(['rr', 'dd', 'rd', 'dr', 'fr', 'fd']),
                          'how': r.choice(['ctor', 'make', 'set', 'each']), 'a': val(), 'b': val()})
                continue
            q, x = r.choice(sorted(have)), r.random()
            if x < .4:
                t.append({'op': r.choice(['set1', 'set2', 'setboth']), 'r': q, 'a': val(), 'b': val()})
            elif x < .55:
                p = r.randint(1, 3)
                have.add(p)
                t.append({'op': 'copy', 'r': q, 'q': p, 'how': r.choice(['copy', 'assign'])})
            else:
                t.append({'op': 'look', 'r': q})
        t += [{'op': 'look', 'r': q} for q in sorted(have)]
        tests.append(t)
    ctx.replay(SKY, sky(ctx, 'given', tests, 'random histories'), None, 'random histories')


CHECKS = {'C19': c19, 'C21': c21}
