"""Frames and points on the sky: spec/Frame.tla against harness/frame.cpp."""
import json
import random
from vf import Area

KINDS = ['alt_az', 'galactic', 'supergalactic', 'icrs', 'cirs', 'heliocentric', 'geocentric']


class FrameArea(Area):
    driver = 'frame'

    def line(self, op):
        o = op['op']
        if o == 'frame':
            a = [op['r'], op['kind'], op['type'], op['how']] + op['c'] + op['m']
        elif o in ('setc', 'setm'):
            a = [op['r'], op['k'], op['v']]
        elif o == 'setall':
            a = [op['r']] + op['v']
        elif o == 'setallm':
            a = [op['r']] + op['v'] + [op['how']]
        elif o == 'time':
            a = [op['r'], op['v']]
        elif o == 'loc':
            o, a = 'par', [op['r'], 'loc'] + op['v']
        elif o in ('pressure', 'temperature', 'humidity'):
            o, a = 'par', [op['r'], o, op['v']]
        elif o == 'params':
            o, a = 'par', [op['r'], 'params'] + op['loc'] + [op['time'], op['p'], op['t'], op['h']]
        elif o == 'copy':
            a = [op['r'], op['q'], op['how']]
        elif o == 'look':
            a = [op['r']]
        else:
            a = [op['r'], op['q']]
        return ' '.join(map(str, [o] + a))


FRAME = FrameArea()


def frames(ctx, mode, tests=None, label=None):
    files = {'given.ndjson': '\n'.join(json.dumps(t) for t in tests) + '\n'} if tests else None
    return ctx.model('FrameMC', label or mode, consts={'Mode': '"%s"' % mode}, action_constraint='Emit', view='view', files=files, properties=['Independent'])


def random_frames(ctx, n):
    r = random.Random(ctx.seed * 3571 + 11)
    num = lambda: r.choice([0, r.randint(-1000, 1000), r.randint(-90000, 90000), r.randint(-10 ** 7, 10 ** 7)])
    tests = []
    for _ in range(n):
        have, t = {}, []
        pos = lambda q: r.randint(-6283, 6283) if have[q][1] == 'f' else num()   # single precision: a small angle, so that sines keep their digits

        def new(q, kind, ty):
            lat = r.randint(-90000, 90000) if ty == 'dd' else r.randint(-1570, 1570)
            lon = r.randint(-3141, 6283) if ty == 'f' else r.randint(-180000, 360000)
            have[q] = (kind, ty)
            t.append({'op': 'frame', 'r': q, 'kind': kind, 'type': ty, 'c': [lat, lon, r.randint(1, 10 ** 6)], 'm': [r.randint(-900, 900), r.randint(-900, 900), num()],
                      'how': r.choice(['ctor3', 'ctor6', 'rep', 'orep', 'repdiff', 'orepdiff', 'set', 'each', 'sky3', 'sky6', 'skyrep'])})
        kind, ty = r.choice(KINDS), r.choice(['dd', 'rd', 'f'])
        new(1, kind, ty)
        new(2, kind, ty)
        for _ in range(r.randint(4, 16)):
            x, q = r.random(), r.choice(sorted(have))
            k = have[q][0]
            if x < .1:
                new(r.randint(1, 3), *(r.choice(list(have.values())) if r.random() < .6 else (r.choice(KINDS), r.choice(['dd', 'rd', 'f']))))
            elif x < .35:
                t.append({'op': r.choice(['setc', 'setm']), 'r': q, 'k': r.randint(1, 3), 'v': pos(q)})
            elif x < .45:
                t.append({'op': 'setall', 'r': q, 'v': [pos(q), pos(q), num()]})
            elif x < .55:
                t.append({'op': 'setallm', 'r': q, 'v': [num(), num(), num()], 'how': r.choice(['parts', 'whole'])})
            elif x < .65:
                if k in ('alt_az', 'cirs', 'heliocentric', 'geocentric'):
                    t.append({'op': 'time', 'r': q, 'v': r.choice([-1, r.randint(0, 10 ** 9), r.randint(-10 ** 9, 10 ** 9)])})
                if k == 'alt_az':
                    y = r.random()
                    if y < .3:
                        t.append({'op': 'params', 'r': q, 'loc': [num(), num(), num()], 'time': r.choice([-1, r.randint(0, 10 ** 8), r.randint(-10 ** 9, 10 ** 9)]), 'p': num(), 't': num(), 'h': r.randint(0, 1000)})
                    elif y < .5:
                        t.append({'op': 'loc', 'r': q, 'v': [num(), num(), num()]})
                    else:
                        t.append({'op': r.choice(['pressure', 'temperature', 'humidity']), 'r': q, 'v': num()})
            elif x < .75:
                p = r.randint(1, 3)
                have[p] = have[q]
                t.append({'op': 'copy', 'r': q, 'q': p, 'how': r.choice(['copy', 'assign', 'point', 'setpoint'])})
            elif x < .85:
                t.append({'op': 'look', 'r': q})
            else:
                p = r.choice(sorted(have))
                t.append({'op': 'equiv' if have[p] != have[q] else r.choice(['equiv', 'sep', 'sep']), 'r': q, 'q': p})
        t += [{'op': 'look', 'r': q} for q in sorted(have)]
        tests.append(t)
    return tests


def c20(ctx):
    ctx.start(FRAME)
    ctx.replay(FRAME, frames(ctx, 'made', label='every frame made in every way'), None, 'made')
    ctx.replay(FRAME, frames(ctx, 'angles', label='angles between positions'), None, 'angles')
    ctx.replay(FRAME, frames(ctx, 'edited' if ctx.quick else 'editedall', label='pairs of edits around a copy'), None, 'edits')
    ctx.replay(FRAME, frames(ctx, 'given', random_frames(ctx, 500 if ctx.quick else 15000), 'random histories'), None, 'random histories')


CHECKS = {'C20': c20}
