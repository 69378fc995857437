"""Vectors: spec/Vec.tla against harness/rep.cpp (positions), harness/alg.cpp (their algebra) and harness/dif.cpp (motions)."""
import json
import random
from vf import Area

DOUBLES = ['Cm', 'Cx', 'Sd', 'Sx', 'Ed', 'Ex']
FLOATS = ['Cf', 'Sf', 'Ef']
UNITS = {'Cm': ('m', 'm', 'm'), 'Cx': ('m', 'cm', 'km'), 'Cf': ('m', 'm', 'm'), 'Sd': ('deg', 'deg', 'm'), 'Sx': ('rad', 'deg', 'km'), 'Sf': ('rad', 'rad', 'm'),
         'Ed': ('deg', 'deg', 'm'), 'Ex': ('deg', 'rad', 'km'), 'Ef': ('rad', 'deg', 'm'), 'Dd': ('deg', 'deg', 'm'), 'Dx': ('rad', 'deg', 'km'), 'Df': ('rad', 'rad', 'm')}


class VecArea(Area):
    def __init__(self, driver):
        self.driver = driver

    def line(self, op):
        o = op['op']
        if o == 'new':
            a = [op['r'], op['type'], op['how']] + op['c']
        elif o == 'point':
            a = [op['r'], op['type'], op['sys'], op['how']] + op['c']
        elif o == 'put':
            a = [op['r'], op['k'], op['v']]
        elif o == 'putall':
            a = [op['r']] + op['c']
        elif o == 'copy':
            a = [op['r'], op['q'], op['how']]
        elif o == 'conv':
            a = [op['r'], op['q'], op['type'], op['how']]
        elif o in ('sum', 'mean', 'plus'):
            a = [op['r'], op['q'], op['p']]
        elif o in ('dot', 'cross', 'eq'):
            a = [op['r'], op['q']]
        elif o == 'times':
            a = [op['r'], op['t']]
        elif o == 'heading':
            o, a = 'unit', [op['r'], op['type']]
        else:
            o, a = {'see': 'look', 'speed': 'mag'}.get(o, o), [op['r']]
        return ' '.join(map(str, [o] + a))


REP, ALG, DIF = VecArea('rep'), VecArea('alg'), VecArea('dif')


def vectors(ctx, mode, motion, tests=None, label=None):
    files = {'given.ndjson': '\n'.join(json.dumps(t) for t in tests) + '\n'} if tests else None
    return ctx.model('VecMC', label or mode, consts={'Mode': '"%s"' % mode, 'Motion': 'TRUE' if motion else 'FALSE'}, action_constraint='Emit', view='view', files=files, properties=['Independent'])


def comps(r, t):
    """Components of one type: any Cartesian ones; angles of one turn and a bit, and a distance, now and then a negative one."""
    k, u, single = t[0], UNITS[t], t[1] == 'f'
    if k == 'C':
        return [r.choice([0, r.randint(-1000, 1000), r.randint(-10 ** 6, 10 ** 6)]) for _ in range(3)]
    deg = lambda lo, hi, v: r.randint(lo * 1000, hi * 1000) if v == 'deg' else r.randint(lo * 17453 // 1000, hi * 17453 // 1000)
    a = deg(-180, 360, u[0]) if r.random() < .8 else deg(-1000, 1000, u[0])
    b = deg(-90, 90, u[1]) if k == 'E' else deg(0, 180, u[1])
    if k != 'D' and r.random() < .04:
        b = deg(-800, 800, u[1])
    if k == 'D':
        a = r.choice([deg(-60, 60, u[0]), deg(120, 240, u[0])])
        b = deg(0, 60, u[1])
    return [a, b, r.choice([1, 1, 1, 1, 1, -1]) * r.choice([r.randint(1, 1000), r.randint(1, 10 ** 6 if single else 10 ** 7)])]


def group(t):
    return 'x' if t == 'Cx' else UNITS[t][2]


def ways(r, t, u):
    w = ['ctor', 'make']
    if t != u and t[0] == u[0]:
        w.append('units')
    if group(t) == group(u) and 'D' not in (t[0], u[0]):
        w.append('to')
    return r.choice(w)


def random_vectors(ctx, n, what):
    """Histories of the operations of one driver; sums are limited so that the terms stay small."""
    r = random.Random(ctx.seed * 7919 + {'rep': 1, 'alg': 2, 'dif': 3}[what])
    tests = []
    for _ in range(n):
        types = r.choice([DOUBLES, DOUBLES, FLOATS])
        if what == 'dif':
            types = types + (['Df'] if types is FLOATS else ['Dd', 'Dx'])
        have, known, t, sums = {}, {}, [], 0

        def new(q):
            ty = r.choice(types)
            if what != 'alg' and r.random() < .2 and ty[0] != 'D':
                s = 'C' if ty == 'Cx' else r.choice(['C', 'Sr', 'Sd', 'Er', 'Ed'])
                c = comps(r, 'Cm') if s == 'C' else [r.randint(-180000, 180000), r.randint(0, 90000), r.randint(1, 10 ** 6)] if s[1] == 'd' else [r.randint(-3000, 3000), r.randint(0, 1500), r.randint(1, 10 ** 6)]
                t.append({'op': 'point', 'r': q, 'type': ty, 'sys': s, 'how': r.choice(['ctor', 'make']), 'c': c})
                known[q] = False
            else:
                t.append({'op': 'new', 'r': q, 'type': ty, 'how': r.choice(['ctor', 'make', 'set', 'each']), 'c': comps(r, ty)})
                known[q] = True
            have[q] = ty
        new(1)
        new(2)
        for _ in range(r.randint(4, 14)):
            x, q, p, o = r.random(), r.choice(sorted(have)), r.randint(1, 3), r.choice(sorted(have))
            if x < .12:
                new(p)
            elif x < .35:
                if what == 'alg' or (what == 'dif' and r.random() < .6):
                    if sums < 4:
                        sums += 1
                        t.append({'op': 'plus' if what == 'dif' else r.choice(['sum', 'mean', 'plus']), 'r': q, 'q': o, 'p': p})
                        have[p], known[p] = have[q], False
                elif what != 'alg':
                    u = r.choice(types)
                    t.append({'op': 'conv', 'r': q, 'q': p, 'type': u, 'how': ways(r, have[q], u)})
                    have[p], known[p] = u, False
            elif x < .5 and what != 'alg':
                if r.random() < .5 or not (known[q] or have[q][0] == 'C'):
                    t.append({'op': 'putall', 'r': q, 'c': comps(r, have[q])})
                    known[q] = True
                else:
                    k = r.randint(1, 3)
                    t.append({'op': 'put', 'r': q, 'k': k, 'v': comps(r, have[q])[k - 1]})
            elif x < .6 and what != 'alg':
                t.append({'op': 'copy', 'r': q, 'q': p, 'how': r.choice(['copy', 'assign', 'make'])})
                have[p], known[p] = have[q], known[q]
            elif what == 'alg':
                t.append(r.choice([{'op': 'dot', 'r': q, 'q': o}, {'op': 'cross', 'r': q, 'q': o}, {'op': 'mag', 'r': q}, {'op': 'unit', 'r': q}, {'op': 'see', 'r': q}]))
            elif x < .7 and have[o] == have[q]:
                t.append({'op': 'eq', 'r': q, 'q': o})
            elif x < .85 and what == 'dif':
                c = [{'op': 'times', 'r': q, 't': r.randint(-10 ** 5, 10 ** 5)}]
                if have[q][0] in 'SE' or have[q] in ('Cm', 'Cf'):
                    c += [{'op': 'speed', 'r': q}, {'op': 'heading', 'r': q, 'type': r.choice([u for u in types if u[0] != 'D'])}]
                t.append(r.choice(c))
            else:
                t.append({'op': 'look', 'r': q})
        t += [{'op': 'see' if what == 'alg' else 'look', 'r': q} for q in sorted(have)]
        tests.append(t)
    return tests


def c16(ctx):
    ctx.start(REP)
    ctx.replay(REP, vectors(ctx, 'made', False, label='every type made and set in every way'), None, 'made')
    ctx.replay(REP, vectors(ctx, 'conv', False, label='conversions between every pair of types'), None, 'conversions')
    ctx.replay(REP, vectors(ctx, 'points', False, label='from points of Boost.Geometry'), None, 'points')
    ctx.replay(REP, vectors(ctx, 'given', False, random_vectors(ctx, 700 if ctx.quick else 20000, 'rep'), 'random histories'), None, 'random histories')


def c17(ctx):
    ctx.start(ALG)
    ctx.replay(ALG, vectors(ctx, 'algebra', False, label='laws, and every operation on every pair of types'), None, 'algebra')
    ctx.replay(ALG, vectors(ctx, 'given', False, random_vectors(ctx, 700 if ctx.quick else 20000, 'alg'), 'random histories'), None, 'random histories')


def c18(ctx):
    ctx.start(DIF)
    ctx.replay(DIF, vectors(ctx, 'made', True, label='every type made and set in every way'), None, 'made')
    ctx.replay(DIF, vectors(ctx, 'conv', True, label='conversions between every pair of types'), None, 'conversions')
    ctx.replay(DIF, vectors(ctx, 'points', True, label='from points of Boost.Geometry'), None, 'points')
    ctx.replay(DIF, vectors(ctx, 'algebra', True, label='sums, products with a time, speeds and directions'), None, 'algebra')
    ctx.replay(DIF, vectors(ctx, 'given', True, random_vectors(ctx, 700 if ctx.quick else 20000, 'dif'), 'random histories'), None, 'random histories')


CHECKS = {'C16': c16, 'C17': c17, 'C18': c18}
