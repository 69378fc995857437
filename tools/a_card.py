"""Cards: spec/Card.tla against boost::astronomy::io::card."""
import random
import re
from vf import Area, canon_f, tok, UNSPEC

REALS = {'dbl': 64, 'flt': 32, 'cdbl': 64, 'cflt': 32}


def canon(t, v):
    if t in ('dbl', 'flt'):
        return canon_f(float(v), REALS[t]) if v != UNSPEC else v
    return v


class CardArea(Area):
    driver = 'card'

    def line(self, op):
        o = op['op']
        v = op.get('v')
        vs = v if isinstance(v, list) else [v]
        if o in ('parse', 'eq'):
            a = [tok(op['raw'])]
        elif o == 'ctor':
            a = [tok(op['key']), tok(v), tok(op['c'])]
        elif o == 'create':
            a = [op['t'], tok(op['key']), tok(op['c'])] + [tok(x) for x in vs]
        elif o == 'commentary':
            a = [tok(op['key']), tok(op['text'])]
        elif o == 'set':
            a = [op['t']] + [tok(x) for x in vs]
        elif o == 'read':
            a = [op['t']]
        else:
            a = []
        return ' '.join([o] + a)

    def _n(self, op, r):
        if op['op'] == 'read' and 'val' in r and op['t'] in REALS:
            import struct
            r = dict(r)
            f = lambda x: canon_f(struct.unpack('>f', struct.pack('>f', float(x)))[0] if REALS[op['t']] == 32 else float(x), REALS[op['t']])
            r['val'] = [f(x) for x in r['val']] if isinstance(r['val'], list) else f(r['val'])
        return r

    def nexp(self, op, exp):
        return self._n(op, exp)

    def nobs(self, op, obs):
        return self._n(op, obs)

    def row(self, op, obs):
        """With the canonical text of every numeral of the record: what a numeral denotes is not the specification's matter."""
        r = {'op': op, 'obs': self.nobs(op, obs)}
        if op['op'] == 'read' and op['t'] in REALS:
            r['num'] = []
            for x in set(re.split(r"[ /]+", obs.get('raw', '')[8:])):
                try:
                    if 'x' not in x.lower() and '_' not in x:
                        r['num'].append([x, self._n(op, {'val': x})['val']])
                except (ValueError, OverflowError):
                    pass
        return r


AREA = CardArea()
WRITERS = ('create', 'ctor', 'commentary', 'set')


def made(test, i, obs):
    """C01: a record the library wrote, and what is read from it."""
    for s in reversed(test[:i + 1]):
        if s['op']['op'] in WRITERS:
            return True
        if s['op']['op'] == 'parse':
            return False
    return False


def judged(test, i, obs):
    """C02: what is accepted and refused, and what a refusal leaves behind."""
    s = test[i]
    return s['op']['op'] in WRITERS + ('parse',) or obs.get('res') not in ('ok', 'invalid_cast')


def anything(test, i, obs):
    return True


ALPHA = "ab Z09/'=.-+_\"\\"


def rstr(r, n):
    m = r.random()
    if m < 0.2:
        return 'w' * n
    return ''.join(r.choice(ALPHA) for _ in range(n))


def rlen(r, lim):
    return r.choice([0, 1, 2, 3, 5, 8, 12, lim - 2, lim - 1, lim, lim + 1, r.randrange(lim)])


def rreal(r):
    return canon_f(float('%.*g' % (r.randrange(1, 7), r.choice([1, -1]) * r.random() * 10 ** r.randrange(-12, 13))))


def rval(r, t):
    i32 = lambda: str(r.choice([0, 1, -1, 2147483647, -2147483648, r.randrange(-10**6, 10**6), r.randrange(-2**31, 2**31)]))
    size = lambda: str(r.choice([0, 7, 2**32, 2**64 - 1, r.randrange(2**64)]))
    if t == 'str':
        return rstr(r, rlen(r, 68))
    if t == 'bool':
        return r.choice('TF')
    if t == 'int':
        return i32()
    if t == 'uint':
        return str(r.choice([0, 2**32 - 1, r.randrange(2**32)]))
    if t == 'll':
        return str(r.choice([0, -1, 2**63 - 1, -2**63, r.randrange(-2**63, 2**63)]))
    if t == 'size':
        return size()
    if t == 'cint':
        return [i32(), i32()]
    if t == 'csize':
        return [size(), size()]
    if t in ('cdbl', 'cflt'):
        return [rreal(r), rreal(r)]
    return rreal(r)


TYPES = ['str', 'bool', 'int', 'uint', 'll', 'size', 'dbl', 'flt', 'cint', 'cdbl', 'cflt', 'csize']


def rkey(r):
    return rstr(r, r.choice([0, 1, 2, 5, 7, 8, 8, 9, 12])).replace(' ', 'K')


def rraw(r):
    m = r.random()
    key = ''.join(r.choice('ABZ09-_') for _ in range(r.randrange(0, 9)))
    if m < 0.5:
        t = r.choice(TYPES)
        v = rval(r, t)
        v = "'%s'" % v.replace("'", "''") if t == 'str' else ' '.join(v) if isinstance(v, list) else v
        s = key.ljust(8) + '= ' + ' ' * r.choice([0, 0, 1, 5, 20]) + v + r.choice(['', '', ' ', '/', ' / ', ' /c/d', " / it's"])
    elif m < 0.7:
        s = r.choice(['COMMENT ', 'HISTORY ', '        ', 'END     ', 'END', 'COMMENT']) + rstr(r, rlen(r, 72))
    elif m < 0.85:
        s = key.ljust(8) + r.choice(['=', ' =', '  ', '=x', '']) + rstr(r, rlen(r, 70))
    else:
        s = rstr(r, rlen(r, 80))
    if s[:7].strip() in ('COMMENT', 'HISTORY', 'END') and s[7:8] not in ('', ' ') and s[8:10] != '= ':
        return rraw(r)                                          # text in column 8: the specification leaves it open
    return s.ljust(80) if r.random() < 0.4 else s


def random_tests(seed, n, length):
    r = random.Random(seed)
    tests = []
    for _ in range(n):
        t = [{'op': 'create', 't': 'int', 'v': '5', 'key': 'START', 'c': ''}]
        for i in range(length):
            m = r.random()
            if i == 0 or m < 0.25:
                k = r.random()
                if k < 0.35:
                    ty = r.choice(TYPES)
                    op = {'op': 'create', 't': ty, 'v': rval(r, ty), 'key': rkey(r), 'c': r.choice(['', '', 'c', rstr(r, rlen(r, 48)), rstr(r, r.randrange(70))])}
                elif k < 0.5:
                    op = {'op': 'ctor', 'v': rval(r, 'str'), 'key': rkey(r), 'c': r.choice(['', 'c', rstr(r, rlen(r, 40))])}
                elif k < 0.6:
                    op = {'op': 'commentary', 'key': r.choice(['COMMENT', 'HISTORY', '', 'A', 'ABCDEFGH', 'ABCDEFGHI']), 'text': rstr(r, rlen(r, 70))}
                else:
                    op = {'op': 'parse', 'raw': rraw(r)}
            elif m < 0.35:
                ty = r.choice(TYPES)
                op = {'op': 'set', 't': ty, 'v': rval(r, ty)}
            elif m < 0.4:
                op = {'op': 'copy'}
            else:
                op = {'op': 'read', 't': r.choice(TYPES + ['str', 'int', 'dbl'])}
            t.append(op)
        tests.append(t)
    return tests


def models(ctx):
    inv = ['InvType', 'InvCreate', 'InvCommentary', 'InvSet']
    kw = dict(invariants=inv, properties=['Unchanged'], view='view')
    deep = 3 if ctx.quick else 4
    tests = ctx.model('CardMC', 'wide', consts={'Mode': '"wide"', 'MaxLen': 2}, action_constraint='Emit', **kw)
    tests += ctx.model('CardMC', 'deep', consts={'Mode': '"deep"', 'MaxLen': deep}, action_constraint='Emit', **kw)
    tests += ctx.model('CardMC', 'walks', consts={'Mode': '"deep"', 'MaxLen': 12}, invariants=inv, constraint='EmitEnd',
                       simulate=40 if ctx.quick else 1500, depth=13, seed=ctx.seed)
    return tests


def check(concern):
    def run(ctx):
        tests = models(ctx)
        ctx.replay(AREA, tests, concern)
        n = 400 if ctx.quick else 6000
        ctx.validate(AREA, 'CardTrace', random_tests(ctx.seed, n, 12), concern=concern)
    return run


CHECKS = {'C01': check(made), 'C02': check(judged), 'C03': check(anything)}
