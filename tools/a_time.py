"""Julian dates, sidereal time, decimal hours, obliquity and units of length: spec/Time.tla against harness/time.cpp."""
import json
import random
from vf import Area, CheckError


class TimeArea(Area):
    driver = 'time'

    def line(self, op):
        o = op['op']
        keys = {'at': ('date', 'tod'), 'tick': ('n',), 'lst': ('lon', 'dir'), 'jdyear': ('y',), 'dh': ('n', 'd'), 'hms': ('h', 'm', 'ms'), 'sum': ('h', 'm', 'ms'),
                'length': ('n', 'from', 'to')}.get(o, ())
        a = []
        for k in keys:
            a += op[k] if isinstance(op[k], list) else [op[k]]
        return ' '.join(map(str, [o] + a))


TIME = TimeArea()


def times(ctx, mode, lo=1400, hi=9999, label=None):
    return ctx.model('TimeMC', label or mode, consts={'Mode': '"%s"' % mode, 'From': lo, 'To': hi}, action_constraint='Emit', view='view',
                     invariants=['InvRuns'])


def given(ctx, tests, label):
    """What the specification says of these histories."""
    return ctx.model('TimeMC', label, consts={'Mode': '"given"', 'From': 0, 'To': 0}, action_constraint='Emit', view='view',
                     files={'given.ndjson': '\n'.join(json.dumps(t) for t in tests) + '\n'})


def calendar(ctx, lo, hi):
    ctx.model('TimeMC', 'the calendar day by day, %d to %d' % (lo, hi), consts={'Mode': '"days"', 'From': lo, 'To': hi}, spec='CSpec', properties=['OneDay'])


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def random_date(r):
    y = r.choice([r.randint(1400, 1599), r.randint(1583, 2200), r.randint(1400, 9999)])
    m = r.randint(1, 12)
    return [y, m, r.randint(1, [31, 29 if leap(y) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1])]


def random_clock(ctx, n, ops):
    r = random.Random(ctx.seed * 104729 + 7)
    tests = []
    for _ in range(n):
        t = [{'op': 'at', 'date': random_date(r), 'tod': [r.randrange(43200), r.choice([0, 0, r.randrange(1000000)])]}]
        for _ in range(r.randint(1, 4)):
            for o in ops:
                t.append({'op': 'lst', 'lon': r.choice([r.randint(0, 180000), r.randint(-180000, 360000), r.randint(-2000000, 2000000)]), 'dir': r.choice('EW')} if o == 'lst' else {'op': o})
            x = r.random()
            if x < 0.5 and t[0]['date'][0] < 9999:
                t.append({'op': 'next_day'})
            elif x < 0.9:
                t.append({'op': 'tick', 'n': r.choice([1, 59, 60, 3600, r.randrange(10000)])})
        t.append({'op': ops[0]})
        tests.append(t)
    return tests


def c22(ctx):
    ctx.start(TIME)
    if ctx.quick:
        calendar(ctx, 1399, 2410)
    else:
        calendar(ctx, 1399, 9999)
    ctx.replay(TIME, times(ctx, 'years'), None, 'every day of 1400-9999')
    ctx.replay(TIME, times(ctx, 'jd'), None, 'dates and times of the day')
    ctx.replay(TIME, given(ctx, random_clock(ctx, 300 if ctx.quick else 20000, ['jd']), 'random histories of the clock'), None, 'random')


def c23(ctx):
    ctx.start(TIME)
    ctx.replay(TIME, times(ctx, 'gst'), None, 'instants and longitudes')
    ctx.replay(TIME, given(ctx, random_clock(ctx, 1500 if ctx.quick else 40000, ['gst', 'lst', 'lst', 'meridian']), 'random histories of the clock'), None, 'random')


def c24(ctx):
    ctx.start(TIME)
    ctx.replay(TIME, times(ctx, 'hours'), None, 'hours')
    r = random.Random(ctx.seed * 31 + 5)
    tests = [[{'op': 'hms', 'h': r.choice([r.randrange(48), r.randrange(48), r.randrange(10 ** 5)]), 'm': r.randrange(60), 'ms': r.randrange(60000)}] for _ in range(1500 if ctx.quick else 40000)]
    tests += [[{'op': 'dh', 'n': r.choice([r.randrange(20000), r.randrange(10 ** 7)]), 'd': r.choice([7, 11, 13, 97, 333, 500, 877])}] for _ in range(500 if ctx.quick else 20000)]
    tests += [[{'op': 'sum', 'h': r.choice([r.randrange(30000), r.randrange(10 ** 8)]), 'm': r.randrange(100000), 'ms': r.randrange(100000)}] for _ in range(500 if ctx.quick else 20000)]
    ctx.replay(TIME, given(ctx, tests, 'random hours'), None, 'random')


def c25(ctx):
    ctx.start(TIME)
    ctx.replay(TIME, times(ctx, 'eps'), None, 'dates')
    ctx.replay(TIME, given(ctx, random_clock(ctx, 1500 if ctx.quick else 40000, ['eps']), 'random histories of the clock'), None, 'random')


def c26(ctx):
    ctx.start(TIME)
    ctx.replay(TIME, times(ctx, 'length'), None, 'all pairs of units')
    r = random.Random(ctx.seed * 17 + 3)
    us = ['m', 'cm', 'au', 'pc', 'light_second', 'light_minute', 'light_hour', 'light_day', 'light_year']
    tests = [[{'op': 'length', 'n': r.randint(-10 ** 9, 10 ** 9), 'from': r.choice(us), 'to': r.choice(us)}] for _ in range(1500 if ctx.quick else 40000)]
    ctx.replay(TIME, given(ctx, tests, 'random lengths'), None, 'random')


CHECKS = {'C22': c22, 'C23': c23, 'C24': c24, 'C25': c25, 'C26': c26}
