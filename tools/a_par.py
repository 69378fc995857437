"""Separate objects at once: schedules of spec/Par.tla, with histories of all the other specifications, in the thread builds of the drivers."""
import concurrent.futures as cf
import os
import random
import subprocess
import threading
import time
import vf
from vf import Ctx, CheckError, Violation, log
import a_card
import a_file
import a_table
import a_data
import a_time
import a_sky
import a_frame
import a_vec

LENS = {'L33': 2, 'L44': 2, 'L222': 3}
# operations that only look at what is there
LOOK = {'card': set(),
        'fits': set(),
        'table': set(),
        'data': {'enc', 'dec', 'trip', 'aenc', 'pix', 'stat', 'minmax', 'out', 'flags'},
        'time': {'jd', 'gst', 'lst', 'meridian', 'eps', 'jdyear', 'dh', 'hms', 'sum', 'length'},
        'sky': {'look', 'mat'}, 'frame': {'look', 'sep', 'equiv'}, 'rep': {'look', 'eq', 'eqx'}, 'alg': {'look'},
        'dif': {'look', 'eq', 'eqx', 'mag', 'unit', 'times'}}


class Collect(Ctx):
    """Runs the specifications of a check as far as histories are wanted of them, and keeps the histories."""
    def __init__(self, ctx, wanted, given):
        super().__init__(ctx.pid, 'quick', ctx.seed)
        self.bag, self.wanted, self.given, self.outer = [], wanted, given, ctx

    def start(self, area):
        pass

    def model(self, module, label=None, **kw):
        files = kw.get('files') or {}
        if 'given.ndjson' in files:
            lines = files['given.ndjson'].splitlines()
            random.Random(self.seed).shuffle(lines)
            kw['files'] = dict(files, **{'given.ndjson': '\n'.join(lines[:self.given]) + '\n'})
        elif label not in self.wanted:
            return []
        kw['workers'] = 2
        if kw.get('simulate'):
            kw['simulate'] = min(kw['simulate'], 4)
        return super().model(module, label, **kw)

    def replay(self, area, tests, concern=None, label=''):
        if tests:
            self.bag.append((area, tests))

    def validate(self, *a, **kw):
        pass


def histories(ctx):
    """driver -> [(area, history with what the specification says of every step)]"""
    n = 120 if ctx.quick else 1500
    jobs = [(a_card.CHECKS['C01'], {'wide'}), (a_file.CHECKS['C27'], {'edit'}), (a_file.CHECKS['C05'], {'hist'}), (a_file.CHECKS['C04'], {'one'}),
            (a_table.CHECKS['C10'], {'hist-bin', 'hist-asc'} | (set() if ctx.quick else {'bin', 'asc'})), (a_table.CHECKS['C14'], {'refuse'}), (a_table.CHECKS['C09'], {'asc'}),
            (a_table.CHECKS['C08'], {'bin'}), (a_data.CHECKS['C11'], set()), (a_data.CHECKS['C12'], set()), (a_data.CHECKS['C13'], {'all histories of 3 calls'}),
            (a_time.CHECKS['C23'], set()), (a_time.CHECKS['C24'], set()), (a_time.CHECKS['C25'], set()), (a_time.CHECKS['C26'], set()), (a_time.CHECKS['C22'], set()),
            (a_sky.CHECKS['C19'], set()), (a_sky.CHECKS['C21'], set()), (a_frame.CHECKS['C20'], set()),
            (a_vec.CHECKS['C16'], set()), (a_vec.CHECKS['C17'], set()), (a_vec.CHECKS['C18'], set())]
    pools = {}

    def job(j):
        c = Collect(ctx, j[1], n)
        j[0](c)
        return c
    with cf.ThreadPoolExecutor(5) as ex:
        for c in ex.map(job, jobs):
            ctx.states += c.states
            ctx.transitions += c.transitions
            ctx.runs += c.runs
            for area, tests in c.bag:
                pools.setdefault(area.driver, []).extend((area, t) for t in tests if 0 < len(t) <= 16)
    return pools


def kinds(test):
    out = set()
    for s in test:
        op = s['op']
        out.add(tuple(sorted((k, v) for k, v in op.items() if isinstance(v, str) and len(v) <= 12)))
    return out


def choose(pool, n, r):
    """Histories that differ in their operations before others."""
    r.shuffle(pool)
    seen, first, rest = set(), [], []
    for at in pool:
        k = kinds(at[1])
        if k - seen:
            seen |= k
            first.append(at)
        else:
            rest.append(at)
    return (first + rest)[:n]


def chunks(xs, n):
    return [xs[len(xs) * k // n:len(xs) * (k + 1) // n] for k in range(n)]


def usable(ctx):
    """How programs with threads are built and started here: with ThreadSanitizer, when it starts."""
    for flags in (vf.TFLAGS, [f for f in vf.TFLAGS if f != '-fsanitize=thread']):
        exe = vf.build('time', flags)
        path = os.path.join(vf.scratch(), 'empty.txt')
        open(path, 'w').close()
        for pre in ([], ['setarch', '-R']):
            try:
                p = subprocess.run(pre + [exe, path], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
            except (OSError, subprocess.TimeoutExpired):
                continue
            if p.returncode == 0:
                if flags is not vf.TFLAGS:
                    ctx.notes.append('ThreadSanitizer does not start here: only what is seen was compared')
                return flags, pre
    raise CheckError('programs with threads do not start here')


class Group:
    """Processes with a history each, and the lines they run in the order of a schedule."""
    def __init__(self, mode, parts, steps):
        self.mode, self.parts, self.steps = mode, parts, steps          # steps: [(process, step of its history)]

    def lines(self):
        return (self.mode, len(self.parts) - 1, ['%d %s' % (p, self.parts[p][0].line(self.parts[p][1][i]['op'])) for p, i in self.steps])

    def wrong(self, ctx, obs):
        """The first line at which a process sees what it does not see alone."""
        for k, (p, i) in enumerate(self.steps):
            if k >= len(obs) or obs[k].get('res') in ('CRASH', 'HANG'):
                return k
            area, test = self.parts[p]
            if not vf.match(area.nexp(test[i]['op'], test[i]['exp']), area.nobs(test[i]['op'], obs[k])):
                return k
        return None


def scheduled(mode, progs, sched, lens):
    parts = [None] + progs
    todo = [None] + [chunks(list(range(len(t))), lens[k]) for k, (_, t) in enumerate(progs)]
    steps = []
    for p in sched:
        steps += [(p, i) for i in todo[p].pop(0)]
    return Group(mode, parts, steps)


def free(progs):
    return Group('free', [None] + progs, [(p + 1, i) for p, (_, t) in enumerate(progs) for i in range(len(t))])


def shared(at, n=3):
    area, test = at
    look = LOOK[area.driver]
    k = len(test)
    while k > 0 and test[k - 1]['op']['op'] in look:
        k -= 1
    if k == len(test):
        return None
    tail = list(range(k, len(test)))
    steps = [(0, i) for i in range(k)]
    for p in range(1, n + 1):
        turn = tail[p - 1:] + tail[:p - 1] if len(tail) >= n else tail
        steps += [(p, i) for i in turn]
    return Group('shared', [at] * (n + 1), steps)



def c28(ctx):
    r = random.Random(ctx.seed * 7919 + 28)
    drivers = sorted(LOOK)
    flags, pre = usable(ctx)
    # compile while the specifications are explored
    gate = threading.Semaphore(5)

    def compile_one(d):
        with gate:
            vf._quiet(vf.build, d, flags)
    threads = [threading.Thread(target=compile_one, args=(d,), daemon=True) for d in ('table', 'dif', 'data', 'fits', 'rep', 'alg', 'sky', 'frame', 'card')]
    for t in threads:
        t.start()
    scheds = []
    for l, n in LENS.items():
        scheds += ctx.model('ParMC', 'schedules of ' + l, consts={'Lens': '<- ' + l, 'Sharing': '"own"', 'Turns': 'TRUE'}, invariants=['Alone', 'NoRace', 'Kept'],
                            action_constraint='Emit', view='view')
    for l in ('L222',) if ctx.quick else ('L222', 'L333', 'L2222'):
        for sh in ('own', 'shared'):
            ctx.model('ParMC', '%s, free, %s' % (l, sh), consts={'Lens': '<- ' + l, 'Sharing': '"%s"' % sh, 'Turns': 'FALSE'}, invariants=['Alone', 'NoRace', 'Kept'],
                      view='view')
    ctx.model('ParMC', 'fair', consts={'Lens': '<- L222', 'Sharing': '"own"', 'Turns': 'TRUE'}, spec='Fair', properties=['Ends'])
    pools = histories(ctx)
    cap = 90 if ctx.quick else 600
    for d in drivers:
        exe = vf.build(d, flags)
        if pre:
            wrapper = exe + '.sh'
            with open(wrapper, 'w') as f:
                f.write('#!/bin/sh\nexec %s %s "$@"\n' % (' '.join(pre), exe))
            os.chmod(wrapper, 0o755)
            exe = wrapper
        t0 = time.time()
        # what each history shows alone, in a process of its own; where that is not what its specification says, another property is broken
        cand = choose(pools.get(d, []), cap, r)
        with cf.ThreadPoolExecutor(vf.JOBS) as ex:
            alone = list(ex.map(lambda at: vf.drive(exe, [('one', 1, ['1 ' + at[0].line(s['op']) for s in at[1]])])[0], cand))
        pool = [at for at, o in zip(cand, alone) if ctx._mismatch(at[0], at[1], o) is None]
        log('%s: %d of %d histories as specified when alone (%.1f s)' % (d, len(pool), len(cand), time.time() - t0))
        if not pool:
            continue
        groups = []
        for rep in range(1 if ctx.quick else 4):
            for k, s in enumerate(scheds):
                n = max(s)
                lens = [s.count(p + 1) for p in range(n)]
                for mode in ('one', 'turns'):
                    same = r.random() < 0.3
                    one = r.choice(pool)
                    groups.append(scheduled(mode, [one if same else r.choice(pool) for _ in range(n)], s, lens))
        groups += [free([at] * 3) for at in pool]
        groups += [free([r.choice(pool) for _ in range(4)]) for _ in range(len(pool))]
        groups += [g for g in map(shared, pool) if g]
        r.shuffle(groups)
        progs = [g.lines() for g in groups]
        obs = vf.drive(exe, progs)
        ctx.traces += len(groups)
        ctx.steps += sum(len(g.steps) for g in groups)
        log('%s: %d groups (%d steps) in %.1f s' % (d, len(groups), sum(len(g.steps) for g in groups), time.time() - t0))
        if len(ctx.samples) < 8:
            ctx.samples.append({'kind': 'processes', 'mode': groups[0].mode, 'lines': vf.brief(progs[0][2]), 'observed': vf.brief(obs[0])})
        bad = sorted((k for k in range(len(groups)) if groups[k].wrong(ctx, obs[k]) is not None), key=lambda k: len(groups[k].steps))
        for k in bad[:12]:
            for again in range(10):
                o = vf.drive(exe, [progs[k]])[0] if again else obs[k]
                w = groups[k].wrong(ctx, o)
                if w is None:
                    continue
                last = o[-1] if o else {}
                if last.get('res') == 'CRASH' and 'ThreadSanitizer' in last.get('info', '') and not last.get('ours'):
                    break                                     # not in the library
                if last.get('res') != 'CRASH' and not again and groups[k].mode != 'free':
                    before = vf.company(progs, k)[:-1]
                    o = vf.drive_one(exe, before + [progs[k]])
                    w = groups[k].wrong(ctx, o)
                    if w is None:
                        continue
                elif last.get('res') == 'HANG' and not again:
                    continue
                p, i = groups[k].steps[w]
                raise Violation('objects that are not shared influence each other' if last.get('res') != 'CRASH' else 'unsynchronised state outside the objects of a program', {
                    'area': d, 'group': progs[k], 'step': w, 'operation': groups[k].parts[p][1][i]['op'], 'specified': groups[k].parts[p][1][i]['exp'],
                    'observed': o[w] if w < len(o) else last})


CHECKS = {'C28': c28}
