"""Shared machinery of the checks: TLC runs, driver builds, replay of specification behaviours in the real code,
validation of recorded traces against the specification, evidence and verdicts.  See DESIGN.md."""
import concurrent.futures as cf
import hashlib
import json
import math
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
INC = os.path.join(REPO, 'include')
SPEC = os.path.join(VERIF, 'spec')
HARN = os.path.join(VERIF, 'harness')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
JOBS = max(2, min(8, os.cpu_count() or 2))
T0 = time.time()

_scratch = None


def scratch():
    """A private directory, removed at exit; on memory when there is room."""
    global _scratch
    if _scratch is None:
        base = None
        _scratch = tempfile.mkdtemp(prefix='verif-', dir=base)
        import atexit
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, file=sys.stderr, flush=True)


class CheckError(Exception):
    """The check itself could not do its work (exit 2): never a verdict about the code."""


class Violation(Exception):
    def __init__(self, what, detail):
        super().__init__(what)
        self.what, self.detail = what, detail


# ---------------------------------------------------------------- TLC

class Tlc:
    def __init__(self, out, emitted, states, distinct, ok, secs):
        self.out, self.emitted, self.states, self.distinct, self.ok, self.secs = out, emitted, states, distinct, ok, secs


def tlc(module, consts=None, invariants=(), constraint=None, action_constraint=None, view=None, spec='Spec',
        postcondition=None, properties=(), simulate=None, depth=None, seed=None, workers=None, timeout=600, files=None,
        alias=None, mem='6g', deadlock=False, symmetry=None, expect_ok=True, coverage=False):
    """Runs TLC on spec/<module>.tla with a generated configuration; lines printed as "@@json" are collected."""
    d = tempfile.mkdtemp(prefix=module + '-', dir=scratch())
    for f in os.listdir(SPEC):
        if f.endswith('.tla'):
            shutil.copy(os.path.join(SPEC, f), d)
    for name, content in (files or {}).items():
        with open(os.path.join(d, name), 'w') as f:
            f.write(content)
    cfg = ['SPECIFICATION %s' % spec]
    for k, v in (consts or {}).items():
        cfg.append('CONSTANT %s = %s' % (k, v) if not str(v).startswith('<-') else 'CONSTANT %s %s' % (k, v))
    cfg += ['INVARIANT %s' % i for i in invariants]
    cfg += ['PROPERTY %s' % p for p in properties]
    for k, v in (('CONSTRAINT', constraint), ('ACTION_CONSTRAINT', action_constraint), ('VIEW', view),
                 ('POSTCONDITION', postcondition), ('ALIAS', alias), ('SYMMETRY', symmetry)):
        if v:
            cfg.append('%s %s' % (k, v))
    cfg.append('CHECK_DEADLOCK %s' % ('TRUE' if deadlock else 'FALSE'))
    with open(os.path.join(d, 'M.cfg'), 'w') as f:
        f.write('\n'.join(cfg) + '\n')
    w = workers or (1 if simulate else JOBS)
    cmd = ['java', '-Xmx' + mem, '-Xss64m', '-XX:+UseParallelGC', '-Djava.io.tmpdir=' + d, '-cp', CP, 'tlc2.TLC', '-workers', str(w),
           '-metadir', os.path.join(d, 'states'), '-noGenerateSpecTE', '-config', 'M.cfg']
    if coverage:
        cmd += ['-coverage', '1']
    if simulate:
        cmd += ['-simulate', 'num=%d' % simulate, '-depth', str(depth or 20)]
        if seed is not None:
            cmd += ['-seed', str(seed)]
    cmd.append(module + '.tla')
    t = time.time()
    p = subprocess.Popen(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        raw, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise CheckError('TLC on %s did not finish in %d s' % (module, timeout))
    out = raw.decode('utf-8', 'replace')
    emitted, rest = [], []
    for line in out.splitlines():
        if line.startswith('"@@'):
            emitted.append(json.loads(json.loads(line)[2:]))
        else:
            rest.append(line)
    out = '\n'.join(rest)
    m = re.search(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
    states, distinct = (int(m.group(1).replace(',', '')), int(m.group(2).replace(',', ''))) if m else (0, 0)
    if simulate and not states:
        m = re.findall(r'number of states generated: ([\d,]+)|Progress: ([\d,]+) states checked', out)
        states = max([int((a or b).replace(',', '')) for a, b in m] or [0])
    ok = rc == 0
    shutil.rmtree(d, ignore_errors=True)
    if expect_ok and not ok:
        raise CheckError('TLC on %s failed (exit %d):\n%s' % (module, rc, out[-6000:]))
    return Tlc(out, emitted, states, distinct, ok, time.time() - t)


# ---------------------------------------------------------------- driver

def tree_hash():
    h = hashlib.sha256()
    for base, ds, fs in os.walk(INC):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(base, f)
            h.update(os.path.relpath(p, INC).encode() + b'\0')
            with open(p, 'rb') as fh:
                h.update(fh.read())
    return h.hexdigest()


FLAGS = ['-std=c++14', '-include', 'cstdint', '-g1', '-w', '-fsanitize=address', '-fno-omit-frame-pointer']
OPT = {'table': '-O0', 'data': '-O0', 'sky': '-O0', 'frame': '-O0', 'rep': '-O0', 'alg': '-O0', 'dif': '-O0'}
_built = {}
_lock = threading.Lock()


TFLAGS = [f for f in FLAGS if 'sanitize' not in f] + ['-fsanitize=thread', '-pthread', '-DVERIF_THREADS']


def build(name, flags=FLAGS):
    """Compiles harness/<name>.cpp against the headers in /repo; never reuses a build of an older tree."""
    key = (name, tuple(flags))
    with _lock:
        if key not in _built:
            _built[key] = cf.ThreadPoolExecutor(1).submit(_build, name, flags, len(_built))
    return _built[key].result()


def _build(name, flags, number):
    src = os.path.join(HARN, name + '.cpp')
    exe = os.path.join(scratch(), 'drv-%s-%d' % (name, number))
    cmd = ['g++'] + flags + [OPT.get(name, '-O1')] + ['-I' + INC, '-I' + HARN, src, '-o', exe, '-lboost_date_time']
    t = time.time()
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    log('compiled driver %s in %.1f s' % (name, time.time() - t))
    if p.returncode != 0:
        errors = '\n'.join(l for l in p.stdout.splitlines() if 'error' in l)[:3000]
        # Is it the headers themselves, or the way a user uses them?
        incs = sorted(set(re.findall(r'#include\s*(<boost/astronomy/[^>]+>)', open(src).read())))
        plain = ''.join('#include %s\n' % i for i in incs) + 'int main(){}\n'
        q = subprocess.run(['g++'] + FLAGS + ['-I' + INC, '-x', 'c++', '-', '-fsyntax-only'], input=plain, text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if q.returncode != 0:
            raise CheckError('the headers do not compile:\n' + q.stdout[-3000:])
        raise Violation('the public interface no longer accepts what a user writes against it', errors)
    return exe


def tok(v):
    """One argument of the line protocol."""
    if isinstance(v, bool):
        return 'T' if v else 'F'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return 'x' + v.encode('latin-1').hex()
    if isinstance(v, (bytes, bytearray)):
        return 'x' + bytes(v).hex()
    raise TypeError(v)


def _run_chunk(exe, tests, cwd, per_test_s):
    """tests: [(id, [line])].  Returns {id: [obs...]} with a last obs {'res': 'CRASH'|'HANG'} where the driver died."""
    res = {}
    todo = list(tests)
    while todo:
        path = os.path.join(cwd, 'tests.txt')
        with open(path, 'w') as f:
            for i, lines in todo:
                if isinstance(lines, tuple):                  # processes of spec/Par.tla: mode, their number, lines
                    f.write('G %d %s %d\n' % ((i,) + lines[:2]))
                    lines = lines[2]
                else:
                    f.write('T %d\n' % i)
                for l in lines:
                    f.write(l + '\n')
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:max_allocation_size_mb=2048:'
                   'hard_rss_limit_mb=3000:detect_stack_use_after_return=0', TMPDIR=cwd,
                   TSAN_OPTIONS='halt_on_error=1:exitcode=66:report_signal_unsafe=0:history_size=4')
        budget = 20 + per_test_s * len(todo)
        p = subprocess.Popen([exe, path], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True, env=env)
        # watch progress: a test may take at most 20 s
        out_path = None
        hang = False
        try:
            out, err = communicate_watch(p, 20, budget)
        except subprocess.TimeoutExpired as e:
            os.killpg(p.pid, signal.SIGKILL)
            out, err = p.communicate()
            out = (e.output or b'') + (out or b'')
            hang = True
        cur = None
        for line in out.decode('latin-1').splitlines():
            if not line.endswith('}'):
                continue
            try:
                o = json.loads(line)
            except ValueError:
                continue
            cur = o.pop('t')
            if 'b' in o:
                res[cur] = []
            else:
                o.pop('i')
                res[cur].append(o)
        if p.returncode == 97:
            raise CheckError('driver protocol error: ' + err.decode('latin-1')[-500:])
        if p.returncode == 0 and not hang:
            break
        if cur is None:
            if hang or p.returncode < 0 or b'AddressSanitizer' in err:
                cur = todo[0][0]
                res[cur] = []
            else:
                raise CheckError('driver did not start: %s' % err.decode('latin-1')[-800:])
        summary = re.search(r'SUMMARY: (.*)', err.decode('latin-1'))
        res[cur].append({'res': 'HANG' if hang else 'CRASH', 'info': summary.group(1) if summary else 'exit %s' % p.returncode,
                         'ours': b'boost/astronomy' in err})
        todo = todo[[i for i, _ in todo].index(cur) + 1:]
    return res


def communicate_watch(p, quiet, budget):
    """communicate(), but gives up when nothing was printed for `quiet` seconds or `budget` is spent."""
    import selectors
    sel = selectors.DefaultSelector()
    bufs = {p.stdout: [], p.stderr: []}
    for f in bufs:
        os.set_blocking(f.fileno(), False)
        sel.register(f, selectors.EVENT_READ)
    start = last = time.time()
    while sel.get_map():
        now = time.time()
        if now - last > quiet or now - start > budget:
            raise subprocess.TimeoutExpired(p.args, quiet, output=b''.join(bufs[p.stdout]))
        for key, _ in sel.select(timeout=1.0):
            data = key.fileobj.read()
            if data is None:
                continue
            if not data:
                sel.unregister(key.fileobj)
                continue
            last = time.time()
            bufs[key.fileobj].append(data)
    p.wait()
    return b''.join(bufs[p.stdout]), b''.join(bufs[p.stderr])


def drive(exe, tests, per_test_s=0.05):
    """tests: [[line, ...], ...] -> [[obs, ...], ...], run in parallel in private directories."""
    if not tests:
        return []
    n = max(1, min(JOBS, (len(tests) + 19) // 20))
    idx = list(enumerate(tests))
    chunks = [idx[k::n] for k in range(n)]
    res = {}
    with cf.ThreadPoolExecutor(n) as ex:
        futs = []
        for c in chunks:
            cwd = tempfile.mkdtemp(prefix='run-', dir=scratch())
            futs.append(ex.submit(_run_chunk, exe, c, cwd, per_test_s))
        for f in futs:
            res.update(f.result())
    return [res.get(i, [{'res': 'CRASH', 'info': 'no output'}]) for i in range(len(tests))]


def company(tests, k):
    """The tests that ran in the process of test k before it, and test k."""
    n = max(1, min(JOBS, (len(tests) + 19) // 20))
    return tests[k % n:k + 1:n]


def drive_one(exe, tests):
    """The last of these tests, run after the others in one process."""
    cwd = tempfile.mkdtemp(prefix='run-', dir=scratch())
    return _run_chunk(exe, list(enumerate(tests)), cwd, 0.05).get(len(tests) - 1, [{'res': 'CRASH', 'info': 'no output'}])


# ---------------------------------------------------------------- comparison

def canon_f(x, bits=64):
    """The shortest %g text of at least 6 digits that reads back as x, the form in which the specification and the code are compared."""
    import struct
    if x != x:
        return 'nan'
    if x in (float('inf'), float('-inf')):
        return 'inf' if x > 0 else '-inf'
    for p in range(6, 18):
        t = '%.*g' % (p, x)
        y = float(t)
        if bits == 32:
            y = struct.unpack('>f', struct.pack('>f', y))[0] if abs(y) < 3.5e38 else y
        if y == x:
            return t
    return '%.17g' % x


UNSPEC = '*'


def match(exp, obs):
    """True when the observation is what the specification allows.  "*" in the specification: not specified."""
    if exp == UNSPEC:
        return True
    if exp == '!':                                            # some exception
        return isinstance(obs, str) and obs not in ('ok', 'CRASH', 'HANG')
    if isinstance(exp, dict):
        if 'in' in exp and len(exp) == 1:                      # one of these
            return any(match(e, obs) for e in exp['in'])
        if 'e' in exp and 't' in exp:                         # a term of spec/Terms.tla
            return about(exp, obs)
        if 'q' in exp and len(exp) <= 3:                      # exact rational n/d, compared with a tolerance
            return close(exp, obs)
        return isinstance(obs, dict) and all(k in obs and match(v, obs[k]) for k, v in exp.items())
    if isinstance(exp, list):
        return isinstance(obs, list) and len(exp) == len(obs) and all(match(a, b) for a, b in zip(exp, obs))
    return exp == obs


def close(exp, obs):
    n, d = exp['q']
    want = n / d + exp.get('plus', 0)
    tol = exp.get('tol', 1e-9)
    try:
        got = float(obs)
    except (TypeError, ValueError):
        return False
    return abs(got - want) <= tol * max(1.0, abs(want))


def term(x):
    """The value of a term of spec/Terms.tla: exact as long as it is rational."""
    if isinstance(x, (int, Fraction)):
        return Fraction(x)
    a = [term(y) for y in x['a']]
    f = x['f']
    if f == 'add':
        return a[0] + a[1]
    if f == 'sub':
        return a[0] - a[1]
    if f == 'mul':
        return a[0] * a[1]
    if f == 'div':
        return a[0] / a[1]
    if f == 'dec':
        return a[0] / Fraction(10) ** int(a[1]) if a[1] >= 0 else a[0] * Fraction(10) ** int(-a[1])
    if f == 'norm':
        return math.sqrt(sum(y * y for y in a))
    if f == 'max':
        return max(abs(y) for y in a)
    if f == 'sqrt':
        return math.sqrt(a[0])
    if f == 'atan2':
        return math.atan2(a[0], a[1])
    if f == 'pi':
        return math.pi
    if f == 'cos':
        return math.cos(a[0])
    if f == 'sin':
        return math.sin(a[0])
    if f == 'clamp':
        return max(-1, min(1, a[0]))
    raise CheckError('term ' + f)


def about(exp, obs):
    try:
        got = float(obs)
    except (TypeError, ValueError):
        return False
    if not math.isfinite(got):
        return False
    want = term(exp['e'])
    tol = 10.0 ** -exp['t'] * max(abs(float(want)), float(term(exp['s'])) if 's' in exp else 1.0, 1e-300)
    if 'm' in exp:                                            # on a circle
        m = term(exp['m'])
        tol = 10.0 ** -exp['t'] * float(m)
        if 'lo' in exp and not (term(exp['lo']) <= got < term(exp['lo']) + m):
            return False
        x = (Fraction(got) - want) % m if isinstance(want, Fraction) and isinstance(m, Fraction) else (got - float(want)) % float(m)
        return min(float(x), float(m) - float(x)) <= tol
    return abs(got - want) <= tol


# ---------------------------------------------------------------- a check

class Area:
    """How one driver is used: the driver's name, operation -> protocol line, and the form in which values are compared."""
    driver = None

    def line(self, op):
        raise NotImplementedError

    def files(self, test):
        return None

    def nexp(self, op, exp):
        return exp

    def nobs(self, op, obs):
        return obs

    def row(self, op, obs):
        """One line of a recorded trace."""
        return {'op': op, 'obs': self.nobs(op, obs)}


def _quiet(f, *a):
    try:
        f(*a)
    except Exception:
        pass                                                  # raised again to whoever needs the result


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.states = self.transitions = self.traces = self.steps = 0
        self.samples, self.notes, self.known = [], [], []
        self.runs = []

    @property
    def quick(self):
        return self.tier == 'quick'

    def start(self, area):
        """Compiles the driver while the specification is explored."""
        threading.Thread(target=lambda: _quiet(build, area.driver), daemon=True).start()

    def model(self, module, label=None, **kw):
        r = tlc(module, **kw)
        self.states += r.distinct or r.states
        self.transitions += r.states
        self.runs.append({'module': module, 'run': label or module, 'states': r.states, 'distinct': r.distinct,
                          'behaviours': len(r.emitted), 'seconds': round(r.secs, 1)})
        log('%s %s: %d states, %d distinct, %d behaviours, %.1f s' % (module, label or '', r.states, r.distinct, len(r.emitted), r.secs))
        return r.emitted

    # -- specification behaviours into the code
    def replay(self, area, tests, concern=None, label=''):
        """tests: [[{op, exp}, ...], ...].  Every step's observation must be one the specification allows."""
        if not tests:
            raise CheckError('no behaviours to replay (%s)' % label)
        exe = build(area.driver)
        progs = [[area.line(s['op']) for s in t] for t in tests]
        t = time.time()
        obs = drive(exe, progs)
        bad = None
        for k, (test, o) in enumerate(zip(tests, obs)):
            i = self._mismatch(area, test, o)
            if i is not None and (concern is None or concern(test, i, o[i] if i < len(o) else {})):
                if bad is None or len(test) < len(tests[bad[0]]):
                    bad = (k, i)
        self.traces += len(tests)
        self.steps += sum(len(x) for x in tests)
        log('replayed %d behaviours (%d steps) %s in %.1f s' % (len(tests), sum(map(len, tests)), label, time.time() - t))
        if len(self.samples) < 6:
            self.samples += [{'kind': 'behaviour of the specification replayed', 'test': brief(tests[k]), 'observed': brief(obs[k])}
                             for k in sorted({0, len(tests) // 2})]
        if bad:
            k, i = bad
            before = []
            again = drive(exe, [progs[k]])[0]
            j = self._mismatch(area, tests[k], again)
            if j is None:                                     # not by itself: then after what ran before it (something outlives its object)
                before = company(progs, k)[:-1]
                again = drive_one(exe, before + [progs[k]])
                j = self._mismatch(area, tests[k], again)
            if j is None:
                raise CheckError('a mismatch was not repeated: %s' % brief(tests[k]))
            i = j
            o = again[i] if i < len(again) else again[-1]
            exp = tests[k][i]['exp']
            raise Violation('the code does what the specification does not allow', {
                'area': area.driver, 'before': before, 'protocol': progs[k], 'step': i, 'operation': tests[k][i]['op'], 'specified': exp, 'observed': o,
                'behaviour': tests[k]})

    def _mismatch(self, area, test, obs):
        for i, s in enumerate(test):
            if i >= len(obs):
                return i
            if obs[i].get('res') in ('CRASH', 'HANG'):
                return i
            if not match(area.nexp(s['op'], s['exp']), area.nobs(s['op'], obs[i])):
                return i
        return None

    # -- runs of the code against the specification
    def validate(self, area, module, tests, consts=None, concern=None, label='', timeout=600, shards=None):
        """tests: [[op, ...], ...] run in the code; TLC decides whether the recorded traces are behaviours of `module`."""
        exe = build(area.driver)
        progs = [[area.line(op) for op in t] for t in tests]
        obs = drive(exe, progs)
        n = shards or min(JOBS, max(1, len(tests) // 50))
        order = list(range(len(tests)))
        groups = [order[g::n] for g in range(n)]
        rejected = []
        with cf.ThreadPoolExecutor(n) as ex:
            for bad in ex.map(lambda g: self._validate(area, module, tests, obs, g, consts, concern, timeout), groups):
                rejected += bad
        self.traces += len(tests)
        self.steps += sum(map(len, tests))
        log('validated %d recorded traces (%d steps) %s against %s' % (len(tests), sum(map(len, tests)), label, module))
        if len(self.samples) < 8 and tests:
            self.samples.append({'kind': 'trace of the code validated by TLC', 'test': brief(tests[0]), 'observed': brief(obs[0])})
        if rejected:
            k, i = rejected[0]
            before = []
            again = drive(exe, [progs[k]])
            if not self._validate(area, module, [tests[k]], again, [0], consts, concern, timeout):
                before = company(progs, k)[:-1]
                again = [drive_one(exe, before + [progs[k]])]
                if not self._validate(area, module, [tests[k]], again, [0], consts, concern, timeout):
                    raise CheckError('a rejection was not repeated: %s' % brief(tests[k]))
            o = again[0]
            raise Violation('a recorded trace is not a behaviour of the specification', {
                'area': area.driver, 'before': before, 'protocol': progs[k], 'step': i, 'operation': tests[k][i] if i < len(tests[k]) else None,
                'observed': o[i] if i < len(o) else o[-1], 'specification': module, 'trace': [{'op': a, 'obs': b} for a, b in zip(tests[k], o)]})

    def _validate(self, area, module, tests, obs, group, consts, concern, timeout):
        """Rejected (test, step) pairs of this group; each rejection is followed by a run without the rejected test."""
        bad = []
        group = list(group)
        for _ in range(40):
            rows, where = [], []
            for k in group:
                rows.append({'op': {'op': 'new'}, 'obs': {'res': 'ok'}})
                where.append((k, -1))
                for i, op in enumerate(tests[k]):
                    o = obs[k][i] if i < len(obs[k]) else {'res': 'CRASH'}
                    rows.append(area.row(op, o))
                    where.append((k, i))
                    if o.get('res') in ('CRASH', 'HANG'):
                        break
            if not rows:
                return bad
            r = tlc(module, consts=consts, postcondition='Accepted', files={'trace.ndjson': '\n'.join(map(json.dumps, rows)) + '\n'},
                    workers=1, timeout=timeout, mem='3g', expect_ok=False)
            if not r.ok:
                # An observation of a form the specification gives no meaning to (a missing or foreign value) cannot be matched at all:
                # TLC says so as an evaluation error and prints the states up to it.
                at = re.findall(r'^State (\d+):', r.out, re.M)
                if 'The error occurred when TLC was evaluating' not in r.out or not at:
                    raise CheckError('TLC on %s failed:\n%s' % (module, r.out[-6000:]))
                r.emitted.append({'reached': max(map(int, at)) - 1})
            self.states += r.distinct
            self.transitions += r.states
            if not r.emitted:
                if r.distinct != len(rows) + 1:
                    raise CheckError('%s: %d states for %d trace lines' % (module, r.distinct, len(rows)))
                return bad
            k, i = where[r.emitted[0]['reached']]
            if concern is None or concern([{'op': op, 'exp': {}} for op in tests[k]], i, obs[k][i] if i < len(obs[k]) else {}):
                bad.append((k, i))
                return bad
            group.remove(k)
        return bad


def alike(a, b):
    """Equal, numbers to a part in a million."""
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(alike(a[k], b[k]) for k in a)
    if isinstance(a, str) and isinstance(b, str) and a != b:
        try:
            return math.isclose(float(a), float(b), rel_tol=1e-6, abs_tol=1e-9)
        except ValueError:
            return False
    return a == b


def findings(ctx, drivers=None):
    """The known findings of this property: each is run; it is silent when repaired, reported as known when it is as recorded, and
    a violation when it is anything else.  See known_findings.json."""
    with open(os.path.join(VERIF, 'known_findings.json')) as f:
        known = [k for k in json.load(f)['open'] if k['property'] == ctx.pid]
    for k in known:
        obs = drive(build(k['driver']), [k['protocol']])[0]
        o = obs[k['step']] if k['step'] < len(obs) else obs[-1]
        got = {x: o.get(x) for x in k['look']}
        ctx.traces += 1
        ctx.steps += len(k['protocol'])
        if alike(got, k['expected']):
            continue
        if alike(got, k['recorded']):
            ctx.known.append('%s %s' % (k['id'], k['what']))
            continue
        raise Violation('known finding %s fails in another way' % k['id'], {'protocol': k['protocol'], 'step': k['step'], 'specified': k['expected'],
                        'recorded': k['recorded'], 'observed': got, 'area': k['driver']})


def brief(x, n=2200):
    t = json.dumps(x)
    return x if len(t) <= n else t[:n] + '...'


def finish(ctx, level, check):
    """Runs a check, writes its evidence and the verdict."""
    code, violation = 0, None
    ev = os.path.join(VERIF, 'evidence')
    os.makedirs(ev, exist_ok=True)
    try:
        check(ctx)
        findings(ctx)
    except Violation as v:
        violation = v
        code = 1
    except CheckError as e:
        print('CHECK-ERROR property=%s %s' % (ctx.pid, e), flush=True)
        code = 2
    for k in ctx.known:
        print('KNOWN-FINDING: property=%s %s' % (ctx.pid, k))
    if violation is not None:
        path = os.path.join(ev, 'replay-%s.json' % ctx.pid)
        with open(path, 'w') as f:
            json.dump({'property': ctx.pid, 'what': violation.what, 'detail': violation.detail,
                       'rerun': 'python3 tools/replay.py %s' % path}, f, indent=1)
        print('%s' % violation.what)
        print(brief(violation.detail if isinstance(violation.detail, str) else json.dumps(violation.detail), 3000))
        print('VIOLATION property=%s replay=%s' % (ctx.pid, path))
    out = {'property': ctx.pid, 'tier': ctx.tier, 'seed': ctx.seed, 'level': level,
           'coverage': {'states': ctx.states, 'transitions': ctx.transitions, 'traces_validated_against_impl': ctx.traces,
                        'steps_compared': ctx.steps, 'model_runs': ctx.runs, 'samples': ctx.samples},
           'assumptions': ctx.notes, 'wall_s': round(time.time() - T0, 1), 'violations': 1 if violation else 0}
    with open(os.path.join(ev, ctx.pid + '.json'), 'w') as f:
        json.dump(out, f, indent=1)
    log('exit', code)
    sys.stdout.flush()
    return code
