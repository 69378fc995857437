"""Numbers as data, images and fits_stream: spec/Codec.tla and spec/Stream.tla against binary_data_converter, ascii_converter,
image, the image HDUs and fits_stream."""
import json
import random
from vf import Area, CheckError, canon_f, tok

BITS = {'f32': 32, 'f64': 64, 'flt': 32, 'dbl': 64}
PIX = {8: 'u8', 16: 'i16', 32: 'i32', -32: 'f32', -64: 'f64'}


def ftext(t, x):
    """A float's text, as the specification or the code gives it, in the form they are compared in."""
    import struct
    f = float.fromhex(x) if 'x' in str(x) else float(x)
    if BITS[t] == 32 and f == f and abs(f) < 3.5e38:
        f = struct.unpack('>f', struct.pack('>f', f))[0]
    if f != f:
        return 'nan'
    return canon_f(f, BITS[t])


def joined(v):
    return bytes(b for e in v for b in e['bytes'])


class CodecArea(Area):
    driver = 'data'

    def line(self, op):
        o = op['op']
        if o == 'enc':
            a = [op['sh'], op['t']] + [tok(e['text']) for e in op['v']]
        elif o in ('dec', 'trip'):
            a = [op['sh'], op['t'], tok(joined(op['v'])), len(op['v'])]
        elif o == 'less':
            b = joined(op['v'])
            o, a = 'dec', [op['sh'], op['t'], tok(b[:len(b) - op['by']]), len(op['v'])]
        elif o == 'aenc':
            a = [op['t'], tok(op['v'])]
        elif o == 'image':
            a = [op['via'], op['bp'], ','.join(map(str, op['axes'])) or '-', tok(joined(op['v']))]
        elif o == 'pix':
            a = [op['x'], op['y']]
        elif o == 'flags':
            a = [op['raw'], op['extend'] or '-']
        elif o == 'other':
            a = [op['bp']]
        elif o in ('stat', 'minmax', 'nostat', 'out', 'copy', 'hduout'):
            a = [op['bp']] if 'bp' in op and o == 'stat' else []
        else:
            raise CheckError('operation ' + o)
        return ' '.join([o] + [str(x) for x in a])

    def values(self, t, v):
        if isinstance(v, list):
            return [self.values(t, x) for x in v]
        if isinstance(v, dict):
            return {'in': [self.values(t, x) for x in v['in']]}
        return ftext(t, v) if t in BITS else v

    def typed(self, op, x):
        t = op.get('t') or op.get('_t', '')
        x = dict(x)
        for k in ('vals', 'val', 'max', 'min', 'median'):
            if k in x and t:
                x[k] = self.values(t, x[k])
        return x

    def nexp(self, op, exp):
        exp = self.typed(op, exp)
        if op['op'] == 'aenc' and op['t'] in BITS:
            exp['back'] = ftext(op['t'], op['v'])
        elif op['op'] == 'aenc':
            exp['back'] = op['v']
        base = exp.pop('base', '0')
        if 'mean' in exp and base != '0':
            exp['mean'] = dict(exp['mean'], plus=int(base))
        if 'mean' in exp:
            exp['mean'] = dict(exp['mean'], tol=1e-12)
        return exp

    def nobs(self, op, obs):
        obs = self.typed(op, obs)
        if op['op'] == 'aenc' and op['t'] in BITS and 'back' in obs:
            obs['back'] = ftext(op['t'], obs['back'])
        if 'sd' in obs:
            obs['var'] = float(obs['sd']) ** 2
        return obs


CODEC = CodecArea()


SIZE = {'u8': 1, 'chr': 1, 'bool': 1, 'i16': 2, 'i32': 4, 'f32': 4, 'f64': 8}


def drawn_bytes(seed, n):
    """Vectors of every type and shape with random bytes in them."""
    r = random.Random(seed * 31337 + 5)
    tests = []
    for _ in range(n):
        sh = r.choice(['s', 's', 'v', 'v', 'v', 'c', 'vc', 'p', 'vp'])
        t = {'c': r.choice(['f32', 'f64']), 'vc': r.choice(['f32', 'f64']), 'p': 'i32', 'vp': 'i32'}.get(sh) or r.choice(sorted(SIZE))
        k = 1 if sh == 's' else 2 if sh in 'cp' else r.choice([0, 1, 2, 3, 5, 8, 9, 16, 17, 33, 64, 100]) * (1 if sh == 'v' else 2)
        few = r.choice([[0, 255], [0, 1, 127, 128, 255], [9, 10, 13, 26, 32, 0], list(range(256)), list(range(256)), list(range(256))])
        b = [[r.choice([84, 70]) if t == 'bool' else r.choice(few) for _ in range(SIZE[t])] for _ in range(k)]
        tests.append({'what': 'bytes', 'sh': sh, 't': t, 'b': b})
    return tests


def drawn_images(seed, n, big):
    """Images of random shapes: a base and small differences, so that TLC can add the squares up."""
    r = random.Random(seed * 27644437 + 9)
    tests = []
    for _ in range(n):
        bp = r.choice([8, 16, 32, -32, -64])
        while True:
            axes = [r.choice([1, 2, 3, 4, 5, 7, 10, 16, 31, 64, 100, 257, 720, 1440, 2880]) for _ in range(r.choice([1, 2, 2, 2, 3, 4]))]
            size = 1
            for a in axes:
                size *= a
            if size <= big:
                break
        lim = 15
        while lim < 2000 and size * size * (lim * 2) ** 2 < 2 ** 31:
            lim *= 2
        base = {8: [0, 0, 100], 16: [0, 0, 28000, -28000], 32: [0, 0, 2000000000, -2000000000, 1000000, 16777217], -32: [0, 0, 100000, -100000], -64: [0, 0, 500000000, -500000000]}[bp]
        base = r.choice(base)
        lo = 0 if bp == 8 else -lim
        hi = min(lim, 255 - base) if bp == 8 else lim
        some = [r.randint(lo, hi) for _ in range(r.choice([1, 2, 3, 5, 1000]))]
        kind = r.choice(['any', 'any', 'sorted', 'back', 'low', 'high'])
        q = [r.choice(some) for _ in range(size)]
        if kind in ('sorted', 'back'):
            q.sort(reverse=kind == 'back')
        elif kind != 'any':                     # the first is the largest, or the smallest, and 0
            q = [0] + [abs(x) if kind == 'high' or bp == 8 else -abs(x) for x in q[1:]]
        rows = size // axes[0]
        at = sorted({(r.choice([0, rows - 1, r.randrange(rows)]), r.choice([0, axes[0] - 1, r.randrange(axes[0])])) for _ in range(12)})
        tests.append({'what': 'image', 'bp': bp, 'axes': axes, 'via': r.choice(['primary', 'ext']), 'base': base, 'q': q, 'at': [list(a) for a in at]})
    return tests


def codec(ctx, mode, given=None):
    files = {'given.ndjson': '\n'.join(map(json.dumps, given)) + '\n'} if given else None
    tests = ctx.model('CodecMC', mode, consts={'Mode': '"%s"' % mode, 'Deep': 'FALSE' if ctx.quick else 'TRUE'}, action_constraint='Emit',
                      view='view', invariants=['InvMedian', 'InvVar'] if not given else ['InvVar'], files=files)
    for t in tests:
        bp = None
        for s in t:
            if s['op']['op'] == 'image':
                bp = s['op']['bp']
            if s['op']['op'] in ('pix', 'stat', 'minmax'):
                s['op']['_t'] = PIX[bp]
    return tests


class StreamArea(Area):
    driver = 'data'

    def line(self, op):
        a = [op['op']]
        for k in ('path', 'p', 'n'):
            if k in op:
                a.append(op[k])
        for r in op.get('data', []):
            a += r
        return ' '.join(map(str, a))


STREAM = StreamArea()


def streams(ctx, maxlen, wide=False, simulate=None):
    kw = dict(consts={'MaxLen': maxlen, 'Wide': 'TRUE' if wide else 'FALSE'}, invariants=['InvSane'], properties=['Quiet'])
    if simulate:
        return ctx.model('StreamMC', 'walks', constraint='EmitEnd', simulate=simulate, depth=maxlen + 1, seed=ctx.seed, **kw)
    return ctx.model('StreamMC', 'all histories of %d calls' % maxlen, action_constraint='Emit', view='view', **kw)


def random_streams(seed, n):
    r = random.Random(seed * 7919 + 13)
    tests = []

    def run():
        return [[r.choice([0, 10, 13, 26, 32, 65, 127, 128, 255]), r.choice([1, 1, 2, 79, 80, 500, 2879, 2880, 2881])] for _ in range(r.randint(1, 3))]

    for _ in range(n):
        t, mode, last = [], 'no', ''
        for p in r.sample(['a', 'b', 'c'], r.randint(1, 3)):
            t.append({'op': 'disk', 'path': p, 'data': run() + run()})
        for _ in range(r.randint(4, 25)):
            x = r.random()
            if mode == 'no' or x < 0.06:
                if r.random() < 0.55:
                    t.append({'op': 'set_file', 'path': r.choice(['a', 'b', 'c'])})
                    mode = 'read'
                else:
                    t.append({'op': 'create', 'path': r.choice(['a', 'b', 'c', 'c', 'no/such'])})
                    mode = 'write'
            elif x < 0.12:
                t.append({'op': 'close'})
                for p in ('a', 'b', 'c'):
                    if r.random() < 0.4 and any(o.get('path') == p for o in t):
                        t.append({'op': 'bytes', 'path': p})
                mode = 'no'
            elif x < 0.24:
                t.append({'op': 'seek', 'p': r.choice([0, 1, 5, 79, 80, 2879, 2880, 2881, 5759, 5760, 5761, r.randrange(9000)])})
            elif x < 0.45:
                t.append({'op': r.choice(['pos', 'unit_end', 'is_open', 'to_unit_end', 'at_end'])})
            elif mode == 'read' or x < 0.55:
                t.append({'op': 'getc'} if r.random() < 0.3 else {'op': 'read', 'n': r.choice([1, 2, 80, 80, 2880, 2880, r.randrange(1, 3000)])})
            elif r.random() < 0.6:
                t.append({'op': 'write', 'data': run()})
            else:
                t.append({'op': 'write_at', 'p': r.choice([0, 1, 80, 2880, r.randrange(6000)]), 'data': run()})
        t.append({'op': 'close'})
        for p in ('a', 'b', 'c'):
            if any(o.get('path') == p for o in t):
                t.append({'op': 'bytes', 'path': p})
        tests.append(t)
    return tests


def c11(ctx):
    ctx.start(CODEC)
    ctx.replay(CODEC, codec(ctx, 'code'), None, 'values')
    ctx.replay(CODEC, codec(ctx, 'given', drawn_bytes(ctx.seed, 1500 if ctx.quick else 40000)), None, 'random values')


def c12(ctx):
    ctx.start(CODEC)
    ctx.replay(CODEC, codec(ctx, 'image'), None, 'images')
    ctx.replay(CODEC, codec(ctx, 'given', drawn_images(ctx.seed, 150 if ctx.quick else 3000, 3000)), None, 'random images')


def c13(ctx):
    ctx.start(STREAM)
    ctx.replay(STREAM, streams(ctx, 3), None, 'histories')
    if not ctx.quick:
        ctx.replay(STREAM, streams(ctx, 4), None, 'histories')
    ctx.replay(STREAM, streams(ctx, 14, wide=True, simulate=20 if ctx.quick else 200), None, 'walks')
    ctx.validate(STREAM, 'StreamTrace', random_streams(ctx.seed, 200 if ctx.quick else 3000), label='random', shards=4)


CHECKS = {'C11': c11, 'C12': c12, 'C13': c13}
