"""Files: spec/File.tla against fits, fits_io, header and the HDU types."""
import json
import random
from functools import lru_cache
from vf import Area, CheckError, term, tok


@lru_cache(maxsize=None)
def fnv(b):
    h = 1469598103934665603
    for c in b:
        h = ((h ^ c) * 1099511628211) & 0xffffffffffffffff
    return '%d:%016x' % (len(b), h)


@lru_cache(maxsize=None)
def _rule(k, a, b, n):
    return bytes((a * i + b) % 256 if k == 'bin' else 33 + (a * i + b) % 90 for i in range(n))


def rule(d):
    b = _rule(d['k'], d['a'], d['b'], d['n'])
    if d.get('ed'):
        b = bytearray(b)
        for p, v in d['ed']:
            b[p] = v
        b = bytes(b)
    return b


def seg(d):
    return '%s%d:%d:%d' % ('b' if d['k'] == 'bin' else 't', d['a'], d['b'], d['n'])


def up(n):
    return -(-n // 2880) * 2880


class FileArea(Area):
    driver = 'fits'

    def __init__(self, defs):
        self.defs = {d['def']: d for d in defs}

    def segs(self, hdus):
        out = []
        for h in hdus:
            n = 0
            for c in h['cards']:
                out.append('c' + c.rstrip(' ').encode('latin-1').hex())
                n += 80
            out.append('r32:%d' % (up(n) - n))
            d = h['data']
            out.append(seg(d))
            out.append('r0:%d' % (up(d['n']) - d['n']))
        return out

    def line(self, op):
        o = op['op']
        if o == 'file':
            return ' '.join(['file', op['slot'], str(op['cut'])] + self.segs(self.defs[op['id']]['hdus'] if 'id' in op else op['hdus']))
        if o == 'open':
            return 'open %d %s %s %s' % (op['r'], op['slot'], op['mode'], op['how'])
        if o == 'show':
            return 'show %d' % op['r']
        if o == 'write':
            return 'write %d %s' % (op['r'], op['slot'])
        if o == 'bytes':
            return ' '.join(['bytes', op['slot']] + ['%d:%d' % (p['off'], p['len']) for p in op['_parts']])
        if o == 'val':
            return 'val %d %d %s %s' % (op['r'], op['i'], tok(op['key']), op['t'])
        if o == 'has':
            return 'has %d %d %s' % (op['r'], op['i'], tok(op['key']))
        if o == 'axis':
            return 'axis %d %d %d' % (op['r'], op['i'], op['k'])
        if o == 'at':
            return 'at %d %d' % (op['r'], op['i'])
        if o == 'named':
            return 'named %d %s' % (op['r'], tok(op['name']))
        if o == 'as':
            return 'as %d %d %s' % (op['r'], op['i'], op['kind'])
        if o == 'edit':
            return 'edit %d %d %s %s %d %d %s' % (op['r'], op['i'], op['_kind'], op['how'], op['row'], op['col'], tok(bytes([op['b']] * op['_n'])))
        if o == 'refill':
            return 'refill %d %d %s %s' % (op['r'], op['i'], op['_kind'], seg(op['data']))
        if o == 'same':
            return 'same %d %d %d %d' % (op['r'], op['i'], op['q'], op['j'])
        raise CheckError('operation ' + o)

    def nexp(self, op, exp):
        exp = dict(exp)
        if op['op'] == 'bytes':
            exp['parts'] = [fnv(''.join(p['cards']).encode('latin-1') if 'cards' in p else b' ' * p['len'] if 'blank' in p else rule(p['data']))
                            for p in op['_parts']]
            if 'data' in exp:                                   # what was edited on the way
                exp['parts'][2::3] = [fnv(rule(d)) for d in exp['data']]
            exp.pop('file', None)
            exp.pop('data', None)
        if 'hdus' in exp:
            exp['hdus'] = [self.hdu(h) for h in exp['hdus']]
        if 'hdu' in exp:
            exp['hdu'] = self.hdu(exp['hdu'])
        return exp

    def hdu(self, h):
        if isinstance(h.get('data'), dict):
            return dict(h, data=fnv(rule(h['data'])))
        return h


def load(ctx, mode, maxlen=1, deep=False, simulate=None, depth=None):
    kw = dict(consts={'Mode': '"%s"' % mode, 'MaxLen': maxlen, 'Deep': 'TRUE' if deep else 'FALSE'},
              invariants=['InvFile', 'InvRead', 'InvBad', 'InvShape', 'InvCut'])
    if simulate:
        em = ctx.model('FileMC', mode + ' walks', constraint='EmitEnd', simulate=simulate, depth=depth, seed=ctx.seed, **kw)
    else:
        em = ctx.model('FileMC', mode, action_constraint='Emit', view='view', **kw)
    defs = [e for e in em if isinstance(e, dict) and 'def' in e]
    tests = [e for e in em if isinstance(e, list)]
    area = FileArea(defs)
    for t in tests:
        disk, held = {}, {}                                     # which file is where: its tables stay the same whatever is in them
        for s in t:
            op = s['op']
            if op['op'] == 'file':
                disk[op['slot']] = op['id']
            elif op['op'] == 'open' and s['exp'].get('res') == 'ok':
                held[op['r']] = disk[op['slot']]
            elif op['op'] == 'write' and s['exp'].get('res') == 'ok':
                disk[op['slot']] = held[op['r']]
            elif op['op'] == 'bytes':
                op['_parts'] = area.defs[s['exp']['file']]['parts']
            elif op['op'] in ('edit', 'refill'):
                says = area.defs[held[op['r']]]['hdus'][op['i']]['says']
                op['_kind'], w = says['kind'], says['axes'][0]
                c = 2 if says['kind'] == 'ascii' else 1
                op['_n'] = (c if op['col'] == 1 else w - c) if op['op'] == 'edit' else 0
    return area, tests


class TraceArea(FileArea):
    """Random files, given whole in the trace; data are logged as the rule that made them."""

    def __init__(self):
        self.rules = {}

    def line(self, op):
        if op['op'] == 'file':
            for h in op['hdus']:
                d = h['data']
                self.rules[fnv(rule(d))] = '%s:%d:%d:%d' % (d['k'], d['a'], d['b'], d['n'])
            return ' '.join(['file', op['slot'], str(op['cut'])] + self.segs([dict(h, cards=h['cards'] + ['END']) for h in op['hdus']]))
        return FileArea.line(self, op)

    def nobs(self, op, obs):
        def h(x):
            return dict(x, data=self.rules.get(x['data'], x['data'])) if 'data' in x else x
        obs = dict(obs)
        if 'hdus' in obs:
            obs['hdus'] = [h(x) for x in obs['hdus']]
        if 'hdu' in obs:
            obs['hdu'] = h(obs['hdu'])
        return obs


def vc(k, v, c=''):
    return '%-8s= %20s%s' % (k, v, ' /' + c if c else '')


def sc(k, v, c=''):
    return "%-8s= '%s'%s" % (k, v.replace("'", "''"), ' /' + c if c else '')


def filler(r, n):
    out = []
    for i in range(n):
        m = r.random()
        k = 'K%d' % i if r.random() < 0.7 else r.choice(['EXPTIME', 'OBJECT', 'DATE-OBS', 'END_', 'ENDX', 'SIMPLEX', 'BITPIXX']) + str(i % 10)
        k = k[:8]
        if any(x[:8].strip() == k for x in out):
            continue
        c = r.choice(['', '', 'c', "it's / so", ' x '])
        if m < 0.3:
            out.append(vc(k, r.choice([0, -7, 42, 123456, r.randrange(10**9)]), c))
        elif m < 0.5:
            out.append(vc(k, r.choice(['1.5', '-2.25', '1e+20', '0.0001']), c))
        elif m < 0.75:
            out.append(sc(k, r.choice(['', 'x', 'a/b', "it's", 'NGC 1275', '/', "''"]), c))
        elif m < 0.8:
            out.append(vc(k, r.choice('TF'), c))
        elif m < 0.9:
            out.append(r.choice(['COMMENT ', 'HISTORY ']) + r.choice(['', 'text', 'a = b / c', "'q'"]))
        else:
            out.append(' ' * 8 + r.choice(['', 'blank keyword']))
    return out


_canonical = {}


def rhdu(r, kind):
    h = rhdu_(r, kind)
    h['data'] = _canonical.setdefault(rule(h['data']), h['data'])    # one rule for one content
    return h


def rhdu_(r, kind):
    a, b = r.randrange(1, 256), r.randrange(256)
    nfill = r.choice([0, 0, 3, r.randrange(40), r.randrange(80)])
    if r.random() < 0.5:                                        # aim at the block boundary
        nfill = -1
    if kind in ('primary', 'IMAGE', 'A3DTABLE'):
        bp = r.choice([8, 16, 32, -32, -64])
        w = abs(bp) // 8
        ax = r.choice([[], [0], [r.randrange(1, 50)], [2880 // w], [2880 // w + 1], [2880 // w - 1], [r.randrange(1, 9), r.randrange(1, 9)],
                       [r.randrange(4), r.randrange(4), r.randrange(1, 4)], [5760 // w]])
        n = w if ax else 0
        for x in ax:
            n *= x
        cs = [vc('SIMPLE', 'T') if kind == 'primary' else sc('XTENSION', kind.ljust(r.choice([0, 8]))), vc('BITPIX', bp), vc('NAXIS', len(ax))]
        cs += [vc('NAXIS%d' % (i + 1), x) for i, x in enumerate(ax)]
        if kind == 'primary':
            e = r.choice(['T', 'F', ''])
            cs += [vc('EXTEND', e)] if e else []
        else:
            cs += [vc('PCOUNT', 0), vc('GCOUNT', 1)]
        d = {'k': 'bin', 'a': a, 'b': b, 'n': n}
    else:
        k = r.randrange(1, 6)
        ws = [r.choice([1, 1, 2, 3, 7, 80, 200]) for _ in range(k)]
        w = sum(ws)
        rows = r.choice([0, 1, 2, 5, 36, 2880 // w, 2880 // w + 1])
        cs = [sc('XTENSION', kind.ljust(8)), vc('BITPIX', 8), vc('NAXIS', 2), vc('NAXIS1', w), vc('NAXIS2', rows), vc('PCOUNT', 0), vc('GCOUNT', 1), vc('TFIELDS', k)]
        at = 1
        for i, x in enumerate(ws):
            cs.append(sc('TTYPE%d' % (i + 1), 'COL%d' % i))
            if kind == 'TABLE':
                cs += [sc('TFORM%d' % (i + 1), 'A%d' % x), vc('TBCOL%d' % (i + 1), at)]
            else:
                cs.append(sc('TFORM%d' % (i + 1), r.choice(['%dB', '%dA', '%dL']) % x))
            at += x
        if r.random() < 0.6:
            cs.append(sc('EXTNAME', r.choice(['EVENTS', 'a/b', "it's", 'X'])))
        d = {'k': 'txt' if kind == 'TABLE' else 'bin', 'a': a, 'b': b, 'n': w * rows}
    cs = cs + filler(r, nfill if nfill >= 0 else 60)
    if nfill < 0:
        t = r.choice([35, 36, 37]) - 1
        cs = cs[:t] if len(cs) > t and t >= 8 + 4 * 5 else cs
    return {'cards': [c.ljust(80) for c in cs], 'data': d}


def random_tests(seed, n):
    r = random.Random(seed)
    tests = []
    for _ in range(n):
        t, disk, rd = [], {}, {}
        for i in range(r.choice([3, 6, 10])):
            m = r.random()
            if not disk or m < 0.15:
                ext = r.sample(['TABLE', 'BINTABLE', 'IMAGE', 'A3DTABLE'] if r.random() < 0.3 else ['TABLE', 'BINTABLE'], r.choice([0, 1, 1, 2]))
                if r.random() < 0.2:
                    ext += r.choices(['TABLE', 'BINTABLE'], k=r.choice([1, 2]))
                slot = r.choice('abc')
                t.append({'op': 'file', 'slot': slot, 'id': len(t), 'hdus': [rhdu(r, 'primary')] + [rhdu(r, e) for e in ext], 'cut': -1})
                disk[slot] = t[-1]
            elif not rd or m < 0.5:
                slot = r.choice(sorted(disk))
                q = r.choice([0, 1])
                mode, how = r.choice(['all', 'all', 'headers']), r.choice(['new', 're'])
                t.append({'op': 'open', 'r': q, 'slot': slot, 'mode': mode, 'how': how})
                rd[q] = (disk[slot], mode)
            else:
                q = r.choice(sorted(rd))
                f, mode = rd[q]
                img = any("'IMAGE" in h['cards'][0] or "'A3D" in h['cards'][0] for h in f['hdus'])
                i = r.randrange(len(f['hdus']))
                if m < 0.6 and mode == 'all' and not img:
                    bad = r.random() < 0.2
                    t.append({'op': 'write', 'r': q, 'slot': r.choice(['no/such/place', '/dev/full']) if bad else 'w'})
                    if not bad:
                        disk['w'] = f
                elif m < 0.7 or img:
                    t.append({'op': 'show', 'r': q})
                elif m < 0.76:
                    t.append({'op': 'axis', 'r': q, 'i': i, 'k': r.randrange(5)})
                elif m < 0.78:
                    t.append({'op': 'at', 'r': q, 'i': r.choice([0, i, len(f['hdus']) - 1, len(f['hdus']), -1, -len(f['hdus']), 100])})
                elif m < 0.85:
                    t.append({'op': 'named', 'r': q, 'name': r.choice(['primary_hdu', 'TABLE', 'BINTABLE', 'NOPE', '', 'TABL', 'BINTABLE ', 'table', 'primary'])})
                else:
                    key = r.choice(f['hdus'][i]['cards'])[:8].strip()
                    if r.random() < 0.5:
                        t.append({'op': 'has', 'r': q, 'i': i, 'key': r.choice([key, key[:-1], key + 'X', key.ljust(8) + 'Z', key.lower()])})
                    elif key not in ('', 'COMMENT', 'HISTORY'):
                        t.append({'op': 'val', 'r': q, 'i': i, 'key': key, 't': r.choice(['str', 'int', 'bool', 'size'])})
        tests.append(t)
    return tests


def traces(ctx, concern=None):
    ctx.validate(TraceArea(), 'FileTrace', random_tests(ctx.seed, 160 if ctx.quick else 3000), concern=concern, label='random files', timeout=1200, shards=8)


def shapes(ctx, concern=None):
    ctx.start(FileArea)
    area, tests = load(ctx, 'shape')
    ctx.replay(area, tests, concern, 'shapes of files')


def hists(ctx, concern=None):
    area, tests = load(ctx, 'hist', 3 if ctx.quick else 4)
    ctx.replay(area, tests, concern, 'histories')
    area, tests = load(ctx, 'hist', 10, simulate=15 if ctx.quick else 300, depth=11)
    ctx.replay(area, tests, concern, 'long histories')


def cuts(ctx, concern=None):
    ctx.start(FileArea)
    area, tests = load(ctx, 'cut', deep=not ctx.quick)
    ctx.replay(area, tests, concern, 'files cut short')
    area, tests = load(ctx, 'bad')
    ctx.replay(area, tests, concern, 'malformed files')


class HeadArea(Area):
    driver = 'fits'

    def line(self, op):
        o = op['op']
        a = [o, op['h']]
        if o == 'hread':
            a += ['c' + c.rstrip(' ').encode('latin-1').hex() for c in op['cards']]
        elif o == 'hval':
            a += [tok(op['key']), op['t']]
        elif o == 'hhas':
            a += [tok(op['key'])]
        elif o in ('hcopy', 'haxis', 'hsame'):
            a += [op[{'hcopy': 'from', 'haxis': 'k', 'hsame': 'with'}[o]]]
        return ' '.join(map(str, a))

    def nexp(self, op, exp):
        if 'elements' in exp:
            exp = dict(exp, elements=str(int(term(exp['elements']))))
        return exp


HEAD = HeadArea()


def random_heads(seed, n):
    r = random.Random(seed * 104729 + 3)
    tests = []
    for _ in range(n):
        t, keys = [], ['SIMPLE', 'XTENSION', 'BITPIX', 'NAXIS', 'NAXIS1', 'NAXIS10', 'END', 'NOSUCH']

        def cards():
            k = r.choice([0, 1, 1, 2, 2, 3, 5, 10, 11])
            big = r.random() < 0.3
            ax = [r.choice([1, 2, 3, 100, 65537, 2147483647] if big else [0, 1, 2, 3, 7, 10]) for _ in range(min(k, 2) if big else k)]
            cs = [vc('SIMPLE', r.choice('TF')) if r.random() < 0.7 else sc('XTENSION', r.choice(['IMAGE', 'TABLE   ', 'BINTABLE'])), vc('BITPIX', r.choice([8, 16, 32, -32, -64]))]
            cs += [vc('NAXIS', len(ax))] + [vc('NAXIS%d' % (i + 1), x) for i, x in enumerate(ax)]
            cs += filler(r, r.choice([0, 2, 5, 35 - len(cs), 36 - len(cs), 60, 110]))
            if r.random() < 0.1:
                cs.pop(r.randrange(len(cs)))
            cs.append('END')
            if r.random() < 0.1:
                cs += [vc('LATE', 1), 'END']
            keys.extend(c[:8].strip() for c in r.sample(cs, min(3, len(cs))))
            return [c.ljust(80) for c in cs]

        pool = [cards() for _ in range(r.choice([1, 2, 3]))]
        for h in (0, 1):
            t.append({'op': 'hread', 'h': h, 'cards': r.choice(pool)})
        for _ in range(r.randint(4, 16)):
            h, o = r.choice([0, 1]), r.choice(['hread', 'hcopy', 'hshow', 'hshow', 'hname', 'hval', 'hval', 'hhas', 'hhas', 'haxis', 'hsame', 'hout'])
            op = {'op': o, 'h': h}
            if o == 'hread':
                op['cards'] = r.choice(pool)
            elif o in ('hval', 'hhas'):
                op['key'] = r.choice(keys)
                if op['key'] in ('', 'COMMENT', 'HISTORY'):
                    op['key'] = 'BITPIX'
                if o == 'hval':
                    op['t'] = r.choice(['str', 'int', 'size', 'bool'])
            elif o == 'haxis':
                op['k'] = r.randrange(12)
            elif o == 'hcopy':
                op['from'] = 1 - h
            elif o == 'hsame':
                op['with'] = 1 - h
            t.append(op)
        tests.append(t)
    return tests


def headers(ctx):
    for mode, given in (('one', None), ('two', None), ('given', random_heads(ctx.seed, 150 if ctx.quick else 4000))):
        ctx.replay(HEAD, ctx.model('HeadMC', mode, consts={'Mode': '"%s"' % mode, 'MaxLen': 0}, action_constraint='Emit', view='view', invariants=['InvHead'],
                                   files={'given.ndjson': '\n'.join(map(json.dumps, given)) + '\n'} if given else None), None, 'header objects')


def op_in(*ops):
    return lambda test, i, obs: test[i]['op']['op'] in ops or obs.get('res') in ('CRASH', 'HANG')


def before_write(test, i, obs):
    return not any(s['op']['op'] == 'write' for s in test[:i])


def c04(ctx):
    shapes(ctx, lambda t, i, o: t[i]['op']['op'] in ('val', 'has', 'axis', 'same', 'open', 'show', 'named', 'at') and before_write(t, i, o))
    headers(ctx)
    traces(ctx)


def c05(ctx):
    shapes(ctx, lambda t, i, o: before_write(t, i, o))
    hists(ctx, lambda t, i, o: t[i]['op']['op'] in ('open', 'show', 'named', 'at', 'val'))
    traces(ctx)


def c06(ctx):
    shapes(ctx, lambda t, i, o: not before_write(t, i, o) or t[i]['op']['op'] == 'write')
    hists(ctx, lambda t, i, o: not before_write(t, i, o) or t[i]['op']['op'] == 'write')
    traces(ctx)


def c07(ctx):
    cuts(ctx)
    hists(ctx)


def c27(ctx):
    ctx.start(FileArea)
    area, tests = load(ctx, 'edit')
    ctx.replay(area, tests, None, 'read, edit, write, read again')
    area, tests = load(ctx, 'edits', 9, simulate=40 if ctx.quick else 600, depth=10)
    ctx.replay(area, tests, None, 'long histories with edits')


CHECKS = {'C27': c27, 'C04': c04, 'C05': c05, 'C06': c06, 'C07': c07}
