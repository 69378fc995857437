"""Tables: spec/Table.tla against basic_binary_table_extension, basic_ascii_table and column_view."""
import random
from vf import Area, canon_f, tok, UNSPEC


def lit(k, v):
    return ('%-8s= %20s' % (k, v)).ljust(80)


def txt(k, v):
    return ("%-8s= '%s'" % (k, v.replace("'", "''"))).ljust(80)


def cards(op):
    cs = [txt('XTENSION', 'BINTABLE' if op['kind'] == 'binary' else 'TABLE'), lit('BITPIX', 8), lit('NAXIS', 2), lit('NAXIS1', op['width']),
          lit('NAXIS2', op['rows']), lit('PCOUNT', 0), lit('GCOUNT', 1), lit('TFIELDS', len(op['cols']))]
    for i, c in enumerate(op['cols'], 1):
        if c['name']:
            cs.append(txt('TTYPE%d' % i, c['name']))
        if c['form']:
            cs.append(txt('TFORM%d' % i, c['form']))
        if op['kind'] == 'ascii':
            cs.append(lit('TBCOL%d' % i, c['tbcol']))
        for k, f in (('unit', 'TUNIT'), ('disp', 'TDISP'), ('dim', 'TDIM')):
            if c[k]:
                cs.append(txt(f + str(i), c[k]))
        for k, f in (('scal', 'TSCAL'), ('zero', 'TZERO')):
            if c[k]:
                cs.append(lit(f + str(i), c[k]))
    return ''.join(cs) + 'END'.ljust(80)


def data(d):
    if d and isinstance(d[0], str):
        return tok(''.join(d))
    return tok(bytes(d))


def elems(v):
    return [tok(v)] if isinstance(v, str) else [tok(bytes(e)) for e in v]


FORMS = ('flt', 'dbl')


class TableArea(Area):
    driver = 'table'

    def line(self, op):
        o = op['op']
        if o == 'make':
            a = [op['t'], op['kind'], data(op['data']), tok(cards(op))]
        elif o == 'set':
            a = [op['t'], data(op['data'])]
        elif o in ('copy', 'assign', 'reload'):
            a = [op['t'], op['to']]
        elif o == 'get':
            a = [op['t'], tok(op['col']), op['ty'], op['row'] - 1]
        elif o == 'scan':
            a = [op['t'], tok(op['col']), op['ty']]
        elif o == 'edit':
            a = [op['t'], tok(op['col']), op['ty'], op['row'] - 1, op['how']] + elems(op['v'])
        elif o == 'hold':
            a = [op['h'], op['t'], tok(op['col']), op['ty'], op['own']]
        elif o == 'hget':
            a = [op['h'], op['row'] - 1]
        elif o == 'hedit':
            a = [op['h'], op['row'] - 1, op['how']] + elems(op['v'])
        elif o == 'poke':
            a = [op['t'], op['c'], op['row'] - 1] + elems(op['v'])
        elif o == 'meta':
            a = [op['t'], tok(op['col'])]
        elif o == 'form':
            a = [op['kind'], tok(op['form'])]
        else:
            a = [op['t']]
        return ' '.join([o] + [str(x) for x in a])

    def real(self, op, x):
        bits = 32 if op.get('ty') == 'flt' else 64
        try:
            import struct
            v = float(x)
            return canon_f(struct.unpack('>f', struct.pack('>f', v))[0] if bits == 32 else v, bits)
        except (ValueError, OverflowError, TypeError):
            return x

    def _n(self, op, r):
        if op.get('ty') in FORMS:
            r = dict(r)
            if 'val' in r:
                r['val'] = self.real(op, r['val'])
            if 'vals' in r:
                r['vals'] = [self.real(op, x) for x in r['vals']]
        return r

    def nexp(self, op, exp):
        return self._n(op, exp)

    def nobs(self, op, obs):
        obs = self._n(op, obs)
        if op['op'] == 'write' and 'at' in op and 'data' in obs:
            obs = dict(obs, data=[[row[a:a + w].strip(' ') for a, w in op['at']] for row in obs['data']])
        if 'meta' in obs:
            obs = dict(obs, meta=dict(obs['meta'], scal=canon_f(float(obs['meta']['scal'])), zero=canon_f(float(obs['meta']['zero']))))
        return obs


AREA = TableArea()


def load(ctx, mode, maxlen=1, simulate=None, depth=None):
    kw = dict(consts={'Mode': '"%s"' % mode, 'MaxLen': maxlen, 'Deep': 'FALSE' if ctx.quick else 'TRUE'},
              invariants=['InvFits', 'InvRereads', 'InvRefused'])
    if simulate:
        return ctx.model('TableMC', mode + ' walks', constraint='EmitEnd', simulate=simulate, depth=depth, seed=ctx.seed, **kw)
    return ctx.model('TableMC', mode, action_constraint='Emit', view='view', properties=['EditsOne'], **kw)


# ------------------------------------------------------------------ random tables

SIZE = {'L': 1, 'X': 1, 'B': 1, 'A': 1, 'I': 2, 'J': 4, 'E': 4, 'D': 8, 'C': 8, 'P': 8, 'M': 16}


def col(name, form, at=0, **kw):
    c = {'name': name, 'form': form, 'tbcol': at, 'unit': '', 'scal': '', 'zero': '', 'disp': '', 'dim': ''}
    c.update(kw)
    return c


def width(f):
    n = int(f[:-1] or 1)
    return (n + 7) // 8 if f[-1] == 'X' else n * SIZE[f[-1]]


def count(f):
    return width(f) if f[-1] == 'X' else int(f[:-1] or 1)


def rbytes(r, n):
    m = r.random()
    if m < 0.25:
        return [r.choice([32, 32, 9, 10, 0, 84, 70, 255]) for _ in range(n)]
    return [r.randrange(256) for _ in range(n)]


def relem(r, t):
    return [r.choice([84, 70])] if t == 'L' else rbytes(r, SIZE[t])


ATEXT = {'str': ['', 'a', 'x y', "it's", '12', '/', 'w' * 4], 'll': ['0', '-1', '12', '9999', '7'], 'flt': ['0.5', '-2', '1e+20', '3.25'], 'dbl': ['0.5', '-2', '1e+99', '3.25']}


def rbin(r, slot):
    n = r.choice([1, 2, 3, 4, 5, 6, 13])
    forms = []
    for _ in range(n):
        c = r.choice(['', '', '1', '2', '3', '5', '8', '9', '12', '0', '33'])
        forms.append(c + r.choice('LXBIJAEDCMP'))
    w = sum(map(width, forms))
    rows = r.choice([1, 2, 3, 3, 8, 40]) if w else 0
    cols = [col('N%d' % i, f, unit=r.choice(['', 'km', "km/s"]), scal=r.choice(['', '2', '0.1', '-1e-05', '1e+300']), zero=r.choice(['', '100', '-2.3', '123456789.0625']),
                disp=r.choice(['', 'I6', 'E10.3']), dim=r.choice(['', '(2,3)'])) for i, f in enumerate(forms)]
    return {'op': 'make', 't': slot, 'kind': 'binary', 'cols': cols, 'width': w, 'rows': rows, 'data': rbytes(r, w * rows)}


def rasc(r, slot):
    n = r.randrange(1, 6)
    order = list(range(n))
    r.shuffle(order)
    forms = [r.choice(['A4', 'A6', 'A1', 'I4', 'I7', 'F8.2', 'E10.3', 'D12.4', 'F6.0']) for _ in range(n)]
    at, p = {}, 1 + r.choice([0, 0, 2])
    for i in order:
        at[i] = p
        p += int(forms[i][1:].split('.')[0]) + r.choice([0, 1, 1, 3])
    w = p - 1 + r.choice([0, 0, 4])
    rows = r.choice([1, 2, 3, 9])
    text = []
    for _ in range(rows):
        row = [r.choice([' ', ' ', '|'])] * w
        for i in range(n):
            k = int(forms[i][1:].split('.')[0])
            x = r.choice([v for v in ATEXT[nat(forms[i])] if len(v) <= k])
            x = x.rjust(k) if r.random() < 0.6 else x.ljust(k)
            row[at[i] - 1:at[i] - 1 + k] = x
        text.append(''.join(row))
    cols = [col('C%d' % i, f, at[i], unit=r.choice(['', 'mag']), scal=r.choice(['', '2', '0.1', '1e+300']), zero=r.choice(['', '-2.3', '123456789.0625'])) for i, f in enumerate(forms)]
    return {'op': 'make', 't': slot, 'kind': 'ascii', 'cols': cols, 'width': w, 'rows': rows, 'data': text}


def nat(f):
    return {'A': 'str', 'I': 'll', 'F': 'flt', 'E': 'flt', 'D': 'dbl'}[f[0]]


def vty(r, f):
    return f[-1] if count(f) == 1 and r.random() < 0.8 else 'v' + f[-1]


def fields(m):
    return [[c['tbcol'] - 1, int(c['form'][1:].split('.')[0])] for c in m['cols']]


def random_tests(seed, n, kinds=('binary', 'ascii'), length=14):
    r = random.Random(seed)
    tests = []
    for _ in range(n):
        kind = r.choice(kinds)
        mk = rbin if kind == 'binary' else rasc
        m = mk(r, 0)
        tab = {0: m}
        ty = {}
        view = {}
        t = [m]

        def tyof(k, c):
            f = tab[k]['cols'][c]['form']
            return ty.setdefault((k, c), vty(r, f) if kind == 'binary' else nat(f))

        def value(k, c):
            f = tab[k]['cols'][c]['form']
            if kind == 'binary':
                if r.random() < 0.3:                    # nearly nothing
                    k, p = SIZE[f[-1]], r.randrange(max(1, width(f)))
                    return [[84 if e * k + j == p else 70 if f[-1] == 'L' else 0 for j in range(k)] for e in range(count(f))]
                return [relem(r, f[-1]) for _ in range(count(f))]
            w = int(f[1:].split('.')[0])
            return r.choice([v for v in ATEXT[nat(f)] if len(v) <= w])
        for _ in range(r.choice([4, length, 2 * length])):
            k = r.choice(sorted(tab))
            mm = tab[k]
            c = r.randrange(len(mm['cols']))
            row = r.randrange(mm['rows']) + 1 if mm['rows'] else 0
            x = r.random()
            if x < 0.06:
                s = r.choice([0, 1])
                tab[s] = mk(r, s)
                t.append(tab[s])
                view = {h: v for h, v in view.items() if v[0] != s}
                ty = {q: v for q, v in ty.items() if q[0] != s}
            elif x < 0.14:
                o, to = r.choice(['copy', 'assign', 'reload']), r.choice([0, 1])
                if o == 'reload' and not mm['rows']:
                    continue
                t.append({'op': o, 't': k, 'to': to})
                same = to in tab and tab[to]['cols'] == mm['cols']
                view = {h: v for h, v in view.items() if v[0] != to or (o == 'assign' and same and v[2] == 'own' and tab[to]['rows'] == mm['rows'])}
                tab[to] = mm
                ty = {q: v for q, v in ty.items() if q[0] != to}
            elif x < 0.2:
                t.append(dict({'op': 'write', 't': k}, **({'at': fields(mm)} if kind == 'ascii' else {})))
            elif x < 0.26:
                t.append({'op': 'meta', 't': k, 'col': mm['cols'][c]['name'] if r.random() < 0.8 else r.choice(['nope', '', 'N', 'C', 'n0', 'c0', 'N10', 'C0 '])})
            elif not mm['rows']:
                t.append({'op': 'raw', 't': k})
            elif x < 0.31:
                d = mk(r, 0)
                d = rbytes(r, mm['width'] * mm['rows'] + r.choice([0, 0, 5, -1])) if kind == 'binary' else [r.choice(mm['data']) for _ in range(mm['rows'])]
                if not d:
                    continue
                t.append({'op': 'set', 't': k, 'data': d})
                view = {h: v for h, v in view.items() if v[0] != k or v[2] == 'own'}
                ty = {q: v for q, v in ty.items() if q[0] != k}
            elif x < 0.5:
                t.append({'op': 'get', 't': k, 'col': mm['cols'][c]['name'], 'ty': also(r, kind, tyof(k, c)) if r.random() < 0.5 else tyof(k, c), 'row': row})
            elif x < 0.68:
                t.append({'op': 'edit', 't': k, 'col': mm['cols'][c]['name'], 'ty': tyof(k, c), 'row': row, 'v': value(k, c), 'how': r.choice(['update', 'proxy', 'iter', 'late', 'elem'])})
            elif x < 0.73:
                t.append({'op': 'scan', 't': k, 'col': mm['cols'][c]['name'], 'ty': tyof(k, c)})
            elif x < 0.77:
                t.append({'op': 'poke', 't': k, 'c': c + 1, 'row': row, 'v': value(k, c)})
            elif x < 0.83 or not view:
                h, own = r.choice([0, 1]), r.choice(['ref', 'own'])
                t.append({'op': 'hold', 'h': h, 't': k, 'col': mm['cols'][c]['name'], 'ty': tyof(k, c), 'own': own})
                view[h] = (k, c, own, tyof(k, c))
            else:
                h = r.choice(sorted(view))
                k, c, own, vt = view[h]
                row = r.randrange(tab[k]['rows']) + 1
                if x < 0.92:
                    t.append({'op': 'hget', 'h': h, 'row': row, 'ty': vt})
                else:
                    t.append({'op': 'hedit', 'h': h, 'row': row, 'v': value(k, c), 'how': r.choice(['update', 'proxy', 'iter', 'late', 'elem'])})
        tests.append(t)
    return tests


def also(r, kind, ty):
    """Another type the same cells can be read as."""
    if kind == 'ascii':
        return r.choice(['str', 'll', 'flt', 'dbl'])
    return ty[:-1] + {'B': 'A', 'A': 'B', 'J': 'E', 'E': 'J'}.get(ty[-1], ty[-1])


def traces(ctx, concern=None, kinds=('binary', 'ascii')):
    ctx.validate(AREA, 'TableTrace', random_tests(ctx.seed, 160 if ctx.quick else 4000, kinds), concern=concern, label='random tables', timeout=1500, shards=8)


READ = ('make', 'raw', 'get', 'scan', 'set', 'write', 'reload', 'form')


def kind_of(test, i):
    for s in reversed(test[:i + 1]):
        if 'kind' in s['op']:
            return s['op']['kind']
    return ''


def cells(kind):
    return lambda test, i, obs: kind_of(test, i) == kind and test[i]['op']['op'] != 'meta'


def c08(ctx):
    ctx.start(AREA)
    ctx.replay(AREA, load(ctx, 'bin'), cells('binary'), 'binary tables')
    ctx.replay(AREA, load(ctx, 'tall'), cells('binary'), 'tall tables')
    ctx.replay(AREA, load(ctx, 'refuse'), cells('binary'), 'refusals')
    traces(ctx, cells('binary'), ('binary',))


def c09(ctx):
    ctx.start(AREA)
    ctx.replay(AREA, load(ctx, 'asc'), cells('ascii'), 'ASCII tables')
    ctx.replay(AREA, load(ctx, 'tall'), cells('ascii'), 'tall tables')
    ctx.replay(AREA, load(ctx, 'refuse'), cells('ascii'), 'refusals')
    traces(ctx, cells('ascii'), ('ascii',))


def after_edit(test, i, obs):
    """A disagreement at an edit, or at a later read of what was edited."""
    return any(s['op']['op'] in ('edit', 'poke', 'copy') for s in test[:i + 1])


def c10(ctx):
    ctx.start(AREA)
    for k in ('hist-bin', 'hist-asc'):
        ctx.replay(AREA, load(ctx, k, 3 if ctx.quick else 4), None, 'histories')
        ctx.replay(AREA, load(ctx, k, 12, simulate=8 if ctx.quick else 60, depth=13), None, 'long histories')
    ctx.replay(AREA, load(ctx, 'bin') + load(ctx, 'asc') + load(ctx, 'tall'), after_edit, 'edits of every kind of cell')
    traces(ctx)


def meta(test, i, obs):
    return test[i]['op']['op'] in ('meta', 'form', 'make')


def c14(ctx):
    ctx.start(AREA)
    ctx.replay(AREA, load(ctx, 'bin') + load(ctx, 'asc') + load(ctx, 'refuse'), meta, 'column descriptions')
    traces(ctx, meta)


CHECKS = {'C08': c08, 'C09': c09, 'C10': c10, 'C14': c14}
