"""C26: moving windows, ranks and pairwise statistics compute the documented
value of every cell."""
import math
from ..core import Check, where_of, path_text
from ..values import *
from .. import catalog, fields, ident
from .. import terms as T
from ..terms import K
from ..cells import lift
from ..drivers import tstr
from ..seqmodel import Und

NANV = float('nan')
isnan = ident.isnan
MOVE = {'move_sum': 'nansum', 'move_mean': 'nanmean', 'move_std': 'nanstd', 'move_min': 'nanmin', 'move_max': 'nanmax',
        'move_median': 'nanmedian', 'move_nanmedian': 'nanmedian', 'move_ranking': 'lastrank',
        'move_nanranking': 'lastrank', 'move_func': None}
SUMS = ('movingsum', 'movingsum_forward')
OTHER = ('ranking', 'lastrank', 'geometric_mean', 'correlation', 'push', 'demean', 'demedian', 'zscore', 'cumsum',
         'cumprod', 'quantile', 'covMissing')


def ok_of(vs):
    return [v for v in vs if not isnan(v)]


def div(a, b):
    return ident.arith('divide', float(a), float(b))


def small(r, sizes):
    return r.choice([-1, 0, 1, 1, 2, 2, 3, 4, 5])


def swap(t, ren):
    if isinstance(t, tuple):
        return ren[t] if t in ren else tuple(swap(x, ren) for x in t)
    return t


def of_size(case, shape, values):
    """the case with an operand of this shape; values: options that are constants"""
    word = 'lab' if case.meta['group'] != 'farray' else 'free'

    def body(I):
        for k, n in enumerate(shape):
            I.facts.assume(T.eq(T.length((word, 'A', k)), K(n)), True)
        return case.body(I)
    meta = dict(case.meta, shape=shape, values=values)
    return catalog.Case(case.entry, '%s; shape %s' % (case.desc, shape), body, **meta)


class C26(Check):
    id = 'C26'
    rule = ('value numbering: the content of the result is a term over the cells of the operand; it must be the documented '
            'function of the documented cells at every position (compared by identity testing of the terms over the '
            'abstract domain), and the conditions of raising paths must be the documented ones')
    floor = 300

    def cases(self):
        for c in list(catalog.larry_cases((1, 2, 3))) + list(catalog.farray_cases((1, 2, 3))):
            n = c.meta.get('name')
            if n in MOVE or n in SUMS or n in OTHER:
                if c.meta.get('group') == 'inplace' or c.meta.get('kw', {}).get('norm') == 'gaussian':
                    continue
                yield c
        for c in self.sized():
            yield c

    def sized(self):
        """contexts of a known shape, whose loops are followed step by step"""
        N, MV = 'la.farray.normalize', 'la.farray.move'
        m, f = catalog.method, catalog.func
        A = catalog.array
        for n in (1, 2, 3, 4) if not self.thorough else (1, 2, 3, 4, 5, 6):
            q = 3 if n == 2 else 2
            for nd, ax, shape in ((1, 0, (n,)), (1, -1, (n,)), (2, 0, (n, q)), (2, 1, (q, n)), (2, -1, (q, n)), (2, -2, (n, q))):
                for w in (1, 2, 3):
                    if w <= n:
                        yield of_size(m('quantile', nd, [w, ax], axis=ax, group='scan'), shape, {'q': w})
                for w in range(0, n + 1):
                    v = {'window': w}
                    yield of_size(m('push', nd, [w, ax], axis=ax, group='scan'), shape, v)
                    if ax >= 0:
                        yield of_size(f(N, 'push', [A('A', nd), w], {'axis': ax}, nd=nd, axis=ax, group='farray'), shape, v)
                    if w == 0 or ax < 0:
                        continue
                    for meth in ('loop',):
                        yield of_size(m('move_func', nd, [catalog.afunc('func'), w, ax, meth],
                                        {'myopt': catalog.sym('myopt')}, axis=ax, group='move'), shape, v)
                        yield of_size(m('move_median', nd, [w, ax, meth], axis=ax, group='move'), shape, v)
                        yield of_size(m('move_ranking', nd, [w, ax, meth], axis=ax, group='move'), shape, v)

    # ------------------------------------------------------------- documented values
    def setup(self, case):
        """(axes of the operands, axes along which the lane runs)"""
        n, nd = case.meta['name'], case.meta['nd']
        word = 'lab' if case.meta['group'] != 'farray' else 'free'
        axes = {'A': [(word, 'A', k) for k in range(nd)]}
        if n == 'correlation':
            axes['B'] = axes['A']
        ax = case.meta.get('axis')
        D = axes['A'] if ax is None else [axes['A'][ax % nd]]
        return axes, D

    @staticmethod
    def option(case, name, pos=None):
        a = case.meta.get('kw', {}).get(name)
        if a is None and pos is not None and len(case.meta.get('args', ())) > pos:
            a = case.meta['args'][pos]
        return a

    def lane(self, p, w, axes, D, env):
        out = []
        for e in p.walk(D, env):
            idx = tuple(p.val[d].index(e[d]) for d in axes[w])
            out.append(p.data[w][idx])
        return [int(v) if isinstance(v, bool) else v for v in out]

    def want(self, case, axes, D):
        """function (point, environment) -> documented value"""
        n = case.meta['name']
        g = case.meta['group']
        lane = lambda p, e, w='A': self.lane(p, w, axes, D, e)
        here = lambda p, e: p.val[D[0]].index(e[D[0]])
        flat = lambda p, e: [tuple(sorted(x.items(), key=repr)) for x in p.walk(D, e)].index(tuple(sorted(e.items(), key=repr)))

        def sym(name):
            if name in case.meta.get('values', ()):
                return ('sym', name, 'int')
            for x in list(case.meta.get('args', ())) + list(case.meta.get('kw', {}).values()):
                t = getattr(x, 'term', None)
                if t is not None and t[0] == 'sym' and t[1] == name:
                    return t
            return None

        if n in MOVE:
            w = sym('window')
            kw = tuple((k, ('option', v.term[1])) for k, v in sorted(case.meta.get('kw', {}).items()) if k == 'myopt')

            def moving(p, e):
                vs, i, q = lane(p, e), here(p, e), p.val[w]
                if i + 1 < q:
                    return NANV
                vs = vs[i + 1 - q:i + 1]
                if n == 'move_func':
                    return fields.Call('func', vs, kw)
                return p.reduce(MOVE[n], vs, {})
            return moving
        if n in SUMS:
            w, skip = sym('window'), sym('skip')
            norm = self.option(case, 'norm') is True

            def msum(p, e):
                vs, i, q = lane(p, e), here(p, e), p.val[w]
                s = p.val[skip] if skip is not None else 0
                a = i - s - q + 1 if n == 'movingsum' else i + s
                if a < 0 or a + q > len(vs):
                    return NANV
                ok = ok_of(vs[a:a + q])
                if not ok:
                    return NANV
                t = float(sum(ok))
                return t * q / len(ok) if norm else t
            return msum
        if n == 'push':
            w = sym('window') or sym('n')

            def push(p, e):
                vs, i = lane(p, e), here(p, e)
                if not isnan(vs[i]):
                    return vs[i]
                for j in range(i - 1, -1, -1):
                    if not isnan(vs[j]):
                        return vs[j] if i - j <= p.val[w] else NANV
                return NANV
            return push
        if n == 'lastrank':
            d = sym('decay')

            def last(p, e):
                vs = lane(p, e)
                q = p.val[d] if d is not None else 0
                if not vs:
                    raise Und('empty')
                x = vs[-1]
                ok = [(v, math.exp(-q * (len(vs) - 1 - k))) for k, v in enumerate(vs) if not isnan(v)]
                if isnan(x) or len(ok) < 2:
                    return NANV
                t = sum(c for v, c in ok) - 1.0
                if t < 1e-6:
                    raise Und('ill-conditioned')
                s = sum(c for v, c in ok if v < x) + 0.5 * (sum(c for v, c in ok if v == x) - 1.0)
                return 2.0 * (s / t - 0.5)
            return last
        if n == 'ranking':
            norm = self.option(case, 'norm') or '-1,1'

            def rank(p, e):
                vs, i = lane(p, e), flat(p, e)
                if isnan(vs[i]):
                    return NANV
                ok = ok_of(vs)
                if len(ok) == 1:
                    return 0.0 if norm == '-1,1' else (len(vs) - 1) / 2.0
                r = sum(v < vs[i] for v in ok) + (sum(v == vs[i] for v in ok) - 1) / 2.0
                r = r / (len(ok) - 1.0)
                return 2.0 * r - 1.0 if norm == '-1,1' else r * (len(vs) - 1)
            return rank
        if n == 'covMissing':
            def cov(p, e):
                rows = []
                for k in ('#i', '#j'):
                    i = p.val[axes['A'][0]].index(e[k])
                    rows.append([p.data['A'][(i, t)] for t in range(len(p.val[axes['A'][1]]))])
                ok = [(a, b) for a, b in zip(*rows) if not isnan(a) and not isnan(b)]
                if not ok:
                    raise Und('no pairs')
                return sum(a * b for a, b in ok) / float(len(ok))
            return cov
        if n == 'quantile':
            q = sym('q')

            def quantile(p, e):
                vs, i = lane(p, e), flat(p, e)
                ok = ok_of(vs)
                if isnan(vs[i]):
                    return NANV
                k = p.val[q]
                if k == 1:
                    return 0.0
                if len(set(ok)) != len(ok):
                    raise Und('ties')
                r = sorted(ok).index(vs[i])
                j = 1
                while j < k and r * k > j * (len(ok) - 1):
                    j += 1
                return 2.0 * ((j - 1.0) / (k - 1.0) - 0.5)
            return quantile
        if n == 'geometric_mean':
            def gm(p, e):
                ok = ok_of(lane(p, e))
                if not ok:
                    return NANV
                if min(ok) <= 0:
                    raise Und('not positive')
                return math.exp(sum(math.log(v) for v in ok) / len(ok))
            return gm
        if n == 'correlation':
            def corr(p, e):
                xs = [(a, b) for a, b in zip(lane(p, e), lane(p, e, 'B')) if not isnan(a) and not isnan(b)]
                if len(xs) < 2:
                    raise Und('no pairs')
                m = [sum(x[k] for x in xs) / float(len(xs)) for k in (0, 1)]
                c = [[x[k] - m[k] for x in xs] for k in (0, 1)]
                den = sum(a * a for a in c[0]) * sum(b * b for b in c[1])
                if den < 1e-12:
                    raise Und('constant')
                return sum(a * b for a, b in zip(*c)) / math.sqrt(den)
            return corr
        if n in ('demean', 'demedian', 'zscore'):
            def centred(p, e):
                vs, i = lane(p, e), flat(p, e)
                ok = ok_of(vs)
                if isnan(vs[i]):
                    return NANV
                m = p.reduce('nanmedian' if n == 'demedian' else 'nanmean', vs, {})
                d = vs[i] - m
                if n == 'zscore':
                    s = math.sqrt(sum((v - m) ** 2 for v in ok) / len(ok))
                    if s < 1e-9:
                        raise Und('constant')
                    return d / s
                return d
            return centred
        if n in ('cumsum', 'cumprod'):
            def cum(p, e):
                vs, i = lane(p, e), here(p, e)
                if isnan(vs[i]):
                    return NANV
                r = 0 if n == 'cumsum' else 1
                for v in ok_of(vs[:i + 1]):
                    r = r + v if n == 'cumsum' else r * v
                return r
            return cum
        return None

    # ------------------------------------------------------------- documented conditions
    def valid(self, case):
        """function (point) -> does the documentation allow these options?  None: it says nothing"""
        n = case.meta['name']
        if n not in MOVE and n not in SUMS:
            return None
        axes, D = self.setup(case)

        def f(p):
            q = [v for k, v in p.val.items() if k[0] == 'sym' and k[1] == 'window'][0]
            m = len(p.val[D[0]])
            s = [v for k, v in p.val.items() if k[0] == 'sym' and k[1] == 'skip']
            if s and not 0 <= s[0] <= m - q:
                return None
            return 1 <= q <= m
        return f

    def visit(self, I, o, case):
        axes, D = self.setup(case)
        syms = dict((x.term, None) for x in list(case.meta.get('args', ())) + list(case.meta.get('kw', {}).values())
                    if getattr(x, 'term', None) is not None and x.term[0] == 'sym')
        choose = dict((s, small if s[1] != 'skip' else lambda r, z: r.choice([0, 0, 1, 1, 2, 3])) for s in syms
                      if s[2:3] == ('int',))
        for k, c in case.meta.get('values', {}).items():
            choose[('sym', k, 'int')] = lambda r, z, c=c: c
        for s in syms:
            if s[1] == 'decay':
                choose[s] = lambda r, z: r.choice([0.0, 0.1, 0.5, 1.0, 2.0])
        conds = list(I.taken)
        valid = self.valid(case)
        if valid is not None:
            bad = self.domain(o, case, axes, conds, choose, valid)
            if bad:
                return self.fail('%s: %s' % (case.entry, bad[0]), '%r: %s; path: %s' % (case, bad[1], path_text(o)))
        if o.kind != 'return':
            return
        want = self.want(case, axes, D)
        if want is None:
            return
        x = o.value.attrs.get('x') if isinstance(o.value, Inst) else o.value
        dims = []
        if isinstance(x, Arr):
            content = x.buf.content
            dims = list(x.dims)
        elif isinstance(x, (Sym, Const)):
            content = lift(I.freeze(x))
        else:
            return self.unknown('%s: result not understood' % case.entry)
        reduces = case.meta['name'] in ('lastrank', 'geometric_mean', 'correlation')
        doc = [d for d in axes['A'] if d not in D] if reduces else axes['A']
        got = [fields.Field.base(d) if not T.isk(d) else d for d in dims]
        shape = case.meta.get('shape')
        if shape is not None and not reduces and len(set(got)) == len(got) == len(doc):
            # a new array of the same shape: position i stands for element i
            ren = dict((g, d) for g, d, n in zip(got, doc, shape) if g == ('pos', K(n)))
            if ren:
                got = [ren.get(g, g) for g in got]
                dims = [swap(d, ren) for d in dims]
                content = swap(content, ren)
        cov = case.meta['name'] == 'covMissing'
        if cov:
            doc = [axes['A'][0]] * 2
        if got != doc:
            return self.unknown('%s: axes of the result not understood' % case.entry)
        r = fields.compare(I, content, dims, want, axes, conds, repr(case), choose=choose, shape=case.meta.get('shape'),
                           distinct=case.meta['name'] == 'quantile', pairs=cov,
                           n=400 if self.thorough else 120)
        if r[0] == 'same':
            return self.ok(case.entry, '%r: %s; the documented value in %d cells of %d points'
                           % (case, tstr(content)[:250], r[2], r[1]))
        if r[0] is None:
            if r[1] in ('kind', 'no point on the path'):
                return
            return self.unknown('%s: not compared (%s)' % (case.entry, r[1]))
        if T.contains(content, lambda x: x and x[0] == 'loop'):
            # one abstract step of a loop; the contexts of a known shape decide
            return self.unknown('%s: loop over an axis of unknown length' % case.entry)
        self.fail('%s: another value' % case.entry,
                  '%r: %s; computed %s; path: %s' % (case, r[1], tstr(content)[:300], path_text(o)))

    def domain(self, o, case, axes, conds, choose, valid):
        syms = set(choose)
        for c, _ in conds:
            for x in T.walk(c):
                if x and x[0] == 'sym':
                    syms.add(x)
        # conditions about the data, its type and the options decide nothing here
        plain = [(c, v) for c, v in conds if not T.contains(c, lambda x: x and x[0] in ('X', 'kv', 'kindin'))]
        if len(plain) != len(conds):
            return None
        for p in fields.points('domain', axes, syms, (), 'float', 60, choose=choose,
                               shape=case.meta.get('shape')):
            try:
                if not all(p.truth(c, {}) == v for c, v in plain):
                    continue
            except Exception:
                return None
            d = valid(p)
            if d is True and o.kind == 'raise':
                return 'raises for a valid window', '%swith %d elements along the axis raises %s' % (
                    fields.opts(p), len(p.val[self.setup(case)[1][0]]), o.exc.name)
            if d is False and o.kind == 'return':
                return 'invalid window accepted', '%swith %d elements along the axis returns' % (
                    fields.opts(p), len(p.val[self.setup(case)[1][0]]))
        return None

CHECKS = [C26]
