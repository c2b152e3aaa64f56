"""C22 (operators and named functions compute the documented operation) and
C10 (missing values never contaminate results)."""
from ..core import Check, where_of, path_text
from ..values import *
from .. import catalog, oracle
from .. import terms as T
from .. import ident
from ..cells import *
from ..terms import K, TRUE, FALSE
from ..drivers import tstr
from .labels import C03

UNARY = {'log': 'log', 'exp': 'exp', 'sqrt': 'sqrt', 'sign': 'sign', 'abs': 'absolute', 'isnan': 'isnan',
         'isfinite': 'isfinite', 'isinf': 'isinf', '__neg__': 'negative', '__abs__': 'absolute',
         '__invert__': 'logical_not', 'invert': 'logical_not'}
SAME = {'__pos__', 'copy', 'astype'}
# operator -> (operation, swap operands)
BINARY = {'__add__': ('add', 0), '__sub__': ('subtract', 0), '__mul__': ('multiply', 0), '__div__': ('divide', 0),
          '__truediv__': ('true_divide', 0), '__floordiv__': ('floor_divide', 0), '__and__': ('logical_and', 0),
          '__or__': ('logical_or', 0), '__eq__': ('equal', 0), '__ne__': ('not_equal', 0), '__lt__': ('less', 0),
          '__gt__': ('less', 1), '__le__': ('less_equal', 0), '__ge__': ('less_equal', 1),
          '__radd__': ('add', 1), '__rsub__': ('subtract', 1), '__rmul__': ('multiply', 1), '__rdiv__': ('divide', 1),
          '__rtruediv__': ('true_divide', 1), '__rfloordiv__': ('floor_divide', 1),
          'add': ('add', 0), 'subtract': ('subtract', 0), 'multiply': ('multiply', 0), 'divide': ('divide', 0)}
REDUCERS = {'sum': 'nansum', 'prod': 'nanprod', 'mean': 'nanmean', 'median': 'nanmedian', 'std': 'nanstd',
            'var': 'nanvar', 'max': 'nanmax', 'min': 'nanmin', 'any': 'any', 'all': 'all'}
EMPTY = {'any': K(False), 'all': K(True)}
MOVERS = {'move_sum': 'move_nansum', 'move_mean': 'move_nanmean', 'move_std': 'move_nanstd',
          'move_min': 'move_nanmin', 'move_max': 'move_nanmax'}


def content_of(I, v):
    """content term of a returned value"""
    if isinstance(v, Inst):
        x = v.attrs.get('x')
        return I.facts.norm(x.buf.content) if isinstance(x, Arr) else None
    if isinstance(v, Arr):
        return I.facts.norm(v.buf.content)
    if isinstance(v, (Sym, Const)):
        return lift(I.facts.norm(I.freeze(v)))
    return None


COMPARE = {'==': 'equal', '!=': 'not_equal', '<': 'less', '>': 'greater', '<=': 'less_equal', '>=': 'greater_equal'}
OPPOSITE = {'<': '>=', '>=': '<', '>': '<=', '<=': '>'}


class C22(Check):
    id = 'C22'
    rule = ('value numbering: the content of every result is a term over the contents of the operands; after removing '
            'alignment and casts its normal form must be the documented operation applied to the documented operands '
            'in the documented order, along the documented axis')
    floor = 600

    def cases(self):
        for case in catalog.everything(self.thorough):
            if self.spec(case) is not None:
                yield case

    # ---------------------------------------------------------------- expected terms
    def spec(self, case):
        """function (I) -> list of acceptable contents, or None"""
        n, g = case.meta.get('name'), case.meta.get('group')
        nd = case.meta.get('nd')
        args = case.meta.get('args', ())
        X = ('X', 'A')
        B = ('X', 'B')
        if g == 'elementwise':
            if n in UNARY:
                return lambda I: [ew(UNARY[n], X)]
            if n in SAME:
                return lambda I: [X]
            if n in ('power', '__pow__'):
                return lambda I: [ew('power', X, ('kc', args[0].term))]
            if n == 'clip':
                lo, hi = ('kc', args[0].term), ('kc', args[1].term)
                return lambda I: [('ew', 'clip', (X, lo, hi)), ew('minimum', ew('maximum', X, lo), hi),
                                  ew('maximum', ew('minimum', X, hi), lo)]
            if n == 'nan_replace':
                return lambda I: [('where', ew('isnan', X), ('kc', args[0].term), X)]
        if n == 'keep_x' and args[0] in COMPARE:
            cond = ew(COMPARE[args[0]], X, ('kc', args[1].term))

            def kept(I):
                k = I.facts.kind(('kv', 'A'))
                mark = K('') if k <= frozenset(['str']) else K(None) if k <= frozenset(['object']) else NAN
                out = [('where', cond, X, ('kc', mark))]
                if args[0] in ('<', '>', '<=', '>='):
                    out.append(('where', ew(COMPARE[OPPOSITE[args[0]]], X, ('kc', args[1].term)), ('kc', mark), X))
                return out
            return kept
        if g in ('binary', 'binary_scalar', 'binary_array') and n in BINARY:
            op, swap = BINARY[n]
            o = ('kc', args[-1].term) if g == 'binary_scalar' else B
            a, b = (o, X) if swap else (X, o)
            ops = ['divide', 'true_divide'] if n == 'divide' else [op]
            return lambda I: [ew(q, a, b) for q in ops]
        if g == 'reduce' and n in REDUCERS or g == 'farray' and False:
            ax = case.meta.get('axis')
            D = tuple(('lab', 'A', k) for k in range(nd)) if ax is None else (('lab', 'A', ax % nd),)
            extra = ()
            if n in ('std', 'var'):
                extra = (('ddof', args[1].term if len(args) > 1 else K(0)),)

            def red(I):
                if I.facts.query(T.eq(K(0), size(nd))) is True:
                    return [('kc', EMPTY.get(n, NAN))]
                out = [('red', REDUCERS[n], X, D, extra)]
                if n in ('any', 'all'):
                    out.append(('kc', ('app', n, X)))
                if I.facts.query(('app', 'any', ew('isnan', X))) is False or \
                        I.facts.kind(('kv', 'A')) <= frozenset(['int', 'bool']):
                    out.append(('red', REDUCERS[n].replace('nan', ''), X, D, extra))
                if n == 'prod':
                    # nan where everything is missing
                    out += [('kc', NAN)] if I.facts.query(('app', 'all', ew('isnan', X))) is True else []
                    out.append(('where', ('red', 'all', ew('isnan', X), D, ()), ('kc', NAN), out[0]))
                if n in ('sum', 'max', 'min', 'mean', 'median', 'std', 'var'):
                    out.append(('where', ('red', 'all', ew('isnan', X), D, ()), ('kc', NAN), out[0]))
                return out
            return red
        if n in ('cumsum', 'cumprod') and g == 'scan':
            D = ('lab', 'A', case.meta['axis'] % nd)
            z = 0 if n == 'cumsum' else 1
            s = ('scan', n, ('where', ew('isnan', X), kc(z), X), D)

            def cum(I):
                out = [('where', ew('isnan', X), ('kc', NAN), s)]
                if I.facts.query(('app', 'any', ew('isnan', X))) is False or \
                        I.facts.kind(('kv', 'A')) <= frozenset(['int', 'bool']):
                    out += [s, ('scan', n, X, D)]
                return out
            return cum
        if n in ('demean', 'demedian', 'zscore') and (g == 'scan' or g == 'farray'):
            lab = (lambda k: ('lab', 'A', k)) if g == 'scan' else (lambda k: ('free', 'A', k))
            ax = case.meta.get('axis')
            D = tuple(lab(k) for k in range(nd)) if ax is None else (lab(ax % nd),)
            m = ('red', 'nanmedian' if n == 'demedian' else 'nanmean', X, D, ())
            d = ew('subtract', X, m)
            if n == 'zscore':
                return lambda I: [ew('divide', d, ('red', 'nanstd', d, D, ())),
                                  ew('divide', d, ('red', 'nanstd', X, D, ()))]
            return lambda I: [d]
        if n in ('ranking', 'geometric_mean', 'correlation') and g in ('scan', 'farray', 'reduce'):
            lab = (lambda k: ('lab', 'A', k)) if g != 'farray' else (lambda k: ('free', 'A', k))
            ax = case.meta.get('axis')
            D = tuple(lab(k) for k in range(nd)) if ax is None else (lab(ax % nd),)
            return getattr(self, n)(case, X, B, D, nd)
        if n in MOVERS:
            D = ('lab', 'A', case.meta['axis'] % nd)
            return lambda I: [('move', MOVERS[n], X, D, args[0].term, ())]
        return None

    @staticmethod
    def count(X, D):
        return ('red', 'sum', ew('logical_not', ew('isnan', X)), D, ())

    def ranking(self, case, X, B, D, nd):
        norm = case.meta['kw'].get('norm', '-1,1')
        n = self.count(X, D)
        r = ew('subtract', ('scan', 'nanrank', X, D[0]), kc(1))
        one = ew('logical_and', ew('equal', n, kc(1)), ew('logical_not', ew('isnan', X)))
        N = ('kc', ('len', D[0]))
        u = ew('divide', r, ew('subtract', n, kc(1)))
        if norm == '-1,1':
            return lambda I: [('where', one, kc(0), ew('subtract', ew('multiply', u, kc(2)), kc(1)))]
        if norm == '0,N-1':
            return lambda I: [('where', one, ew('subtract', ew('divide', ew('add', N, kc(1)), kc(2)), kc(1)),
                               ew('multiply', ew('subtract', N, kc(1)), u))]
        return None

    def geometric_mean(self, case, X, B, D, nd):
        def f(I):
            s = ('red', 'sum', ('ew', 'log', (('where', ew('isnan', X), kc(1), X),)), D, ())
            m = ('ew', 'exp', (ew('divide', s, self.count(X, D)),))
            none = ew('equal', kc(0), self.count(X, D))
            return [m, ('kc', NAN), ew('multiply', m, ('where', none, ('kc', NAN), kc(1))), ('where', none, ('kc', NAN), m)]
        return f

    def correlation(self, case, X, B, D, nd):
        def f(I):
            out = []
            m = ew('logical_or', ew('isnan', X), ew('isnan', B))
            full = I.facts.query(('app', 'any', m)) is False
            a, b = (X, B) if full else (('where', m, ('kc', NAN), X), ('where', m, ('kc', NAN), B))
            p = '' if full else 'nan'
            mean = lambda x: ('red', p + 'mean', x, D, ())
            sm = lambda x: ('red', p + 'sum', x, D, ())
            da, db = ew('subtract', a, mean(a)), ew('subtract', b, mean(b))
            sq = lambda x: [ew('power', x, kc(2)), ew('multiply', x, x)]
            for i in (0, 1):
                out.append(ew('divide', sm(ew('multiply', da, db)),
                              ('ew', 'sqrt', (ew('multiply', sm(sq(da)[i]), sm(sq(db)[i])),))))
            return out
        return f

    def visit(self, I, o, case):
        if o.kind != 'return':
            return
        got = content_of(I, o.value)
        if got is None:
            return self.unknown('%s: result not understood' % case.entry)
        bad = C03.crossed(I, got)
        if bad is not None:
            return self.fail('%s: cells of another axis' % case.entry,
                             '%r: cells along %s are combined, by position, with cells along %s; path: %s'
                             % (case, tstr(bad[2])[:200], tstr(bad[3])[:200], path_text(o)))
        want = [I.facts.norm(w) for w in self.spec(case)(I)]
        g = nf(strip_all(nf(got)))
        ws = [nf(strip_all(nf(w))) for w in want]
        if BINARY.get(case.meta.get('name'), ('',))[0] == 'true_divide' and understood(g) and \
                T.contains(got, lambda x: x and x[0] == 'ew' and x[1] == 'divide') and \
                not I.facts.kind(('kv', 'A')) <= frozenset(['inexact', 'object']):
            return self.fail('%s: another operation' % case.entry,
                             '%r: documented true division, computed %s, which rounds for integers'
                             % (case, tstr(g)[:400]))
        if any(same_formula(g, w) for w in ws):
            return self.ok(case.entry, '%r: cell = %s' % (case, tstr(got)[:300]))
        if g[0] == 'kc' and T.isk(g[1]) and case.meta.get('group') in ('binary', 'binary_scalar', 'binary_array'):
            return self.ok(case.entry)      # no common cells
        if not understood(g) or T.contains(g, lambda x: x and x[0] == 'mis'):
            return self.unknown('%s: formula not understood' % case.entry)
        if case.meta.get('group') in ('binary',) and self.constant(g):
            return self.ok(case.entry)      # an operand without common labels is missing everywhere
        verdict, why = self.identity(I, o, case, strip_all(got), [strip_all(w) for w in want])
        if verdict == 'same':
            return self.ok(case.entry, '%r: cell = %s (equal to the documented formula at %d points)' % (case, tstr(got)[:300], why))
        if verdict is None and why != 'kind':
            return self.unknown('%s: formula not compared (%s)' % (case.entry, why))
        self.fail('%s: another operation' % case.entry,
                  '%r: documented %s, computed %s; %s; path: %s'
                  % (case, tstr(ws[0])[:400], tstr(g)[:400], why, path_text(o)))

    @staticmethod
    def identity(I, o, case, g, ws):
        nd = case.meta.get('nd')
        if not isinstance(nd, int):
            return None, 'number of axes'
        v = o.value.attrs.get('x') if isinstance(o.value, Inst) else o.value
        n = len(v.dims) if isinstance(v, Arr) else 0
        if n == nd:
            axes = list(range(nd))
        elif n == 0:
            axes = []
        elif isinstance(case.meta.get('axis'), int) and n == nd - 1:
            axes = [k for k in range(nd) if k != case.meta['axis'] % nd]
        else:
            return None, 'axes of the result'
        shapes = dict((w, nd) for w in 'AB' if any(T.contains(t, lambda x: x == ('X', w)) for t in [g] + ws))
        if not shapes:
            return None, 'kind'
        return ident.compare(I, g, ws, shapes, o.taken, axes)

    @staticmethod
    def constant(g):
        """an operation on an operand that is missing everywhere"""
        return g[0] == 'ew' and any(x[0] == 'kc' and x[1] in (NAN, K(''), K(None)) for x in g[2])


def size(nd):
    n = K(1)
    for k in range(nd):
        n = T.pmul(n, ('len', ('lab', 'A', k)))
    return n


class C10(Check):
    id = 'C10'
    rule = ('missing value taint: on every returning path, no reduction or scan that lets NaN spread (sum, mean, sort, '
            'rank, cumulative sum ...) is applied to content that may hold a missing value of an input; results that '
            'keep the shape of their input hold a missing value wherever the input does')
    floor = 300
    KEEPS = {'cumsum', 'cumprod', 'demean', 'demedian', 'zscore', 'ranking', 'quantile', 'log', 'exp', 'sqrt', 'abs',
             'sign', '__neg__', '__abs__', 'power', '__pow__', 'clip', '__add__', '__sub__', '__mul__', '__div__'}
    GROUPS = {'reduce', 'scan', 'move', 'group', 'farray', 'elementwise', 'binary_scalar', 'keep'}
    # argmin on all-missing rows is documented to be meaningless; user functions do what they do
    SKIP = {'larry.move_func', 'move_func', 'larry.any', 'larry.all'}

    def cases(self):
        for case in catalog.everything(self.thorough):
            if case.meta.get('group') in self.GROUPS and case.entry not in self.SKIP:
                yield case

    def visit(self, I, o, case):
        if o.kind != 'return':
            return
        got = content_of(I, o.value)
        if got is None:
            return self.unknown('%s: result not understood' % case.entry)
        m = Missing(I)
        m.maybe(got)
        if m.bad is not None:
            return self.fail('%s: missing values spread' % case.entry,
                             '%r: %s is applied to %s, which may hold missing values; path: %s'
                             % (case, m.bad[0], tstr(m.bad[1])[:300], path_text(o)))
        if m.vague:
            self.unknown('%s: not understood' % case.entry)
        else:
            self.ok(case.entry, '%r: no missing value spreads in %s' % (case, tstr(got)[:300]))
        name = case.meta.get('name')
        if name in self.KEEPS:
            X = ('X', 'A')
            if I.facts.kind(('kv', 'A')) <= frozenset(['int', 'bool', 'str', 'object']) or \
                    I.facts.query(('app', 'any', ew('isnan', X))) is False:
                return
            r = at_missing(nf(got), X)
            if r == 'value':
                self.fail('%s: missing value disappears' % case.entry,
                          '%r: the result is not missing where the input is: %s; path: %s'
                          % (case, tstr(got)[:400], path_text(o)))
            elif r == 'nan':
                self.ok(case.entry + ' keeps missing values')
            else:
                self.unknown('%s: cell not understood' % case.entry)


CHECKS = [C22, C10]
