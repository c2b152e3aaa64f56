"""Judgements about the content terms of arrays (what one cell holds)."""
from . import terms as T
from .terms import K, TRUE, FALSE, NONE
from .oracle import has_head, unknown_term

NAN = K(float('nan'))

ARITH = ('add', 'subtract', 'multiply', 'divide', 'true_divide', 'floor_divide', 'power', 'mod')
BOOLEAN = ('equal', 'not_equal', 'less', 'less_equal', 'isnan', 'isfinite', 'isinf', 'logical_and', 'logical_or',
           'logical_not', 'logical_xor', 'signbit')


def ew(name, *cs):
    from .models import ewc
    return ewc(name, cs)


def kc(v):
    return ('kc', K(v))


# ------------------------------------------------------------------ normal form
def counted(n, a):
    """is the comparison of a count of true cells with 0 the statement that
    there is one?  (negated?, boolean content, axes)"""
    for x, y, op in ((a[0], a[1], n), (a[1], a[0], SWAP[n])):
        # x op y with y the count
        if y[0] == 'red' and y[1] == 'sum' and x[0] == 'kc' and (y[2][0] == 'ew' and y[2][1] in BOOLEAN or
                                                                 y[2][0] == 'red' and y[2][1] in ('any', 'all')):
            if x[1] == K(0) and op in ('less', 'not_equal') or x[1] == K(1) and op == 'less_equal':
                return False, y[2], y[3]
            if x[1] == K(0) and op in ('equal', 'greater_equal') or x[1] == K(1) and op == 'greater':
                return True, y[2], y[3]
    return None


SWAP = {'less': 'greater', 'greater': 'less', 'less_equal': 'greater_equal', 'greater_equal': 'less_equal',
        'equal': 'equal', 'not_equal': 'not_equal'}


FOLD = {'add': T.padd, 'subtract': T.psub, 'multiply': T.pmul}


def number(t):
    """scalar term that stands for a number"""
    return T.isk(t) and t[1] in ('int', 'float') and t[2] != 'nan' or t[0] in ('poly', 'len', 'size') or \
        t[0] == 'sym' and t[2] in ('int', 'float', 'num')


def nf(t):
    """normal form of a content term: one spelling for equal formulas"""
    if not isinstance(t, tuple) or not t or T.isk(t):
        return t
    if t[0] in ('X', 'lab', 'seq', 'sym', 'free'):
        return t
    t = tuple(nf(x) for x in t)
    h = t[0]
    if h == 'kc' and isinstance(t[1], tuple) and t[1] and t[1][0] in ('ew', 'red', 'where', 'X', 'scan', 'app'):
        return lift(t[1])
    if h == 'kc' and T.isk(t[1]) and t[1][1] in ('float', 'bool') and t[1][2] != 'nan' and t[1][2] == int_of(t[1][2]):
        return ('kc', K(int_of(t[1][2])))
    if h == 'app' and len(t) == 3 and t[1] == 'val':
        return t[2]
    if h == 'app' and t[1] in ('Div', 'Add', 'Sub', 'Mult', 'Pow') and len(t) == 4:
        return nf(('ew', {'Div': 'divide', 'Add': 'add', 'Sub': 'subtract', 'Mult': 'multiply', 'Pow': 'power'}[t[1]],
                   (lift(t[2]), lift(t[3]))))
    if h == 'where':
        c, a, b = t[1:]
        if c[0] == 'ew' and c[1] == 'logical_not':
            c, a, b = c[2][0], b, a
        if a == b:
            return a
        return ('where', c, a, b)
    if h == 'ew' and t[1] in FOLD and len(t[2]) == 2 and all(x[0] == 'kc' and number(x[1]) for x in t[2]):
        return nf(('kc', FOLD[t[1]](t[2][0][1], t[2][1][1])))
    if h == 'red' and t[2][0] == 'red' and t[1] == t[2][1] and t[1] in ('any', 'all', 'sum', 'prod', 'max', 'min') and \
            t[4:] in ((), ((),)) and t[2][4:] in ((), ((),)) and not set(t[3]) & set(t[2][3]):
        return nf(('red', t[1], t[2][2], tuple(sorted(t[3] + t[2][3], key=repr))) + t[4:])
    if h == 'red' and t[1] == 'sum' and t[2][0] == 'kc' and number(t[2][1]):
        n = t[2][1]
        for d in t[3]:
            n = T.pmul(n, T.length(d))
        return nf(('kc', n))
    if h == 'ew' and t[1] in SWAP and len(t[2]) == 2:
        e = counted(t[1], t[2])
        if e is not None:
            r = ('red', 'any', e[1], e[2], ())
            return nf(('ew', 'logical_not', (r,)) if e[0] else r)
    if h == 'ew':
        n, a = t[1], t[2]
        if n == 'negative' and a[0][0] == 'ew' and a[0][1] == 'subtract':
            return ('ew', 'subtract', a[0][2][::-1])
        if n == 'negative' and a[0][0] == 'ew' and a[0][1] == 'negative':
            return a[0][2][0]
        if n == 'add' and len(a) == 2:
            for x, y in (a, a[::-1]):
                if y[0] == 'ew' and y[1] == 'negative':
                    return nf(('ew', 'subtract', (x, y[2][0])))
        if n == 'subtract' and a[1][0] == 'ew' and a[1][1] == 'negative':
            return nf(('ew', 'add', (a[0], a[1][2][0])))
        if n == 'multiply' and all(x[0] == 'ew' and x[1] in BOOLEAN for x in a):
            return nf(('ew', 'logical_and', a))
        if n == 'multiply' and kc(-1) in a:
            return nf(('ew', 'negative', tuple(x for x in a if x != kc(-1))))
        if n == 'logical_not' and a[0][0] == 'ew' and a[0][1] == 'logical_not':
            return a[0][2][0]
        if n == 'logical_not' and a[0][0] == 'ew' and a[0][1] == 'equal':
            return ('ew', 'not_equal', a[0][2])
        if n == 'logical_not' and a[0][0] == 'ew' and a[0][1] == 'not_equal':
            return ('ew', 'equal', a[0][2])
        if n == 'invert':
            return ('ew', 'invert', a)
        if n in ('add', 'multiply', 'logical_and', 'logical_or', 'equal', 'not_equal', 'maximum', 'minimum'):
            a = tuple(sorted(a, key=repr))
            return ('ew', n, a)
        if n == 'sqrt' and a[0][0] == 'red' and a[0][1] == 'nanvar':
            return ('red', 'nanstd') + a[0][2:]
        if n == 'power' and a[1] == kc(0.5):
            return nf(('ew', 'sqrt', a[:1]))
    if h == 'red' and t[1] == 'sum' and t[2][0] == 'ew' and t[2][1] == 'logical_not' and t[2][2][0][0] == 'ew' and \
            t[2][2][0][1] == 'isnan':
        n = K(1)
        for d in t[3]:
            n = T.pmul(n, T.length(d))
        return ('ew', 'subtract', (('kc', n), ('red', 'sum', t[2][2][0]) + t[3:]))
    if h == 'red':
        # sum over where(isnan(x), 0, x) is nansum(x)
        m = {('sum', 0): 'nansum', ('prod', 1): 'nanprod'}
        if t[2][0] == 'where' and t[2][1] == ('ew', 'isnan', (t[2][3],)) and t[2][2][0] == 'kc' and T.isk(t[2][2][1]):
            n = m.get((t[1], t[2][2][1][2]))
            if n:
                return ('red', n, t[2][3]) + t[3:]
        if t[1] in ('nanstd', 'nanvar') and t[4:] == (('ddof', K(0)),) or \
                t[1] in ('nanstd', 'nanvar') and len(t) > 4 and t[4] == (('ddof', K(0)),):
            return t[:4] + ((),)
    return t


def lift(t):
    """scalar term -> uniform content"""
    if isinstance(t, tuple) and t and t[0] in ('ew', 'red', 'kc', 'where', 'X', 'scan'):
        return t
    return ('kc', t)


def int_of(v):
    try:
        return int(v)
    except (ValueError, OverflowError):
        return None


# ------------------------------------------------------------------ operands
def strip(t):
    """the operand behind alignment, casts and replaced missing values"""
    while True:
        h = t[0]
        if h in ('ext', 'castc', 'junk'):
            t = t[1]
        elif h == 'where' and t[2][0] == 'kc' and t[2][1][0] == 'sym' and t[2][1][1] in ('m1', 'm2'):
            t = t[3]
        else:
            return t


def strip_all(t):
    if not isinstance(t, tuple) or not t or T.isk(t):
        return t
    t = strip(t) if isinstance(t[0], str) else t
    return tuple(strip_all(x) for x in t)


VOCAB = {'ew', 'red', 'scan', 'where', 'X', 'kc', 'k', 'sym', 'lab', 'free', 'poly', 'len', 'app', 'move', 'ddof',
         'castc', 'ext', 'pin'}


def understood(t):
    """made only of constructors whose meaning the normal form knows"""
    if unknown_term(t):
        return False
    if not isinstance(t, tuple):
        return True
    if t and isinstance(t[0], str):
        if T.isk(t):
            return True
        if t[0] not in VOCAB:
            return False
        if t[0] == 'app' and t[1] not in ('val', 'any', 'all', 'Div', 'Add', 'Sub', 'Mult', 'Pow'):
            return False
    return all(understood(x) for x in t if isinstance(x, tuple))


# ------------------------------------------------------------------ missing values
PROPAGATE = {'sum', 'mean', 'std', 'var', 'median', 'max', 'min', 'prod', 'ptp', 'cumsum', 'cumprod', 'average',
             'argmax', 'argmin', 'argsort', 'sort', 'rank', 'corrcoef', 'cov', 'dot'}


class Missing(object):
    """can a missing value of an input contaminate this content?"""

    def __init__(self, I):
        self.I = I
        self.bad = None             # (reducer, argument)
        self.vague = False
        self.facts = frozenset()
        for t, v in I.taken:
            if v is False and t[0] == 'app' and t[1] == 'any' and len(t) == 3:
                self.facts |= self.implied(t[2], False)
            if v is True and t[0] == 'app' and t[1] == 'all' and len(t) == 3:
                self.facts |= self.implied(t[2], True)

    def inexact(self, t):
        """operand X of a kind that cannot hold NaN?"""
        if t[0] == 'X':
            k = self.I.facts.kind(('kv', t[1]))
            return 'inexact' in k
        return True

    def maybe(self, t, clean=frozenset()):
        """may this content hold a missing value that came from an input?
        True, False or None (not understood)"""
        if t in clean or t in self.facts:
            return False
        if T.isk(t) or not isinstance(t, tuple) or not t:
            return False
        h = t[0]
        if h == 'X':
            if not self.inexact(t):
                return False
            return t not in self.facts
        if h == 'kc':
            c = t[1]
            if c == NAN:
                return False            # a missing value the code put there itself
            if isinstance(c, tuple) and c and c[0] in ('ew', 'red', 'app', 'where', 'pin'):
                return self.maybe(c, clean)
            return False
        if h == 'app' and t[1] == 'val':
            return self.maybe(t[2], clean)
        if h == 'app' and t[1] in ('Div', 'Add', 'Sub', 'Mult', 'Pow'):
            return self.some([self.maybe(x, clean) for x in t[2:]])
        if h == 'app' and t[1] in ('any', 'all', 'count'):
            return False
        if h == 'ew':
            if t[1] in BOOLEAN:
                for x in t[2]:
                    self.maybe(x, clean)
                return False
            return self.some([self.maybe(x, clean) for x in t[2]])
        if h == 'where':
            c, a, b = t[1:]
            ca, cb = clean | self.implied(c, True), clean | self.implied(c, False)
            return self.some([self.maybe(a, ca), self.maybe(b, cb)])
        if h in ('red', 'scan'):
            name, arg, D = t[1], t[2], t[3]
            m = self.maybe(arg, clean)
            if name.startswith('nan') or name in ('any', 'all'):
                return False
            if name in PROPAGATE:
                if self.masked(D):
                    self.vague = True
                    return None
                if m and self.bad is None:
                    self.bad = (name, arg)
                if m is None:
                    self.vague = True
                return m
            self.vague = True
            return None
        if h == 'move':
            self.maybe(t[2], clean)
            if t[1].startswith('move_nan'):
                return False
            m = self.maybe(t[2], clean)
            if m and self.bad is None:
                self.bad = (t[1], t[2])
            return m
        if h in ('castc', 'pin', 'mis', 'window'):
            return self.maybe(t[1], clean)
        if h == 'upd':
            r = [self.maybe(t[1], clean)]
            for x in t[3:]:
                if isinstance(x, tuple):
                    r.append(self.maybe(x, clean))
            return self.some(r)
        if h == 'nanlike':
            return False
        for x in t[1:]:
            if isinstance(x, tuple):
                self.scan(x, clean)
        self.vague = True
        return None

    def scan(self, t, clean):
        """look for reductions inside a term that is not understood"""
        if isinstance(t, tuple) and t and isinstance(t[0], str):
            if t[0] in ('red', 'scan', 'ew', 'where', 'move', 'upd'):
                self.maybe(t, clean)
                return
        if isinstance(t, tuple):
            for x in t:
                self.scan(x, clean)

    @staticmethod
    def some(xs):
        if any(x is True for x in xs):
            return True
        if any(x is None for x in xs):
            return None
        return False

    @staticmethod
    def masked(D):
        """axes that are a selection of positions"""
        return T.contains(D, lambda x: x and x[0] == 'comp' and len(x) == 4 and x[3] != TRUE) or \
            T.contains(D, lambda x: x and x[0] in ('opq', 'perm'))

    def implied(self, c, val):
        """contents known not to be missing when condition c has this value"""
        if c[0] == 'ew':
            n, a = c[1], c[2]
            if n == 'isnan' and val is False:
                return frozenset(a)
            if n == 'isfinite' and val is True:
                return frozenset(a)
            if n == 'logical_not':
                return self.implied(a[0], not val)
            if n in ('logical_and', 'multiply') and val is True or n == 'logical_or' and val is False:
                return frozenset().union(*[self.implied(x, val) for x in a])
        return frozenset()


def at_missing(t, X):
    """what a cell holds where input X is missing: 'nan', 'value' or None"""
    if t == X:
        return 'nan'
    if T.isk(t) or not isinstance(t, tuple) or not t:
        return None
    h = t[0]
    if h == 'kc':
        if t[1] == NAN:
            return 'nan'
        return 'value' if T.isk(t[1]) or t[1][0] in ('sym', 'len', 'poly') else None
    if h == 'ew':
        n, a = t[1], t[2]
        if n in ARITH or n in ('negative', 'log', 'exp', 'sqrt', 'absolute', 'sign', 'clip'):
            r = [at_missing(x, X) for x in a]
            if any(x == 'nan' for x in r):
                return 'nan'
            if all(x == 'value' for x in r):
                return 'value'
        return None
    if h == 'where':
        c = truth_at_missing(t[1], X)
        if c is True:
            return at_missing(t[2], X)
        if c is False:
            return at_missing(t[3], X)
        a, b = at_missing(t[2], X), at_missing(t[3], X)
        return a if a == b else None
    if h == 'scan':
        if t[1] == 'nanrank':
            return at_missing(t[2], X)
        r = at_missing(t[2], X)
        return r if t[1] in ('cumsum', 'cumprod') else None
    if h == 'castc':
        return at_missing(t[1], X)
    if h == 'nanlike':
        return 'nan'
    return None


def truth_at_missing(c, X):
    if c[0] != 'ew':
        return None
    n, a = c[1], c[2]
    if n == 'isnan' and len(a) == 1:
        return {'nan': True, 'value': False}.get(at_missing(a[0], X))
    if n == 'isfinite':
        return {'nan': False}.get(at_missing(a[0], X))
    if n == 'logical_not':
        r = truth_at_missing(a[0], X)
        return None if r is None else not r
    rs = [truth_at_missing(x, X) for x in a]
    if n in ('logical_and', 'multiply'):
        return False if any(r is False for r in rs) else True if all(r is True for r in rs) else None
    if n == 'logical_or':
        return True if any(r is True for r in rs) else False if all(r is False for r in rs) else None
    if n in ('less', 'less_equal', 'equal') and any(at_missing(x, X) == 'nan' for x in a):
        return False
    if n == 'not_equal' and any(at_missing(x, X) == 'nan' for x in a):
        return True
    return None


# ------------------------------------------------------------------ formulas
def rat(t):
    """content term -> (numerator, denominator), polynomials over the parts
    that are not arithmetic"""
    from fractions import Fraction
    if t[0] == 'kc' and T.isk(t[1]) and t[1][1] in ('int', 'float', 'bool') and t[1][2] != 'nan' \
            and t[1][2] not in (float('inf'), float('-inf')):
        v = Fraction(t[1][2])
        return ({(): v} if v else {}), {(): Fraction(1)}
    if t[0] == 'kc' and t[1][0] == 'poly':
        n, q = {}, {(): Fraction(1)}
        for m, c in t[1][1]:
            xn, xd = {(): Fraction(c)}, {(): Fraction(1)}
            for x in m:
                yn, yd = rat(x if x[0] == 'ew' else ('kc', x))
                xn, xd = pm(xn, yn), pm(xd, yd)
            n, q = pa(pm(n, xd), pm(xn, q), 1), pm(q, xd)
        return n, q
    if t[0] == 'ew' and t[1] in ('add', 'subtract', 'multiply', 'divide', 'true_divide') and len(t[2]) == 2:
        (an, ad), (bn, bd) = rat(t[2][0]), rat(t[2][1])
        if t[1] == 'multiply':
            return pm(an, bn), pm(ad, bd)
        if t[1] in ('divide', 'true_divide'):
            return pm(an, bd), pm(ad, bn)
        return pa(pm(an, bd), pm(bn, ad), 1 if t[1] == 'add' else -1), pm(ad, bd)
    if t[0] == 'ew' and t[1] == 'negative':
        n, d = rat(t[2][0])
        return dict((m, -c) for m, c in n.items()), d
    return {(repr(canon(t)),): Fraction(1)}, {(): Fraction(1)}


def canon(t):
    """one spelling for equal real formulas"""
    if not isinstance(t, tuple) or not t or T.isk(t) or not isinstance(t[0], str):
        return tuple(canon(x) for x in t) if isinstance(t, tuple) and t and not T.isk(t) else t
    if t[0] == 'ew' and t[1] in ('add', 'subtract', 'multiply', 'divide', 'true_divide', 'negative') or \
            t[0] == 'kc' and t[1][0] == 'poly':
        n, d = rat(t)
        if not n:
            return ('kc', K(0))
        ms = list(n) + list(d)
        common = list(ms[0])
        for m in ms[1:]:
            rest = list(m)
            common = [x for x in common if x in rest and (rest.remove(x) or True)]
        def less(m):
            m = list(m)
            for x in common:
                m.remove(x)
            return tuple(m)
        lead = d[min(d)]
        return ('rat', tuple(sorted((less(m), c / lead) for m, c in n.items())),
                tuple(sorted((less(m), c / lead) for m, c in d.items())))
    return tuple(canon(x) for x in t)


def pm(a, b):
    d = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2))
            d[m] = d.get(m, 0) + c1 * c2
            if d[m] == 0:
                del d[m]
    return d


def pa(a, b, s):
    d = dict(a)
    for m, c in b.items():
        d[m] = d.get(m, 0) + s * c
        if d[m] == 0:
            del d[m]
    return d


def same_formula(a, b):
    """are two contents in normal form the same real function"""
    if a == b or canon(a) == canon(b):
        return True
    if a[0] == b[0] == 'where':
        return same_formula(a[1], b[1]) and same_formula(a[2], b[2]) and same_formula(a[3], b[3])
    if a[0] == b[0] == 'red' and a[1] == b[1] and a[3:] == b[3:]:
        return same_formula(a[2], b[2])
    if a[0] == b[0] == 'ew' and a[1] == b[1] == 'equal':
        (an, ad), (bn, bd) = [rat(('ew', 'subtract', x[2])) for x in (a, b)]
        return pm(an, bd) in (pm(bn, ad), dict((m, -c) for m, c in pm(bn, ad).items()))
    if a[0] == b[0] == 'ew' and a[1] == b[1] and a[1] in ('logical_and', 'logical_or'):
        return len(a[2]) == len(b[2]) and all(any(same_formula(x, y) for y in b[2]) for x in a[2]) and \
            all(any(same_formula(x, y) for x in a[2]) for y in b[2])
    if a[0] == b[0] == 'ew' and a[1] == b[1] and a[1] not in ARITH and len(a[2]) == len(b[2]):
        return all(same_formula(x, y) for x, y in zip(a[2], b[2]))
    (an, ad), (bn, bd) = rat(a), rat(b)
    return pm(an, bd) == pm(bn, ad)
