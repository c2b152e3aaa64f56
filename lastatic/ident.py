"""Identity test for value-numbering terms.

Two content terms that have different normal forms may still be the same
function (algebra the normal form does not know).  As in polynomial identity
testing, the terms are evaluated at pseudo-random points of the abstract
domain; only terms that differ at a point that satisfies the path condition
are different.  No code of /repo is involved, only terms."""
import math
import random
from . import terms as T
from .terms import K

NANV = float('nan')
# integer division rounds (only when the operands are integers; counts and constants lose their type in the terms)
INTS = [False]
INF = float('inf')


class Und(Exception):
    """the term has no meaning here"""


class Point(object):
    def __init__(self, sizes, data, syms, dims, seed=0):
        self.seed = seed
        self.sizes = sizes              # axis -> length
        self.data = data                # operand -> {index: value}
        self.syms = syms
        self.ndim = dims                # operand -> number of axes

    def axis(self, D):
        if isinstance(D, tuple) and D and D[0] in ('lab', 'free') and D[2] in self.sizes:
            return D[2]
        raise Und('axis %r' % (D,))

    # ---------------------------------------------------------------- scalars
    def scal(self, t, env):
        if T.isk(t):
            return T.kval(t)
        h = t[0]
        if h == 'poly':
            s = 0
            for m, c in t[1]:
                v = c if not hasattr(c, 'denominator') or isinstance(c, int) else float(c)
                for a in m:
                    v = arith('multiply', v, self.scal(a, env))
                s = arith('add', s, v)
            return s
        if h == 'len':
            return self.sizes[self.axis(t[1])]
        if h == 'sym':
            if t not in self.syms:
                if t[2] not in ('int', 'float', 'num', 'any'):
                    raise Und('sym')
                r = random.Random(repr((t, self.seed)))
                self.syms[t] = r.choice([1, 2, 3]) if t[2] == 'int' else r.choice([-1.5, 0.5, 2.0, 3.0])
            return self.syms[t]
        if h == 'app':
            if t[1] == 'val' and len(t) == 3:
                return self.cell(t[2], env)
            if t[1] in ('any', 'all') and len(t) == 3:
                vs = [self.cell(t[2], e) for e in self.everywhere()]
                return any(map(true, vs)) if t[1] == 'any' else all(map(true, vs))
            n = {'Div': 'divide', 'Add': 'add', 'Sub': 'subtract', 'Mult': 'multiply', 'Pow': 'power'}.get(t[1])
            if n and len(t) == 4:
                return op(n, [self.scal(t[2], env), self.scal(t[3], env)])
            raise Und(str(t[1]))
        if h in ('ew', 'red', 'scan', 'where', 'X', 'kc', 'move', 'castc', 'pin', 'ext'):
            return self.cell(t, env)
        raise Und(h)

    def everywhere(self):
        envs = [{}]
        for k in sorted(self.sizes):
            envs = [merge(e, k, i) for e in envs for i in range(self.sizes[k])]
        return envs

    # ---------------------------------------------------------------- contents
    def cell(self, t, env):
        h = t[0]
        if h == 'X':
            if t[1] not in self.data:
                raise Und('operand')
            try:
                return self.data[t[1]][tuple(env[k] for k in range(self.ndim[t[1]]))]
            except KeyError:
                raise Und('axis gone')
        if h == 'kc':
            return self.scal(t[1], env)
        if h == 'ew':
            return op(t[1], [self.cell(x, env) for x in t[2]])
        if h == 'where':
            return self.cell(t[2], env) if true(self.cell(t[1], env)) else self.cell(t[3], env)
        if h in ('castc', 'pin', 'ext', 'junk'):
            return self.cell(t[1], env)
        if h == 'app':
            return self.scal(t, env)
        if h == 'red':
            axes = [self.axis(d) for d in t[3]]
            envs = [env]
            for k in axes:
                envs = [merge(e, k, i) for e in envs for i in range(self.sizes[k])]
            return reduce_(t[1], [self.cell(t[2], e) for e in envs], self.extra(t[4:], env))
        if h == 'scan':
            k = self.axis(t[3])
            if k not in env:
                raise Und('axis gone')
            vs = [self.cell(t[2], merge(env, k, i)) for i in range(self.sizes[k])]
            return scan(t[1], vs, env[k])
        if h == 'move':
            k = self.axis(t[3])
            w = self.scal(t[4], env)
            i = env[k]
            if i + 1 < w:
                return NANV
            vs = [self.cell(t[2], merge(env, k, j)) for j in range(i + 1 - w, i + 1)]
            return reduce_(t[1].replace('move_', ''), vs, self.extra(t[5:], env))
        raise Und(h)

    def extra(self, ex, env):
        d = {}
        for e in ex:
            for kv in e:
                if not (isinstance(kv, tuple) and len(kv) == 2):
                    raise Und('extra')
                d[kv[0]] = self.scal(kv[1], env)
        return d

    # ---------------------------------------------------------------- conditions
    def truth(self, t):
        """truth value of a path condition, None when it does not speak about the data"""
        h = t[0]
        if h == 'not':
            r = self.truth(t[1])
            return None if r is None else not r
        if h in ('and', 'or'):
            rs = [self.truth(x) for x in t[1]]
            if h == 'and' and any(r is False for r in rs):
                return False
            if h == 'or' and any(r is True for r in rs):
                return True
            return None if None in rs else h == 'and'
        if h == 'truthy':
            return true(self.scal(t[1], {})) if self.speaks(t[1]) else None
        if h in ('eq', 'lt', 'le'):
            if not self.speaks(t):
                return None
            a, b = self.scal(t[1], {}), self.scal(t[2], {})
            return a == b if h == 'eq' else a < b if h == 'lt' else a <= b
        if h == 'app' and t[1] in ('any', 'all'):
            return self.scal(t, {})
        if h == 'app' and t[1] in ('isscalar', 'isinstance', 'hasattr', 'convertible') or h == 'kindin':
            return None
        if self.speaks(t):
            raise Und(repr(t)[:80])
        return None

    def speaks(self, t):
        if T.contains(t, lambda x: x and x[0] == 'X'):
            return True
        # sizes and scalar options
        if T.contains(t, lambda x: x and x[0] in ('comp', 'set', 'inter', 'union', 'diff', 'seq', 'at', 'lst')):
            return False
        return T.contains(t, lambda x: x and (x[0] == 'len' and x[1][0] in ('lab', 'free') and x[1][2] in self.sizes or
                                              x[0] == 'sym' and x[2] in ('int', 'float', 'num')))


def merge(e, k, i):
    d = dict(e)
    d[k] = i
    return d


def true(v):
    return bool(v)


def isnan(v):
    return isinstance(v, float) and v != v


def arith(n, a, b):
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        raise Und('not a number')
    try:
        if n == 'add':
            return a + b
        if n == 'subtract':
            return a - b
        if n == 'multiply':
            return a * b
        ints = INTS[0] and isinstance(a, int) and isinstance(b, int)
        if n in ('divide', 'true_divide', 'floor_divide'):
            if b == 0:
                if ints and n != 'true_divide':
                    return 0
                a = float(a)
                return NANV if a == 0 or a != a else math.copysign(INF, a) * math.copysign(1, b)
            if n == 'floor_divide' or n == 'divide' and ints:
                return a // b
            return float(a) / b
        if n == 'power':
            r = a ** b
            return NANV if isinstance(r, complex) else r
        if n == 'mod':
            return a % b if b != 0 else NANV
    except OverflowError:
        return INF
    except ZeroDivisionError:
        return INF
    raise Und(n)


def op(n, a):
    if n in ('add', 'subtract', 'multiply', 'divide', 'true_divide', 'floor_divide', 'power', 'mod') and len(a) == 2:
        return arith(n, a[0], a[1])
    if n in ('equal', 'not_equal', 'less', 'less_equal'):
        x, y = a
        return {'equal': x == y, 'not_equal': x != y}[n] if n in ('equal', 'not_equal') else \
            (x < y if n == 'less' else x <= y)
    if n == 'logical_and':
        return true(a[0]) and true(a[1])
    if n == 'logical_or':
        return true(a[0]) or true(a[1])
    if n == 'logical_xor':
        return true(a[0]) != true(a[1])
    if n == 'logical_not':
        return not true(a[0])
    if n == 'invert':
        return not a[0] if isinstance(a[0], bool) else ~a[0] if isinstance(a[0], int) else und(n)
    if n in ('bitand', 'bitor', 'bitxor') and all(isinstance(x, bool) for x in a):
        return a[0] and a[1] if n == 'bitand' else a[0] or a[1] if n == 'bitor' else a[0] != a[1]
    if n in ('maximum', 'minimum'):
        if any(isnan(x) for x in a):
            return NANV
        return max(a) if n == 'maximum' else min(a)
    if n == 'clip' and len(a) == 3:
        x, lo, hi = a
        return x if isnan(x) else min(max(x, lo), hi)
    if len(a) != 1:
        raise Und(n)
    x = a[0]
    if isinstance(x, str) or x is None:
        raise Und('not a number')
    if n == 'isnan':
        return isnan(x)
    if n == 'isinf':
        return x in (INF, -INF)
    if n == 'isfinite':
        return not isnan(x) and x not in (INF, -INF)
    if n in ('negative',):
        return -x
    if n == 'pos':
        return x
    if n in ('absolute', 'fabs'):
        return abs(x)
    if n == 'sign':
        return x if isnan(x) else (x > 0) - (x < 0)
    if n == 'square':
        return x * x
    if n == 'reciprocal':
        return arith('divide', 1.0, x)
    if isnan(x):
        if n in ('sqrt', 'log', 'log2', 'log10', 'log1p', 'exp', 'expm1', 'floor', 'ceil', 'rint', 'sin', 'cos', 'tan'):
            return NANV
        raise Und(n)
    try:
        if n == 'sqrt':
            return NANV if x < 0 else math.sqrt(x)
        if n in ('log', 'log2', 'log10'):
            return NANV if x < 0 else -INF if x == 0 else math.log(x) / {'log': 1.0, 'log2': math.log(2), 'log10': math.log(10)}[n]
        if n == 'log1p':
            return math.log1p(x)
        if n == 'exp':
            return math.exp(x)
        if n == 'expm1':
            return math.expm1(x)
        if n in ('floor', 'ceil') and abs(x) != INF:
            return float(math.floor(x) if n == 'floor' else math.ceil(x))
    except OverflowError:
        return INF
    except ValueError:
        return NANV
    raise Und(n)


def und(n):
    raise Und(n)


def reduce_(n, vs, extra):
    if n in ('any', 'all'):
        return any(map(true, vs)) if n == 'any' else all(map(true, vs))
    if any(isinstance(v, str) or v is None for v in vs):
        raise Und('not a number')
    nan = n.startswith('nan')
    base = n[3:] if nan else n
    if base not in ('sum', 'prod', 'mean', 'median', 'std', 'var', 'max', 'min', 'ptp') or set(extra) - {'ddof'}:
        raise Und(n)
    if nan:
        vs = [v for v in vs if not isnan(v)]
        if not vs:
            return 1.0 if base == 'prod' else NANV
    elif any(isnan(v) for v in vs) and base in ('median', 'max', 'min', 'ptp'):
        return NANV
    if not vs:
        raise Und('empty')
    vs = [int(v) if isinstance(v, bool) else v for v in vs]
    if base == 'sum':
        return total(vs)
    if base == 'prod':
        r = 1
        for v in vs:
            r = arith('multiply', r, v)
        return r
    if base == 'mean':
        return float(total(vs)) / len(vs)
    if base == 'median':
        s = sorted(vs)
        m = len(s) // 2
        return float(s[m]) if len(s) % 2 else (s[m - 1] + s[m]) / 2.0
    if base == 'max':
        return max(vs)
    if base == 'min':
        return min(vs)
    if base == 'ptp':
        return max(vs) - min(vs)
    m = float(total(vs)) / len(vs)
    v = arith('divide', total([(x - m) ** 2 for x in vs]), float(len(vs) - extra.get('ddof', 0)))
    return v if base == 'var' else op('sqrt', [v])


def total(vs):
    s = 0
    for v in vs:
        s = s + v
    return s


def scan(n, vs, i):
    if n in ('cumsum', 'cumprod'):
        r = vs[0]
        for v in vs[1:i + 1]:
            r = arith('add' if n == 'cumsum' else 'multiply', r, v)
        return r
    if n in ('nanrank', 'rank'):
        x = vs[i]
        if isnan(x):
            if n == 'rank':
                raise Und(n)
            return NANV
        ok = [v for v in vs if not isnan(v)]
        return sum(v < x for v in ok) + (sum(v == x for v in ok) + 1) / 2.0
    raise Und(n)


# ------------------------------------------------------------------ points
def points(seed, shapes, kind, inf, n):
    """shapes: operand -> number of axes"""
    r = random.Random('%s-%s-%s' % (seed, sorted(shapes.items()), kind))
    nd = max(shapes.values())
    for i in range(n):
        sizes = dict((k, r.choice([1, 2, 2, 3, 3, 4])) for k in range(nd))
        mode = i % 6
        data = {}
        shared = [r.choice([-2.0, -0.5, 1.0, 3.0, 0.25]) for _ in range(3)]
        for w in sorted(shapes):
            cells = {}
            idx = [()]
            for k in range(shapes[w]):
                idx = [x + (j,) for x in idx for j in range(sizes[k])]
            positive = mode in (1, 3)
            for x in idx:
                if kind == 'bool':
                    v = r.random() < .5
                elif kind == 'int':
                    v = r.randint(1, 6) if positive else r.randint(-4, 5)
                else:
                    v = r.choice(shared + [0.0, r.uniform(-3, 4), r.uniform(-3, 4), float(r.randint(1, 4))])
                    if positive:
                        v = abs(v) + 0.5
                    p = [0, 0, .35, .35, .7, 1][mode]
                    if r.random() < p:
                        v = NANV
                    elif inf and r.random() < .25:
                        v = r.choice([INF, -INF]) if not positive else INF
                cells[x] = v
            data[w] = cells
        yield Point(sizes, data, {}, dict(shapes), i)


def close(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a == b
    if isnan(a) or isnan(b):
        return isnan(a) and isnan(b)
    if a == b:
        return True
    if a in (INF, -INF) or b in (INF, -INF):
        return False
    return abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b))


def compare(I, got, wants, shapes, taken, axes, n=180):
    """('same', number of points) / ('different', text) / (None, why)

    wants: acceptable contents; axes: the axes of the result, for each point
    the cells over them are compared"""
    kinds = [I.facts.kind(('kv', w)) for w in shapes]
    kind = 'float' if all('inexact' in k for k in kinds) else 'int' if all('int' in k for k in kinds) else \
        'bool' if all('bool' in k for k in kinds) else None
    if kind is None:
        return None, 'kind'
    conds = list(taken)
    INTS[0] = kind != 'float'
    inf = any(T.contains(t, lambda x: x in ('isfinite', 'isinf')) for t in [got] + list(wants)) or \
        'isfinite' in repr(got) or 'isinf' in repr(got)
    used = 0
    left = list(wants)
    why = None
    for p in points('la', shapes, kind, inf, n):
        try:
            if not all(p.truth(t) in (v, None) for t, v in conds):
                continue
        except Und as e:
            why = 'condition: %s' % e
            continue
        envs = [{}]
        for k in axes:
            envs = [merge(e, k, i) for e in envs for i in range(p.sizes[k])]
        try:
            a = [p.cell(got, e) for e in envs]
        except Und as e:
            return None, str(e)
        keep = []
        for w in left:
            try:
                if all(close(x, p.cell(w, e)) for x, e in zip(a, envs)):
                    keep.append(w)
            except Und as e:
                return None, str(e)
        used += 1
        if not keep:
            bad = [(e, x, [p.cell(w, e) for w in left]) for x, e in zip(a, envs)]
            bad = [b for b in bad if not any(close(b[1], y) for y in b[2])] or bad
            e, x, y = bad[0]
            return 'different', 'with %s the cell %s is %r, documented %r' % (
                show(p), tuple(e[k] for k in sorted(e)), x, y[0])
        left = keep
    if not used:
        return None, why or 'no point on the path'
    return 'same', used


def show(p):
    out = []
    for w in sorted(p.data):
        out.append('%s = %s' % (w, [p.data[w][k] if not isinstance(p.data[w][k], float) else round(p.data[w][k], 3)
                                   for k in sorted(p.data[w])]))
    return '; '.join(out)[:200]
