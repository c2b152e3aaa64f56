"""Path facts: what the branch decisions taken so far imply."""
from fractions import Fraction
from . import terms as T
from .terms import K, TRUE, FALSE

ALLKINDS = frozenset(['inexact', 'int', 'bool', 'str', 'object', 'other'])


class Layer(object):
    def __init__(self):
        self.memo = {}
        self.bounds = {}
        self.sub = {}
        self.kinds = {}
        self.uniq = set()

    def copy(self):
        l = Layer()
        l.memo = dict(self.memo)
        l.bounds = dict(self.bounds)
        l.sub = dict(self.sub)
        l.kinds = dict(self.kinds)
        l.uniq = set(self.uniq)
        return l


def is_intatom(a):
    if a[0] in ('len', 'j', 'pos', 'size'):
        return True
    if a[0] == 'sym' and a[2] == 'int':
        return True
    if a[0] == 'app' and a[1] in ('//int', 'count'):
        return True
    return False


class Facts(object):

    def __init__(self):
        self.layers = [Layer()]
        self.version = 0
        self._cache = {}

    # -------------------------------------------------------------- utils
    def _bump(self):
        self.version += 1
        self._cache = {}

    def _has_sub(self):
        return any(l.sub for l in self.layers)

    def lookup(self, attr, key):
        for l in reversed(self.layers):
            d = getattr(l, attr)
            if key in d:
                return d[key]
        return None

    def norm(self, t):
        if not isinstance(t, tuple) or not self._has_sub():
            return t
        c = self._cache.get(t)
        if c is not None:
            return c
        new = tuple(self.norm(x) if isinstance(x, tuple) else x for x in t)
        if new != t:
            new = T.rebuild(new)
        for l in self.layers:
            if new in l.sub:
                new = self.norm(l.sub[new])
                break
        self._cache[t] = new
        return new

    # -------------------------------------------------------------- uniqueness
    def uniq(self, S, depth=0):
        S = self.norm(S) if depth == 0 else S
        if depth > 12:
            return False
        h = S[0]
        if h == 'lab':
            return True
        for l in self.layers:
            if S in l.uniq:
                return True
        if h in ('srt', 'slist', 'firsts'):
            return True
        if h == 'lst':
            if len(S) <= 2:
                return True
            ks = S[1:]
            if all(T.isk(k) for k in ks):
                return len(set(ks)) == len(ks)
            for i in range(len(ks)):
                for j in range(i):
                    if self.query(T.eq(ks[i], ks[j])) is not False:
                        return False
            return True
        if h == 'slc':
            return self.uniq(S[1], depth + 1)
        if h == 'perm':
            return self.uniq(S[1], depth + 1)
        if h == 'cat':
            return False
        if h == 'comp':
            if len(S[1]) == 1:
                (j, n), = S[1]
                return self._inj(S[2], j, depth)
            # product of label lists
            f = S[2]
            if f[0] in ('tup', 'lst'):
                for j, n in S[1]:
                    if not any(self._inj(x, j, depth) for x in f[1:]):
                        return False
                return True
            return False
        if h in ('ups', 'seq', 'opq', 'vals'):
            a, b = ('len', ('set', S)), T.length(S)
            return bool(self.lookup('memo', T.eq(a, b))) or self.query(T.eq(a, b), nouniq=True) is True
        return False

    def _inj(self, f, j, depth):
        """is position -> f injective in j ?"""
        if f == ('j', j):
            return True
        if f[0] == 'at' and j not in T.free_j(f[1]):
            if f[2][0] == 'at' and f[2][1][0] == 'seq' and self.query(T.le(T.K(0), f[2])) is not True:
                return False            # -1 and the last position are two numbers for one place
            return self.uniq(f[1], depth + 1) and self._inj(f[2], j, depth + 1)
        if f[0] == 'pos' and j not in T.free_j(f[1]):
            return self._inj(f[2], j, depth + 1)
        if f[0] in ('tup', 'lst'):
            return any(self._inj(x, j, depth) for x in f[1:])
        if f[0] == 'poly':
            js = [m for m, c in f[1] if any(j in T.free_j(a) for a in m)]
            return len(js) == 1 and js[0] == (('j', j),)
        return False

    # -------------------------------------------------------------- bounds
    def _polykey(self, d):
        """d: poly dict -> (key, scale, const): d = scale*key + const"""
        const = d.get((), 0)
        items = sorted(((m, c) for m, c in d.items() if m != ()),
                       key=lambda x: repr(x[0]))
        if not items:
            return None, 0, const
        s = items[0][1]
        key = tuple((m, Fraction(c) / Fraction(s)) for m, c in items)
        return key, s, const

    def _isintkey(self, key):
        return all(c.denominator == 1 and all(is_intatom(a) for a in m)
                   for m, c in key)

    def _atom_bounds(self, m):
        """(lo, hi) of a monomial (None = unknown)"""
        lo = hi = None
        if len(m) == 1:
            a = m[0]
            if a[0] in ('len', 'size', 'pos', 'j') or (a[0] == 'app' and a[1] == 'count'):
                lo = 0
            if a[0] == 'len' and a[1][0] == 'set' and a[1][1][0] == 'lst':
                hi = len(a[1][1]) - 1
            key = ((m, Fraction(1)),)
        else:
            key = ((m, Fraction(1)),)
            if all(a[0] in ('len', 'size', 'j') for a in m):
                lo = 0
        for l in self.layers:
            b = l.bounds.get(key)
            if b:
                if b[0] is not None and (lo is None or b[0] > lo):
                    lo = b[0]
                if b[1] is not None and (hi is None or b[1] < hi):
                    hi = b[1]
        return lo, hi

    def bounds(self, t):
        lo, hi = self._bounds(t)
        if hi is not None and lo is not None:
            return lo, hi
        # an index found in a sequence is less than its length
        d = T.topoly(self.norm(t))
        for m, c in list(d.items()):
            if len(m) == 1 and m[0][0] == 'pos' and len(m[0]) == 3:
                d2 = dict(d)
                del d2[m]
                u = T.pmul(K(c), T.psub(T.length(m[0][1]), K(1)))
                a, b = self._bounds(T.padd(T.frompoly(d2), u))
                if c > 0 and b is not None and (hi is None or b < hi):
                    hi = b
                if c < 0 and a is not None and (lo is None or a > lo):
                    lo = a
        return lo, hi

    def _bounds(self, t):
        d = T.topoly(self.norm(t))
        try:
            key, s, const = self._polykey(d)
        except TypeError:
            return None, None
        if key is None:
            return const, const
        lo = hi = None
        slo = shi = 0
        for m, c in key:
            a, b = self._atom_bounds(m)
            if c < 0:
                a, b = b, a
            slo = None if (slo is None or a is None) else slo + a * c
            shi = None if (shi is None or b is None) else shi + b * c
        lo, hi = slo, shi
        for l in self.layers:
            b = l.bounds.get(key)
            if b:
                if b[0] is not None and (lo is None or b[0] > lo):
                    lo = b[0]
                if b[1] is not None and (hi is None or b[1] < hi):
                    hi = b[1]
        if s < 0:
            lo, hi = hi, lo
        lo = None if lo is None else lo * s + const
        hi = None if hi is None else hi * s + const
        return lo, hi

    def _add_bound(self, d, op):
        """assume d <= 0 (op 'le') or d < 0 ('lt')"""
        try:
            key, s, const = self._polykey(d)
        except TypeError:
            return
        if key is None:
            return
        lim = Fraction(-const) / Fraction(s) if not isinstance(const, float) \
            else -const / s
        L = self.layers[-1]
        lo, hi = L.bounds.get(key, (None, None))
        integral = self._isintkey(key)
        if s > 0:       # key <= lim
            if integral:
                import math
                v = math.floor(lim)
                if op == 'lt' and v == lim:
                    v -= 1
            else:
                v = lim if op == 'le' else lim - Fraction(1, 10**9)
            if hi is None or v < hi:
                hi = v
        else:
            if integral:
                import math
                v = math.ceil(lim)
                if op == 'lt' and v == lim:
                    v += 1
            else:
                v = lim if op == 'le' else lim + Fraction(1, 10**9)
            if lo is None or v > lo:
                lo = v
        L.bounds[key] = (lo, hi)
        # integer atom pinned to a constant
        if lo is not None and lo == hi and len(key) == 1 and len(key[0][0]) == 1 \
                and key[0][1] == 1 and integral:
            L.sub[key[0][0][0]] = K(int(lo))

    # -------------------------------------------------------------- query
    def query(self, t, nouniq=False):
        t = self.norm(t)
        if t == TRUE:
            return True
        if t == FALSE:
            return False
        h = t[0]
        m = self.lookup('memo', t)
        if m is not None:
            return m
        if h == 'not':
            q = self.query(t[1])
            return None if q is None else not q
        if h == 'and':
            qs = [self.query(x) for x in t[1]]
            if any(q is False for q in qs):
                return False
            if all(q is True for q in qs):
                return True
            return None
        if h == 'or':
            qs = [self.query(x) for x in t[1]]
            if any(q is True for q in qs):
                return True
            if all(q is False for q in qs):
                return False
            return None
        if h in ('le', 'lt'):
            try:
                lo, hi = self.bounds(T.psub(t[1], t[2]))
            except TypeError:
                return None
            if h == 'le':
                if hi is not None and hi <= 0:
                    return True
                if lo is not None and lo > 0:
                    return False
            else:
                if hi is not None and hi < 0:
                    return True
                if lo is not None and lo >= 0:
                    return False
            return None
        if h == 'eq':
            a, b = t[1], t[2]
            if self._numeric(a) and self._numeric(b):
                try:
                    lo, hi = self.bounds(T.psub(a, b))
                except TypeError:
                    return None
                if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                    return False
                if lo is not None and lo == hi == 0:
                    return True
            if not nouniq:
                for x, y in ((a, b), (b, a)):
                    if x[0] == 'len' and x[1][0] == 'set' and \
                            T.length(x[1][1]) == y and self.uniq(x[1][1]):
                        return True
            if self._isseq(a) and self._isseq(b):
                la, lb = T.length(a), T.length(b)
                q = self.query(T.eq(la, lb)) if la != lb else True
                if q is False:
                    return False
                for x, y in ((a, b), (b, a)):
                    if y[0] == 'lst' and len(set(y[1:])) < len(y) - 1 and self.uniq(x):
                        return False
            return None
        if h == 'kindin':
            cur = self.kind(t[1])
            if cur <= t[2]:
                return True
            if not (cur & t[2]):
                return False
            return None
        if h == 'truthy':
            x = t[1]
            if self._numeric(x):
                q = self.query(T.eq(x, K(0)))
                return None if q is None else not q
        return None

    def _numeric(self, t):
        return (T.isk(t) and t[1] in ('int', 'float', 'bool')) or t[0] in (
            'poly', 'len', 'j', 'pos', 'size') or \
            (t[0] == 'sym' and t[2] in ('int', 'float', 'num'))

    def _isseq(self, t):
        return t[0] in ('lab', 'seq', 'lst', 'cat', 'slc', 'comp', 'srt',
                        'slist', 'firsts', 'perm', 'vals')

    def kind(self, kv):
        if isinstance(kv, frozenset):
            return kv
        k = self.lookup('kinds', kv)
        return ALLKINDS if k is None else k

    # -------------------------------------------------------------- assume
    def assume(self, t, val, layer=None):
        """Record t = val in the given layer (default: innermost)."""
        t = self.norm(t)
        saved = None
        if layer is not None and layer != len(self.layers) - 1:
            saved = self.layers[layer + 1:]
            del self.layers[layer + 1:]
        n = self._nsub()
        self._assume(t, val)
        for _ in range(3):
            m = self._nsub()
            if m == n:
                break
            n = m
            self._bump()
            self._close()
        if saved:
            self.layers.extend(saved)
        self._bump()

    def _nsub(self):
        return sum(len(l.sub) for l in self.layers)

    def _close(self):
        """restate what is known after new substitutions"""
        for l in self.layers:
            for k, v in list(l.sub.items()):
                nk = tuple(self.norm(x) if isinstance(x, tuple) else x for x in k)
                if nk != k:
                    nk = T.rebuild(nk)
                    nv = self.norm(v)
                    if nk != nv and nk not in l.sub and nk[0] not in ('k',) and \
                            not T.contains(nv, lambda x: x == nk):
                        l.sub[nk] = nv
        top = self.layers[-1]
        for l in self.layers:
            for k, v in list(l.memo.items()):
                nk = self.norm(k)
                if nk != k and nk not in (TRUE, FALSE) and nk not in top.memo:
                    self._assume(nk, v)

    def _assume(self, t, val):
        L = self.layers[-1]
        h = t[0]
        if h == 'not':
            return self._assume(t[1], not val)
        if h == 'and' and val:
            for x in t[1]:
                self._assume(self.norm(x), True)
        if h == 'or' and not val:
            for x in t[1]:
                self._assume(self.norm(x), False)
        L.memo[t] = val
        if h == 'lt':
            L.memo[T.le(t[2], t[1])] = not val
        if h == 'le':
            L.memo[T.lt(t[2], t[1])] = not val
        if h in ('le', 'lt'):
            d = T.topoly(T.psub(t[1], t[2]))
            if val:
                self._add_bound(d, h)
            else:
                d2 = T.topoly(T.psub(t[2], t[1]))
                self._add_bound(d2, 'lt' if h == 'le' else 'le')
            big, small = (t[2], t[1]) if val else (t[1], t[2])
            if (h == 'le') == val and big[0] == 'len' and big[1][0] == 'set' and small == self.norm(T.length(big[1][1])):
                # a set as long as the list it was made from
                self._assume(T.eq(big, small), True)
        elif h == 'eq' and val:
            a, b = t[1], t[2]
            if self._isseq(a) and self._isseq(b):
                self._unify(a, b)
            elif self._numeric(a) and self._numeric(b):
                d = T.psub(a, b)
                self._add_bound(T.topoly(d), 'le')
                self._add_bound(T.topoly(T.psub(b, a)), 'le')
                for x, y in ((a, b), (b, a)):
                    if x[0] in ('len', 'sym', 'size') and not T.contains(y, lambda z: z == x):
                        if T.isk(y) or repr(y) < repr(x) or y[0] == 'poly':
                            if x not in L.sub:
                                L.sub[x] = y
                            break
                for x, y in ((a, b), (b, a)):
                    if x[0] == 'len' and x[1][0] == 'set' and y == self.norm(T.length(x[1][1])):
                        L.uniq.add(x[1][1])
                    if x[0] == 'len' and x[1][0] == 'comp' and x[1][3] != TRUE:
                        # a filter that drops nothing
                        full = T.comp(x[1][1], x[1][2], TRUE)
                        if self.norm(T.length(full)) == y and full != x[1] and x[1] not in L.sub:
                            L.sub[x[1]] = full
            elif T.is_set(a) and T.is_set(b):
                if len(repr(b)) < len(repr(a)) or (len(repr(b)) == len(repr(a)) and repr(b) < repr(a)):
                    a, b = b, a
                if not T.contains(a, lambda x: x == b):
                    L.sub[b] = a
            elif a[0] == 'sym' and T.isk(b):
                L.sub[a] = b
            elif b[0] == 'sym' and T.isk(a):
                L.sub[b] = a
        elif h == 'eq' and not val:
            a, b = t[1], t[2]
            if self._numeric(a) and self._numeric(b):
                # tighten a bound when the excluded value is an end point
                for x, y in ((a, b), (b, a)):
                    if T.isk(y):
                        lo, hi = self.bounds(x)
                        if lo is not None and lo == y[2]:
                            self._add_bound(T.topoly(T.psub(y, x)), 'lt')
                        elif hi is not None and hi == y[2]:
                            self._add_bound(T.topoly(T.psub(x, y)), 'lt')
                        break
        elif h == 'app' and t[1] in ('subset', 'psubset') and val:
            for k, v in ((T.inter(t[2], t[3]), t[2]), (T.union(t[2], t[3]), t[3])):
                if k[0] in ('inter', 'union') and k != v:
                    L.sub[k] = v
        elif h == 'kindin':
            cur = self.kind(t[1])
            if not isinstance(t[1], frozenset):
                new = (cur & t[2]) if val else (cur - t[2])
                L.kinds[t[1]] = new
        elif h == 'truthy' and self._numeric(t[1]):
            self._assume(T.eq(t[1], K(0)), not val)
        elif h == 'nosize' and val is False:
            for d in t[1]:
                self._assume(self.norm(T.le(T.length(d), K(0))), False)

    def _unify(self, a, b):
        L = self.layers[-1]
        ka, kb = (len(repr(a)), repr(a)), (len(repr(b)), repr(b))
        if a[0] == 'lab' and b[0] != 'lab':
            pass
        elif b[0] == 'lab' and a[0] != 'lab':
            a, b = b, a
        elif kb < ka:
            a, b = b, a
        if T.contains(a, lambda x: x == b):
            return
        L.sub[b] = a
        la, lb = T.length(a), T.length(b)
        if la != lb and lb[0] == 'len' and not T.contains(la, lambda x: x == lb):
            L.sub[lb] = la
        elif la != lb and la[0] == 'len' and not T.contains(lb, lambda x: x == la):
            L.sub[la] = lb
