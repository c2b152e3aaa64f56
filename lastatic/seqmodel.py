"""Identity test for terms about label lists.

Two terms that have different normal forms may still be the same list.  The
terms are evaluated at pseudo-random points of the abstract domain (label
lists of up to four labels, integers, option values), points that violate a
condition of the path are skipped.  Only terms are evaluated, no code of
/repo.  See ident.py for the counterpart for data."""
import random
from . import terms as T
from .terms import K, NONE

POOL = 6


class Und(Exception):
    """the term has no meaning here"""


class Lab(object):
    """a label: ordered, equal by number, different from every integer"""
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Lab) and o.n == self.n

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('Lab', self.n))

    def __lt__(self, o):
        if not isinstance(o, Lab):
            raise Und('order')
        return self.n < o.n

    def __le__(self, o):
        return self == o or self < o

    def __repr__(self):
        return 'L%d' % self.n


def atoms(t, acc):
    """leaves that a point gives a value to"""
    if not isinstance(t, tuple) or not t:
        return acc
    if T.isk(t):
        return acc
    if isinstance(t[0], str):
        if t[0] in ('lab', 'seq') and len(t) >= 2 and isinstance(t[1], str):
            acc.add(t)
            return acc
        if t[0] == 'sym':
            acc.add(t)
            return acc
    for x in t:
        atoms(x, acc)
    return acc


def consts(t, acc):
    if T.isk(t):
        acc.add(t)
    elif isinstance(t, tuple):
        for x in t:
            consts(x, acc)
    return acc


class Point(object):
    def __init__(self, val, seed):
        self.val = val
        self.seed = seed

    def ev(self, t, env):
        if T.isk(t):
            return T.kval(t)
        if t in self.val:
            return self.val[t]
        h = t[0]
        m = getattr(self, 'e_' + h, None) if isinstance(h, str) else None
        if m is None:
            raise Und(h)
        return m(t, env)

    def int(self, t, env):
        v = self.ev(t, env)
        if isinstance(v, bool):
            return int(v)
        if not isinstance(v, int):
            raise Und('int')
        return v

    def seq(self, t, env):
        v = self.ev(t, env)
        if isinstance(v, tuple):
            return list(v)
        if not isinstance(v, list):
            raise Und('list')
        return v

    def set(self, t, env):
        v = self.ev(t, env)
        if isinstance(v, (list, tuple, frozenset)):
            try:
                return frozenset(v)
            except TypeError:
                raise Und('set')
        raise Und('set')

    # ------------------------------------------------------------- scalars
    def e_j(self, t, env):
        if t[1] in env:
            return env[t[1]]
        raise Und('position')

    def e_poly(self, t, env):
        s = 0
        for m, c in t[1]:
            v = c
            for a in m:
                x = self.ev(a, env)
                if not isinstance(x, (int, float)):
                    raise Und('number')
                v = v * x
            s += v
        return s

    def e_len(self, t, env):
        v = self.ev(t[1], env)
        if not isinstance(v, (list, frozenset, tuple)):
            raise Und('len')
        return len(v)

    def e_at(self, t, env):
        S, i = self.seq(t[1], env), self.int(t[2], env)
        if not -len(S) <= i < len(S):
            raise Und('index')
        return S[i]

    def e_pos(self, t, env):
        if len(t) == 2:
            return list(range(self.int(t[1], env)))
        S, x = self.seq(t[1], env), self.ev(t[2], env)
        if x not in S:
            raise Und('not there')
        return S.index(x)

    def e_ite(self, t, env):
        return self.ev(t[2] if self.truth(t[1], env) else t[3], env)

    def e_tup(self, t, env):
        return tuple(self.ev(x, env) for x in t[1:])

    # ------------------------------------------------------------- sequences
    def e_lst(self, t, env):
        return [self.ev(x, env) for x in t[1:]]

    def e_cat(self, t, env):
        r = []
        for x in t[1:]:
            r = r + self.seq(x, env)
        return r

    def e_slc(self, t, env):
        S = self.seq(t[1], env)
        a, b, c = [None if x == NONE else self.int(x, env) for x in t[2:5]]
        if c == 0:
            raise Und('step')
        return S[a:b:c]

    def e_comp(self, t, env):
        out = []

        def go(k, env):
            if k == len(t[1]):
                if self.truth(t[3], env):
                    out.append(self.ev(t[2], env))
                return
            j, n = t[1][k]
            for i in range(max(0, self.int(n, env))):
                e = dict(env)
                e[j] = i
                go(k + 1, e)
        go(0, env)
        return out

    def e_srt(self, t, env):
        S = self.ev(t[1], env)
        r = self.truth(t[2], env)
        try:
            return sorted(S, reverse=r)
        except TypeError:
            raise Und('order')

    def e_firsts(self, t, env):
        out = []
        for x in self.seq(t[1], env):
            if x not in out:
                out.append(x)
        return out

    def e_slist(self, t, env):
        S = sorted(self.set(t[1], env), key=repr)
        random.Random('%s %s' % (self.seed, S)).shuffle(S)
        return S

    def e_perm(self, t, env):
        S = list(self.seq(t[1], env))
        random.Random('%s %s' % (self.seed, t[2:])).shuffle(S)
        return S

    def e_argsort(self, t, env):
        if len(t) != 2:
            raise Und('argsort')
        S = self.seq(t[1], env)
        return sorted(range(len(S)), key=lambda i: S[i])

    # ------------------------------------------------------------- sets
    def e_set(self, t, env):
        return self.set(t[1], env)

    def e_union(self, t, env):
        r = frozenset()
        for x in t[1]:
            r = r | self.set(x, env)
        return r

    def e_inter(self, t, env):
        r = None
        for x in t[1]:
            x = self.set(x, env)
            r = x if r is None else r & x
        return r

    def e_diff(self, t, env):
        return self.set(t[1], env) - self.set(t[2], env)

    # ------------------------------------------------------------- conditions
    def truth(self, t, env):
        v = self.ev(t, env)
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return v != 0
        raise Und('truth')

    def e_truthy(self, t, env):
        v = self.ev(t[1], env)
        if v is None or isinstance(v, (bool, int, float, str)):
            return bool(v)
        raise Und('truth')

    def e_not(self, t, env):
        return not self.truth(t[1], env)

    def e_and(self, t, env):
        return self.many(t, env, False)

    def e_or(self, t, env):
        return self.many(t, env, True)

    def many(self, t, env, stop):
        xs = t[1] if len(t) == 2 and isinstance(t[1], tuple) and t[1] and isinstance(t[1][0], tuple) else t[1:]
        und = None
        for x in xs:
            try:
                if self.truth(x, env) == stop:
                    return stop
            except Und as e:
                und = e
        if und is not None:
            raise und
        return not stop

    def e_eq(self, t, env):
        a, b = self.ev(t[1], env), self.ev(t[2], env)
        if type(a) != type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
            if isinstance(a, (list, tuple, frozenset)) and isinstance(b, (list, tuple, frozenset)):
                raise Und('eq')
            return False
        return a == b

    def e_lt(self, t, env):
        return self.order(t, env, lambda a, b: a < b)

    def e_le(self, t, env):
        return self.order(t, env, lambda a, b: a <= b)

    def order(self, t, env, f):
        a, b = self.ev(t[1], env), self.ev(t[2], env)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) or isinstance(a, Lab) and isinstance(b, Lab):
            return f(a, b)
        raise Und('order')

    def e_in(self, t, env):
        return self.ev(t[1], env) in self.set(t[2], env)

    def e_app(self, t, env):
        n = t[1]
        if n in ('max', 'min') and len(t) == 3:
            S = self.seq(t[2], env)
            if not S:
                raise Und('empty')
            try:
                return (max if n == 'max' else min)(S)
            except TypeError:
                raise Und('order')
        if n in ('<', '<=', '>', '>=') and len(t) == 4:
            a, b = (t[2], t[3]) if n[0] == '<' else (t[3], t[2])
            return (self.e_lt if n in '<>' else self.e_le)((n, a, b), env)
        if n in ('FloorDiv', 'Mod') and len(t) == 4:
            a, b = self.int(t[2], env), self.int(t[3], env)
            if b == 0:
                raise Und('division by zero')
            return a // b if n == 'FloorDiv' else a % b
        raise Und(str(n))

    def e_some(self, t, env):
        for x in self.seq(t[1], env):
            if not isinstance(x, (bool, int)):
                raise Und('some')
            if x:
                return True
        return False


def points(seed, leaves, ks, uniq, n):
    rnd = random.Random('seqs %s' % seed)
    labs = sorted((a for a in leaves if a[0] in ('lab', 'seq')), key=repr)
    syms = sorted((a for a in leaves if a[0] == 'sym'), key=repr)
    for k in range(n):
        val = {}
        prev = []
        for a in labs:
            if a[0] == 'seq' and a[2:3] == ('int',):
                val[a] = [rnd.randrange(-3, 4) for _ in range(rnd.randrange(0, 4))]
                continue
            r = rnd.random()
            if prev and r < 0.25:
                L = list(rnd.choice(prev))
            elif prev and r < 0.4:
                L = list(rnd.choice(prev))
                rnd.shuffle(L)
            else:
                L = [Lab(x) for x in rnd.sample(range(POOL), rnd.choice((0, 1, 1, 2, 2, 3, 3, 4)))]
                if rnd.random() < 0.3:
                    L.sort()
            if a[0] == 'seq' and not uniq(a) and L and rnd.random() < 0.5:
                L = [rnd.choice(L) for _ in range(len(L) + 1)]
            prev.append(L)
            val[a] = L
        for a in syms:
            typ = a[2] if len(a) > 2 else 'any'
            same = sorted((c for c in ks if c[1] == typ), key=repr)
            if typ == 'bool':
                val[a] = rnd.random() < 0.5
            elif typ == 'int':
                val[a] = rnd.choice((-4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6))
            elif typ == 'float':
                val[a] = rnd.choice((-1.5, 0.0, 0.5, 1.0, 2.0, 3.5))
            elif typ == 'str' and same:
                val[a] = T.kval(rnd.choice(same))
            else:
                some = [l for l in prev if l]
                val[a] = rnd.choice(rnd.choice(some)) if some and rnd.random() < 0.7 and \
                    prev[-1] else Lab(rnd.randrange(POOL))
        yield Point(val, k)


def holds(p, conds, strict=False):
    """is the point on the path?  None if a condition about its lists (strict: any condition) has no value"""
    r = True
    for t, v in conds:
        if t[0] == 'app' and t[1] in ('fortran', 'contig'):
            continue                    # the memory order is free
        try:
            if p.truth(t, {}) != v:
                return False
            continue
        except RecursionError:
            raise
        except Exception:
            pass
        if strict or any(x in p.val for x in T.walk(t)):
            r = None
    return r


def compare(I, pairs, seed=0, n=160, need=6):
    """pairs of terms that are said to be the same.  Returns ('differ', i, point, u, v), ('same', count) or
    ('unknown', why)"""
    conds = list(I.taken)         # not normalised: the facts of the path would make them true
    leaves, ks = set(), set()
    for a, b in pairs:
        atoms(a, leaves)
        atoms(b, leaves)
    for t, _ in conds:
        atoms(t, leaves)
        consts(t, ks)
    good = 0
    why = 'no point of the path'
    for p in points(seed, leaves, ks, lambda s: I.facts.uniq(s), n):
        if holds(p, conds) is not True:
            continue
        try:
            for i, (a, b) in enumerate(pairs):
                u, v = p.ev(a, {}), p.ev(b, {})
                if isinstance(u, tuple):
                    u = list(u)
                if isinstance(v, tuple):
                    v = list(v)
                if u != v:
                    return 'differ', i, p, u, v
        except Und as e:
            why = str(e)
            continue
        good += 1
    if good >= need:
        return 'same', good
    return 'unknown', why


# ------------------------------------------------------------------ arrays
class Cells(Point):
    """a point at which arrays have a value too: the cell of an operand is named by its labels"""

    def e_vals(self, t, env):
        return [self.cell(t[1], c, env) for c in self.coords((t[2],), env)]

    def axis(self, D, env):
        """[{axis: (position, element)}] along the axis term D"""
        if D[0] == 'flat':
            return [merged(cs) for cs in product([self.axis(d, env) for d in D[1]])]
        if D == ('one',) or D[0] == 'one':
            return [{}]
        b = base_of(D)
        return [{b: (i, e)} if b == D else {b: (None, e), D: (i, e)} for i, e in enumerate(self.seq(D, env))]

    def coords(self, dims, env):
        out = []
        for cs in product([self.axis(d, env) for d in dims]):
            seen = {}
            for c in cs:
                for k in c:
                    if k in seen:
                        raise Und('the same axis twice')
                    seen[k] = c[k]
            out.append(seen)
        return out

    def cell(self, c, at, env):
        h = c[0]
        if h == 'X':
            ks = sorted((k for k in at if k[0] in ('lab', 'free') and k[1] == c[1]), key=lambda k: k[2])
            if [k[2] for k in ks] != list(range(len(ks))) or not ks:
                raise Und('axes of %s' % c[1])
            return ('cell', c[1]) + tuple(at[k][1] for k in ks)
        if h == 'sv':
            ks = [k for k in at if at[k][0] is not None]
            S = self.seq(c[1], env)
            if len(ks) != 1 or at[ks[0]][0] >= len(S):
                raise Und('axis of a list')
            return S[at[ks[0]][0]]
        if h == 'kc':
            v = self.ev(c[1], env)
            return MISSING if v != v or v is None or v == '' else v
        if h in ('castc', 'copy'):
            return self.cell(c[1], at, env)
        if h == 'opqc' and isinstance(c[1], tuple) and c[1][0] == 'empty':
            return UNSET
        if h == 'where':
            return self.cell(c[2] if self.flag(c[1], at, env) else c[3], at, env)
        if h == 'upd':
            where = []
            for D, s in c[2]:
                if D not in at or at[D][0] is None:
                    raise Und('axis of an assignment')
                i = at[D][0]
                if s[0] == 'int':
                    n = len(self.seq(D, env))
                    if self.int(s[1], env) % max(n, 1) != i:
                        return self.cell(c[1], at, env)
                elif s[0] == 'seq':
                    where.append([j == i for j in self.seq(s[1], env)])
                else:
                    raise Und('assignment')
            if not where:
                raise Und('assignment')
            hit = [k for k, m in enumerate(zip(*where)) if all(m)]
            if not hit:
                return self.cell(c[1], at, env)
            if len(hit) > 1:
                raise Und('assigned twice')
            val = c[3]
            while val[0] in ('mis', 'castc'):           # by position, whatever the labels
                val = val[1]
            if val[0] == 'sv':
                S = self.seq(val[1], env)
                if hit[0] >= len(S):
                    raise Und('length of an assigned list')
                return S[hit[0]]
            if c[3][0] == 'kc':
                return self.cell(c[3], at, env)
            raise Und('assigned value %s' % c[3][0])
        raise Und(h)


    def flag(self, m, at, env):
        """is the cell selected by the mask m?  Values that have a name are not missing"""
        if m[0] == 'ew' and m[1] in ('isnan', 'logical_not', 'isfinite', 'logical_and', 'logical_or'):
            if m[1] == 'logical_not':
                return not self.flag(m[2][0], at, env)
            if m[1] in ('logical_and', 'logical_or'):
                fs = [self.flag(x, at, env) for x in m[2]]
                return all(fs) if m[1] == 'logical_and' else any(fs)
            c = self.cell(m[2][0], at, env)
            if c is MISSING:
                return m[1] == 'isnan'
            if c is UNSET:
                raise Und('uninitialised')
            return m[1] != 'isnan'
        raise Und('mask %s' % m[0])


class Missing(object):
    def __repr__(self):
        return 'missing'


class Unset(object):
    def __repr__(self):
        return 'uninitialised'


MISSING = Missing()
UNSET = Unset()


def base_of(D):
    """the axis that the elements of D come from"""
    if D[0] in ('lab', 'free', 'pos', 'seq'):
        return D
    found = set()

    def go(t):
        if isinstance(t, tuple) and t:
            if t[0] == 'at' and len(t) == 3 or t[0] == 'slc':
                go(t[1])
            elif t[0] in ('lab', 'free', 'seq') and len(t) > 1 and isinstance(t[1], str):
                found.add(t)
            elif t[0] == 'comp' and t[3] == T.TRUE:
                go(t[2])
            elif t[0] in ('srt', 'perm', 'set'):
                go(t[1])
            else:
                found.add(None)
    go(D)
    if len(found) == 1 and None not in found:
        return found.pop()
    return D


def product(ls):
    out = [()]
    for l in ls:
        out = [o + (x,) for o in out for x in l]
    return out


def merged(cs):
    d = {}
    for c in cs:
        for k in c:
            if k in d:
                raise Und('the same axis twice')
            d[k] = c[k]
    return d
