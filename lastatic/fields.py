"""Identity test for contents of arrays whose axes are derived lists (windows,
slices, flipped axes): a content term is read as a function of the elements
along its axes and evaluated at pseudo-random points of the abstract domain.
Points that violate a condition of the path are skipped.  Only terms are
evaluated, no code of /repo.  See ident.py and seqmodel.py."""
import math
import random
from . import terms as T
from . import ident
from . import seqmodel
from .seqmodel import Und, Lab
from .terms import K, NONE

NANV = float('nan')


class Call(object):
    """what a user's function returns for these cells"""
    def __init__(self, name, cells, kw):
        self.key = (name, tuple('nan' if ident.isnan(c) else c for c in cells), kw)

    def __eq__(self, o):
        return isinstance(o, Call) and o.key == self.key

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return '%s%r%r' % self.key


class Field(seqmodel.Point):
    """val: axis -> its elements, option -> value; data: operand -> {position: value}; axes: operand -> its axes"""

    def __init__(self, val, data, axes, seed):
        seqmodel.Point.__init__(self, val, seed)
        self.data = data
        self.axes = axes

    # ------------------------------------------------------------- axes
    def e_win(self, t, env):
        return list(range(self.int(t[2], env)))

    e_wofs = e_win
    e_anon = e_win

    def e_pos1(self, t, env):
        return list(range(self.int(t[1], env)))

    def e_one(self, t, env):
        return [0]

    def e_vals(self, t, env):
        c, D = t[1], t[2]
        if T.isk(D):
            D = ('pos', D)
        b = self.base(D)
        return [self.cell(c, merge(env, b, x)) for x in self.seq(D, env)]

    def e_gd(self, t, env):
        D = self.seq(t[1], env)
        keep = self.seq(t[2], env) if t[2][0] != 'comp' else None
        if keep is None:
            keep = self.seq(t[2], env)
        if keep and all(isinstance(k, bool) for k in keep):
            if len(keep) != len(D):
                raise Und('mask')
            return [d for d, k in zip(D, keep) if k]
        if not all(isinstance(k, int) and not isinstance(k, bool) for k in keep):
            raise Und('index')
        return [D[k] for k in keep]

    @staticmethod
    def base(D):
        """the axis that the elements of the axis D come from"""
        found = set()

        def go(t):
            h = t[0]
            if h in ('lab', 'free', 'win', 'wofs', 'anon', 'one', 'pos', 'seq'):
                found.add(t)
            elif h in ('slc', 'gd', 'at', 'srt', 'perm', 'set', 'slist'):
                go(t[1])
            elif h == 'comp':
                go(t[2])
            elif h in ('lst', 'cat'):
                for x in t[1:]:
                    go(x) if isinstance(x, tuple) and not T.isk(x) else found.add(None)
            else:
                found.add(None)
        go(D)
        return found.pop() if len(found) == 1 and None not in found else D

    def walk(self, dims, env):
        """one environment per position along the axes dims"""
        out = [env]
        for D in dims:
            if T.isk(D):                     # an axis of length one
                if T.kval(D) != 1:
                    raise Und('axis')
                continue
            if D[0] == 'flat':
                out = [e for o in out for e in self.walk(D[1], o)]
                continue
            b = self.base(D)
            out = [merge(o, b, x) for o in out for x in self.seq(D, o)]
        return out

    def at(self, D, env):
        """position in D of the element of the environment"""
        b = self.base(D)
        if b not in env:
            raise Und('axis gone')
        S = self.seq(D, env)
        if env[b] not in S:
            return None
        if S.count(env[b]) != 1:
            raise Und('element twice')
        return S.index(env[b])

    # ------------------------------------------------------------- contents
    def cell(self, c, env):
        if T.isk(c):
            return T.kval(c)
        h = c[0]
        m = getattr(self, 'c_' + h, None)
        if m is None:
            raise Und(h)
        return m(c, env)

    def c_X(self, c, env):
        if c[1] not in self.data:
            raise Und('operand')
        idx = []
        for D in self.axes[c[1]]:
            if D not in env:
                raise Und('axis gone')
            idx.append(self.val[D].index(env[D]))
        return self.data[c[1]][tuple(idx)]

    def c_kc(self, c, env):
        return self.ev(c[1], env)

    def c_sv(self, c, env):
        # the k-th element of a list that is assigned to a list of positions
        S = self.seq(c[1], env)
        k = env.get('#k')
        if k is None or not 0 <= k < len(S):
            raise Und('sv')
        return S[k]

    def c_opqc(self, c, env):
        if len(c) == 2 and isinstance(c[1], tuple) and c[1][0] == 'empty':
            return Call('uninitialised memory', (), ())
        raise Und('opqc')

    def c_sym(self, c, env):
        return self.ev(c, env)

    def c_resh(self, c, env):
        """a list laid out as an array"""
        if len(c) != 5 or c[4] not in ('C', 'F') or len(c[2]) != 1:
            raise Und('resh')
        k = 0
        for D in (c[3] if c[4] == 'C' else tuple(reversed(c[3]))):
            if T.isk(D):
                if T.kval(D) != 1:
                    raise Und('axis')
                continue
            i = self.at(D, env)
            if i is None:
                raise Und('outside')
            k = k * len(self.seq(D, env)) + i
        if c[1][0] == 'sv':
            return self.cell(c[1], {'#k': k})
        D = c[2][0]
        b = self.base(D)
        S = self.seq(D, {})
        if k >= len(S):
            raise Und('outside')
        return self.cell(c[1], {b: S[k]})

    def c_nanlike(self, c, env):
        if any(x[0] == 'kc' and T.isk(x[1]) and ident.isnan(T.kval(x[1])) for x in c[1]):
            return NANV
        raise Und('nanlike')

    def c_catc(self, c, env):
        i = env.get(c[1])
        if not isinstance(i, int):
            raise Und('catc')
        for D, x in c[2:]:
            if T.isk(D):
                D = ('one',) if T.kval(D) == 1 else ('pos', D)
            S = self.seq(D, env)
            if i < len(S):
                e = dict(env)
                e.pop(c[1])
                e[self.base(D)] = S[i]
                return self.cell(x, e)
            i -= len(S)
        raise Und('catc')

    def e_perm(self, t, env):
        if len(t) == 3 and isinstance(t[2], tuple) and t[2][0] == 'argsort':
            S, P = self.seq(t[1], env), self.seq(t[2], env)
            if len(S) != len(P):
                raise Und('perm')
            return [S[k] for k in P]
        raise Und('perm')

    def e_argsort(self, t, env):
        if len(t) != 2:
            raise Und('argsort')
        S = self.seq(t[1], env)
        if any(isinstance(x, Call) or x != x for x in S):
            raise Und('argsort')
        try:
            return sorted(range(len(S)), key=lambda i: S[i])
        except TypeError:
            raise Und('argsort')

    def c_app(self, c, env):
        return self.ev(c, env)

    c_poly = c_app

    def first(self, c, env):
        return self.cell(c[1], env)

    c_castc = c_copy = first

    def c_pin(self, c, env):
        e = dict(env)
        for D, i in c[2]:
            if T.isk(D) or D[0] == 'one':
                continue
            S = self.seq(D, env)
            i = self.int(i, env)
            if not -len(S) <= i < len(S):
                raise Und('index')
            e[self.base(D)] = S[i]
        return self.cell(c[1], e)

    def c_ew(self, c, env):
        if c[1] == 'floor_divide' and any(isinstance(x, float) for x in c[2]):
            raise Und(c[1])
        vs = [self.cell(x, env) for x in c[2]]
        if any(isinstance(v, Call) for v in vs):
            raise Und('arithmetic on a call')
        if c[1] in ('add', 'subtract', 'multiply', 'divide', 'power', 'true_divide'):
            vs = [int(v) if isinstance(v, bool) else v for v in vs]
        try:
            return ident.op(c[1], vs)
        except ident.Und as e:
            raise Und(str(e))
        except TypeError:
            raise Und('type')

    def c_where(self, c, env):
        w = self.cell(c[1], env)
        if isinstance(w, Call) or not isinstance(w, (bool, int, float)):
            raise Und('condition')
        return self.cell(c[2] if w else c[3], env)

    def c_red(self, c, env):
        vs = [self.cell(c[2], e) for e in self.walk(c[3], env)]
        extra = {}
        for e in c[4:]:
            for kv in e:
                if not (isinstance(kv, tuple) and len(kv) == 2):
                    raise Und('extra')
                extra[kv[0]] = self.ev(kv[1], env)
        return self.reduce(c[1], vs, extra)

    @staticmethod
    def reduce(n, vs, extra):
        if any(isinstance(v, Call) for v in vs):
            raise Und('call')
        if n == 'sum' and not vs:
            return 0
        if n == 'lastrank':
            return lastrank(vs)
        try:
            return ident.reduce_(n, vs, extra)
        except ident.Und as e:
            raise Und(str(e))
        except TypeError:
            raise Und('type')

    def c_scan(self, c, env):
        i = self.at(c[3], env)
        if i is None:
            raise Und('outside')
        b = self.base(c[3])
        vs = [self.cell(c[2], merge(env, b, x)) for x in self.seq(c[3], env)]
        vs = [int(v) if isinstance(v, bool) else v for v in vs]
        try:
            return ident.scan(c[1], vs, i)
        except ident.Und as e:
            raise Und(str(e))
        except TypeError:
            raise Und('type')

    def c_dot(self, c, env):
        # rows of a times rows of b; the two row axes are '#i' and '#j'
        if len(c) != 4 or '#i' not in env or '#j' not in env or len(self.axes) != 1:
            raise Und('dot')
        D0 = [D for w in self.axes for D in self.axes[w] if D != c[3]]
        if len(D0) != 1:
            raise Und('dot')
        s = 0.0
        for e in self.walk([c[3]], {}):
            u, v = [self.cell(x, merge(e, D0[0], env[k])) for x, k in ((c[1], '#i'), (c[2], '#j'))]
            s = s + self.num(u) * self.num(v)
        return s

    def c_move(self, c, env):
        i = self.at(c[3], env)
        w = self.int(c[4], env)
        if i is None:
            raise Und('outside')
        if i + 1 < w:
            return NANV
        b = self.base(c[3])
        S = self.seq(c[3], env)
        vs = [self.cell(c[2], merge(env, b, x)) for x in S[i + 1 - w:i + 1]]
        extra = dict((k, self.ev(v, env)) for k, v in (c[5] if len(c) > 5 else ()))
        return self.reduce(c[1].replace('move_', ''), vs, extra)

    def c_window(self, c, env):
        X, D, w = c[1:4]
        n = [k for k in env if k[0] == 'win' and k[1] == D and k[3] == w]
        o = [k for k in env if k[0] == 'wofs' and k[1] == D and k[2] == w]
        if len(n) != 1 or len(o) != 1:
            raise Und('window')
        S = self.seq(D, env)
        i = env[n[0]] + env[o[0]]
        if i >= len(S):
            raise Und('outside the array')
        e = dict((k, v) for k, v in env.items() if k not in (n[0], o[0]))
        e[self.base(D)] = S[i]
        return self.cell(X, e)

    def c_mis(self, c, env):
        chain = []
        while c[0] == 'mis' and len(c) == 4:
            b1, b2 = self.base(c[2]), self.base(c[3])
            if chain and (b2 not in env or not clash):
                break
            clash = chain and clash or b1 != b2 and b1 in env
            chain.append((b1, b2, self.placed(c[2], c[3], env)))
            c = c[1]
        e = dict(env)
        for b1, b2, x in chain:
            e.pop(b2, None)
        for b1, b2, x in chain:
            e[b1] = x
        return self.cell(c, e)

    def placed(self, D1, D2, env):
        i = self.at(D2, env)
        if i is None:
            raise Und('outside')
        S = self.seq(D1, env)
        if i >= len(S):
            raise Und('misaligned')
        return S[i]

    def hit(self, where, env):
        """is the cell in the region? and the position in it along each axis"""
        lists = []
        for D, s in where:
            if T.isk(D) or D[0] == 'one':
                S, i = [0], 0
            else:
                S = self.seq(D, env)
                i = self.at(D, env)
                if i is None:
                    raise Und('outside')
            h = s[0]
            if h == 'int':
                k = self.int(s[1], env)
                if not -len(S) <= k < len(S):
                    raise Und('index')
                if k % len(S) != i:
                    return False
            elif h == 'slc':
                a, b, q = [None if x == NONE else self.int(x, env) for x in (s[1] if len(s) == 2 else s[1:4])]
                if q == 0:
                    raise Und('step')
                if i not in range(len(S))[a:b:q]:
                    return False
            elif h == 'seq':
                ks = self.seq(s[1], env)
                if not all(isinstance(k, int) and not isinstance(k, bool) and -len(S) <= k < len(S) for k in ks):
                    raise Und('index')
                lists.append([k % len(S) == i for k in ks])
            else:
                raise Und('region %s' % h)
        if lists:
            if len(set(map(len, lists))) != 1:
                raise Und('region')
            ks = [k for k, m in enumerate(zip(*lists)) if all(m)]
            if len(ks) == 1:
                env['#k'] = ks[0]
            return bool(ks)
        return True

    def c_upd(self, c, env):
        e = dict(env)
        return self.cell(c[3], e) if self.hit(c[2], e) else self.cell(c[1], env)

    def c_loop(self, c, env):
        """a loop that only writes: the last write that covers the cell"""
        base, comp = c[1], c[2]
        if comp[0] != 'comp' or comp[3] != T.TRUE:
            raise Und('loop')
        runs = []

        def go(k, e):
            if k == len(comp[1]):
                runs.append(e)
                return
            j, n = comp[1][k]
            for i in range(max(0, self.int(n, e))):
                go(k + 1, merge(e, j, i))
        go(0, env)
        body = comp[2]
        if body[0] != 'cts' or len(body) != 2 or body[1][0] != 'upd' or body[1][1] != base:
            raise Und('loop')
        u = body[1]
        if T.contains(u[3], lambda t: t and t[0] == 'loopvar') or T.contains(u[3], lambda t: t == base) and base[0] != 'kc':
            raise Und('loop')
        for e in reversed(runs):
            e = dict(e)
            if self.hit(u[2], e):
                return self.cell(u[3], e)
        return self.cell(base, env)

    def c_ucall(self, c, env):
        cells, kw = [], []
        for a in c[2:]:
            if a[0] == 'kw':
                if a[1] != 'axis':
                    kw.append((a[1], self.ev(a[2], env)))
            elif a[0] in ('arr', 'arrc'):
                cells.append(a)
            else:
                kw.append(('', self.ev(a, env)))
        ax = [T.kval(a[2]) for a in c[2:] if a[0] == 'kw' and a[1] == 'axis' and T.isk(a[2])]
        if len(cells) != 1 or len(ax) != 1:
            raise Und('call')
        content, dims = arrof(cells[0])
        D = dims[ax[0]]
        vs = [self.cell(content, e) for e in self.walk([D], env)]
        return Call(c[1], vs, tuple(kw))

    # ------------------------------------------------------------- scalars
    def e_kc(self, t, env):
        return self.ev(t[1], env)

    def everywhere(self):
        env = [{}]
        for w in sorted(self.axes):
            for D in self.axes[w]:
                env = [merge(e, D, x) for e in env for x in self.val[D]]
        return env

    def pairs(self):
        D = self.axes['A'][0]
        return [{'#i': x, '#j': y} for x in self.val[D] for y in self.val[D]]

    def e_app(self, t, env):
        n = t[1]
        if n == 'val' and len(t) == 3:
            return self.cell(t[2], env)
        if n in ('any', 'all') and len(t) == 3:
            if T.contains(t[2], lambda x: x and x[0] == 'dot'):
                vs = [self.cell(t[2], e) for e in self.pairs()]
            else:
                vs = [self.cell(t[2], e) for e in self.everywhere()]
            return any(vs) if n == 'any' else all(vs)
        q = {'Div': 'divide', 'Add': 'add', 'Sub': 'subtract', 'Mult': 'multiply', 'Pow': 'power'}.get(n)
        if q and len(t) == 4:
            try:
                return ident.op(q, [self.num(self.ev(x, env)) for x in t[2:]])
            except ident.Und as e:
                raise Und(str(e))
        return seqmodel.Point.e_app(self, t, env)

    @staticmethod
    def num(v):
        if isinstance(v, bool):
            return int(v)
        if not isinstance(v, (int, float)):
            raise Und('number')
        return v

    def e_truthc(self, t, env):
        vs = [self.cell(t[1], e) for e in self.walk(t[2] if len(t) > 2 else (), {})]
        if len(vs) != 1:
            raise Und('truthc')
        return bool(vs[0])

    def e_truthy(self, t, env):
        return bool(self.num(self.ev(t[1], env)))

    def e_ew(self, t, env):
        return self.cell(t, env)

    e_red = e_scan = e_where = e_X = e_pin = e_ew

    def truth(self, t, env):
        v = self.ev(t, env)
        if isinstance(v, (bool, int, float)):
            return bool(v)
        raise Und('truth')


def merge(e, k, x):
    d = dict(e)
    d[k] = x
    return d


def arrof(a):
    if a[0] == 'arrc':
        return a[1], a[2]
    v = a[1]
    if v[0] == 'vals':
        return v[1], v[2:]
    raise Und('array')


def lastrank(vs):
    x = vs[-1]
    if ident.isnan(x) or abs(x) == float('inf'):
        return NANV
    ok = [v for v in vs if not ident.isnan(v)]
    if len(ok) < 2:
        return NANV
    g, e = sum(x > v for v in ok), sum(x == v for v in ok)
    return 2.0 * ((g + g + e - 1.0) / 2.0 / (len(ok) - 1.0) - 0.5)


# ------------------------------------------------------------------ points
def points(seed, axes, syms, ks, kind, n, distinct=False, choose=None, shape=None, extra=()):
    """axes: operand -> its axes (operands of the same sizes, unless their axes differ)"""
    for i in range(n):
        r = random.Random('fields %s %s' % (seed, i))
        val = {}
        sizes = {}
        for w in sorted(axes):
            for k, D in enumerate(axes[w]):
                if D in val:
                    continue
                m = sizes.setdefault(k, r.choice([1, 2, 2, 3, 3, 4, 4, 5]) if shape is None else shape[k])
                labs = [Lab(x) for x in range(6)]
                r.shuffle(labs)
                val[D] = labs[:m] if D[0] == 'lab' else [('e', w, k, q) for q in range(m)]
        mode = i % 5
        data = {}
        shared = [r.choice([-2.0, -0.5, 1.0, 3.0, 0.25]) for _ in range(3)]
        for w in sorted(axes):
            cells = {}
            for x in positions([len(val[D]) for D in axes[w]]):
                if kind == 'bool':
                    v = r.random() < .5
                elif kind == 'int':
                    v = r.randint(1, 6) if mode in (1, 3) else r.randint(-4, 5)
                else:
                    v = r.choice(shared + [r.uniform(-3, 4), r.uniform(-3, 4), float(r.randint(1, 4))])
                    if distinct:
                        v = r.uniform(-3, 4)
                    if mode in (1, 3):
                        v = abs(v) + 0.5
                    if r.random() < [0, 0, .3, .3, .75][mode]:
                        v = NANV
                    if extra and r.random() < .2:
                        v = r.choice(extra)
                cells[x] = v
            data[w] = cells
        for s in sorted(syms, key=repr):
            typ = s[2] if len(s) > 2 else 'any'
            if choose is not None and s in choose:
                val[s] = choose[s](r, sizes)
            elif typ == 'bool':
                val[s] = r.random() < .5
            elif typ == 'int':
                val[s] = r.choice([0, 1, 1, 2, 2, 3, 4])
            elif typ in ('float', 'num'):
                val[s] = r.choice([0.0, 0.5, 1.5, 2.0])
            else:
                val[s] = ('option', s[1])
        yield Field(val, data, axes, i)


def positions(shape):
    out = [()]
    for m in shape:
        out = [o + (i,) for o in out for i in range(m)]
    return out


def onpath(p, conds):
    """None if a condition about the data or the sizes has no value"""
    r = True
    for t, v in conds:
        if t[0] == 'app' and t[1] in ('fortran', 'contig'):
            continue                    # the memory order is free
        try:
            if p.truth(t, {}) != v:
                return False
        except RecursionError:
            raise
        except Exception:
            if T.contains(t, lambda x: x and x[0] == 'X') and not T.contains(t, lambda x: x in ('convertible', 'isinstance')):
                r = None
    return r


def compare(I, content, dims, want, axes, conds, seed, n=120, distinct=False, choose=None, shape=None,
            pairs=False, extra=()):
    """want(p, environment of the result) -> value.  ('same', points, cells) / ('different', text) / (None, why)"""
    kinds = [I.facts.kind(('kv', w)) for w in axes]
    kind = 'float' if all('inexact' in k for k in kinds) else 'int' if all('int' in k for k in kinds) else \
        'bool' if all('bool' in k for k in kinds) else None
    if kind is None:
        return None, 'kind'
    syms = set()
    for t in [content] + list(dims) + [c for c, _ in conds]:
        for x in T.walk(t):
            if x and x[0] == 'sym':
                syms.add(x)
    for s in choose or ():
        syms.add(s)
    used = cells = 0
    why = 'no point on the path'
    old = ident.INTS[0]
    ident.INTS[0] = kind != 'float'
    try:
        for p in points(seed, axes, syms, (), kind, n, distinct, choose, shape, extra):
            if onpath(p, conds) is not True:
                continue
            try:
                envs = p.pairs() if pairs else p.walk(dims, {})
            except Und as e:
                return None, 'axes: %s' % e
            for e in envs:
                try:
                    w = want(p, e)
                except Und as u:
                    why = str(u)
                    continue
                try:
                    g = p.cell(content, e)
                except Und as u:
                    return None, str(u)
                if isinstance(g, Call) or isinstance(w, Call):
                    ok = g == w
                else:
                    ok = ident.close(g, w)
                if not ok:
                    return 'different', 'with %s%s the cell %s is %r, documented %r' % (
                        opts(p), ident.show(p), where(p, e), g, w)
                cells += 1
            used += 1
    finally:
        ident.INTS[0] = old
    if not used:
        return None, why
    return 'same', used, cells


def compare_seqs(I, got, want, axes, conds, seed, n=150):
    """two label lists that depend on the data of operands"""
    kinds = [I.facts.kind(('kv', w)) for w in axes]
    if not all('inexact' in k for k in kinds):
        return None, 'kind'
    syms = {x for t in [got, want] + [c for c, _ in conds] for x in T.walk(t) if x and x[0] == 'sym'}
    used = 0
    why = 'no point on the path'
    for p in points(seed, axes, syms, (), 'float', n, extra=(ident.INF, -ident.INF)):
        if onpath(p, conds) is not True:
            continue
        try:
            a, b = p.seq(got, {}), p.seq(want, {})
        except Und as e:
            return None, str(e)
        if list(a) != list(b):
            return 'different', 'with %s%s the labels are %r, documented %r' % (opts(p), ident.show(p), a, b)
        used += 1
    return ('same', used, 0) if used > 10 else (None, why)


def opts(p):
    return ''.join('%s = %r, ' % (k[1], v) for k, v in sorted(p.val.items(), key=repr) if k[0] == 'sym')


def where(p, env):
    out = []
    for w in sorted(p.axes):
        for D in p.axes[w]:
            if D in env:
                out.append(p.val[D].index(env[D]))
        break
    return tuple(out)
