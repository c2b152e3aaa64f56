"""C29: what the resampling generators yield."""
import itertools
import math
from fractions import Fraction

from ..core import Check, path_text
from .. import terms as T
from .. import oracle as O
from .. import seqmodel
from ..catalog import resample_cases
from ..drivers import tstr
from ..terms import K, TRUE, NONE
from ..values import *

N, KF, NB = ('sym', 'n', 'int'), ('sym', 'kfold', 'int'), ('sym', 'nboot', 'int')
Q, R = ('sym', 'quotient', 'int'), ('sym', 'rest', 'int')


class Odd(Exception):
    pass


def divided(t):
    """n = quotient * kfold + rest, written out everywhere"""
    if t == N:
        return T.padd(T.pmul(Q, KF), R)
    if t[0] == 'poly':
        r = K(0)
        for m, c in t[1]:
            x = K(c)
            for a in m:
                x = T.pmul(x, divided(a))
            r = T.padd(r, x)
        return r
    if T.isk(t) or t == KF or t[0] == 'j':
        return t
    if t[0] == 'app':
        inner = t
        while inner[0] == 'app' and inner[1] in ('int', 'floor', 'long', 'trunc'):
            inner = inner[2]
            if len(inner) == 4 and inner[:2] == ('app', 'Div') and inner[2:] == (N, KF):
                return Q
        if len(inner) == 4 and inner[0] == 'app' and inner[2:] == (N, KF):
            if inner[1] in ('FloorDiv', 'floor_divide'):
                return Q
            if inner[1] in ('Mod', 'mod', 'remainder'):
                return R
    raise Odd(tstr(t))


def same(a, b):
    return T.padd(a, b, -1) == K(0)


def subst(t, a, b):
    """t with atom a replaced by b (polynomials)"""
    r = K(0)
    for m, c in T.topoly(t).items():
        x = K(c)
        for y in m:
            x = T.pmul(x, b if y == a else y)
        r = T.padd(r, x)
    return r


def nonneg(t):
    """sum of products of nonnegative atoms"""
    return all(c >= 0 for c in T.topoly(t).values())


class Whole(seqmodel.Point):
    """numbers, with division"""
    def e_app(self, t, env):
        if t[1] == 'Div' and len(t) == 4:
            return Fraction(self.ev(t[2], env)) / Fraction(self.ev(t[3], env))
        if t[1] in ('int', 'long', 'trunc') and len(t) == 3:
            return int(self.ev(t[2], env))
        if t[1] == 'floor' and len(t) == 3:
            return math.floor(self.ev(t[2], env))
        return seqmodel.Point.e_app(self, t, env)


class Resample(Check):
    id = 'C29'
    floor = 20
    rule = ('the index lists yielded are compared, as terms over the number of elements, the number of folds and the '
            'number of the fold: test part and training part are complementary slices of one permutation, the test '
            'parts tile it (polynomial identities after division with remainder), the number of yields is as asked')

    def cases(self):
        return resample_cases((1, 2))

    def visit(self, I, o, case):
        if o.kind != 'return':
            return
        if case.entry == 'cross_validation':
            self.folds(I, o, case)
        elif case.entry == 'bootstrap':
            self.boots(I, o, case)
        elif case.entry == 'split':
            self.parts(I, o, case)

    # -------------------------------------------------------------- folds
    def folds(self, I, o, case):
        t, items = I.seq_of(o.value)
        if t is None or t[0] != 'comp' or len(t[1]) != 1 or t[3] != TRUE:
            return self.counted(I, o, case, t, 'folds not understood')
        (j, n), = t[1]
        if not same(n, KF):
            if O.opaque(n):
                return self.counted(I, o, case, t, 'number of folds not understood')
            return self.fail('cross_validation folds', '%r yields %s folds; path: %s' % (case, tstr(n), path_text(o)))
        self.ok('number of folds', '%r: kfold' % case)
        J = ('j', j)
        spans = []                # (guard: '==', '!=' or None, at, start, stop)
        for conds, leaf in leaves(t[2]):
            if leaf[0] != 'tup' or len(leaf) != 3:
                return self.counted(I, o, case, t, 'folds not understood')
            train, test = leaf[1], leaf[2]
            if test[0] != 'slc' or test[4] not in (NONE, K(1)):
                return self.counted(I, o, case, t, 'test part is not a slice')
            S, a, b = test[1], test[2], test[3]
            a = K(0) if a == NONE else a
            b = T.length(S) if b == NONE else b
            base = S[1] if S[0] == 'perm' else S
            if base != T.rng(N):
                if O.opaque(base):
                    return self.counted(I, o, case, t, 'index list not understood')
                self.fail('cross_validation indices', '%r: the folds are taken from %s, not from a permutation of '
                          'range(n)' % (case, tstr(S)))
            else:
                self.ok('indices', '%r: folds of a permutation of range(n)' % case)
            want = T.cat(T.slc(S, NONE, a, NONE), T.slc(S, b, NONE, NONE))
            if same(b, T.length(S)):
                want = T.slc(S, NONE, a, NONE)
            elif a == K(0):
                want = T.slc(S, b, NONE, NONE)
            if train == want or I.facts.norm(train) == I.facts.norm(want):
                self.ok('complementary', '%r: train = all - test' % case)
            elif train[0] == 'slc' and train[1] == S or train[0] == 'cat' and all(
                    isinstance(x, tuple) and x[0] == 'slc' and x[1] == S for x in cats(train)):
                self.fail('cross_validation train', '%r: training part %s is not the rest of the index list when the '
                          'test part is %s' % (case, tstr(train), tstr(test)))
                return
            else:
                return self.counted(I, o, case, t, 'training part not understood')
            spans.append((conds, a, b))
        try:
            # atoms: quotient >= 1, rest >= 0, 0 <= j <= kfold - 1
            last = T.padd(KF, K(-1))
            first, middle, end = None, [], None
            for conds, a, b in spans:
                a, b = divided(a), divided(b)
                g = None
                for p, v in conds:
                    if p[0] == 'not':
                        p, v = p[1], not v
                    if p[0] != 'eq' or J not in p:
                        raise Odd(tstr(p))
                    x = p[2] if p[1] == J else p[1]
                    g = (x, v)
                if len(conds) > 1 or g is not None and not same(g[0], last) and g[0] != K(0):
                    raise Odd('condition of the fold')
                middle.append((g, a, b))
            gs = sorted(str(g[1]) if g else '-' for g, _, _ in middle)
            if gs not in (['-'], ['False', 'True']):
                raise Odd('conditions of the fold')
        except Odd as e:
            return self.counted(I, o, case, t, 'bounds of the folds not understood: %s' % e)
        inner = [x for x in middle if x[0] is None or not x[0][1]][0]
        final = [x for x in middle if x[0] is None or x[0][1]][0]
        inner = (inner[1], inner[2])
        guards = [x[0][0] for x in middle if x[0] is not None]
        n = T.padd(T.pmul(Q, KF), R)
        nxt = subst(inner[0], J, T.padd(J, K(1)))
        if guards and guards[0] == K(0) and not same(last, K(0)):
            final, at = (subst(final[1], J, K(0)), subst(final[2], J, K(0))), K(0)
            rules = (('the first test part starts at 0', final[0], K(0)),
                     ('the first test part ends where the second starts', final[1], subst(inner[0], J, K(1))),
                     ('each test part ends where the next one starts', inner[1], nxt),
                     ('the last test part ends at n', subst(inner[1], J, last), n))
        else:
            final, at = (subst(final[1], J, last), subst(final[2], J, last)), last
            pen = subst(inner[1], J, T.padd(KF, K(-2)))
            rules = (('the first test part starts at 0', subst(inner[0], J, K(0)), K(0)),
                     ('each test part ends where the next one starts', inner[1], nxt),
                     ('the last but one test part ends where the last one starts', pen, final[0]),
                     ('the last test part ends at n', final[1], n))
        for what, x, y in rules:
            if same(x, y):
                self.ok(what, '%r' % case)
            else:
                self.fail('cross_validation tiling: %s' % what, '%r: not true that %s: %s and %s (n = quotient * kfold '
                          '+ rest)' % (case, what, tstr(x), tstr(y)))
        for a, b in ((inner[0], inner[1]), (final[0], final[1])):
            # kfold = last + 1 with last >= 0, quotient = 1 + q
            d = subst(T.padd(b, a, -1), Q, T.padd(Q, K(1)))
            if nonneg(d) and d != K(0):
                self.ok('bounds of the test part in order', '%r: %s' % (case, tstr(d)))
            else:
                self.unknown('bounds of the test part')

    def counted(self, I, o, case, t, why):
        """folds of another form: the term of the list of folds at small numbers of elements and folds"""
        if t is None:
            return self.unknown(why)
        done = 0
        t = I.facts.norm(t)
        for n in range(2, 10):
            for k in range(2, n + 1):
                p = Whole({N: n, KF: k}, repr(case))
                try:
                    if seqmodel.holds(p, o.taken, True) is not True:
                        continue
                    got = p.seq(t, {})
                    parts = [[list(p2) for p2 in g] for g in got]
                except RecursionError:
                    raise
                except Exception as e:
                    return self.unknown('%s (%s)' % (why, e))
                bad = None
                if len(parts) != k or any(len(g) != 2 for g in parts):
                    bad = '%d folds' % len(parts)
                elif sorted(x for _, test in parts for x in test) != list(range(n)):
                    bad = 'the test parts are %s' % [test for _, test in parts]
                elif any(sorted(tr + te) != list(range(n)) for tr, te in parts):
                    bad = 'a training part and its test part are %s' % [
                        g for g in parts if sorted(g[0] + g[1]) != list(range(n))][0]
                if bad:
                    return self.fail('cross_validation tiling', '%r: for n = %d, kfold = %d %s; path: %s'
                                     % (case, n, k, bad, path_text(o)))
                done += 1
        if not done:
            return self.unknown(why)
        self.ok('folds tile', '%r: complementary parts that tile the index list at %d points' % (case, done))

    # -------------------------------------------------------------- bootstrap
    def boots(self, I, o, case):
        t, items = I.seq_of(o.value)
        if items is None:
            return self.unknown('samples not understood')
        m = len(items)
        if I.facts.query(T.eq(NB, K(m))) is True:
            self.ok('number of samples', '%r: nboot = %d' % (case, m))
        elif I.facts.query(T.eq(NB, K(m))) is False:
            self.fail('bootstrap count', '%r yields %d samples when %s' % (case, m, path_text(o)))
        else:
            self.fail('bootstrap count', '%r yields %d samples, not nboot, when %s' % (case, m, path_text(o)))
        for it in items:
            _, pair = I.seq_of(it) if isinstance(it, (TupleV, PyList)) else (None, None)
            if pair is None or len(pair) != 2:
                self.unknown('sample not understood')
                continue
            train, test = pair
            ts = I.seqterm_of(train) if not isinstance(train, Sym) else ('iterof', train.term)
            if isinstance(train, Unk) or ts is None or isinstance(test, (Unk, Sym)):
                self.unknown('sample not understood')
                continue
            want = ('diff', ('set', T.rng(N)), ('set', ts))
            st = I.facts.norm(T.mkset(I.facts.norm(I.seqterm_of(test))))
            st = st[1] if st[0] == 'set' and st[1][0] in ('slist', 'srt') else st
            st = st[1] if st[0] in ('slist', 'srt') else st
            if st == want or st == ('set', ('slist', want)):
                self.ok('test part', '%r: test = range(n) - train' % case)
            elif O.unknown_term(st):
                self.unknown('test part not understood')
            else:
                self.fail('bootstrap test part', '%r: test part is %s, not the indices outside of the training part %s'
                          % (case, tstr(st), tstr(ts)))
            if I.facts.query(T.lt(K(0), T.length(want))) is True or \
                    I.facts.query(T.eq(K(0), T.length(want))) is False:
                self.ok('test part not empty', '%r' % case)
            else:
                self.fail('bootstrap empty', '%r: yields a sample whose test part may be empty; path: %s' % (
                    case, path_text(o)))
            if ts[0] == 'anon' and ts[1][0] == 'draw':
                self.draws(case, ts[1][1], ts[1][2], ts[2])
            elif ts[0] == 'iterof':
                u = [x for x in sub(ts) if x[:2] == ('app', 'user:randint')]
                if len(u) == 1 and len(u[0]) == 5:
                    self.draws(case, u[0][2], u[0][3], u[0][4])
                else:
                    self.unknown('draws not understood')
            else:
                self.unknown('draws not understood')

    def draws(self, case, lo, hi, n):
        if (lo, hi, n) == (K(0), N, N):
            self.ok('draws', '%r: n draws from 0 .. n-1' % case)
        else:
            self.fail('bootstrap draws', '%r: draws %s numbers from %s up to (not including) %s' % (
                case, tstr(n), tstr(lo), tstr(hi)))

    # -------------------------------------------------------------- split
    def parts(self, I, o, case):
        _, items = I.seq_of(o.value) if isinstance(o.value, (TupleV, PyList)) else (None, None)
        if items is None or len(items) != 2:
            return self.unknown('result of split not understood')
        nd, ax = case.meta['nd'], case.meta['axis']
        for it, who in zip(items, ('TRAIN', 'TEST')):
            if not isinstance(it, Inst) or not isinstance(it.attrs.get('x'), Arr):
                self.unknown('result of split not understood')
                continue
            a = it.attrs['x']
            for k, d in enumerate(a.dims):
                d = I.facts.norm(d)
                if k == ax % nd:
                    idx = ('seq', who, 'int')
                    jj = T.fresh_j()
                    want = T.comp(((jj, T.length(idx)),), T.at(('lab', 'A', k), T.at(idx, ('j', jj))), TRUE)
                else:
                    want = ('lab', 'A', k)
                if d == I.facts.norm(want):
                    self.ok('split', '%r: axis %d of the %s part' % (case, k, who.lower()))
                elif O.opaque(d):
                    self.unknown('split: axis not understood')
                else:
                    self.fail('split %s' % who, '%r: axis %d of the %s part is %s' % (case, k, who.lower(), tstr(d)))


def cats(t):
    return t[1] if len(t) == 2 and isinstance(t[1], tuple) and t[1] and isinstance(t[1][0], tuple) else t[1:]


def leaves(t, conds=()):
    if t[0] == 'ite':
        for x in leaves(t[2], conds + ((t[1], True),)):
            yield x
        for x in leaves(t[3], conds + ((t[1], False),)):
            yield x
    else:
        yield conds, t


def sub(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            for y in sub(x):
                yield y


CHECKS = [Resample]
