"""C09 (one definition of missing) and C30 (missone / misstwo)."""
import itertools
from ..core import Check, path_text
from ..values import *
from .. import catalog, oracle
from .. import terms as T
from ..terms import K, NONE
from ..catalog import func, other, array, arg, sym, method
from ..drivers import tstr
from ..facts import ALLKINDS

# the documented table: dtype kind -> missing value marker (None here: no missing values)
MARKER = {'inexact': 'nan', 'str': '', 'object': None}
HAS = set(MARKER)


def is_marker(t, kind):
    if not T.isk(t):
        return None
    if kind == 'inexact':
        return isinstance(t[2], float) and t[2] != t[2] or t[2] == 'nan' and t[1] != 'str'
    if kind == 'str':
        return t == K('')
    return t == NONE


# ------------------------------------------------------------------ truth tables over cells
class Undecided(Exception):
    pass


class Infeasible(Exception):
    pass


class Cell(object):
    """state of one cell of the two operands: 'ok', 'miss', or the axis whose label the operand does not have"""

    def __init__(self, I, state, kinds):
        self.I = I
        self.state = state
        self.kinds = kinds

    def val(self, t):
        """('cell', who) / ('missing', who) / ('const', term) / (op, ...)"""
        h = t[0]
        if h == 'X':
            if t[1] not in self.state:
                raise Undecided()
            s = self.state[t[1]]
            if s not in ('ok', 'miss', 'inf'):
                raise Infeasible()
            return ('cell' if s != 'miss' else 'missing', t[1])
        if h in ('castc', 'pin'):
            return self.val(t[1])
        if h in ('ext', 'junk'):
            w = self.who(t)
            ks = set(x[2] for x in T.walk(t[2]) if x and x[0] == 'lab')
            if len(ks) != 1:
                raise Undecided()
            if self.state[w] in ks:
                if self.I.facts.query(T.eq(T.length(t[3]), K(0))) is True:
                    raise Infeasible()
                if h == 'junk' or not any(is_marker(t[4], k) for k in HAS):
                    raise Undecided()
                return ('missing', w)
            return self.val(t[1])
        if h == 'where':
            return self.val(t[2] if self.truth(t[1]) else t[3])
        if h == 'kc':
            return ('const', t[1])
        if h == 'ew':
            a = [self.val(x) for x in t[2]]
            if t[1] in ('add', 'multiply', 'maximum', 'minimum'):
                a = sorted(a, key=repr)
            return (t[1],) + tuple(a)
        raise Undecided()

    def talks(self, t):
        return T.contains(t, lambda x: x and x[0] == 'X' and len(x) > 1 and x[1] in self.state)

    def who(self, t):
        while t[0] in ('ext', 'junk', 'castc', 'pin'):
            t = t[1]
        if t[0] != 'X' or t[1] not in self.state:
            raise Undecided()
        return t[1]

    def missing(self, v):
        if v[0] == 'missing':
            return True
        if v[0] == 'cell':
            return False
        if v[0] == 'const' and v[1][0] == 'sym':
            return False            # the caller may pass a number
        raise Undecided()

    def truth(self, c):
        if c[0] == 'kc' and T.isk(c[1]) and c[1][1] == 'bool':
            return c[1][2]
        if c[0] == 'k' and c[1] == 'bool':
            return c[2]
        if c[0] == 'where':
            return self.truth(c[2] if self.truth(c[1]) else c[3])
        if c[0] != 'ew':
            raise Undecided()
        n, a = c[1], c[2]
        if n == 'isnan':
            self.kind_is(a[0], 'inexact')
            return self.missing(self.val(a[0]))
        if n in ('isfinite', 'isinf'):
            self.kind_is(a[0], 'inexact')
            inf = 'inf' == self.state[self.who(a[0])]
            return inf if n == 'isinf' else not (inf or self.missing(self.val(a[0])))
        if n in ('equal', 'not_equal') and len(a) == 2:
            for x, y in ((a[0], a[1]), (a[1], a[0])):
                if y[0] == 'kc' and y[1] in (K(''), NONE):
                    self.kind_is(x, 'str' if y[1] == K('') else 'object')
                    return self.missing(self.val(x)) == (n == 'equal')
                if x == y and x[0] == 'X':
                    self.kind_is(x, 'inexact')
                    return self.missing(self.val(x)) == (n == 'not_equal')
        if n == 'logical_not':
            return not self.truth(a[0])
        rs = [self.truth(x) for x in a]
        if n in ('logical_and', 'multiply', 'bitwise_and'):
            return all(rs)
        if n in ('logical_or', 'add', 'bitwise_or'):
            return any(rs)
        if n in ('logical_xor', 'not_equal', 'bitwise_xor') and len(rs) == 2:
            return rs[0] != rs[1]
        if len(rs) == 2 and n in ('equal', 'less', 'less_equal', 'greater', 'greater_equal'):
            return {'equal': rs[0] == rs[1], 'less': rs[0] < rs[1], 'less_equal': rs[0] <= rs[1],
                    'greater': rs[0] > rs[1], 'greater_equal': rs[0] >= rs[1]}[n]
        raise Undecided()

    def kind_is(self, t, kind):
        """the operand, as it is on this path, is of a kind where this test finds the missing values"""
        while t[0] in ('ext', 'junk', 'where', 'pin'):
            t = t[3] if t[0] == 'where' else t[1]
        if t[0] == 'castc':
            ks = set(t[2])
        elif t[0] == 'X' and t[1] in self.kinds:
            ks = self.kinds[t[1]]
        else:
            raise Undecided()
        if not ks <= ({kind} if kind != 'inexact' else {'inexact', 'int', 'bool'}):
            raise Undecided()


OPS = {'add': 'add', 'subtract': 'subtract', 'multiply': 'multiply', 'divide': 'divide'}
F = 'la.flarry'


def npfunc(name):
    return arg(lambda I: Nat('np.' + name), 'np.' + name)


class C30(Check):
    id = 'C30'
    rule = ('truth table over the states of a cell in the two operands (present, missing, absent): on every path the '
            'operand of the binary function is the replacement value in exactly the documented states and the cell '
            'itself otherwise')
    floor = 300

    def cases(self):
        opts = [{}, {'missone': sym('m1', 'float')}, {'misstwo': sym('m2', 'float')},
                {'missone': sym('m1', 'float'), 'misstwo': sym('m2', 'float')}]
        kinds = [None, ('inexact', 'inexact'), ('inexact', 'int'), ('int', 'inexact')]
        for nd in (1, 2) if not self.thorough else (1, 2, 3):
            for join in ('inner', 'outer', 'left', 'right'):
                if nd == 3 and join == 'outer':
                    continue
                for kd in kinds:
                    if kd is None and (nd > 1 or join != 'inner'):
                        continue
                    ka, kb = kd and frozenset([kd[0]]), kd and frozenset([kd[1]])
                    for n in sorted(OPS):
                        if n in ('subtract', 'multiply') and (nd > 1 or kd != kinds[1]):
                            continue
                        for o in opts:
                            yield func(F, n, [other('A', nd, ka), other('B', nd, kb)], dict(o, join=join), nd=nd, op=n,
                                       opts=o, kd=kd)
                    for o in opts:
                        if nd == 1 and kd is not None:
                            yield func(F, 'binaryop', [npfunc('subtract'), other('A', nd, ka), other('B', nd, kb)],
                                       dict(o, join=join), nd=nd, op='subtract', opts=o, kd=kd)

    def visit(self, I, o, case):
        if o.kind != 'return':
            return
        p = oracle.larry_parts(I, o.value) if oracle.is_larry(o.value) else None
        if p is None:
            return self.unknown('%s: result not understood' % case.entry)
        t = p[1]
        one = ('const', T_SYM['m1']) if 'missone' in case.meta['opts'] else None
        two = ('const', T_SYM['m2']) if 'misstwo' in case.meta['opts'] else None
        kinds = dict((w, I.facts.kind(('kv', w)) if case.meta['kd'] is None else {case.meta['kd'][i]})
                     for i, w in enumerate('AB'))
        undecided = False
        for sa, sb in itertools.product(('ok', 'miss') + tuple(range(case.meta['nd'])), repeat=2):
            state = {'A': sa, 'B': sb}
            if any(state[w] == 'miss' and not (kinds[w] & HAS) for w in state):
                continue
            if any(state[w] == 'miss' and not (kinds[w] <= HAS) for w in state):
                undecided = True
                continue
            c = Cell(I, state, kinds)
            try:
                if not self.feasible(I, c, o):
                    continue
                got = c.val(t)
                ma, mb = sa != 'ok', sb != 'ok'
                want = []
                for w, m, n in (('A', ma, mb), ('B', mb, ma)):
                    v = ('missing' if m else 'cell', w)
                    if m and not n and one is not None:
                        v = one
                    if m and n and two is not None:
                        v = two
                    want.append(v)
                if OPS[case.meta['op']] in ('add', 'multiply'):
                    want.sort(key=repr)
                want = (OPS[case.meta['op']],) + tuple(want)
                if got == want:
                    self.ok(case.entry, '%r: operands in state %s/%s give %s' % (case, STATE(sa), STATE(sb), show(got)))
                elif got[0] != want[0]:
                    undecided = True
                else:
                    self.fail('%s: replacement in other cells than documented' % case.entry,
                              '%r: where the first operand is %s and the second %s, %s is computed instead of %s; path: %s'
                              % (case, STATE(sa), STATE(sb), show(got), show(want), path_text(o)))
            except Infeasible:
                continue
            except Undecided:
                undecided = True
        if undecided:
            self.unknown('%s: cells not understood' % case.entry)

    def feasible(self, I, c, o):
        """can a cell in this state exist on the path? (`any` of a mask was false, `all` was true)"""
        for t, v in o.taken:
            t = I.facts.norm(t)
            while t[0] in ('not', 'truthy'):
                if t[0] == 'not':
                    v = not v
                t = t[1]
            if t[0] == 'app' and t[1] in ('any', 'all') and len(t) == 3:
                try:
                    r = c.truth(t[2])
                except Undecided:
                    if c.talks(t[2]):
                        raise
                    continue
                if t[1] == 'any' and not v and r or t[1] == 'all' and v and not r:
                    return False
        return True


def STATE(s):
    return s if isinstance(s, str) else 'absent'


T_SYM = {'m1': ('sym', 'm1', 'float'), 'm2': ('sym', 'm2', 'float')}


def show(v):
    if v[0] == 'cell':
        return {'A': 'x1', 'B': 'x2'}[v[1]]
    if v[0] == 'missing':
        return 'missing(%s)' % {'A': 'x1', 'B': 'x2'}[v[1]]
    if v[0] == 'const':
        return {'m1': 'missone', 'm2': 'misstwo'}.get(v[1][1], tstr(v[1])) if v[1][0] == 'sym' else tstr(v[1])
    return '%s(%s)' % (v[0], ', '.join(show(x) for x in v[1:]))


def exactly(d, typ):
    """the argument, with floating point data of this type"""
    def f(I):
        I.float_type = typ
        return d(I)
    return arg(f, '%s of type %s' % (d.desc, typ))


class C09(Check):
    id = 'C09'
    rule = ('table comparison: for each kind of dtype the constants that missing_marker returns, that nans fills with and '
            'that ismissing compares with, and the exceptions for kinds without missing values, are those of the '
            'documented table')
    floor = 20

    def cases(self):
        for kd in sorted(ALLKINDS):
            ks = frozenset([kd])
            ds = [other('A', 1, ks), other('A', 2, ks), array('A', 1, kind=ks), array('A', 2, kind=ks)]
            if kd == 'inexact':
                ds += [exactly(d, t) for d in ds for t in ('complex', 'float32')]
            for d in ds:
                yield func('la.missing', 'missing_marker', [d], kind=kd, what='marker')
                yield func('la.missing', 'ismissing', [d], kind=kd, what='mask')
        for d, kd in (('float', 'inexact'), ('int', 'int'), ('bool', 'bool'), ('str', 'str'), ('object', 'object')):
            for shape in ((2, 3), (2,), 3):
                dt = arg(lambda I, d=d: Nat('builtins.' + d), d)
                yield func('la.missing', 'nans', [shape, dt], kind=kd, what='fill')
        for t in ('complex', 'float32'):
            dt = exactly(arg(lambda I: Nat('builtins.float'), 'float'), t)
            yield func('la.missing', 'nans', [(2, 3), dt], kind='inexact', what='fill')
        yield func('la.missing', 'nans', [(2, 3)], kind='inexact', what='fill')

    def visit(self, I, o, case):
        kd, what = case.meta['kind'], case.meta['what']
        has = kd in HAS

        def bad(got):
            self.fail('%s: not the documented marker for %s data' % (case.entry, kd),
                      '%r: %s; documented: %s; path: %s' % (case, got, 'marker %r' % (MARKER[kd],) if has else
                                                            'no missing values', path_text(o)))
        if o.kind == 'raise':
            if what == 'fill' and not has:
                if o.exc.name == 'TypeError':
                    return self.ok(case.entry + ' rejects', '%r raises TypeError' % case)
                return bad('raises %s' % o.exc.name)
            if any(oracle.unknown_term(I.facts.norm(t)) for t, v in o.taken):
                return self.unknown('%s: path not understood' % case.entry)
            return bad('raises %s' % o.exc.name)
        v = o.value
        if what == 'marker':
            if isinstance(v, Nat) and v.name == 'builtins.NotImplemented':
                return bad('returns NotImplemented') if has else self.ok(case.entry, '%r: NotImplemented' % case)
            if isinstance(v, Const):
                if has and is_marker(K(v.v), kd):
                    return self.ok(case.entry, '%r: %r' % (case, v.v))
                return bad('returns %r' % (v.v,))
            return self.unknown('%s: result not understood' % case.entry)
        if not isinstance(v, Arr):
            return self.unknown('%s: result not understood' % case.entry)
        t = I.facts.norm(v.buf.content)
        if what == 'fill':
            if t[0] != 'kc':
                return self.unknown('%s: content not understood' % case.entry)
            if not has:
                return bad('returns an array filled with %s' % tstr(t))
            if is_marker(t[1], kd):
                return self.ok(case.entry, '%r: filled with %s' % (case, tstr(t)))
            return bad('filled with %s' % tstr(t))
        a = I.ctx_args[1][0]
        a = a if isinstance(a, Arr) else a.attrs.get('x')
        if not isinstance(a, Arr) or len(a.dims) != len(v.dims):
            return bad('mask has another shape')
        if not has:
            if t in (('kc', T.FALSE), ('kc', K(False))):
                return self.ok(case.entry, '%r: nothing missing' % case)
            if t[0] == 'kc' or oracle.unknown_term(t) is False and t[0] == 'ew':
                return bad('mask is %s' % tstr(t))
            return self.unknown('%s: mask not understood' % case.entry)
        c = {}
        try:
            for s in ('ok', 'miss', 'inf'):
                c[s] = Cell(I, {'A': s}, {'A': {kd}}).truth(t)
        except (Undecided, Infeasible):
            if t[0] == 'ew' and t[1] in ('equal', 'isnan', 'not_equal') and ('X', 'A') in t[2] and \
                    (len(t[2]) == 1 or any(x[0] == 'kc' and T.isk(x[1]) for x in t[2])):
                return bad('mask is %s' % tstr(t))
            return self.unknown('%s: mask not understood' % case.entry)
        if c == {'ok': False, 'miss': True, 'inf': False}:
            return self.ok(case.entry, '%r: %s' % (case, tstr(t)))
        bad('mask is %s' % tstr(t))


CHECKS = [C09, C30]
