"""C08 (invalid labels are rejected) and C23 (a rejected call changes
nothing)."""
import itertools
import zlib
from ..core import Check, path_text, where_of
from ..values import *
from .. import catalog, oracle
from .. import terms as T
from ..terms import K
from ..catalog import Case, lift, arg, mklarry, mkarray

NAMES = ('a', 'b', 'c', 'd')


def sized(I, who, shape, kind=None):
    """array of a known shape, unknown elements"""
    a = mkarray(I, who, len(shape), kind)
    for k, n in enumerate(shape):
        I.facts.assume(T.eq(T.length(('free', who, k)), K(n)), True)
    return a


def build(shape, labels, kw=None):
    def body(I):
        x = sized(I, 'A', shape)
        lab = lift(I, labels)
        I.ctx_args = (None, [x, lab], {})
        return I.call(I.prog.modules['la.deflarry'].env['larry'], [x, lab], dict((k, lift(I, v)) for k, v in (kw or {}).items()))
    return body


def created(name, labels, kw=None):
    def body(I):
        lab = lift(I, labels)
        I.ctx_args = (None, [lab], {})
        k = dict((q, lift(I, v)) for q, v in (kw or {}).items())
        k['label'] = lab
        return I.call(I.prog.modules['la.flarry'].env[name], [], k)
    return body


def on_valid(shape, call):
    """call(I, larry) on a larry of known labels"""
    def body(I):
        l = mklarry(I, 'A', len(shape), x=None)
        for k, n in enumerate(shape):
            I.facts.assume(T.eq(T.length(('lab', 'A', k)), K(n)), True)
        I.ctx_args = (l, [], {})
        return call(I, l)
    return body


def names(n):
    return list(NAMES[:n])


def bad_labels(nd):
    """(what is wrong, shape, labels)"""
    shape = [2, 3, 4][:nd]
    good = [names(n) for n in shape]
    yield 'number of label lists', shape, good[:-1]
    yield 'number of label lists', shape, good + [['a']]
    for k in range(nd):
        for n in (shape[k] - 1, shape[k] + 1):
            yield 'length', shape, good[:k] + [['l%d' % i for i in range(n)]] + good[k + 1:]
        yield 'length', shape, good[:k] + [[]] + good[k + 1:]
        # the duplicate at every pair of places
        for i in range(shape[k]):
            for j in range(i):
                dup = list(good[k])
                dup[i] = dup[j]
                yield 'duplicate', shape, good[:k] + [dup] + good[k + 1:]
        yield 'duplicate', shape, good[:k] + [[None] * shape[k]] + good[k + 1:]
        yield 'container', shape, good[:k] + [tuple(good[k])] + good[k + 1:]
    for k in range(nd):
        # only the sizes of two axes exchanged
        for m in range(k):
            ex = list(good)
            ex[k], ex[m] = ex[m], ex[k]
            yield 'length', shape, ex


def valid_cases():
    """labels that are valid: the constructor must take them"""
    for shape in ([0], [1], [3], [2, 3], [3, 2], [0, 2], [2, 0], [2, 2], [2, 3, 4], [2, 1, 2, 3], [2, 1, 2, 1, 3]):
        for kind in ('names', 'mixed', 'none'):
            labels = [names(n) if kind == 'names' else [None, 3, 'x', 2.5][:n] for n in shape] if kind != 'none' else None
            d = '%s array, label=%r' % ('x'.join(map(str, shape)), labels)
            yield Case('larry', d, build(shape, labels), what='valid')
            yield catalog.typed(Case('larry', d + ', dtype=float', build(shape, labels, {
                'dtype': arg(lambda I: Nat('builtins.float'), 'float')}), what='valid'), {'*': ['int', 'inexact', 'bool']})


def large_cases():
    """more axes and longer axes than the small shapes"""
    for shape in ([2, 2, 3, 2], [2, 2, 2, 2, 3]):
        good = [names(n) for n in shape]
        yield 'number of label lists', shape, good[:-1]
        yield 'number of label lists', shape, good + [['a']]
        for k in range(len(shape)):
            yield 'duplicate', shape, good[:k] + [['a'] * shape[k]] + good[k + 1:]
            yield 'length', shape, good[:k] + [good[k] + ['z']] + good[k + 1:]
            yield 'length', shape, good[:k] + [good[k][:-1]] + good[k + 1:]
            yield 'container', shape, good[:k] + [tuple(good[k])] + good[k + 1:]
    for n in (12, 40, 130):
        l = ['l%d' % i for i in range(n)]
        for i, j in ((0, n - 1), (n - 2, n - 1), (0, 1), (n // 2, n - 1)):
            dup = list(l)
            dup[j] = dup[i]
            yield 'duplicate', [n], [dup]
            yield 'duplicate', [2, n], [['a', 'b'], dup]
        yield 'length', [n], [l[:-1]]
        yield 'length', [n], [l + ['z']]
    # equal labels of another type
    for pair in ([1, 1.0], [True, 1], [0, False], ['a', u'a'], [2.0, 2]):
        yield 'duplicate', [2], [pair]
        yield 'duplicate', [2, 3], [['p', 'q'], pair + ['z']]


def invalid_cases():
    for what, shape, labels in large_cases():
        d = '%s array, label=%r' % ('x'.join(map(str, shape)), labels)
        yield Case('larry', d[:300] + '#%d' % (zlib.crc32(repr(labels).encode()) % 9973), build(shape, labels), what=what)
    for nd in (1, 2, 3):
        for what, shape, labels in bad_labels(nd):
            d = '%s array, label=%r' % ('x'.join(map(str, shape)), labels)
            yield Case('larry', d, build(shape, labels), what=what)
            if nd < 3:
                yield Case('larry', d + ', dtype=float', build(shape, labels, {'dtype': arg(lambda I: Nat('builtins.float'), 'float')}),
                           what=what)
                yield Case('larry', d + ', validate=True', build(shape, labels, {'validate': True}), what=what)
            if what == 'duplicate' and nd < 3:
                for n in ('lrange', 'empty', 'ones', 'zeros', 'rand', 'randn'):
                    yield Case(n, 'label=%r' % (labels,), created(n, labels), what=what)
    yield Case('larry', '0d array, label=[]', build([], []), what='0d')
    yield Case('larry', '0d array', build([], None), what='0d')
    # operations that could make two labels the same
    for nd in (1, 2):
        shape = [2, 3][:nd]
        for k in range(nd):
            for copy in (True, False):
                for ax in (k, k - nd) + ((None,) if nd == 1 else ()):
                    def call(I, l, ax=ax, copy=copy):
                        return I.call(I.getattr(l, 'maplabel'), [UserFunc('const', lambda I2, a, k: Const('same'))], {'axis': Const(ax), 'copy': Const(copy)})
                    yield Case('larry.maplabel', '%dd; constant function, axis=%r, copy=%r' % (nd, ax, copy),
                               on_valid(shape, call), what='duplicate')

            def call(I, l, k=k):
                return I.call(I.getattr(l, 'take'), [lift(I, [0, 0])], {'axis': Const(k)})
            yield Case('larry.take', '%dd; [0, 0], axis=%d' % (nd, k), on_valid(shape, call), what='duplicate')

            def call(I, l, k=k, nd=nd):
                ix = [slice(None)] * nd
                ix[k] = [0, 0]
                return I.getitem(l, lift(I, tuple(ix)))
            yield Case('larry.__getitem__', '%dd; [0, 0] along axis %d' % (nd, k), on_valid(shape, call), what='duplicate')

            def call(I, l, k=k):
                return I.call(I.getattr(l, 'morph'), [lift(I, ['p', 'q', 'p'])], {'axis': Const(k)})
            yield Case('larry.morph', "%dd; ['p', 'q', 'p'], axis=%d" % (nd, k), on_valid(shape, call), what='duplicate')


class C08(Check):
    id = 'C08'
    rule = ('must-raise analysis: with a label count, length, element container or duplicate label that makes the larry '
            'invalid, every path of the constructor, the creation functions and the label changing methods ends in an '
            'exception, before an argument is written')
    floor = 60

    def cases(self):
        for case in itertools.chain(invalid_cases(), valid_cases()):
            yield case

    def visit(self, I, o, case):
        if case.meta['what'] == 'valid':
            if o.kind == 'return':
                return self.ok('%s valid' % case.entry, '%r returns' % case)
            if any(oracle.unknown_term(I.facts.norm(t)) for t, v in o.taken):
                return self.unknown('%s: path not understood' % case.entry)
            return self.fail('%s rejects a valid larry' % case.entry, '%r raises %s; path: %s'
                             % (case, o.exc.name, path_text(o)))
        if o.kind == 'return':
            if any(oracle.unknown_term(I.facts.norm(t)) for t, v in o.taken) or isinstance(o.value, Unk):
                return self.unknown('%s: path not understood' % case.entry)
            return self.fail('%s accepts an invalid larry: %s' % (case.entry, case.meta['what']),
                             '%r returns instead of raising; path: %s' % (case, path_text(o)))
        for e in o.events:
            if e['kind'] == 'mutate' and e['origin'][0] == 'in':
                return self.fail('%s writes before rejecting: %s' % (case.entry, case.meta['what']),
                                 '%r: %s reaches %s before the exception' % (case, e['what'], e['origin'][2]), where_of(e))
        self.ok('%s %s' % (case.entry, case.meta['what']), '%r raises %s' % (case, o.exc.name))


class C23(Check):
    id = 'C23'
    rule = ('effect analysis of the raising paths: when a call ends in an exception, no write has reached memory of an '
            'argument before it')
    floor = 300

    def cases(self):
        return catalog.everything(self.thorough)

    def visit(self, I, o, case):
        if o.kind == 'return':
            return
        bad = False
        for e in o.events:
            if e['kind'] == 'mutate' and e['origin'][0] == 'in':
                bad = True
                self.fail('%s writes %s of argument %s before it raises' % (case.entry, e['origin'][2], e['origin'][1]),
                          '%r: %s reaches %s, then %s is raised; path: %s'
                          % (case, e['what'], e['origin'][2], o.exc.name, path_text(o)), where_of(e))
        if not bad:
            self.ok(case.entry, '%r: nothing written before %s is raised; path: %s' % (case, o.exc.name, path_text(o, 4)))


CHECKS = [C08, C23]
