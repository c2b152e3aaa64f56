"""The public API of the package, with the abstract calling contexts in which
each entry point is analysed.

A Case is one entry point in one context: the number of dimensions and the
option values (axis, join, mode ...) are concrete; every label, every array
element, every length and every other argument is abstract.
"""
from . import terms as T
from .terms import K
from .values import *
from . import drivers
from .drivers import mklarry, mkarray, mkseqin


# slow entry points, analysed first
WEIGHT = {'stack': 9, 'larry.merge': 8, 'align': 5, 'add': 5, 'subtract': 5, 'multiply': 5, 'divide': 5,
          'align_raw': 5, 'lix.__setitem__': 4, 'larry.morph_like': 4, 'align_axis': 3}


class Case(object):
    def __init__(self, entry, desc, body, **meta):
        self.entry = entry
        self.desc = desc
        self.body = body
        self.meta = meta
        self.weight = WEIGHT.get(entry, 0)

    def __repr__(self):
        return '%s(%s)' % (self.entry, self.desc)


def c(v):
    """python constant -> abstract value"""
    return v if isinstance(v, V) else Const(v)


def lift(I, a):
    if callable(a) and not isinstance(a, V):
        return a(I)
    if isinstance(a, tuple):
        return TupleV([lift(I, x) for x in a])
    if isinstance(a, list):
        return I.new(PyList([lift(I, x) for x in a]), ('in', 'arg', 'list'))
    if isinstance(a, dict):
        d = PyDict([(I.freeze(Const(k)), Const(k), lift(I, x)) for k, x in a.items()])
        return I.new(d, ('in', 'arg', 'dict'))
    if isinstance(a, slice):
        return SliceV(lift(I, a.start), lift(I, a.stop), lift(I, a.step))
    return c(a)


def sym(name, typ='any'):
    return Sym(('sym', name, typ), typ)


def FUNC(name, module):
    def get(I):
        return I.prog.modules[module].env[name]
    return get


def npf(name):
    def get(I):
        fr_mod = I.prog.modules['la.deflarry']
        return I.getattr(fr_mod.env['np'], name)
    return get


def show(a):
    if callable(a) and not isinstance(a, V):
        return getattr(a, 'desc', getattr(a, '__name__', '?'))
    if isinstance(a, Sym):
        return a.term[1] if isinstance(a.term[1], str) else '?'
    if isinstance(a, tuple):
        return '(%s)' % ', '.join(show(x) for x in a)
    if isinstance(a, list):
        return '[%s]' % ', '.join(show(x) for x in a)
    if isinstance(a, slice):
        return '%s:%s:%s' % tuple('' if x is None else show(x) for x in (a.start, a.stop, a.step))
    return repr(a)


def argdesc(args, kw):
    out = [show(a) for a in args] + ['%s=%s' % (k, show(v)) for k, v in sorted(kw.items())]
    return ', '.join(out)


def arg(f, desc):
    f.desc = desc
    return f


# ---- common abstract arguments
def newlabels(who='L', typ='label', pytype='list'):
    return arg(lambda I: mkseqin(I, who, typ, pytype), '<labels %s>' % who)


def other(who, ndim, kind=None):
    return arg(lambda I: mklarry(I, who, ndim, kind), '<%dd larry %s>' % (ndim, who))


def array(who, ndim, dims=None, kind=None):
    return arg(lambda I: mkarray(I, who, ndim, kind, dims), '<array %s>' % who)


def afunc(name):
    """an unknown user function"""
    return arg(lambda I: UserFunc(name), '<function %s>' % name)


def axes(nd, none=False, neg=True):
    out = [None] if none else []
    out += list(range(nd))
    if neg:
        out += list(range(-nd, 0))
    return out


def method(name, nd, args=(), kw=None, who='A', kind=None, tag=None, **meta):
    kw = kw or {}

    def body(I):
        l = mklarry(I, who, nd, kind)
        a = [lift(I, x) for x in args]
        k = dict((q, lift(I, x)) for q, x in kw.items())
        I.ctx_args = (l, a, k)
        return I.call(I.getattr(l, name), a, k)
    d = '%dd%s' % (nd, ('; ' + argdesc(args, kw)) if args or kw else '')
    if kind is not None:
        d += '; ' + kind_name(kind) + ' data'
    return Case('larry.' + name, d, body, nd=nd, args=args, kw=kw, name=name, kind=kind, **meta)


def prop(name, nd, **meta):
    def body(I):
        l = mklarry(I, 'A', nd)
        I.ctx_args = (l, [], {})
        return I.getattr(l, name)
    return Case('larry.' + name, '%dd' % nd, body, nd=nd, args=(), kw={}, name=name, **meta)


def kind_name(kind):
    return '|'.join(sorted(kind)) if isinstance(kind, (frozenset, set)) else str(kind)


def func(mod, name, args=(), kw=None, **meta):
    kw = kw or {}

    def body(I):
        f = I.prog.modules[mod].env[name]
        a = [lift(I, x) for x in args]
        k = dict((q, lift(I, x)) for q, x in kw.items())
        I.ctx_args = (None, a, k)
        return I.call(f, a, k)
    return Case(name, argdesc(args, kw), body, args=args, kw=kw, name=name, mod=mod, **meta)


ELEMENTWISE = ['log', 'exp', 'sqrt', 'sign', 'abs', 'isnan', 'isfinite', 'isinf',
               '__neg__', '__pos__', '__abs__']
REDUCE = ['sum', 'prod', 'mean', 'geometric_mean', 'median', 'std', 'var', 'max', 'min']
BINOPS = ['__add__', '__sub__', '__mul__', '__div__', '__truediv__', '__floordiv__',
          '__and__', '__or__']
RBINOPS = ['__radd__', '__rsub__', '__rmul__', '__rdiv__', '__rtruediv__', '__rfloordiv__']
COMPARE = ['__eq__', '__ne__', '__lt__', '__gt__', '__le__', '__ge__']
MOVE = ['move_sum', 'move_mean', 'move_std', 'move_min', 'move_max']


def larry_cases(nds=(1, 2, 3)):
    """every public method of larry"""
    for nd in nds:
        for n in ELEMENTWISE:
            yield method(n, nd, group='elementwise')
        yield method('__invert__', nd, kind=frozenset(['bool']), group='elementwise')
        yield method('invert', nd, kind=frozenset(['bool']), group='elementwise')
        yield method('power', nd, [sym('q', 'float')], group='elementwise')
        yield method('__pow__', nd, [sym('q', 'float')], group='elementwise')
        yield method('clip', nd, [sym('lo', 'float'), sym('hi', 'float')], group='elementwise')
        yield method('nan_replace', nd, [sym('v', 'float')], group='elementwise')
        yield method('astype', nd, [Nat('float')], group='elementwise')
        yield method('copy', nd, group='elementwise')
        yield method('ismissing', nd, group='elementwise_or_array')
        for ax in axes(nd):
            yield method('cumsum', nd, [ax], axis=ax, group='scan')
            yield method('cumprod', nd, [ax], axis=ax, group='scan')
            yield method('ranking', nd, [ax], axis=ax, group='scan')
            yield method('quantile', nd, [sym('q', 'int'), ax], axis=ax, group='scan')
            yield method('push', nd, [sym('window', 'int'), ax], axis=ax, group='scan')
            yield method('lastrank', nd, [ax], axis=ax, group='reduce')
            yield method('lastrank', nd, [ax, sym('decay', 'float')], axis=ax, group='reduce')
            for n in MOVE:
                yield method(n, nd, [sym('window', 'int'), ax], axis=ax, group='move')
            for meth in ('strides', 'loop'):
                yield method('move_ranking', nd, [sym('window', 'int'), ax, meth], axis=ax, group='move')
                yield method('move_func', nd, [afunc('func'), sym('window', 'int'), ax, meth],
                             axis=ax, group='move')
                yield method('move_func', nd, [afunc('func'), sym('window', 'int'), ax, meth],
                             {'myopt': sym('myopt')}, axis=ax, group='move')
            yield method('move_median', nd, [sym('window', 'int'), ax, 'loop'], axis=ax, group='move')
            yield method('movingsum_forward', nd, [sym('window', 'int')], {'axis': ax}, axis=ax, group='move')
            if ax >= 0 or True:
                for n in ('group_ranking', 'group_mean', 'group_median'):
                    yield method(n, nd, [other('G', 1), ax], axis=ax, group='group')
            yield method('take', nd, [arg(lambda I: mkseqin(I, 'IDX', 'int'), '<ints IDX>'), ax],
                         axis=ax, group='take')
            yield method('labelindex', nd, [sym('lab'), ax], axis=ax, group='query')
            yield method('labelindex', nd, [sym('lab'), ax], {'exact': False}, axis=ax, group='query')
            yield method('keep_label', nd, ['==', sym('lab'), ax], axis=ax, group='keep')
            yield method('keep_label', nd, ['in', newlabels('W'), ax], axis=ax, group='keep')
            yield method('keep_label', nd, ['not in', newlabels('W'), ax], axis=ax, group='keep')
            yield method('keep_label', nd, ['<', sym('lab'), ax], axis=ax, group='keep')
            yield method('lag', nd, [sym('nlag', 'int'), ax], axis=ax, group='lag')
            yield method('morph', nd, [newlabels('L'), ax], axis=ax, group='morph')
            yield method('getlabel', nd, [ax], axis=ax, group='query')
            yield method('getlabel', nd, [ax, False], axis=ax, group='view')
            yield method('shuffle', nd, [ax], axis=ax, group='inplace')
            yield method('shufflelabel', nd, [ax], axis=ax, group='inplace')
            for ax2 in axes(nd):
                yield method('swapaxes', nd, [ax, ax2], axis=ax, axis2=ax2, group='transpose')
        for ax in axes(nd + 1):
            yield method('insertaxis', nd, [ax, sym('lab')], axis=ax, group='insertaxis')
        for ax in axes(nd, none=True):
            for n in REDUCE + ['any', 'all']:
                yield method(n, nd, [ax], axis=ax, group='reduce')
            for n in ('std', 'var'):
                yield method(n, nd, [ax, sym('ddof', 'int')], axis=ax, group='reduce')
            for n in ('demean', 'demedian', 'zscore'):
                yield method(n, nd, [ax], axis=ax, group='scan')
            yield method('sortaxis', nd, [ax], axis=ax, group='sort')
            yield method('sortaxis', nd, [ax, True], axis=ax, group='sort')
            yield method('flipaxis', nd, [ax], axis=ax, group='flip')
            yield method('flipaxis', nd, [ax], {'copy': False}, axis=ax, group='inplace')
            yield method('maplabel', nd, [afunc('func'), ax], axis=ax, group='maplabel')
            yield method('maplabel', nd, [afunc('func'), ax], {'copy': False}, axis=ax, group='inplace')
            yield method('maxlabel', nd, [ax], axis=ax, group='query')
            yield method('minlabel', nd, [ax], axis=ax, group='query')
            yield method('cut_missing', nd, [sym('fraction', 'float'), ax], axis=ax, group='keep')
            yield method('vacuum', nd, [ax], axis=ax, group='keep')
        yield method('ranking', nd, [None], axis=None, group='scan')
        yield method('quantile', nd, [sym('q', 'int'), None], axis=None, group='scan')
        if nd > 1:
            for axs in ((0, 1), (-1, 0)):
                yield method('vacuum', nd, [axs], group='keep')
        yield method('shuffle', nd, [None], axis=None, group='inplace')
        yield method('shufflelabel', nd, [None], axis=None, group='inplace')
        for vac in (True, False):
            for op in ('==', '!=', '<', '>', '<=', '>='):
                if op == '>' or nd == 2:
                    yield method('keep_x', nd, [op, sym('v', 'float'), vac], group='keep')
        for n in BINOPS + COMPARE:
            yield method(n, nd, [other('B', nd)], group='binary')
            yield method(n, nd, [sym('s', 'float')], group='binary_scalar')
            yield method(n, nd, [array('B', nd, tuple(('lab', 'A', k) for k in range(nd)))],
                         group='binary_array')
        for n in RBINOPS:
            yield method(n, nd, [sym('s', 'float')], group='binary_scalar')
        yield method('fill', nd, [sym('v', 'float')], group='inplace')
        yield method('set', nd, [[sym('l%d' % k) for k in range(nd)], sym('v', 'float')], group='inplace')
        yield method('get', nd, [[sym('l%d' % k) for k in range(nd)]], group='query')
        yield method('getx', nd, group='query')
        yield method('getx', nd, [False], group='view')
        yield method('copyx', nd, group='query')
        yield method('copylabel', nd, group='query')
        yield prop('A', nd, group='view')
        yield prop('T', nd, group='transpose')
        for n in ('nx', 'size', 'shape', 'ndim', 'dtype'):
            yield prop(n, nd, group='query')
        yield method('squeeze', nd, group='view')
        for o in ('C', 'F'):
            yield method('flatten', nd, [o], group='flatten')
        yield method('totuples', nd, group='convert')
        yield method('tolist', nd, group='convert')
        yield method('todict', nd, group='convert')
        yield method('unflatten', nd, group='flatten') if nd == 1 else prop('ndim', nd, group='query')
        yield method('morph_like', nd, [other('B', nd)], group='morph')
        if nd > 1:
            for ax in axes(nd):
                yield method('pull', nd, [sym('lab'), ax], axis=ax, group='pull')
        for upd in (False, True):
            if nd <= 1:
                yield method('merge', nd, [other('B', nd)], {'update': upd}, group='merge', update=upd)


def index_forms(nd):
    """the documented index forms, for nd dimensions"""
    full = slice(None)
    sl = slice(sym('a', 'int'), sym('b', 'int'), sym('c', 'int'))
    il = arg(lambda I: mkseqin(I, 'IDX', 'int'), '<ints IDX>')
    out = []
    i = sym('i', 'int')
    out += [i, sl, full, il, Const(Ellipsis)]
    out += [(i,) + (full,) * (nd - 1), (sl,) * nd, (il,) + (full,) * (nd - 1)]
    if nd >= 2:
        out += [(i, sym('i2', 'int')) + (full,) * (nd - 2), (full, i), (full, sl), (full, il), (il, sl), (sl, il),
                (i, il), (il, i)]
    if nd >= 3:
        out += [(i, full, il), (il, full, i), (i, full, sym('i2', 'int')), (full, i, il), (sl, il, full)]
    if nd == 2:
        out += [(il, arg(lambda I: mkseqin(I, 'IDX2', 'int'), '<ints IDX2>'))]
    return out


BOOL = frozenset(['bool'])


def mask_forms(nd):
    """boolean arrays and boolean larrys as an index"""
    full, i = slice(None), sym('i', 'int')
    ml = arg(lambda I: mklarry(I, 'M', 1, BOOL), '<bool larry M>')
    ma = arg(lambda I: mkarray(I, 'M', 1, BOOL), '<bool array M>')
    out = [ml, ma, (ml,), (ma,)]
    if nd >= 2:
        for m in (ml, ma):
            out += [(m, full), (full, m), (i, m), (m, i), (slice(sym('a', 'int'), sym('b', 'int'), None), m)]
    if nd >= 3:
        for m in (ml, ma):
            out += [(full, full, m), (full, i, m), (i, full, m), (m, full, i)]
    return out


def index_cases(nds=(1, 2, 3)):
    for nd in nds:
        for ix in mask_forms(nd):
            yield method('__getitem__', nd, [ix], group='getitem', index=ix, mask=True)
            if ix is not mask_forms(nd)[0]:
                yield method('__setitem__', nd, [ix, sym('v', 'float')], group='setitem', index=ix, mask=True)
        whole = arg(lambda I, nd=nd: mklarry(I, 'M', nd, BOOL), '<bool larry M of all axes>')
        yield method('__setitem__', nd, [whole, sym('v', 'float')], group='setitem', index=whole, mask=True)
        for ix in index_forms(nd):
            yield method('__getitem__', nd, [ix], group='getitem', index=ix)
            yield method('__setitem__', nd, [ix, sym('v', 'float')], group='setitem', index=ix)
            yield method('__setitem__', nd, [ix, other('B', nd)], group='setitem_larry', index=ix)


def lix_forms(nd):
    lab = sym('p', 'any')
    one = [sym('p')]
    out = [one]
    return out


def func_cases(nds=(1, 2)):
    F = 'la.flarry'
    for nd in nds:
        for join in ('inner', 'outer', 'left', 'right', 'skip'):
            yield func(F, 'align', [other('A', nd), other('B', nd)], {'join': join}, nd=nd, join=join, group='align')
            yield func(F, 'align', [other('A', nd), other('B', nd)], {'join': join, 'cast': False}, nd=nd, join=join, group='align')
            yield func(F, 'align_raw', [other('A', nd), other('B', nd)], {'join': join}, nd=nd, join=join, group='align_raw')
            for n in ('add', 'subtract', 'multiply', 'divide'):
                yield func(F, n, [other('A', nd), other('B', nd)], {'join': join}, nd=nd, join=join, group='binary')
        yield func(F, 'add', [other('A', nd), other('B', nd)], {'missone': sym('m1', 'float')}, nd=nd, group='binary')
        yield func(F, 'add', [other('A', nd), other('B', nd)], {'misstwo': sym('m2', 'float')}, nd=nd, group='binary')
        for ax in axes(nd):
            for join in ('inner', 'outer', 'left', 'right'):
                yield func(F, 'align_axis', [[other('A', nd), other('B', nd)]], {'axis': ax, 'join': join},
                           nd=nd, axis=ax, join=join, group='align_axis')
            yield func(F, 'union', [ax, other('A', nd), other('B', nd)], nd=nd, group='query')
            yield func(F, 'intersection', [ax, other('A', nd), other('B', nd)], nd=nd, group='query')
            yield func(F, 'isaligned', [other('A', nd), other('B', nd), ax], nd=nd, group='query')
        yield func(F, 'isaligned', [other('A', nd), other('B', nd)], nd=nd, group='query')
        yield func(F, 'isaligned', [other('A', nd), other('B', nd + 1)], nd=nd, group='query', nds=(nd, nd + 1))
        for ri, rv in ((False, False), (True, False), (False, True), (True, True)):
            yield func(F, 'unique', [other('A', nd), ri, rv], nd=nd, group='query')
    # more than two larrys
    for n in (3, 4):
        for ax in (0, 1):
            lars = [other(w, 2) for w in 'ABCD'[:n]]
            yield func(F, 'union', [ax] + lars, nd=2, group='query', n=n)
            yield func(F, 'intersection', [ax] + lars, nd=2, group='query', n=n)
    for join in ('inner', 'outer', 'left', 'right'):
        yield func(F, 'align_axis', [[other(w, 1) for w in 'ABC']], {'axis': 0, 'join': join}, nd=1, axis=0,
                   join=join, group='align_axis', n=3)
    for nds, axs in (((1, 2), [0, 1]), ((2, 1), [1, 0]), ((2, 2), [0, 1]), ((2, 2), [1, 0])):
        for join in ('inner', 'outer', 'left', 'right'):
            yield func(F, 'align_axis', [[other(w, d) for w, d in zip('AB', nds)]], {'axis': list(axs), 'join': join},
                       nd=nds[0], axis=axs[0], axes=list(axs), nds=list(nds), join=join, group='align_axis', n=2)
        yield func(F, 'align_axis', [[other(w, d) for w, d in zip('AB', nds)]],
                   {'axis': [a - d for a, d in zip(axs, nds)], 'join': 'outer'},
                   nd=nds[0], axis=axs[0], axes=list(axs), nds=list(nds), join='outer', group='align_axis', n=2)
    for join in ('inner', 'left', 'right'):
        yield func(F, 'align_axis', [[other(w, d) for w, d in zip('ABC', (1, 2, 1))]], {'axis': [0, 1, 0], 'join': join},
                   nd=1, axis=0, axes=[0, 1, 0], nds=[1, 2, 1], join=join, group='align_axis', n=3)
    for mode in ('union', 'intersection'):
        yield func(F, 'stack', [mode], {'one': other('A', 2), 'two': other('B', 2)}, mode=mode, group='stack')
    yield func(F, 'panel', [other('A', 3)], group='panel')
    yield func(F, 'cov', [other('A', 2)], group='cov')
    for ax in (0, 1, -1, -2):
        for rev in (False, True):
            yield func(F, 'sortby', [other('A', 2), sym('e'), ax], {'reverse': rev}, axis=ax, group='sortby')
    for n in ('lrange', 'empty', 'ones', 'zeros'):
        yield func(F, n, [], {'label': [newlabels('L0'), newlabels('L1')]}, group='create')
        yield func(F, n, [(sym('n0', 'int'), sym('n1', 'int'))], group='create')


def lix_index(nd):
    """index forms of larry.lix: each axis is a slice, a list with one label,
    or a list with several; every axis has its own labels"""
    full = slice(None)
    one = lambda k: [sym('p%d' % k)]
    two = lambda k: [sym('p%d' % k), sym('q%d' % k)]
    sl = lambda k: slice(one(k), [sym('r%d' % k)], None)
    slst = lambda k: slice(one(k), [sym('r%d' % k)], sym('c', 'int'))
    below = lambda k: slice(None, one(k), None)
    many = lambda k: newlabels('L%d' % k)
    fl = lambda k: full
    forms = [(fl,) * nd, (one,) + (fl,) * (nd - 1), (two,) + (fl,) * (nd - 1),
             (sl,) + (fl,) * (nd - 1), (slst,) + (fl,) * (nd - 1), (below,) + (fl,) * (nd - 1)]
    out = []
    num = lambda k: sym('i%d' % k, 'int')
    forms += [(num,) + (fl,) * (nd - 1), (num,) * nd]
    out += [num(0)]
    if nd >= 2:
        forms += [f + (fl,) * (nd - 2) for f in ((fl, num), (num, two), (two, num), (num, one), (sl, num))]
    if nd == 1:
        out += [full, one(0), sl(0), many(0)]
        forms += [(many,)]
    if nd >= 2:
        rest = (fl,) * (nd - 2)
        forms += [(one,) * nd] + [f + rest for f in ((fl, one), (fl, two), (fl, sl), (two, one), (one, two),
                                                     (sl, two), (two, sl), (sl, sl), (one, sl), (sl, one),
                                                     (many, fl), (fl, many))]
    if nd >= 3:
        rest = (fl,) * (nd - 3)
        forms += [f + rest for f in ((one, fl, two), (two, fl, one), (fl, one, sl), (fl, two, one), (one, one, fl))]
    return [tuple(f(k) for k, f in enumerate(fs)) for fs in forms] + out


def lix_cases(nds=(1, 2, 3)):
    for nd in nds:
        for ix in lix_index(nd):
            def body(I, ix=ix, nd=nd):
                l = mklarry(I, 'A', nd)
                i = lift(I, ix)
                I.ctx_args = (l, [i], {})
                return I.getitem(I.getattr(l, 'lix'), i)
            yield Case('lix.__getitem__', '%dd; %s' % (nd, show(ix)), body, nd=nd, index=ix, group='lix_get',
                       name='lix')
            for vdesc, val in (('v', sym('v', 'float')), ('larry', other('B', nd))):
                def sbody(I, ix=ix, nd=nd, val=val):
                    l = mklarry(I, 'A', nd)
                    i = lift(I, ix)
                    v = lift(I, val)
                    I.ctx_args = (l, [i, v], {})
                    I.setitem(I.getattr(l, 'lix'), i, v)
                    return Const(None)
                yield Case('lix.__setitem__', '%dd; %s; %s' % (nd, show(ix), vdesc), sbody, nd=nd, index=ix,
                           group='lix_set' if vdesc == 'v' else 'lix_set_larry', name='lix')


def create_cases(nds=(1, 2)):
    """ways of building a larry from other data"""
    D = 'la.deflarry'
    for nd in nds:
        labs = [newlabels('L%d' % k) for k in range(nd)]
        for val in (True, False):
            def body(I, labs=labs, nd=nd, val=val):
                x = mkarray(I, 'A', nd)
                lab = lift(I, labs)
                I.ctx_args = (None, [x, lab], {})
                return I.call(I.prog.modules[D].env['larry'], [x, lab], {'validate': Const(val)})
            yield Case('larry', '%dd array, labels, validate=%s' % (nd, val), body, nd=nd, group='constructor',
                       name='larry', validate=val)

        def body2(I, nd=nd):
            x = mkarray(I, 'A', nd)
            I.ctx_args = (None, [x], {})
            return I.call(I.prog.modules[D].env['larry'], [x], {})
        yield Case('larry', '%dd array' % nd, body2, nd=nd, group='constructor_nolabel', name='larry')
        larrycls = lambda I: I.prog.modules[D].env['larry']
        for name, par in (('fromtuples', ('seq', 'TUPLES', ('tuple', nd + 1))),
                          ('fromlist', None), ('fromdict', None), ('unflatten', None)):
            def body3(I, nd=nd, name=name):
                cls = I.prog.modules[D].env['larry']
                a = conv_arg(I, name, nd)
                if name == 'unflatten':
                    I.ctx_args = (a, [], {})
                    return I.call(I.getattr(a, name), [], {})
                I.ctx_args = (None, [a], {})
                return I.call(I.getattr(cls, name), [a], {})
            yield Case('larry.' + name, '%dd' % nd, body3, nd=nd, group='convert_from', name=name)


def csv_cases(nds=(1, 2)):
    D = 'la.deflarry'
    for nd in nds:
        yield method('tocsv', nd, [sym('FILE', 'str')], group='csv')
        for skip in (None, 0, 1, 2):
            def body(I, nd=nd, skip=skip):
                I.csvrows = I.facts.norm(conv_arg(I, 'fromtuples', nd).term)
                cls = I.prog.modules[D].env['larry']
                a = [Sym(('sym', 'FILE', 'str'), 'str')]
                kw = {} if skip is None else {'skiprows': Const(skip)}
                I.ctx_args = (None, a, kw)
                return I.call(I.getattr(cls, 'fromcsv'), a, kw)
            yield Case('larry.fromcsv', '%dd, skiprows=%s' % (nd, skip), body, nd=nd, group='csv', name='fromcsv',
                       skip=skip or 0)


def conv_arg(I, name, nd):
    cols = ['c%d' % k for k in range(nd)]
    if name == 'fromtuples':
        # [(label0, .., labelN, value), ...]
        j = T.fresh_j()
        n = ('len', ('seq', 'ROW', 'any'))
        t = ('tup',) + tuple(('at', ('seq', cc, 'any'), ('j', j) if not isinstance(j, tuple) else j) for cc in cols + ['val'])
        return I.new(PyList(None, T.comp(((j, n),), t, K(True))), ('in', 'data', 'list'))
    if name == 'fromlist':
        val = I.new(PyList(None, ('seq', 'val', 'any')), ('in', 'data', 'list'))
        j = T.fresh_j()
        n = ('len', ('seq', 'val', 'any'))
        t = ('tup',) + tuple(('at', ('seq', cc, 'any'), ('j', j) if not isinstance(j, tuple) else j) for cc in cols)
        lab = I.new(PyList(None, T.comp(((j, n),), t, K(True))), ('in', 'data', 'list'))
        return I.new(PyList([val, lab]), ('in', 'data', 'list'))
    if name == 'unflatten':
        j = T.fresh_j()
        n = ('len', ('seq', 'val', 'any'))
        t = ('tup',) + tuple(('at', ('seq', cc, 'any'), ('j', j)) for cc in cols)
        lab = T.comp(((j, n),), t, K(True))
        cls = I.prog.modules['la.deflarry'].env['larry']
        ll = I.new(PyList([I.new(PyList(None, lab), ('in', 'data', 'label[0]'))]), ('in', 'data', 'label'))
        x = I.mkarr((lab,), ('sv', ('seq', 'val', 'any')), ('kv', 'A'), ('in', 'data', 'x'))
        return I.new(Inst(cls, {'x': x, 'label': ll}), ('in', 'data', 'larry'))
    j = T.fresh_j()
    n = ('len', ('seq', 'ROW', 'any'))
    k = ('tup',) + tuple(('at', ('seq', cc, 'any'), ('j', j)) for cc in cols)
    I.facts.layers[-1].uniq.add(I.facts.norm(T.comp(((j, n),), k, K(True))))
    return I.new(PyDict(None, ('dcomp', ((j, n),), k, ('at', ('seq', 'val', 'any'), ('j', j)), K(True))),
                 ('in', 'data', 'dict'))


ARR1 = [('la.farray.normalize', n) for n in ('ranking', 'demean', 'demedian', 'zscore', 'lastrank')]


def farray_cases(nds=(1, 2, 3)):
    N, G, MV, MI = 'la.farray.normalize', 'la.farray.group', 'la.farray.move', 'la.farray.misc'
    for nd in nds:
        for ax in axes(nd):
            for n in ('ranking', 'lastrank'):
                yield func(N, n, [array('A', nd)], {'axis': ax}, nd=nd, axis=ax, group='farray')
            yield func(N, 'quantile', [array('A', nd), sym('q', 'int')], {'axis': ax}, nd=nd, axis=ax, group='farray')
            yield func(N, 'push', [array('A', nd), sym('n', 'int')], {'axis': ax}, nd=nd, axis=ax, group='farray')
            yield func(N, 'lastrank', [array('A', nd)], {'axis': ax, 'decay': sym('decay', 'float')}, nd=nd, axis=ax, group='farray')
            for nm in ('-1,1', '0,N-1', 'gaussian'):
                yield func(N, 'ranking', [array('A', nd)], {'axis': ax, 'norm': nm}, nd=nd, axis=ax, group='farray')
            for n in ('group_ranking', 'group_mean', 'group_median'):
                yield func(G, n, [array('A', nd), arg(lambda I: mkseqin(I, 'GROUPS', 'any'), '<groups>')],
                           {'axis': ax}, nd=nd, axis=ax, group='farray')
            for meth in ('strides', 'loop'):
                yield func(MV, 'move_nanranking', [array('A', nd), sym('window', 'int')],
                           {'axis': ax, 'method': meth}, nd=nd, axis=ax, group='farray')
                yield func(MV, 'move_func', [afunc('func'), array('A', nd), sym('window', 'int')],
                           {'axis': ax, 'method': meth}, nd=nd, axis=ax, group='farray')
            yield func(MV, 'move_nanmedian', [array('A', nd), sym('window', 'int')],
                       {'axis': ax}, nd=nd, axis=ax, group='farray')
            for n in ('movingsum', 'movingsum_forward'):
                for norm in (False, True):
                    yield func(MV, n, [array('A', nd), sym('window', 'int')],
                               {'axis': ax, 'skip': sym('skip', 'int'), 'norm': norm}, nd=nd, axis=ax, group='farray')
            yield func(MI, 'shuffle', [array('A', nd)], {'axis': ax}, nd=nd, axis=ax, group='inplace')
        yield func(MI, 'shuffle', [array('A', nd)], {'axis': None}, nd=nd, axis=None, group='inplace')
        for ax in axes(nd, none=True):
            for n in ('demean', 'demedian', 'zscore'):
                yield func(N, n, [array('A', nd)], {'axis': ax}, nd=nd, axis=ax, group='farray')
            yield func(MI, 'geometric_mean', [array('A', nd)], {'axis': ax}, nd=nd, axis=ax, group='farray')
            same = tuple(('free', 'A', k) for k in range(nd))
            yield func(MI, 'correlation', [array('A', nd), array('B', nd, same)], {'axis': ax}, nd=nd, axis=ax, group='farray')
        yield func('la.missing', 'missing_marker', [array('A', nd)], nd=nd, group='farray')
        yield func('la.missing', 'missing_marker', [other('A', nd)], nd=nd, group='farray')
        yield func('la.missing', 'ismissing', [array('A', nd)], nd=nd, group='farray')
        yield func('la.missing', 'ismissing', [other('A', nd)], nd=nd, group='farray')
    yield func(MI, 'covMissing', [array('A', 2)], nd=2, group='farray')
    yield func(G, 'unique_group', [arg(lambda I: mkseqin(I, 'GROUPS', 'any'), '<groups>')], group='farray')


def resample_cases(nds=(1, 2)):
    R = 'la.util.resample'
    for nd in nds:
        for ax in axes(nd):
            yield func(R, 'split', [other('A', nd),
                                    arg(lambda I: mkseqin(I, 'TRAIN', 'int'), '<ints TRAIN>'),
                                    arg(lambda I: mkseqin(I, 'TEST', 'int'), '<ints TEST>'), ax],
                       nd=nd, axis=ax, group='split')
    yield func(R, 'cross_validation', [sym('n', 'int'), sym('kfold', 'int')], group='resample')
    yield func(R, 'cross_validation', [sym('n', 'int'), sym('kfold', 'int'), afunc('shuffle')], group='resample')
    yield func(R, 'bootstrap', [sym('n', 'int'), sym('nboot', 'int')], group='resample')
    yield func(R, 'bootstrap', [sym('n', 'int'), sym('nboot', 'int'), afunc('randint')], group='resample')


def option_cases(nds=(1, 2)):
    """contexts that differ in one enumerated option only"""
    F, N, MV = 'la.flarry', 'la.farray.normalize', 'la.farray.move'
    for nd in nds:
        A, B = other('A', nd), other('B', nd)
        for j in ('inner', 'outer', 'left', 'right', 'skip'):
            yield func(F, 'align', [A, B], {'join': j}, nd=nd, option='join')
            yield func(F, 'align_raw', [A, B], {'join': j}, nd=nd, option='join')
        for j in ('inner', 'outer', 'left', 'right'):
            for n in ('add', 'subtract', 'multiply', 'divide'):
                yield func(F, n, [A, B], {'join': j}, nd=nd, option='join')
            yield func(F, 'align_axis', [[A, B]], {'axis': 0, 'join': j}, nd=nd, option='join')
        for c_ in (True, False):
            yield func(F, 'align', [A, B], {'join': 'outer', 'cast': c_}, nd=nd, option='cast')
        for ax in range(nd):
            for r in (True, False):
                yield method('sortaxis', nd, [ax, r], axis=ax, option='reverse')
                yield method('labelindex', nd, [sym('lab'), ax], {'exact': r}, axis=ax, option='exact')
            for nm in ('-1,1', '0,N-1', 'gaussian'):
                yield func(N, 'ranking', [array('A', nd)], {'axis': ax, 'norm': nm}, nd=nd, axis=ax, option='norm')
                yield method('ranking', nd, [ax, nm], axis=ax, option='norm')
            for nm in (True, False):
                for f in ('movingsum', 'movingsum_forward'):
                    yield func(MV, f, [array('A', nd), sym('window', 'int')], {'axis': ax, 'norm': nm}, nd=nd,
                               axis=ax, option='norm')
        for r in (True, False):
            yield method('keep_x', nd, ['>', sym('v', 'float'), r], option='vacuum')
        for op in ('==', '!=', '<', '>', '<=', '>='):
            yield method('keep_x', nd, [op, sym('v', 'float'), False], option='op')
            yield method('keep_label', nd, [op, sym('lab'), 0], option='op')
        for op in ('in', 'not in'):
            yield method('keep_label', nd, [op, newlabels('W'), 0], option='member op')
        if nd == 2:
            for r in (True, False):
                yield func(F, 'sortby', [A, sym('e'), 0], {'reverse': r}, nd=nd, axis=0, option='reverse')
            for o in 'CF':
                yield method('flatten', nd, [o], option='order')
    for r in (True, False):
        yield method('merge', 1, [other('B', 1)], {'update': r}, option='update')
    for m in ('union', 'intersection'):
        yield func(F, 'stack', [m], {'one': other('A', 2), 'two': other('B', 2)}, option='mode')


def join_cases():
    """a different join for every axis"""
    F = 'la.flarry'
    names = ('inner', 'outer', 'left', 'right')
    for a in names + ('skip',):
        for b in names + ('skip',):
            if a == b or 'outer' in (a, b) and a != 'inner' and b != 'inner':
                continue                # covered elsewhere, or too many paths
            A, B = other('A', 2), other('B', 2)
            j = [a, b]
            yield func(F, 'align', [A, B], {'join': list(j)}, nd=2, join=j, group='align')
            yield func(F, 'align_raw', [A, B], {'join': list(j)}, nd=2, join=j, group='align_raw')
            if 'skip' not in j:
                yield func(F, 'subtract', [A, B], {'join': list(j)}, nd=2, join=j, group='binary')


def bogus_cases(nds=(1, 2)):
    """option values outside the documented set"""
    F, N, MV, R = 'la.flarry', 'la.farray.normalize', 'la.farray.move', 'la.util.resample'
    bad = 'no such option'
    for nd in nds:
        A, B = other('A', nd), other('B', nd)
        for n in ('align', 'align_raw', 'add', 'subtract', 'multiply', 'divide'):
            yield func(F, n, [A, B], {'join': bad}, nd=nd, option='join')
        for j in ('skip', bad):
            yield func(F, 'add', [A, B], {'join': [j] * nd if nd > 1 else j}, nd=nd, option='join') if j != bad or nd > 1 \
                else func(F, 'divide', [A, B], {'join': j}, nd=nd, option='join')
        yield func(F, 'align', [A, B], {'join': [bad] + ['inner'] * (nd - 1)}, nd=nd, option='join list')
        yield func(F, 'align', [A, B], {'join': ['inner'] * (nd + 1)}, nd=nd, option='join list length')
        yield func(F, 'align_raw', [A, B], {'join': ['inner'] * (nd + 1)}, nd=nd, option='join list length')
        yield func(F, 'align', [A, other('B', nd + 1)], nd=nd, option='number of dimensions')
        yield func(F, 'align_raw', [A, other('B', nd + 1)], nd=nd, option='number of dimensions')
        yield func(F, 'add', [A, other('B', nd + 1)], nd=nd, option='number of dimensions')
        yield func(F, 'align_axis', [[A, B]], {'axis': 0, 'join': bad}, nd=nd, option='join')
        for n in BINOPS + COMPARE:
            yield method(n, nd, [None], option='operand type')
        for n in BINOPS:
            yield method(n, nd, [[sym('a'), sym('b')]], option='operand type')
        for n in RBINOPS:
            yield method(n, nd, [[sym('a')]], option='operand type')
        for ax in range(nd):
            yield func(N, 'ranking', [array('A', nd)], {'axis': ax, 'norm': bad}, nd=nd, axis=ax, option='norm')
            yield method('ranking', nd, [ax, bad], axis=ax, option='norm')
            yield func(MV, 'move_func', [afunc('func'), array('A', nd), sym('window', 'int')],
                       {'axis': ax, 'method': bad}, nd=nd, axis=ax, option='method')
            yield func(MV, 'move_nanranking', [array('A', nd), sym('window', 'int')],
                       {'axis': ax, 'method': bad}, nd=nd, axis=ax, option='method')
            yield method('move_func', nd, [afunc('func'), sym('window', 'int'), ax, bad], axis=ax, option='method')
            yield method('move_ranking', nd, [sym('window', 'int'), ax, bad], axis=ax, option='method')
            yield method('move_median', nd, [sym('window', 'int'), ax, bad], axis=ax, option='method')
            for w in (0, -1):
                yield method('move_func', nd, [afunc('func'), w, ax], axis=ax, option='window')
                yield method('move_ranking', nd, [w, ax], axis=ax, option='window')
                yield method('move_median', nd, [w, ax], axis=ax, option='window')
                yield method('movingsum_forward', nd, [w], {'axis': ax}, axis=ax, option='window')
                yield func(MV, 'movingsum', [array('A', nd), w], {'axis': ax}, axis=ax, option='window')
            yield method('quantile', nd, [0, ax], axis=ax, option='q')
            yield method('keep_label', nd, [bad, sym('lab'), ax], axis=ax, option='op')
        yield method('keep_x', nd, [bad, sym('v', 'float')], option='op')
        yield method('maplabel', nd, [sym('f'), nd], option='axis') if False else method('sortaxis', nd, [nd], option='axis')
        for n in ('sum', 'mean', 'cumsum', 'demean'):
            yield method(n, nd, [nd], option='axis')
    yield method('flatten', 2, [bad], option='order')
    yield method('flatten', 2, ['A'], option='order')
    yield func(F, 'stack', [bad], {'one': other('A', 2), 'two': other('B', 2)}, option='mode')


def everything(thorough=False):
    nds = (1, 2, 3) if not thorough else (1, 2, 3, 4)
    for g in (larry_cases, index_cases, lix_cases):
        for cse in g(nds):
            yield cse
    for cse in func_cases((1, 2) if not thorough else (1, 2)):
        yield cse
    for cse in create_cases((1, 2)):
        yield cse
    for cse in farray_cases((1, 2, 3)):
        yield cse
    for cse in resample_cases((1, 2, 3)):
        yield cse


def typed(case, kinds):
    """the same context with operands of the given dtype kinds ({'A': .., '*': ..})"""
    body0 = case.body
    kinds = dict((w, frozenset(k)) for w, k in kinds.items())

    def body(I):
        old = dict(drivers.FORCED)
        drivers.FORCED.clear()
        drivers.FORCED.update(kinds)
        try:
            return body0(I)
        finally:
            drivers.FORCED.clear()
            drivers.FORCED.update(old)
    d = ', '.join('%s: %s' % (w, '/'.join(sorted(k))) for w, k in sorted(kinds.items()))
    new = Case(case.entry, case.desc + ('; ' if case.desc else '') + d, body, **case.meta)
    new.meta['kinds'] = kinds
    return new
