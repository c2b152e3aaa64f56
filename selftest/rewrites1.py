D, F, L, M = 'la/deflarry.py', 'la/flarry.py', 'la/flabel.py', 'la/missing.py'
N, MV, G, MI = 'la/farray/normalize.py', 'la/farray/move.py', 'la/farray/group.py', 'la/farray/misc.py'
REWRITES = globals().setdefault('REWRITES', [])

BIN = '''
    def %s(self, other):
        return self._binary(other, %s)
'''
HELP = '''
    def _binary(self, other, func):
        """Elementwise binary operation."""
        if isinstance(other, larry):
            if self.label == other.label:
                return self._wrap(func(self.x, other.x))
            x1, x2, label = self.__align(other)
            return larry(func(x1, x2), label, validate=False)
        elif np.isscalar(other) or isinstance(other, np.ndarray):
            return self._wrap(func(self.x, other))
        raise TypeError('Input must be scalar, array, or larry.')

    def _wrap(self, x):
        return larry(x, self.copylabel(), validate=False)

    def __align(self, other):
        if self.ndim != other.ndim:
            raise IndexError('Binary operation on two larrys with different dimension')
        x, y = self.x, other.x
        label = []
        for ax in range(self.ndim):
            mine, theirs = self.label[ax], other.label[ax]
            if mine == theirs:
                label.append(mine[:])
                continue
            common = sorted(set(mine) & set(theirs))
            x = x.take(listmap(mine, common), axis=ax)
            y = np.take(y, listmap(theirs, common), axis=ax)
            label.append(common)
        return x, y, label
'''
REWRITES.append(('operators-one-helper', [
    ('sub', D, 'import csv\n', 'import csv\nimport operator\n'),
    ('def', D, '__align', HELP)] + [('def', D, n, BIN % (n, f)) for n, f in (
        ('__add__', 'operator.add'), ('__sub__', 'operator.sub'), ('__div__', 'operator.div'), ('__truediv__', 'np.true_divide'),
        ('__floordiv__', 'operator.floordiv'), ('__mul__', 'lambda a, b: a * b'), ('__and__', 'np.logical_and'),
        ('__or__', 'np.logical_or'))]))

REWRITES.append(('rsub-and-reflected', [
    ('def', D, '__rsub__', '''
    def __rsub__(self, other):
        y = self.__sub__(other)
        return -y
'''),
    ('def', D, '__rtruediv__', '''
    def __rtruediv__(self, other):
        if isinstance(other, larry):
            raise RuntimeError('not supported')
        if not (np.isscalar(other) or isinstance(other, np.ndarray)):
            raise TypeError('Input must be scalar, array, or larry.')
        return larry(np.true_divide(other, self.x), self.copylabel(), validate=False)
'''),
    ('def', D, '__rdiv__', '''
    def __rdiv__(self, other):
        if isinstance(other, larry):
            raise RuntimeError('not supported')
        if np.isscalar(other) or isinstance(other, np.ndarray):
            return larry(np.divide(other, self.x), self.copylabel(), validate=False)
        raise TypeError('Input must be scalar, array, or larry.')
''')]))

REWRITES.append(('compare-table', [
    ('sub', D, 'import csv\n', 'import csv\nimport operator\n'),
    ('def', D, '__compare', '''
    def __compare(self, other, op):
        table = {'==': operator.eq, '!=': operator.ne, '<': operator.lt,
                 '>': operator.gt, '<=': operator.le, '>=': operator.ge}
        if op not in table:
            raise ValueError('Unknown comparison operator')
        func = table[op]
        if isinstance(other, larry):
            x, y, label = self.__align(other)
            return larry(func(x, y), label, validate=False)
        if np.isscalar(other) or isinstance(other, (np.ndarray, list, tuple)):
            x = func(self.x, other)
            if not isinstance(x, np.ndarray):
                return x
            return larry(x, self.copylabel(), validate=False)
        raise TypeError('Input must be scalar, numpy array, or larry.')
''')]))

REWRITES.append(('cumulative-helper', [
    ('def', D, 'cumsum', '''
    def cumsum(self, axis):
        return self._cumulate(np.cumsum, 0, axis)
'''),
    ('def', D, 'cumprod', '''
    def cumprod(self, axis):
        return self._cumulate(np.cumprod, 1, axis)

    def _cumulate(self, func, neutral, axis):
        if axis is None:
            raise ValueError('axis cannot be None')
        mask = np.isnan(self.x)
        x = self.x.copy()
        x[mask] = neutral
        x = func(x, axis=axis)
        if mask.any():
            x[mask] = np.nan
        return larry(x, self.copylabel(), validate=False)
''')]))

REWRITES.append(('unary-via-helper', [
    ('def', D, 'log', '''
    def log(self):
        return self._apply(np.log)

    def _apply(self, ufunc, *args):
        return larry(ufunc(self.x, *args), self.copylabel(), validate=False)
''')] + [('def', D, n, '''
    def %s(self):
        return self._apply(np.%s)
''' % (n, n)) for n in ('exp', 'sqrt', 'sign', 'isnan', 'isfinite', 'isinf')] + [
    ('def', D, 'abs', '''
    def abs(self):
        return self._apply(np.abs)
'''),
    ('def', D, 'power', '''
    def power(self, q):
        return self._apply(np.power, q)
'''),
    ('def', D, '__neg__', '''
    def __neg__(self):
        return larry(-self.x, self.copylabel(), validate=False)
'''),
    ('def', D, 'clip', '''
    def clip(self, lo, hi):
        if hi < lo:
            raise ValueError('lo should be less than or equal to hi')
        return larry(np.clip(self.x, lo, hi), self.copylabel(), validate=False)
''')]))

REWRITES.append(('reduce-restructured', [
    ('def', D, '__reduce', '''
    def __reduce(self, op, default=np.nan, **kwargs):
        axis = kwargs['axis']
        if self.size == 0:
            return self._reduce_empty(op, default, axis)
        if axis is not None and not np.isscalar(axis):
            raise ValueError('axis should be an integer or None')
        x = op(self.x, **kwargs)
        if axis is None or np.isscalar(x):
            return x
        label = self.copylabel()
        del label[axis]
        return larry(x, label, validate=False)

    def _reduce_empty(self, op, default, axis):
        if axis is None:
            return default
        shape = list(self.shape)
        del shape[axis]
        if not shape:
            return default
        if op in (np.any, np.all):
            dtype = bool
        elif issubclass(self.dtype.type, (np.inexact, np.object_)):
            dtype = self.dtype
        else:
            dtype = float
        x = np.empty(shape, dtype=dtype)
        x[...] = default
        label = self.copylabel()
        del label[axis]
        return larry(x, label, validate=False)
'''),
    ('def', D, 'prod', '''
    def prod(self, axis=None):
        mask = np.isnan(self.x)
        y = self.copy()
        y.x[mask] = 1
        y = y.__reduce(np.prod, axis=axis)
        allnan = mask.all(axis)
        if allnan.ndim != 0:
            np.putmask(y.x, allnan, np.nan)
        elif allnan:
            y = np.nan
        return y
''')]))

REWRITES.append(('keep-label-dict', [
    ('sub', D, 'import csv\n', 'import csv\nimport operator\n'),
    ('def', D, 'keep_label', '''
    def keep_label(self, op, value, axis):
        tests = {'==': operator.eq, '>': operator.gt, '<': operator.lt,
                 '>=': operator.ge, '<=': operator.le, '!=': operator.ne,
                 'in': lambda z, v: z in v, 'not in': lambda z, v: z not in v}
        try:
            test = tests[op]
        except KeyError:
            raise ValueError('Unknown op')
        if axis is None:
            raise ValueError('axis cannot be None')
        if axis >= self.ndim:
            raise IndexError('axis is out of range')
        idx = []
        label = []
        for i, name in enumerate(self.label[axis]):
            if test(name, value):
                idx.append(i)
                label.append(name)
        if not idx:
            return larry([])
        y = self.copy()
        y.label[axis] = label
        y.x = y.x.take(idx, axis)
        return y
''')]))

REWRITES.append(('keep-x-dict', [
    ('sub', D, 'import csv\n', 'import csv\nimport operator\n'),
    ('def', D, 'keep_x', '''
    def keep_x(self, op, value, vacuum=True):
        if vacuum == True and self.ndim != 2:
            raise ValueError('When vacuum is True, larry must be 2d')
        ops = {'==': operator.eq, '>': operator.gt, '<': operator.lt,
               '>=': operator.ge, '<=': operator.le, '!=': operator.ne}
        if op not in ops:
            raise ValueError('Unknown op')
        drop = np.logical_not(ops[op](self.x, value))
        y = self.copy()
        marker = missing_marker(y.x)
        if marker == NotImplemented:
            # The data (int, bool) cannot hold missing values
            y.x = y.x.astype(float)
            marker = np.nan
        np.putmask(y.x, drop, marker)
        return y.vacuum() if vacuum else y
''')]))

REWRITES.append(('labelindex-loop', [
    ('def', D, 'labelindex', '''
    def labelindex(self, name, axis, exact=True):
        if axis is None:
            raise ValueError('axis cannot be None')
        if axis >= self.ndim:
            raise IndexError('axis out of range')
        names = self.label[axis]
        if name in names:
            return names.index(name)
        if not exact:
            lower = [z for z in names if z <= name]
            if lower:
                return names.index(max(lower))
        raise IndexError('name not in label along axis %d' % axis)
''')]))

REWRITES.append(('maplabel-comprehension', [
    ('def', D, 'maplabel', '''
    def maplabel(self, func, axis=None, copy=True):
        axes = [axis] if axis is not None else list(range(self.ndim))
        newlabel = {}
        for ax in axes:
            mapped = [func(z) for z in self.label[ax]]
            if len(mapped) != len(frozenset(mapped)):
                raise ValueError("`func` maps two labels to the same label.")
            newlabel[ax] = mapped
        y = self.copy() if copy else self
        for ax in axes:
            y.label[ax] = newlabel[ax]
        return y
''')]))

REWRITES.append(('moving-wrapped', [
    ('def', D, 'move_sum', '''
    def move_sum(self, window, axis=-1):
        return self._moving(bn.move_nansum, window, axis)

    def _moving(self, func, window, axis, **kwargs):
        label = self.copylabel()
        return larry(func(self.x, window, axis=axis, **kwargs), label, validate=False)
''')] + [('def', D, 'move_' + n, '''
    def move_%s(self, window, axis=-1):
        return self._moving(bn.move_nan%s, window, axis)
''' % (n, n)) for n in ('mean', 'std', 'min', 'max')] + [
    ('def', D, 'move_ranking', '''
    def move_ranking(self, window, axis=-1, method='strides'):
        return self._moving(move_nanranking, window, axis, method=method)
'''),
    ('def', D, 'move_median', '''
    def move_median(self, window, axis=-1, method='loop'):
        return self._moving(move_nanmedian, window, axis, method=method)
''')]))

REWRITES.append(('group-methods-helper', [
    ('def', D, 'group_ranking', '''
    def group_ranking(self, group, axis=0):
        return self._group(group_ranking, group, axis)

    def _group(self, func, group, axis):
        groups = self._group_align(group, axis=axis)
        return larry(func(self.x, groups, axis=axis), self.copylabel(), validate=False)
'''),
    ('def', D, 'group_mean', '''
    def group_mean(self, group, axis=0):
        return self._group(group_mean, group, axis)
'''),
    ('def', D, 'group_median', '''
    def group_median(self, group, axis=0):
        return self._group(group_median, group, axis)
'''),
    ('def', D, '_group_align', '''
    def _group_align(self, group, axis=0):
        if not isinstance(group, larry):
            raise TypeError('group must be a larry')
        if group.ndim != 1:
            raise ValueError('group must be a 1d larry')
        known = set(group.label[0])
        if not set(self.label[axis]) <= known:
            raise IndexError('label is not a subset of group label')
        return group.morph(list(self.label[axis]), axis=0).x.tolist()
''')]))

REWRITES.append(('morph-restructured', [
    ('def', D, 'morph', '''
    def morph(self, label, axis):
        if axis >= self.ndim:
            raise IndexError('axis out of range')
        old = self.label[axis]
        if old == label:
            return self.copy()
        if len(frozenset(label)) != len(label):
            raise IndexError("`label` contains duplicates")
        newlabel = self.copylabel()
        newlabel[axis] = list(label)
        idx, idx_miss = listmap_fill(old, label)
        nmiss = len(idx_miss)
        if nmiss == len(idx):
            shape = list(self.shape)
            shape[axis] = nmiss
            dtype = self.x.dtype
            if missing_marker(self.x) == NotImplemented:
                dtype = self.x.astype(float).dtype
            return larry(nans(shape, dtype=dtype), newlabel, validate=False)
        x = self.x.take(idx, axis)
        if nmiss > 0:
            if missing_marker(x) == NotImplemented:
                x = x.astype(float)
            where = [slice(None)] * x.ndim
            where[axis] = idx_miss
            x[where] = missing_marker(x)
        return larry(x, newlabel, validate=False)
'''),
    ('def', D, 'morph_like', '''
    def morph_like(self, lar):
        if self.ndim != lar.ndim:
            raise IndexError('larrys must be of the same dimension.')
        y = self
        for ax, lab in enumerate(lar.label):
            y = y.morph(list(lab), ax)
        return y
''')]))

REWRITES.append(('merge-restructured', [
    ('def', D, 'merge', '''
    def merge(self, other, update=False):
        if self.ndim != other.ndim:
            raise IndexError('larrys must be of the same dimension.')
        lar1, lar2 = self, other
        for ax in range(self.ndim):
            l1, l2 = lar1.label[ax], lar2.label[ax]
            if l1 == l2:
                continue
            both = sorted(set(l1).union(l2))
            lar1 = lar1.morph(both, ax)
            lar2 = lar2.morph(both, ax)
        if lar1 is self:
            lar1 = self.copy()
        present1 = self._present(lar1.x, self.dtype)
        present2 = self._present(lar2.x, other.dtype)
        if self.dtype in (np.string_, object) or other.dtype in (np.string_, object):
            if self.dtype != other.dtype:
                raise TypeError('Incompatible dtypes')
        if not update:
            if (present1 & present2).any():
                raise ValueError('Overlapping values')
        if present2.any():
            np.putmask(lar1.x, present2, lar2.x)
        return lar1

    def _present(self, x, dtype):
        if dtype == object:
            return x != [None]
        if self.dtype.type == np.str_:
            return x != ''
        return np.isfinite(x)
''')]))

REWRITES.append(('lag-slices', [
    ('def', D, 'lag', '''
    def lag(self, nlag, axis=-1):
        if axis is None:
            raise IndexError('axis cannot be None.')
        y = self.copy()
        if nlag == 0:
            return y
        n = y.shape[axis]
        if nlag > 0:
            keep_label, keep_x = slice(nlag, None), slice(None, -nlag)
        elif nlag < 0:
            keep_label, keep_x = slice(None, nlag), slice(-nlag, None)
        else:
            raise RuntimeError("Unrecognized value of `nlag`.")
        y.label[axis] = y.label[axis][keep_label]
        index = [slice(None) for _ in range(y.ndim)]
        index[axis] = keep_x
        y.x = y.x[tuple(index)]
        return y
''')]))

REWRITES.append(('sort-flip', [
    ('def', D, 'sortaxis', '''
    def sortaxis(self, axis=None, reverse=False):
        axes = range(self.ndim) if axis is None else [axis]
        y = self.copy()
        for ax in axes:
            names = list(y.label[ax])
            if len(names) <= 1:
                continue
            names.sort(reverse=reverse)
            y = y.morph(names, ax)
        return y
'''),
    ('def', D, 'flipaxis', '''
    def flipaxis(self, axis=None, copy=True):
        y = self.copy() if copy else self
        axes = range(self.ndim) if axis is None else (axis,)
        for ax in axes:
            index = [slice(None)] * y.ndim
            index[ax] = slice(None, None, -1)
            y.x = y.x[index]
            y.label[ax] = list(reversed(y.label[ax]))
        return y
''')]))

REWRITES.append(('vacuum-cut', [
    ('def', D, 'vacuum', '''
    def vacuum(self, axis=None):
        ndim = self.ndim
        if axis is None:
            cut = list(range(ndim))
        else:
            if not hasattr(axis, '__iter__'):
                axis = [axis]
            cut = [a for a in range(ndim) if a not in axis and a - ndim not in axis]
        finite = np.isfinite(self.x)
        index = []
        label = []
        for ax in range(ndim):
            if ax in cut:
                keep = np.rollaxis(finite, ax, 0)
                while keep.ndim > 1:
                    keep = keep.any(-1)
                where = np.nonzero(keep)[0]
            else:
                where = np.arange(self.shape[ax])
            label.append([self.label[ax][i] for i in where])
            index.append(where)
        x = self.x[np.ix_(*index)]
        return larry(x, label, validate=False)
'''),
    ('def', D, 'squeeze', '''
    def squeeze(self):
        label = [lab for lab, n in zip(self.label, self.shape) if n != 1]
        return larry(np.squeeze(self.x), label, validate=False)
''')]))

REWRITES.append(('insertaxis-etc', [
    ('def', D, 'insertaxis', '''
    def insertaxis(self, axis, label):
        if axis is None:
            raise ValueError("`axis` cannot be None.")
        x = np.expand_dims(self.copyx(), axis)
        newlabel = self.copylabel()
        pos = axis
        if int(axis) < 0:
            pos = len(newlabel) if int(axis) == -1 else axis + 1
        newlabel.insert(pos, [label])
        return larry(x, newlabel)
'''),
    ('def', D, 'swapaxes', '''
    def swapaxes(self, axis1, axis2):
        label = self.copylabel()
        tmp = label[axis1]
        label[axis1] = label[axis2]
        label[axis2] = tmp
        x = self.x.copy().swapaxes(axis1, axis2)
        return larry(x, label, validate=False)
'''),
    ('def', D, 'T', '''
    def T(self):
        label = self.copylabel()
        label.reverse()
        return larry(self.x.copy().T, label, validate=False)
'''),
    ('def', D, 'copylabel', '''
    def copylabel(self):
        out = []
        for names in self.label:
            out.append(names[:])
        return out
'''),
    ('def', D, 'copy', '''
    def copy(self):
        return larry(self.copyx(), self.copylabel(), validate=False)
''')]))

REWRITES.append(('take-pull-get', [
    ('def', D, 'take', '''
    def take(self, indices, axis):
        old = self.label[axis]
        new = []
        for i in indices:
            new.append(old[i])
        if len(frozenset(new)) < len(new):
            raise IndexError("`indices` must be unique")
        label = self.copylabel()
        label[axis] = new
        return larry(np.take(self.x, indices, axis=axis), label, validate=False)
'''),
    ('def', D, 'pull', '''
    def pull(self, name, axis):
        if axis is None:
            raise ValueError('axis cannot be None')
        where = self.labelindex(name, axis)
        index = [slice(None)] * self.ndim
        index[axis] = where
        x = self.x[tuple(index)]
        if x.shape == (1,):
            return x[0]
        label = self.copylabel()
        del label[axis]
        return larry(x, label)
'''),
    ('def', D, 'get', '''
    def get(self, label):
        return self.x[self._cell(label)]

    def _cell(self, label):
        if len(label) != self.ndim:
            raise ValueError('Must have exactly one label per dimension')
        return tuple([self.labelindex(name, axis=ax) for ax, name in enumerate(label)])
'''),
    ('def', D, 'set', '''
    def set(self, label, value):
        cell = self._cell(label)
        self.x[cell] = value
'''),
    ('def', D, 'getlabel', '''
    def getlabel(self, axis, copy=True):
        if axis >= self.ndim:
            raise IndexError('axis out of range')
        return self.label[axis][:] if copy else self.label[axis]
'''),
    ('def', D, 'getx', '''
    def getx(self, copy=True):
        x = self.x
        if copy:
            x = x.copy()
        return x
''')]))

REWRITES.append(('todict-etc', [
    ('def', D, 'totuples', '''
    def totuples(self):
        yf = self.flatten()
        return [tuple(name) + (value,) for name, value in zip(yf.label[0], yf.x.tolist())]
'''),
    ('def', D, 'tolist', '''
    def tolist(self):
        names = flattenlabel(self.label, 'C')[0]
        return [self.x.flatten('C').tolist(), names]
'''),
    ('def', D, 'todict', '''
    def todict(self):
        values, names = self.tolist()
        d = {}
        for name, value in zip(names, values):
            d[name] = value
        return d
'''),
    ('def', D, 'flatten', '''
    def flatten(self, order='C'):
        return larry(self.x.flatten(order), flattenlabel(self.label, order), validate=False)
'''),
    ('def', L, 'flattenlabel', '''
def flattenlabel(label, order='C'):
    if order == 'C':
        lists = list(label)[::-1]
    elif order == 'F':
        lists = list(label)
    else:
        raise ValueError("order must be 'C' or 'F'")
    idx = [[]]
    for names in lists:
        idx = [i + [name] for name in names for i in idx]
    if order == 'C':
        return [[tuple(reversed(i)) for i in idx]]
    return [[tuple(i) for i in idx]]
''')]))

REWRITES.append(('getitem-helper', [
    ('def', D, '__setitem__', '''
    def __setitem__(self, index, value):
        if isinstance(index, larry):
            if self.label != index.label:
                raise IndexError('Indexing with a larry that is not aligned')
            self.x[index.x] = value
            return
        if isinstance(value, larry):
            if self[index].label != value.label:
                raise IndexError('larrys are not aligned.')
            value = value.x
        x, index = splitindex(self.x, index)
        x[index] = value
''')]))
