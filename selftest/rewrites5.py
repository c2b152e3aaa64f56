# queries, creation, indexing, test assertions, misc
D = 'la/deflarry.py'
F = 'la/flarry.py'
U = 'la/util/testing.py'
MI = 'la/farray/misc.py'
N = 'la/farray/normalize.py'
MV = 'la/farray/move.py'

REWRITES.append(('queries', [
    ('def', F, 'isaligned', '''
def isaligned(lar1, lar2, axis=None):
    if axis is not None:
        one, two = lar1.label[axis], lar2.label[axis]
        return one == two
    if lar1.ndim != lar2.ndim:
        return False
    for lab1, lab2 in zip(lar1.label, lar2.label):
        if lab1 != lab2:
            return False
    return True
'''),
    ('def', D, 'larry.maxlabel', '''
    def maxlabel(self, axis=None):
        if axis is not None:
            return max(self.label[axis])
        best = max(self.label[0])
        for lab in self.label[1:]:
            m = max(lab)
            if m > best:
                best = m
        return best
'''),
    ('def', D, 'larry.minlabel', '''
    def minlabel(self, axis=None):
        label = self.label if axis is None else [self.label[axis]]
        return min([min(lab) for lab in label])
'''),
    ('def', F, 'sortby', '''
def sortby(lar, element, axis, reverse=False):
    if lar.ndim != 2:
        raise ValueError("`lar` must be 2d.")
    if lar.size == 0 and element in lar.label[axis]:
        return lar.copy()
    if axis not in (0, 1, -1, -2):
        raise ValueError("`axis` must be 0 or 1.")
    axis = axis % 2
    i = lar.labelindex(element, axis)
    values = lar.x[i] if axis == 0 else lar.x[:, i]
    order = np.argsort(values)
    if reverse:
        order = order[::-1]
    return lar.take(order, 1 - axis)
'''),
]))

REWRITES.append(('creation', [
    ('def', F, 'lrange', '''
def _shape_of(shape, label):
    if label is not None:
        return [len(lab) for lab in label]
    if shape is None:
        raise ValueError("Either `label` or `shape` must be supplied.")
    return shape

def lrange(shape=None, label=None, start=0, step=1, dtype=None):
    shape = _shape_of(shape, label)
    x = np.arange(np.prod(shape))
    x = x * step + start
    return larry(np.reshape(x, shape), label=label, dtype=dtype)
'''),
    ('def', F, 'empty', '''
def empty(shape=None, label=None, dtype=None, order='C'):
    shape = _shape_of(shape, label)
    return larry(np.empty(shape, dtype=dtype, order=order), label)
'''),
    ('def', F, 'ones', '''
def ones(shape=None, label=None, dtype=None, order='C'):
    y = empty(shape=shape, label=label, dtype=dtype, order=order)
    y.x[...] = 1
    return y
'''),
    ('def', F, 'zeros', '''
def zeros(shape=None, label=None, dtype=None, order='C'):
    shape = _shape_of(shape, label)
    return larry(np.zeros(shape, dtype, order), label)
'''),
    ('def', F, 'rand', '''
def rand(*args, **kwargs):
    kwargs = dict(kwargs)
    randfunc = kwargs.pop('rand', np.random.rand)
    if args:
        x = randfunc(*args)
        return larry(x, **kwargs)
    if 'label' in kwargs:
        shape = map(len, kwargs['label'])
        return larry(randfunc(*shape), **kwargs)
    if kwargs:
        raise ValueError('Input parameters not recognized')
    return randfunc()
'''),
]))

REWRITES.append(('assertions', [
    ('def', U, 'assert_iscopy', '''
def _need_larrys(*args):
    for a in args:
        if not isinstance(a, larry):
            raise TypeError('Input must be a larry')

def assert_iscopy(larry1, larry2):
    _need_larrys(larry1, larry2)
    shared = []
    if np.may_share_memory(larry1.x, larry2.x):
        shared.append('The data arrays share a reference.')
    for i, (lab1, lab2) in enumerate(zip(larry1.label, larry2.label)):
        if lab1 is lab2:
            shared.append('The labels along axis %d share a reference.' % i)
    if shared:
        raise AssertionError('\\n'.join(['\\n'] + shared))
'''),
    ('def', U, 'noreference', '''
def noreference(larry1, larry2):
    _need_larrys(larry1, larry2)
    if larry1.ndim != larry2.ndim:
        raise ValueError('larrys must have the same dimensions')
    if larry1.x is larry2.x:
        return False
    for i in range(larry1.ndim):
        if larry1.label[i] is larry2.label[i]:
            return False
    return True
'''),
    ('def', U, 'nocopy', '''
def nocopy(larry1, larry2):
    _need_larrys(larry1, larry2)
    if larry1.ndim != larry2.ndim:
        raise ValueError('larrys must have the same dimensions')
    return larry1.x is larry2.x and all([a is b for a, b in zip(larry1.label, larry2.label)])
'''),
    ('def', U, 'assert_larry_equal', '''
def assert_larry_equal(actual, desired, msg='', dtype=True, original=None, iscopy=True):
    if dtype not in (True, False):
        raise TypeError('dtype must be True or False.')
    if iscopy not in (True, False):
        raise TypeError('iscopy must be True or False.')
    if type(msg) is not str:
        raise TypeError('msg must be a string.')
    fail = []

    def heading(text):
        line = '-' * len(text)
        return '\\n\\n' + line + '\\n' + text + '\\n' + line + '\\n'

    def check(title, func, *args, **kwargs):
        try:
            func(*args, **kwargs)
        except AssertionError as err:
            fail.append(heading(title) + str(err))

    def scalars():
        try:
            assert_equal(actual, desired)
        except:
            assert_almost_equal(actual, desired)

    def data():
        inexact = issubclass(actual.x.dtype.type, np.inexact)
        if not inexact:
            inexact = issubclass(desired.x.dtype.type, np.inexact)
        if not inexact:
            assert_equal(actual.x, desired.x)
            return
        try:
            assert_almost_equal(actual.x, desired.x, decimal=13)
        except TypeError:
            assert_equal(actual.x, desired.x)

    n = [type(actual) == larry, type(desired) == larry].count(True)
    if np.isscalar(actual) and np.isscalar(desired):
        check('SCALARS', scalars)
        if dtype:
            check('TYPE', assert_equal, type(actual), type(desired))
    elif n == 1:
        check('TYPE', assert_equal, type(actual), type(desired))
    else:
        check('LABEL', assert_equal, actual.label, desired.label)
        check('X DATA ARRAY', data)
        if dtype:
            check('DTYPE', assert_equal, actual.dtype, desired.dtype)
        if original is not None:
            if iscopy:
                check('NOT A COPY', assert_iscopy, actual, original)
            else:
                check('IS A COPY', assert_isview, actual, original)
    if fail:
        text = ''.join(fail).replace('\\n', '\\n\\t')
        if len(msg):
            text = heading("TEST: " + msg) + text
        raise AssertionError(text)
'''),
]))

REWRITES.append(('getitem-helpers', [
    ('def', D, 'larry.__getitem__', '''
    def _pick(self, ax, index):
        "Labels along axis `ax` at the positions `index`."
        label = self.label[ax]
        try:
            return [label[i] for i in index]
        except IndexError:
            raise IndexError('index out of range')

    def _true(self, ax, mask):
        "Labels along axis `ax` where `mask` is True."
        return self._pick(ax, [i for i, z in enumerate(mask) if z])

    def _check_bool(self, ax, idx):
        if idx.dtype.type != np.bool_:
            raise IndexError("If index is larry it must of bool dtype")
        if idx.ndim != 1:
            raise IndexError("If index is larry it must be 1d")
        if self.label[ax] != idx.label[0]:
            raise IndexError("When indexing larrys must be aligned")

    def __getitem__(self, index):
        kind = type(index)
        if isscalar(index):
            index = int(index)
            if index >= self.shape[0]:
                raise IndexError('index out of range')
            if self.ndim <= 1:
                return self.x[index]
            return larry(self.x[index], self.label[1:], validate=False)
        if kind is slice:
            label = [self.label[0][index]] + list(self.label[1:])
            return larry(self.x[index], label, validate=False)
        if kind is list:
            lab = [self.label[0][int(i)] for i in index]
            if len(set(lab)) < len(lab):
                raise IndexError("Duplicate labels along axis 0.")
            label = [lab] + list(self.label[1:])
            return larry(self.x.take(index, axis=0), label, validate=False)
        if kind is np.ndarray:
            if index.ndim != 1:
                raise IndexError('You can use a Numpy array for indexing, '
                                 'but it must be 1d.')
            label = self.copylabel()
            if index.dtype.type == np.bool_:
                label[0] = self._true(0, index)
                x = self.x[index]
            else:
                label[0] = self._pick(0, index)
                if len(set(label[0])) != len(label[0]):
                    raise IndexError("Duplicate labels along axis 0.")
                x = self.x.take(index, axis=0)
            return larry(x, label, validate=False)
        if kind is larry:
            self._check_bool(0, index)
            label = self.copylabel()
            label[0] = self._true(0, index.x)
            return larry(self.x[index.x], label, validate=True)
        if kind is not tuple:
            raise IndexError('Only slice, integer, and seq (list, tuple, 1d array,'
                             ' 1d bool larry) indexing supported')
        validate = False
        allscalar = True
        label = []
        raw = list(index)
        for ax in range(self.ndim):
            if ax >= len(index):
                label.append(self.label[ax])
                continue
            idx = index[ax]
            if isscalar(idx):
                if idx >= self.shape[ax]:
                    raise IndexError('index out of range')
                continue
            allscalar = False
            if type(idx) is slice:
                label.append(self.label[ax][idx])
            elif type(idx) in (list, tuple):
                label.append(self._pick(ax, idx))
                validate = True
            elif type(idx) is np.ndarray:
                if idx.ndim != 1:
                    raise IndexError('You can use a Numpy array for indexing, '
                                     'but it must be 1d.')
                if idx.dtype.type == np.bool_:
                    label.append(self._true(ax, idx))
                else:
                    label.append(self._pick(ax, idx))
                validate = True
            elif type(idx) is larry:
                self._check_bool(ax, idx)
                label.append(self._true(ax, idx.x))
                raw[ax] = idx.x
                validate = True
            else:
                raise IndexError('I do not recognize the way you are indexing')
        x, index = splitindex(self.x, tuple(raw))
        x = x[index]
        if allscalar:
            return x
        return larry(x, label, validate=validate)
'''),
    ('def', D, 'slicemaker', '''
def _slice_end(value, name, labelindex, axis):
    if value is None or isscalar(value):
        return value
    if type(value) is not list:
        raise ValueError('The %s element of a slice must be a list or a scalar.' % name)
    if len(value) > 1:
        raise ValueError('The %s element of the slice contains more than one item.' % name)
    return labelindex(value[0], axis=axis)

def slicemaker(index, labelindex, axis):
    start = _slice_end(index.start, 'start', labelindex, axis)
    stop = _slice_end(index.stop, 'stop', labelindex, axis)
    return slice(start, stop, index.step)
'''),
    ('def', D, 'splitindex', '''
def splitindex(x, index):
    if type(index) is not tuple or not isinstance(x, np.ndarray):
        return x, index
    first = []
    rest = []
    seq = False
    for idx in index:
        if isscalar(idx):
            first.append(idx)
        else:
            first.append(slice(None))
            rest.append(idx)
            seq = seq or isinstance(idx, (list, tuple, np.ndarray))
    if seq and len(rest) < len(index):
        x = x[tuple(first)]
        index = tuple(rest)
    return x, index
'''),
]))

REWRITES.append(('lix-shared', [
    ('def', D, 'Lix.__getitem__', '''
    def _tuple(self2, index):
        "Positions and labels along each axis for a tuple index."
        y = self2.lar
        if len(index) > y.ndim:
            raise IndexError('Invalid index')
        index = tuple(index) + (slice(None),) * (y.ndim - len(index))
        positions = []
        label = []
        for ax in range(y.ndim):
            idx = index[ax]
            if type(idx) is list:
                pos = labels2indices(y.label[ax], idx)
            elif type(idx) is slice:
                pos = range(y.shape[ax])[slicemaker(idx, y.labelindex, ax)]
            elif isscalar(idx):
                pos = [idx]
            else:
                raise IndexError('Unsupported indexing operation.')
            positions.append(pos)
            if len(pos) > 1:
                label.append([y.label[ax][p] for p in pos])
        return positions, label

    def __getitem__(self2, index):
        y = self2.lar
        if y.shape == (0,):
            return y
        if 0 in y.shape:
            raise ValueError('lix does not support shapes that contain 0 such as (0,) and (2, 0 ,3).')
        if type(index) is tuple:
            positions, label = self2._tuple(index)
            x = np.squeeze(y.x[np.ix_(*positions)])
            if x.ndim > 0:
                return larry(x, label)
            return x[()]
        if type(index) is list:
            positions = labels2indices(y.label[0], index)
            return y[positions[0]] if len(index) == 1 else y[positions]
        if type(index) is slice:
            return y[slicemaker(index, y.labelindex, 0)]
        if isscalar(index):
            return y[index]
        raise IndexError('Unsupported indexing operation.')
'''),
    ('def', D, 'Lix.__setitem__', '''
    def __setitem__(self2, index, value):
        y = self2.lar
        if y.shape == (0,):
            raise IndexError('index out of bounds')
        if 0 in y.shape:
            raise ValueError('lix does not support shapes that contain 0 such as (0,) and (2, 0 ,3).')
        if type(index) is tuple:
            positions, label = self2._tuple(index)
            if isinstance(value, larry):
                if value.ndim != len(positions):
                    raise IndexError('`value` has wrong ndim')
                for ax, pos in enumerate(positions):
                    if [y.label[ax][p] for p in pos] != value.label[ax]:
                        raise IndexError('larry labels are not aligned')
                value = value.x
            y.x[np.ix_(*positions)] = value
        elif type(index) is list:
            positions = labels2indices(y.label[0], index)
            y[positions[0] if len(index) == 1 else positions] = value
        elif type(index) is slice:
            y[slicemaker(index, y.labelindex, 0)] = value
        elif isscalar(index):
            y[index] = value
        else:
            raise IndexError('Unsupported indexing operation.')
'''),
]))

REWRITES.append(('misc-statistics', [
    ('def', MI, 'correlation', '''
def _centered(x, axis):
    if axis is None:
        x = x.flatten()
        return x - bn.nanmean(x)
    m = bn.nanmean(x, axis)
    return x - np.expand_dims(m, axis)

def correlation(arr1, arr2, axis=None):
    bad = np.isnan(arr1) | np.isnan(arr2)
    x1 = np.where(bad, np.nan, arr1)
    x2 = np.where(bad, np.nan, arr2)
    x1 = _centered(x1, axis)
    x2 = _centered(x2, axis)
    if axis is None:
        axis = 0
    num = bn.nansum(x1 * x2, axis)
    den = np.sqrt(bn.nansum(x1 * x1, axis) * bn.nansum(x2 * x2, axis))
    return num / den
'''),
    ('def', MI, 'covMissing', '''
def covMissing(R):
    missing = np.isnan(R)
    X = np.where(missing, 0, R)
    present = np.asarray(~missing, np.float64)
    n = np.dot(present, present.T)
    if (n < 2).any():
        raise ValueError('covMissing: not enough observations')
    return np.dot(X, X.T) / n
'''),
    ('def', MV, 'movingsum_forward', '''
def movingsum_forward(x, window, skip=0, axis=-1, norm=False):
    backwards = [slice(None)] * x.ndim
    backwards[axis] = slice(None, None, -1)
    y = movingsum(x[backwards], window, skip, axis, norm)
    return y[backwards]
'''),
    ('def', N, 'push', '''
def push(x, n, axis=-1):
    moved = axis != -1 or axis != x.ndim - 1
    if moved:
        x = np.rollaxis(x, axis, x.ndim)
    y = np.array(x)
    if y.ndim == 1:
        y = y[np.newaxis, :]
    ok = np.isfinite(y)
    recent = np.nan * np.ones(y.shape[:-1])
    when = np.nan * np.ones(y.shape[:-1])
    for i in range(y.shape[-1]):
        old = (i - when) > n
        recent[old] = np.nan
        gap = ~ok[..., i]
        y[gap, i] = recent[gap]
        fresh = ok[..., i]
        when[fresh] = i
        recent[fresh] = y[fresh, i]
    if moved:
        y = np.rollaxis(y, x.ndim - 1, axis)
    return y[0] if x.ndim == 1 else y
'''),
]))
