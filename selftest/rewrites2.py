REWRITES.append(('align-raw-helpers', [
    ('def', F, 'align_raw', '''
def _fill_absent(x, marker_of, idx_miss, ax, cast):
    """Mark the cells whose labels are absent as missing."""
    if len(idx_miss) == 0:
        return x
    miss = missing_marker(x)
    if miss == NotImplemented:
        if not cast:
            raise TypeError("`fill` type not compatible with larry dtype")
        x = x.astype(float)
        miss = missing_marker(x)
    index = [slice(None)] * x.ndim
    index[ax] = idx_miss
    x[index] = miss
    return x

def _reindex(x, old, new, ax, cast):
    idx, idx_miss = listmap_fill(old, new, fill=0)
    return _fill_absent(x.take(idx, ax), None, idx_miss, ax, cast)

def align_raw(lar1, lar2, join='inner', cast=True):
    ndim = lar1.ndim
    if lar2.ndim != ndim:
        raise ValueError("'lar1' and 'lar2' must have the same number of dimensions.")
    if type(join) is str:
        joins = [join for _ in range(ndim)]
    elif type(join) is list:
        if len(join) != ndim:
            raise ValueError("Length of `join` list equal number of dimension of `lar1`.")
        joins = join
    else:
        raise TypeError("`join` must be a string or a list.")
    label = []
    x1, x2 = lar1.x, lar2.x
    x1isview = x2isview = True
    for ax, how in enumerate(joins):
        list1, list2 = lar1.label[ax], lar2.label[ax]
        if how not in ('inner', 'outer', 'left', 'right', 'skip'):
            raise ValueError('join type not recognized')
        if how == 'skip':
            label.append(None)
            continue
        if list1 == list2:
            label.append(list(list1))
            continue
        if how == 'inner':
            list3 = sorted(set(list1) & set(list2))
        elif how == 'outer':
            list3 = sorted(set(list1) | set(list2))
        elif how == 'left':
            list3 = list(list1)
        else:
            list3 = list(list2)
        if how != 'left':
            x1 = _reindex(x1, list1, list3, ax, cast)
            x1isview = False
        if how != 'right':
            x2 = _reindex(x2, list2, list3, ax, cast)
            x2isview = False
        label.append(list3)
    return x1, x2, label, x1isview, x2isview
'''),
    ('def', F, 'align', '''
def align(lar1, lar2, join='inner', cast=True):
    x1, x2, label, x1isview, x2isview = align_raw(lar1, lar2, join=join,
                                                  cast=cast)
    out = []
    for lar, x, isview in ((lar1, x1, x1isview), (lar2, x2, x2isview)):
        names = [list(lab) if lab is not None else list(own)
                 for lab, own in zip(label, lar.label)]
        if isview:
            x = x.copy()
        out.append(larry(x, names, validate=False))
    return out[0], out[1]
''')]))

REWRITES.append(('align-axis-sets', [
    ('def', F, 'align_axis', '''
def align_axis(lars, axis=0, join='inner'):
    if isinstance(axis, int):
        axis = [axis] * len(lars)
    for j in range(len(lars)):
        if not isinstance(lars[j], larry):
            raise ValueError("Inputs must be larry.")
        if not -lars[j].ndim <= axis[j] < lars[j].ndim:
            raise ValueError("Axis out of range for input larry %d" % j)
    names = [lar.label[ax] for lar, ax in zip(lars, axis)]
    if join == 'left':
        label = list(names[0])
    elif join == 'right':
        label = list(names[-1])
    elif join == 'inner':
        label = set(names[0])
        for n in names[1:]:
            label &= set(n)
        label = sorted(label)
    elif join == 'outer':
        label = set()
        for n in names:
            label |= set(n)
        label = sorted(label)
    else:
        raise ValueError("Value of `join` not recognized.")
    return tuple([lar.morph(list(label), ax) for lar, ax in zip(lars, axis)])
'''),
    ('def', F, 'union', '''
def union(axis, *args):
    names = set()
    for arg in args:
        if not isinstance(arg, larry):
            raise TypeError('One or more input is not a larry')
        names.update(arg.label[axis])
    return sorted(names)
'''),
    ('def', F, 'intersection', '''
def intersection(axis, *args):
    first = args[0]
    common = set(first.label[axis])
    for arg in args[1:]:
        if not isinstance(arg, larry):
            raise TypeError('One or more input is not a larry')
        common = common & set(arg.label[axis])
    return sorted(common)
''')]))

REWRITES.append(('binaryop-masks', [
    ('def', F, 'binaryop', '''
def binaryop(func, lar1, lar2, join='inner', cast=True, missone='ignore',
             misstwo='ignore', **kwargs):
    x1, x2, label, view1, view2 = align_raw(lar1, lar2, join=join, cast=cast)
    if None in label:
        raise ValueError("`join` cannot be 'skip' in a binary operation.")
    replace_one = missone != 'ignore'
    replace_two = misstwo != 'ignore'
    if replace_one or replace_two:
        x1 = x1.copy() if view1 else x1
        x2 = x2.copy() if view2 else x2
        miss1, miss2 = ismissing(x1), ismissing(x2)
        if replace_one:
            only1 = np.logical_and(miss1, np.logical_not(miss2))
            only2 = np.logical_and(miss2, np.logical_not(miss1))
            x1[only1] = missone
            x2[only2] = missone
        if replace_two:
            both = np.logical_and(miss1, miss2)
            x1[both] = misstwo
            x2[both] = misstwo
    return larry(func(x1, x2, **kwargs), label, validate=False)
''')]))

REWRITES.append(('ismissing-flat', [
    ('def', M, 'ismissing', '''
def ismissing(data):
    marker = missing_marker(data)
    if marker == NotImplemented:
        return np.zeros(data.shape, dtype=bool)
    x = data.x if isinstance(data, la.larry) else data
    if marker != marker:
        return np.isnan(x)
    return x == [marker]
'''),
    ('def', M, 'missing_marker', '''
def missing_marker(data):
    dtype = data.dtype
    if issubclass(dtype.type, np.inexact):
        return np.nan
    if np.issubdtype(dtype, str):
        return ''
    if dtype == object:
        return None
    return NotImplemented
'''),
    ('def', M, 'nans', '''
def nans(shape, dtype=float):
    a = np.empty(shape, dtype)
    if issubclass(a.dtype.type, np.inexact):
        fill = np.nan
    elif np.issubdtype(a.dtype, str):
        fill = ''
    elif a.dtype == object:
        fill = None
    else:
        raise TypeError('Missing values are not supported for this dtype.')
    a.fill(fill)
    return a
''')]))

REWRITES.append(('create-shape', [
    ('def', F, 'empty', '''
def empty(shape=None, label=None, dtype=None, order='C'):
    return larry(np.empty(_shape(shape, label), dtype, order), label)

def _shape(shape, label):
    if label is None and shape is None:
        raise ValueError("Either `label` or `shape` must be supplied.")
    if label is None:
        return shape
    return [len(lab) for lab in label]
'''),
    ('def', F, 'lrange', '''
def lrange(shape=None, label=None, start=0, step=1, dtype=None):
    shape = _shape(shape, label)
    total = np.product(shape)
    data = np.arange(start, step * total + start, step, dtype=dtype)
    return larry(data.reshape(shape), label)
'''),
    ('def', F, 'sortby', '''
def sortby(lar, element, axis, reverse=False):
    if lar.ndim != 2:
        raise ValueError("`lar` must be 2d.")
    if lar.size == 0 and element in lar.label[axis]:
        return lar.copy()
    if axis < 0:
        axis = axis + lar.ndim
    if axis == 0:
        row = lar.x[lar.labelindex(element, 0), :]
    elif axis == 1:
        row = lar.x[:, lar.labelindex(element, 1)]
    else:
        raise ValueError("`axis` must be 0 or 1.")
    order = row.argsort()
    if reverse:
        order = order[::-1]
    return lar[:, order] if axis == 0 else lar[order, :]
'''),
    ('def', F, 'stack', '''
def stack(mode, **kwargs):
    for key in kwargs:
        if kwargs[key].ndim != 2:
            raise ValueError('All input larrys must be 2d')
    if mode not in ('union', 'intersection'):
        raise ValueError('mode must be union or intersection')
    logic = union if mode == 'union' else intersection
    names = sorted(kwargs)
    row = logic(0, *kwargs.values())
    col = logic(1, *kwargs.values())
    x = np.zeros((len(names), len(row), len(col)))
    for i, name in enumerate(names):
        x[i] = kwargs[name].morph(row, 0).morph(col, 1).x
    return larry(x, [list(names), row, col])
''')]))

REWRITES.append(('demean-expand', [
    ('def', N, 'demean', '''
def _keepdims(stat, arr, axis):
    if np.isscalar(stat) or axis is None:
        return stat
    return np.expand_dims(stat, axis)

def demean(arr, axis=None):
    return arr - _keepdims(bn.nanmean(arr, axis), arr, axis)
'''),
    ('def', N, 'demedian', '''
def demedian(arr, axis=None):
    center = _keepdims(bn.nanmedian(arr, axis), arr, axis)
    return arr - center
'''),
    ('def', N, 'zscore', '''
def zscore(arr, axis=None):
    centered = demean(arr, axis)
    scale = _keepdims(bn.nanstd(centered, axis), arr, axis)
    return centered / scale
''')]))

REWRITES.append(('ranking-algebra', [
    ('def', N, 'ranking', '''
def ranking(x, axis=0, norm='-1,1'):
    if axis is None:
        return ranking(x.reshape(-1), norm=norm).reshape(x.shape)
    if axis < 0:
        axis = x.ndim + axis
    n = x.shape[axis]
    missing = np.isnan(x)
    present = n - np.expand_dims(missing.sum(axis), axis)
    rank = bn.nanrankdata(x, axis) - 1
    if norm == '-1,1':
        rank = 2 * (rank / (present - 1)) - 1
        middle = 0.0
    elif norm == '0,N-1':
        rank = rank * ((n - 1.0) / (present - 1))
        middle = (rank.shape[axis] + 1.0) / 2.0 - 1.0
    elif norm == 'gaussian':
        global ndtri
        if ndtri is None:
            try:
                from scipy.special import ndtri
            except ImportError:
                raise ImportError("SciPy required for `gaussian` normalization")
        rank = rank * (1.0 * (n - 1) / (present - 1))
        rank = ndtri((rank + 1.0) / (n + 1.0))
        middle = 0.0
    else:
        raise ValueError("norm must be '-1,1', '0,N-1', or 'gaussian'.")
    rank[(present == 1) & ~missing] = middle
    return rank
'''),
    ('def', N, 'lastrank', '''
def lastrank(x, axis=-1, decay=0.0):
    if x.size == 0:
        shape = list(x.shape)
        del shape[axis]
        r = nans(shape, dtype=x.dtype)
        if r.ndim == 0 and r.size == 1:
            return np.nan
        return r
    if decay < 0:
        raise ValueError('decay must be greater than or equal to zero.')
    last = [slice(None)] * x.ndim
    last[axis] = slice(-1, None)
    lastcell = list(last)
    lastcell[axis] = -1
    greater = x[last] > x
    equal = x[last] == x
    finite = np.isfinite(x)
    if decay > 0:
        nt = x.shape[axis]
        w = np.exp(-decay * (nt - np.ones(nt).cumsum()))
        w = nt * w / w.sum()
        expand = [None] * x.ndim
        expand[axis] = slice(None)
        wlast = w.flat[-1]
        w = w[expand]
        g = (greater * w).sum(axis)
        e = (equal * w).sum(axis)
        n = (finite * w).sum(axis)
    else:
        wlast = 1.0
        g = greater.sum(axis)
        e = equal.sum(axis)
        n = finite.sum(axis)
    r = (2 * g + e - wlast) / 2.0 / (n - wlast)
    r = 2.0 * (r - 0.5)
    bad = ~np.isfinite(x[lastcell])
    if x.ndim == 1:
        if bad:
            r = np.nan
    else:
        np.putmask(r, bad, np.nan)
    return r
''')]))

REWRITES.append(('quantile-etc', [
    ('def', N, 'quantile', '''
def quantile(x, q, axis=0):
    if q < 1:
        raise ValueError('q must be one or greater.')
    if q == 1:
        y = np.zeros(x.shape)
        y[np.isnan(x)] = np.nan
        return y
    if axis is None:
        if q > x.size:
            raise ValueError('q must be less than or equal to the number of elements in x.')
        y = np.apply_along_axis(_quantileraw1d, 0, x.flat, q).reshape(x.shape)
    else:
        if q > x.shape[axis]:
            raise ValueError('q must be less than or equal to the number of rows in x.')
        y = np.apply_along_axis(_quantileraw1d, axis, x, q)
    return 2.0 * ((y - 1.0) / (q - 1.0) - 0.5)
'''),
    ('def', MI, 'geometric_mean', '''
def geometric_mean(x, axis=-1, check_for_greater_than_zero=True):
    if check_for_greater_than_zero and (x <= 0).any():
        raise ValueError('All elements of x (except NaNs) must be greater than zero.')
    missing = np.isnan(x)
    y = x.copy()
    y[missing] = 1.0
    count = np.asarray(~missing, np.float64).sum(axis)
    g = np.exp((1.0 / count) * np.log(y).sum(axis))
    idx = np.ones(g.shape)
    if idx.ndim == 0:
        if count == 0:
            idx = np.nan
    else:
        idx[count == 0] = np.nan
    return g * idx
''')]))

REWRITES.append(('moving-window-rewritten', [
    ('def', MV, 'move_nanmedian', '''
def move_nanmedian(arr, window, axis=-1, method='loop'):
    return move_func(bn.nanmedian, arr, window, axis=axis, method=method)
'''),
    ('def', MV, 'move_nanranking', '''
def move_nanranking(arr, window, axis=-1, method='strides'):
    return move_func(lastrank, arr, window, axis=axis, method=method)
'''),
    ('def', MV, 'move_func', '''
def move_func(func, arr, window, axis=-1, method='loop', **kwargs):
    if method == 'strides':
        engine = move_func_strides
    elif method == 'loop':
        engine = move_func_loop
    else:
        raise ValueError("`method` must be 'strides' or 'loop'.")
    return engine(func, arr, window, axis=axis, **kwargs)
'''),
    ('def', MV, 'move_func_loop', '''
def _check_window(arr, window, axis):
    if axis is None:
        raise ValueError("An `axis` value of None is not supported.")
    if window < 1:
        raise ValueError("`window` must be at least 1.")
    if window > arr.shape[axis]:
        raise ValueError("`window` is too long.")

def move_func_loop(func, arr, window, axis=-1, **kwargs):
    _check_window(arr, window, axis)
    y = nans(arr.shape)
    src = [slice(None)] * arr.ndim
    dst = [slice(None)] * arr.ndim
    for stop in range(window, arr.shape[axis] + 1):
        src[axis] = slice(stop - window, stop)
        dst[axis] = stop - 1
        y[dst] = func(arr[src], axis=axis, **kwargs)
    return y
'''),
    ('def', MV, 'movingsum_forward', '''
def movingsum_forward(x, window, skip=0, axis=-1, norm=False):
    flip = [slice(None)] * x.ndim
    flip[axis] = slice(None, None, -1)
    flip = tuple(flip)
    return movingsum(x[flip], window, skip=skip, axis=axis, norm=norm)[flip]
''')]))

REWRITES.append(('groups-rewritten', [
    ('def', G, 'group_mean', '''
def group_mean(x, groups, axis=0):
    names = np.asarray(groups)
    out = nans_like(x)
    for name in unique_group(groups):
        member = names == name
        if not member.any():
            continue
        index = [slice(None)] * x.ndim
        index[axis] = member
        xg = x[index]
        n = 1.0 * (~np.isnan(xg)).sum(axis)
        out[index] = np.expand_dims(bn.nansum(xg, axis=axis) / n, axis)
    return out

def nans_like(x):
    out = np.empty(x.shape)
    out.fill(np.nan)
    return out
'''),
    ('def', G, 'group_ranking', '''
def group_ranking(x, groups, norm='-1,1', axis=0):
    names = np.asarray(groups)
    out = nans_like(x)
    for name in unique_group(groups):
        index = [slice(None)] * x.ndim
        index[axis] = names == name
        out[index] = ranking(x[index], axis, norm)
    return out
'''),
    ('def', G, 'unique_group', '''
def unique_group(groups):
    return sorted(set([g for g in groups if g is not None]))
''')]))

REWRITES.append(('constructor-split', [
    ('def', D, '__init__', '''
    def __init__(self, x, label=None, dtype=None, validate=True):
        if type(x) is not np.ndarray:
            try:
                x = np.asarray(x, dtype=dtype)
            except:
                raise ValueError("x must be array_like and dtype must be known.")
        else:
            if dtype is not None:
                x = x.astype(dtype)
        if label is None:
            label = [list(range(n)) for n in x.shape]
        if validate:
            self._validate(x, label)
        self.label = label
        self.x = x

    def _validate(self, x, label):
        if len(label) != x.ndim:
            raise ValueError('Exactly one label per dimension needed')
        if x.ndim == 0:
            raise ValueError('0d larrys are not supported')
        for ax in range(x.ndim):
            names = label[ax]
            if len(names) != x.shape[ax]:
                raise ValueError('Length mismatch in label and x along axis %d' % ax)
            if len(set(names)) < len(names):
                raise ValueError('Elements of label not unique along axis %d.' % ax)
            if type(names) is not list:
                raise ValueError('label must be a list of lists')
''')]))

REWRITES.append(('lix-helper', [
    ('def', D, 'labels2indices', '''
def labels2indices(label, labels):
    out = []
    for name in labels:
        if name not in label:
            raise ValueError('Could not map label to index value.')
        out.append(label.index(name))
    return out
''')]))
