# second opinions: helpers, other loops, other NumPy idioms
D = 'la/deflarry.py'
F = 'la/flarry.py'
U = 'la/util/testing.py'
MI = 'la/farray/misc.py'
N = 'la/farray/normalize.py'
MV = 'la/farray/move.py'
G = 'la/farray/group.py'
IO = 'la/io.py'
RS = 'la/util/resample.py'
MS = 'la/util/misc.py'

REWRITES.append(('conversion-again', [
    ('def', MS, 'fromlists', '''
def _mapped(labels):
    out = []
    for lab in labels:
        idx, uniq = list2index(lab)
        out.append((idx, uniq))
    return out

def fromlists(xs, labels):
    if len(xs) or len(labels):
        pairs = _mapped(labels)
        label = [uniq for idx, uniq in pairs]
        x = np.nan * np.ones([len(uniq) for uniq in label])
        x[[idx for idx, uniq in pairs]] = xs
        return x, label
    return np.array([]), None
'''),
    ('def', D, 'unflatten', '''
    def unflatten(self):
        if self.ndim == 1:
            if self.size == 0:
                return larry([])
            first = self.x.flat[0]
            if isscalar(first):
                x, label = fromlists(self.x, list(zip(*self.label[0])))
                return larry(x, label)
            raise NotImplementedError('Only scalar dtype is currently supported.')
        raise ValueError('Only 1d larrys can be unflattened.')
'''),
    ('def', D, 'tofile', '''
    def tofile(self, file, delimiter=','):
        ndim = self.ndim
        if ndim != 1 and ndim != 2:
            raise ValueError("Only 1d and 2d larrys supported; try the IO function or tocsv method.")
        if type(file) == str:
            f = open(file, 'w')
        else:
            f = file
        if ndim == 1:
            for name, value in zip(self.label[0], self.x):
                f.write(str(name) + delimiter + str(value) + '\\n')
        else:
            f.write(delimiter + delimiter.join([str(name) for name in self.label[1]]) + '\\n')
            for name, row in zip(self.label[0], self.x):
                f.write(delimiter.join([str(name)] + [str(value) for value in row]) + '\\n')
        if f is not file:
            f.close()
'''),
    ('def', D, 'fromlist', '''
    def fromlist(data):
        if len(data) > 0:
            xs, names = data
            x, label = fromlists(xs, list(zip(*names)))
            return larry(x, label)
        return larry([])
'''),
]))

REWRITES.append(('selection-again', [
    ('def', D, 'cut_missing', '''
    def cut_missing(self, fraction, axis=None):
        y = self.copy()
        ndim = y.ndim
        skip = None
        if axis is not None:
            skip = list(range(ndim))[axis]
        keep = []
        for ax in range(ndim):
            if ax == skip:
                keep.append(np.arange(y.shape[ax]))
                continue
            present = np.rollaxis(np.isfinite(y.x), ax, 0)
            count = np.ones(present.shape)
            for _ in range(1, ndim):
                present = present.sum(-1)
                count = count.sum(-1)
            keep.append(np.nonzero(present > (1.0 - fraction) * count)[0])
        y.label = [[lab[i] for i in k] for lab, k in zip(y.label, keep)]
        y.x = y.x[np.ix_(*keep)]
        if y.x.size:
            return y
        return larry(np.array([]))
'''),
    ('def', D, '_group_align', '''
    def _group_align(self, group, axis=0):
        if not isinstance(group, larry):
            raise TypeError('group must be a larry')
        if group.ndim != 1:
            raise ValueError('group must be a 1d larry')
        names = self.label[axis]
        if not set(names).issubset(group.label[0]):
            raise IndexError('label is not a subset of group label')
        return group.morph(names, 0).x.tolist()
'''),
    ('def', D, 'swapaxes', '''
    def swapaxes(self, axis1, axis2):
        label = self.copylabel()
        tmp = label[axis1]
        label[axis1] = label[axis2]
        label[axis2] = tmp
        return larry(self.x.copy().swapaxes(axis1, axis2), label, validate=False)
'''),
    ('def', D, 'nan_replace', '''
    def nan_replace(self, replace_with=0):
        y = self.copy()
        mask = np.isnan(y.x)
        np.putmask(y.x, mask, replace_with)
        return y
'''),
    ('def', D, 'sortaxis', '''
    def sortaxis(self, axis=None, reverse=False):
        y = self.copy()
        axes = range(self.ndim) if axis is None else [axis]
        for ax in axes:
            names = y.label[ax]
            order = sorted(range(len(names)), key=names.__getitem__, reverse=reverse)
            y.label[ax] = [names[i] for i in order]
            y.x = y.x.take(order, ax)
        return y
'''),
]))

REWRITES.append(('functions-again', [
    ('def', F, 'union', '''
def union(axis, *args):
    if not all([isinstance(arg, larry) for arg in args]):
        raise TypeError('One or more input is not a larry')
    names = set()
    for arg in args:
        names.update(arg.label[axis])
    return sorted(names)
'''),
    ('def', F, 'intersection', '''
def intersection(axis, *args):
    names = set(args[0].label[axis])
    for arg in args[1:]:
        if not isinstance(arg, larry):
            raise TypeError('One or more input is not a larry')
        names &= set(arg.label[axis])
    return sorted(names)
'''),
    ('def', F, 'cov', '''
def cov(lar):
    if lar.ndim != 2:
        raise ValueError('This function only works on 2d larrys')
    names = lar.label[0]
    return larry(covMissing(lar.x), [names[:], names[:]], validate=False)
'''),
    ('def', F, 'panel', '''
def panel(lar):
    if lar.ndim != 3:
        raise ValueError("lar must be 3d.")
    z, row, col = lar.copylabel()
    x = np.rollaxis(lar.x, 0, 3).reshape(-1, lar.shape[0])
    return larry(x.copy(), [flattenlabel([row, col])[0], z], validate=False)
'''),
    ('def', F, 'binaryop', '''
def _replace(x, mask, value):
    if mask.any():
        np.putmask(x, mask, value)

def binaryop(func, lar1, lar2, join='inner', cast=True, missone='ignore',
             misstwo='ignore', **kwargs):
    x1, x2, label, view1, view2 = align_raw(lar1, lar2, join=join, cast=cast)
    for lab in label:
        if lab is None:
            raise ValueError("`join` cannot be 'skip' in a binary operation.")
    one = missone != 'ignore'
    two = misstwo != 'ignore'
    if one or two:
        if view1:
            x1 = x1.copy()
        if view2:
            x2 = x2.copy()
        miss1, miss2 = ismissing(x1), ismissing(x2)
        if two:
            both = np.logical_and(miss1, miss2)
            _replace(x1, both, misstwo)
            _replace(x2, both, misstwo)
        if one:
            _replace(x1, np.logical_and(miss1, np.logical_not(miss2)), missone)
            _replace(x2, np.logical_and(miss2, np.logical_not(miss1)), missone)
    return larry(func(x1, x2, **kwargs), label, validate=False)
'''),
    ('def', F, 'rand', '''
def rand(*args, **kwargs):
    options = dict(kwargs)
    draw = options.pop('rand', np.random.rand)
    if args:
        shape = args
    elif 'label' in options:
        shape = [len(names) for names in options['label']]
    elif options:
        raise ValueError('Input parameters not recognized')
    else:
        return draw()
    return larry(draw(*shape), **options)
'''),
]))

REWRITES.append(('arrays-again', [
    ('def', G, 'group_median', '''
def group_median(x, groups, axis=0):
    names = unique_group(groups)
    groups = np.asarray(groups)
    out = np.empty(x.shape)
    out.fill(np.nan)
    for name in names:
        rows = np.nonzero(groups == name)[0]
        if len(rows) == 0:
            continue
        index = [slice(None)] * x.ndim
        index[axis] = rows
        part = bn.nanmedian(x[index], axis=axis)
        out[index] = np.expand_dims(part, axis)
    return out
'''),
    ('def', G, 'unique_group', '''
def unique_group(groups):
    names = set([g for g in groups if g is not None])
    return sorted(names)
'''),
    ('def', MI, 'covMissing', '''
def covMissing(R):
    present = ~np.isnan(R)
    filled = np.where(present, R, 0)
    present = present.astype(np.float64)
    n = np.dot(present, present.T)
    if (n < 2).any():
        raise ValueError('covMissing: not enough observations')
    return np.dot(filled, filled.T) / n
'''),
    ('def', RS, 'cross_validation', '''
def cross_validation(n, kfold, shuffle=None):
    if n < 2:
        raise ValueError("`n` must be two or greater.")
    if kfold < 2:
        raise ValueError("`kfold` must be two or greater.")
    if kfold > n:
        raise ValueError("`kfold` cannot be greater than `n`")
    index = list(range(n))
    if shuffle is None:
        shuffle = np.random.shuffle
    shuffle(index)
    size = n // kfold
    for k in range(kfold):
        start = k * size
        stop = n if k + 1 == kfold else start + size
        yield index[:start] + index[stop:], index[start:stop]
'''),
]))

REWRITES.append(('archive-again', [
    ('def', IO, 'archive_directory', '''
def archive_directory(file):
    f, opened = _openfile(file)
    found = []
    try:
        def visit(name, obj):
            if not _is_archived_larry(obj):
                return
            found.append(name if isinstance(name, str) else name.encode('utf-8'))
        f.visititems(visit)
    finally:
        if opened:
            f.close()
    return found
'''),
    ('def', IO, '_is_archived_larry', '''
def _is_archived_larry(obj):
    if not isinstance(obj, h5py.Group):
        return False
    if 'larry' not in obj.attrs or obj.attrs['larry'] != True:
        return False
    if 'x' not in obj:
        return False
    for i in range(len(obj['x'].shape)):
        if str(i) not in obj:
            return False
    return True
'''),
    ('def', IO, 'time2tuple', '''
def time2tuple(t):
    out = []
    for name in ('hour', 'minute', 'second', 'microsecond'):
        out.append(getattr(t, name))
    return tuple(out)
'''),
]))
