# la/util/resample.py
RS = 'la/util/resample.py'

REWRITES.append(('resample-for-loops', [
    ('def', RS, 'cross_validation', '''
def _fold_bounds(k, n, kfold):
    "First index and one past the last index of fold `k`."
    nperk = n // kfold
    start = k * nperk
    if k < kfold - 1:
        stop = start + nperk
    else:
        stop = n
    return start, stop

def cross_validation(n, kfold, shuffle=None):
    if n < 2:
        raise ValueError("`n` must be two or greater.")
    if kfold < 2:
        raise ValueError("`kfold` must be two or greater.")
    if n < kfold:
        raise ValueError("`kfold` cannot be greater than `n`")
    if shuffle is None:
        shuffle = np.random.shuffle
    index = [i for i in range(n)]
    shuffle(index)
    for k in xrange(kfold):
        start, stop = _fold_bounds(k, n, kfold)
        test = index[start:stop]
        train = index[:start]
        train.extend(index[stop:])
        yield train, test
'''),
    ('def', RS, 'bootstrap', '''
def bootstrap(n, nboot, randint=None):
    if n < 2:
        raise ValueError("`n` must be at least 2")
    if nboot < 1:
        raise ValueError("`nboot` must be at least 1")
    if randint is None:
        randint = np.random.randint
    everything = set(xrange(n))
    done = 0
    while done < nboot:
        train = randint(0, n, n).tolist()
        left = everything.difference(train)
        if not left:
            continue
        done += 1
        yield train, list(left)
'''),
    ('def', RS, 'split', '''
def split(data, idx_train, idx_test, axis):
    return tuple(data.take(idx, axis) for idx in (idx_train, idx_test))
''')]))
REWRITES.append(('resample-nested', [
    ('def', RS, 'bootstrap', '''
def _sample(n, randint):
    "Train and (never empty) test indices."
    while True:
        train = randint(0, n, n).tolist()
        chosen = set(train)
        test = [i for i in range(n) if i not in chosen]
        if len(test) != 0:
            return train, test

def bootstrap(n, nboot, randint=None):
    if n < 2:
        raise ValueError("`n` must be at least 2")
    if nboot < 1:
        raise ValueError("`nboot` must be at least 1")
    draw = np.random.randint if randint is None else randint
    for i in range(nboot):
        yield _sample(n, draw)
''')]))
PYXF = 'la/src/cflabel.pyx'
FL = 'la/flabel.py'

REWRITES.append(('flabel-enumerate', [
    ('def', PYXF, 'listmap', '''
cdef dict _positions(list labels):
    cdef Py_ssize_t i
    cdef dict where = {}
    for i in range(len(labels)):
        where[labels[i]] = i
    return where

def listmap(list list1, list list2, bool ignore_unmappable=False):
    cdef dict where = _positions(list1)
    if ignore_unmappable:
        return [where[x] for x in list2 if x in where]
    return [where[x] for x in list2]
'''),
    ('def', PYXF, 'listmap_fill', '''
def listmap_fill(list list1, list list2, int fill=0):
    cdef:
        Py_ssize_t i
        dict where = _positions(list1)
        list index = []
        list missing = []
    for i, x in enumerate(list2):
        if x in where:
            index.append(where[x])
        else:
            index.append(fill)
            missing.append(i)
    return index, missing
'''),
    ('def', FL, 'listmap', '''
def listmap(list1, list2, ignore_unmappable=False):
    where = {}
    for i, x in enumerate(list1):
        where[x] = i
    if not ignore_unmappable:
        return map(where.__getitem__, list2)
    idx = []
    for x in list2:
        if x in where:
            idx.append(where[x])
    return idx
'''),
    ('def', FL, 'listmap_fill', '''
def listmap_fill(list1, list2, fill=0):
    where = dict((x, i) for i, x in enumerate(list1))
    index = [where.get(x, fill) for x in list2]
    missing = [i for i, x in enumerate(list2) if x not in where]
    return index, missing
'''),
    ('def', FL, 'flattenlabel', '''
def flattenlabel(label, order='C'):
    if order not in ('C', 'F'):
        raise ValueError("order must be 'C' or 'F'")
    if order == 'C':
        return [[x for x in itertools.product(*label)]]
    rev = list(label)
    rev.reverse()
    return [[x[::-1] for x in itertools.product(*rev)]]
'''),
    ('sub', FL, 'def flattenlabel', 'import itertools\n\ndef flattenlabel'),
    ('def', FL, 'list2index', '''
def list2index(L):
    unique = list(set(L))
    unique.sort()
    return listmap(unique, list(L)), unique
'''),
]))
REWRITES.append(('flattenlabel-recursive', [
    ('def', FL, 'flattenlabel', '''
def flattenlabel(label, order='C'):
    if order not in ('C', 'F'):
        raise ValueError("order must be 'C' or 'F'")
    if order == 'C':
        return [_product(list(label))]
    return [[x[::-1] for x in _product(list(label)[::-1])]]

def _product(labels):
    "List of tuples; the last label varies fastest"
    if len(labels) == 0:
        return [()]
    rest = _product(labels[1:])
    return [(x,) + y for x in labels[0] for y in rest]
'''),
    ('def', FL, 'list2index', '''
def list2index(L):
    unique = sorted(set(L))
    idx = {}
    for i in range(len(unique)):
        idx[unique[i]] = i
    out = []
    for x in L:
        out.append(idx[x])
    return out, unique
'''),
]))
DL = 'la/deflarry.py'

REWRITES.append(('convert-loops', [
    ('def', DL, 'larry.totuples', '''
    def totuples(self):
        yf = self.flatten()
        return [name + (value,) for name, value in zip(yf.label[0], yf.x.tolist())]
'''),
    ('def', DL, 'larry.tolist', '''
    def tolist(self):
        names = flattenlabel(self.label)[0]
        values = self.x.ravel().tolist()
        return [values, names]
'''),
    ('def', DL, 'larry.todict', '''
    def todict(self):
        yf = self.flatten()
        out = {}
        for i in range(yf.size):
            out[yf.label[0][i]] = yf.x[i]
        return out
'''),
    ('def', DL, 'larry.tocsv', '''
    def tocsv(self, filename, delimiter=','):
        fid = open(filename, 'w')
        try:
            writer = csv.writer(fid, delimiter=delimiter)
            for row in self.totuples():
                writer.writerow(row)
        finally:
            fid.close()
'''),
    ('def', DL, 'larry.fromcsv', '''
    def fromcsv(filename, delimiter=',', skiprows=0):
        with open(filename, 'r') as fid:
            rows = list(csv.reader(fid, delimiter=delimiter))
        return larry.fromtuples(rows[skiprows:])
'''),
    ('def', DL, 'larry.fromtuples', '''
    def fromtuples(data):
        if len(data) == 0:
            return larry([])
        values = [row[-1] for row in data]
        names = zip(*[row[:-1] for row in data])
        x, label = fromlists(values, names)
        return larry(x, label)
'''),
    ('def', DL, 'larry.fromdict', '''
    def fromdict(data):
        items = data.items()
        return larry.fromlist([[v for k, v in items], [k for k, v in items]])
'''),
    ('def', 'la/util/misc.py', 'fromlists', '''
def fromlists(xs, labels):
    if len(xs) == 0 and len(labels) == 0:
        return np.array([]), None
    pairs = [list2index(lab) for lab in labels]
    label = [unique for idx, unique in pairs]
    x = np.nan * np.ones([len(unique) for unique in label])
    x[[idx for idx, unique in pairs]] = xs
    return x, label
''')]))
