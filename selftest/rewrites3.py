# la/io.py
IO = 'la/io.py'

REWRITES.append(('io-context-managers', [
    ('sub', IO, 'import os\n', 'import os\nfrom contextlib import closing, contextmanager\n'),
    ('def', IO, '_openfile', '''
def _openfile(file):
    "Return open h5py.File object and whether it was opened here."
    opened = not isinstance(file, h5py.File)
    if not opened:
        return file, opened
    if type(file) != str:
        msg = "file must be a h5py.File object or a string (path)."
        raise TypeError(msg)
    return h5py.File(file), opened

@contextmanager
def _archive(file):
    "File object of the archive; closed afterwards if it was opened here."
    f, opened = _openfile(file)
    try:
        yield f
    finally:
        if opened:
            f.close()
'''),
    ('def', IO, 'load', '''
def load(file, key):
    if type(key) != str:
        raise TypeError('key must be a string.')
    with _archive(file) as f:
        if key not in f:
            raise KeyError("A larry named '%s' is not in archive." % key)
        group = f[key]
        if not _is_archived_larry(group):
            raise KeyError('key (%s) is not a larry.' % key)
        lar = larry(group['x'][:], _load_label(f, key))
    return lar
'''),
    ('def', IO, 'delete', '''
def delete(file, key):
    if type(key) != str:
        raise TypeError('key must be a string.')
    with _archive(file) as f:
        _check_larry(f, key)
        del f[key]

def _check_larry(f, key):
    "Raise KeyError unless the item is an archived larry."
    if key not in f:
        raise KeyError("A larry named '%s' is not in archive." % key)
    if not _is_archived_larry(f[key]):
        raise KeyError('key (%s) is not a larry.' % key)
'''),
    ('def', IO, 'is_archived_larry', '''
def is_archived_larry(file, key):
    "True if item is an archived larry."
    with _archive(file) as f:
        if key not in f:
            raise ValueError('key (%s) is not in archive.' % str(key))
        return _is_archived_larry(f[key])
'''),
    ('def', IO, 'archive_directory', '''
def archive_directory(file):
    "Return list of keys."
    found = []
    def visit(name, obj):
        if not _is_archived_larry(obj):
            return
        found.append(name if isinstance(name, str) else name.encode('utf-8'))
    with _archive(file) as f:
        f.visititems(visit)
    return found
'''),
    ('def', IO, 'IO.space', '''
def space(self):
    "The number of bytes used by the archive."
    with closing(h5py.File(self.filename, 'r')) as f:
        return f.fid.get_filesize()
'''),
    ('def', IO, 'IO.freespace', '''
def freespace(self):
    "Return the number of bytes of freespace in the archive."
    used = [0]
    def add(key, value):
        if isinstance(value, h5py.Dataset):
            used[0] += value.id.get_storage_size()
    with h5py.File(self.filename, 'r') as f:
        f.visititems(add)
    return self.space - used[0]
'''),
    ('def', IO, 'lara.shape', '''
def shape(self):
    "Shape of data in file."
    with h5py.File(self.filename, 'r') as f:
        return f[self.key]['x'].shape
'''),
    ('def', IO, 'lara.dtype', '''
def dtype(self):
    return self._peek('dtype')

def _peek(self, name):
    f = h5py.File(self.filename, 'r')
    try:
        return getattr(f[self.key]['x'], name)
    finally:
        f.close()
'''),
    ('def', IO, 'lara.__setitem__', '''
def __setitem__(self, index, value):
    with h5py.File(self.filename) as f:
        self.x = f[self.key]['x']
        try:
            self._larry_setitem(index, value)
        finally:
            self.x = None
'''),
]))

REWRITES.append(('io-save-helpers', [
    ('def', IO, 'save', '''
def save(file, lar, key):
    if type(lar) != larry:
        raise TypeError('lar must be a larry.')
    if type(key) != str:
        raise TypeError('key must be a string.')
    encoded = []
    for axis_label in lar.label:
        encoded.append(_list2array(axis_label))
    f, opened = _openfile(file)
    try:
        created = _create_nested_groups(f, key)
        try:
            _write(f, key, lar.x, encoded)
        except:
            if created is not None:
                del f[created]
            raise
    finally:
        if opened:
            f.close()
        else:
            f.flush()

def _write(f, key, x, encoded):
    "Write data and labels; whatever was written goes away on failure."
    group = f[key]
    done = []
    try:
        group['x'] = x
        done.append('x')
        for i, (arr, kind) in enumerate(encoded):
            name = str(i)
            group[name] = arr
            done.append(name)
            group[name].attrs['datetime_type'] = kind
        group.attrs['larry'] = True
    except:
        for name in done:
            del group[name]
        raise
'''),
    ('def', IO, '_list2array', '''
def _list2array(x):
    "Array and name of the type of the elements"
    if type(x) != list:
        raise TypeError('x must be a list')
    if not x:
        return np.array([]), 'not_datetime'
    kinds = set([type(i) for i in x])
    if len(kinds) > 1:
        msg = 'Elements of a label along any one dimension must be of the '
        msg += 'same type.'
        raise TypeError(msg)
    kind = type(x[0])
    datetime_type, dtype = 'not_datetime', None
    if kind == datetime.datetime:
        datetime_type, dtype = 'datetime', ','.join(['i4'] * 7)
        values = [datetime2tuple(i) for i in x]
    elif kind == datetime.date:
        datetime_type = 'date'
        values = [i.toordinal() for i in x]
    elif kind == datetime.time:
        datetime_type, dtype = 'time', "i4,i4,i4,i4"
        values = [time2tuple(i) for i in x]
    else:
        values = x
    arr = np.asarray(values, dtype=dtype)
    if arr.ndim > 1:
        raise TypeError('Elements of a label must be scalars to be saved.')
    return arr, datetime_type
'''),
    ('def', IO, '_load_label', '''
def _load_label(file, key):
    "Load larry label"
    decode = {'date': datetime.date.fromordinal, 'time': tuple2time,
              'datetime': tuple2datetime}
    f, opened = _openfile(file)
    try:
        group = f[key]
        label = []
        for i in range(len(group['x'].shape)):
            g = group[str(i)]
            labellist = []
            if g.size > 0:
                labellist = g[:].tolist()
                func = decode.get(g.attrs['datetime_type'])
                if func is not None:
                    labellist = [func(j) for j in labellist]
            label.append(labellist)
        return label
    finally:
        if opened:
            f.close()
'''),
    ('def', IO, '_create_nested_groups', '''
def _create_nested_groups(f, path):
    "Create the groups of the path; the outermost one created"
    first = None
    group = ''
    for name in path.split('/'):
        if name == '':
            continue
        group = group + '/' + name if group else name
        if group in f:
            if not isinstance(f[group], h5py.Group):
                msg = '%s already exists and is not a h5.py.Group object.'
                raise ValueError(msg % group)
            continue
        f.create_group(group)
        if first is None:
            first = group
    return first
'''),
    ('def', IO, '_is_archived_larry', '''
def _is_archived_larry(obj):
    "True if object is an archived larry."
    if not isinstance(obj, h5py.Group):
        return False
    if 'larry' not in obj.attrs or not obj.attrs['larry']:
        return False
    if 'x' not in obj:
        return False
    for i in range(len(obj['x'].shape)):
        if str(i) not in obj:
            return False
    return True
'''),
    ('def', IO, 'datetime2tuple', '''
def datetime2tuple(dt):
    "datetime.datetime to tuple"
    d = (dt.year, dt.month, dt.day)
    return d + time2tuple(dt)
'''),
    ('def', IO, 'tuple2datetime', '''
def tuple2datetime(i):
    "tuple to datetime.datetime"
    year, month, day, hour, minute, second, us = i
    return datetime.datetime(year, month, day, hour, minute, second, us)
'''),
    ('def', IO, 'repack', '''
def repack(file):
    "Repack archive to remove freespace."
    f1, opened = _openfile(file)
    filename1 = f1.filename
    filename2 = _tmpname(filename1, '_repack_tmp_')
    try:
        with h5py.File(filename2) as f2:
            for key in f1:
                f1.copy(key, f2)
    except:
        if os.path.exists(filename2):
            os.remove(filename2)
        if opened:
            f1.close()
        raise
    f1.close()
    backup = _tmpname(filename1, '_repack_rename_tmp_')
    os.rename(filename1, backup)
    os.rename(filename2, filename1)
    os.remove(backup)
    if opened:
        return None
    return h5py.File(filename1)

def _tmpname(filename, middle):
    return '%s%s%s' % (filename, middle, randstring(4))
'''),
    ('def', IO, 'IO.__setitem__', '''
def __setitem__(self, key, value):
    if type(key) != str:
        raise TypeError('key must be a string of type str.')
    if not isinstance(value, larry):
        raise TypeError('value must be a larry.')
    with h5py.File(self.filename) as f:
        if key not in f:
            save(f, value, key)
            return
        if not _is_archived_larry(f[key]):
            raise KeyError('key (%s) is not a larry.' % key)
        backup = '%s_replaced_tmp_%s' % (key.rstrip('/'), randstring(4))
        f.move(key, backup)
        try:
            save(f, value, key)
            del f[backup]
        except:
            if key in f:
                del f[key]
            f.move(backup, key)
            raise
'''),
    ('def', IO, 'IO.__getitem__', '''
def __getitem__(self, key):
    with h5py.File(self.filename, 'r') as f:
        if key not in f:
            raise KeyError("A larry named %s is not in the archive." % key)
        if not _is_archived_larry(f[key]):
            msg = "%s is in the archive but it is not a larry."
            raise KeyError(msg % key)
    return lara(self.filename, key)
'''),
    ('def', IO, 'IO.clear', '''
def clear(self):
    "Remove all larrys from the archive."
    keys = self.keys()
    keys.reverse()
    for key in keys:
        del self[key]
'''),
    ('def', IO, 'IO.items', '''
def items(self):
    "Return a list of all key, lara pairs"
    pairs = []
    for key in self.keys():
        pairs.append((key, self[key]))
    return pairs
'''),
]))
