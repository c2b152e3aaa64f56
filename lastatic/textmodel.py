"""Text files and csv readers and writers.

A text file has a list of the rows written to it by csv writers; what a csv
reader reads is given by the context under analysis (I.csvrows)."""
from . import terms as T
from .h5model import H5V
from .values import *


class TextFile(H5V, Heap):
    fields = ('open',)

    def __init__(self, name, mode, rows):
        self.name = name
        self.mode = mode
        self.rows = rows
        self.open = True

    def type_of(self, I):
        return Nat('builtins.file')

    def isinstance(self, I, t):
        if not isinstance(t, Nat):
            return Const(False)
        return Const(t.name in ('builtins.file', 'builtins.object'))

    def getattr(self, I, name):
        if name in ('read', 'readline', 'readlines', 'write', 'writelines', 'close', 'flush', '__enter__', '__exit__',
                    'next', '__iter__', 'seek', 'tell', 'fileno', 'truncate'):
            return NatMeth(self, name)
        if name == 'closed':
            return Const(not self.open)
        if name in ('name', 'mode'):
            return getattr(self, name)
        I.raise_('AttributeError')

    def method(self, I, name, args, kw):
        if name == 'close':
            self.open = False
            return Const(None)
        if name == '__enter__':
            return self
        if name == '__exit__':
            self.open = False
            return Const(None)
        if name in ('write', 'writelines'):
            I.event('textwrite', textfile=self)
            if not args:
                I.raise_('TypeError')
            if name == 'write':
                I.list_append(self.rows, args[0])
            else:
                I.list_extend(self.rows, args[0])
            return Const(None)
        if name == 'flush':
            return Const(None)
        return Unk('text file method ' + name)

    def iterate(self, I):
        return Unk('lines')


class CsvWriter(H5V, Heap):
    fields = ()

    def __init__(self, file):
        self.file = file

    def method(self, I, name, args, kw):
        if name == 'writerow' and args:
            I.list_append(self.file.rows, args[0])
            return Const(None)
        if name == 'writerows' and args:
            I.list_extend(self.file.rows, args[0])
            return Const(None)
        return Unk('csv writer method ' + name)


def open_(I, args, kw):
    if I.world is not None or not args:
        return Unk('builtin')
    mode = args[1] if len(args) > 1 else kw.get('mode', Const('r'))
    rows = I.new(PyList([]))
    f = I.new(TextFile(args[0], mode, rows))
    I.textfiles.append(f)
    return f


def reader(I, args, kw):
    if not args or not isinstance(args[0], TextFile):
        return Unk('csv reader')
    t = I.csvrows if I.csvrows is not None else ('opq', T.fresh())
    return I.new(PyList(None, t, 'iter'))


def writer(I, args, kw):
    if not args or not isinstance(args[0], TextFile):
        return Unk('csv writer')
    return I.new(CsvWriter(args[0]))
