"""Abstract values."""
from . import terms as T
from .terms import K


class V(object):
    pass


class Const(V):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'Const(%r)' % (self.v,)


class Sym(V):
    """scalar known only through its term"""
    __slots__ = ('term', 'typ', 'hint')

    def __init__(self, term, typ='any', hint=None):
        self.term = term
        self.typ = typ
        self.hint = hint

    def __repr__(self):
        return 'Sym(%r)' % (self.term,)


class SliceV(V):
    __slots__ = ('a', 'b', 'c')

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c

    def __repr__(self):
        return 'SliceV(%r,%r,%r)' % (self.a, self.b, self.c)


class TupleV(V):
    __slots__ = ('items', 'tag')

    def __init__(self, items, tag=None):
        self.items = list(items)
        self.tag = tag

    def __repr__(self):
        return 'TupleV(%r)' % (self.items,)


class Heap(V):
    """mutable object with identity"""
    fields = ()
    origin = None

    def state(self):
        out = []
        for f in self.fields:
            v = getattr(self, f)
            if isinstance(v, (list, dict)):
                v = type(v)(v)
            out.append(v)
        return out

    def setstate(self, st):
        for f, v in zip(self.fields, st):
            if isinstance(v, (list, dict)):
                v = type(v)(v)
            setattr(self, f, v)


class PyList(Heap):
    """list; exact (items) or abstract (term).  pytype 'list', 'tuple' or
    'iter' for abstract sequences of other types"""
    fields = ('items', 'term')

    def __init__(self, items=None, term=None, pytype='list'):
        self.items = items
        self.term = term
        self.pytype = pytype

    def __repr__(self):
        return 'PyList(%r)' % (self.items if self.items is not None else self.term,)


class PySet(Heap):
    fields = ('term',)

    def __init__(self, term, frozen=False):
        self.term = term
        self.frozen = frozen

    def __repr__(self):
        return 'PySet(%r)' % (self.term,)


class PyDict(Heap):
    """dict; exact entries (ordered list of (keyterm, key, val)) or abstract:
    term ('dcomp', bases, k, v, p)"""
    fields = ('entries', 'term')

    def __init__(self, entries=None, term=None):
        self.entries = entries
        self.term = term


class Buf(Heap):
    """array memory"""
    fields = ('content', 'kind')

    def __init__(self, content, kind, dims):
        self.content = content
        self.kind = kind
        self.dims = dims


class Arr(V):
    """ndarray: a view (dims) of a buffer; dims are label terms"""
    __slots__ = ('buf', 'dims')

    def __init__(self, buf, dims):
        self.buf = buf
        self.dims = tuple(dims)

    def __repr__(self):
        return 'Arr(%r, %r)' % (self.dims, self.buf.content)


class Inst(Heap):
    fields = ('attrs',)

    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}

    def __repr__(self):
        return 'Inst(%s)' % self.cls.name


class FuncV(V):
    def __init__(self, node, mod, cls=None, closure=None, name=None, defaults=None,
                 kwdefaults=None):
        self.node = node
        self.mod = mod
        self.cls = cls          # class in whose body it is defined (mangling)
        self.closure = closure
        self.name = name
        self.defaults = defaults or []
        self.kwdefaults = kwdefaults or {}

    @property
    def qual(self):
        return (self.cls + '.' if self.cls else '') + (self.name or '<lambda>')

    def __repr__(self):
        return 'FuncV(%s)' % self.qual


class BoundV(V):
    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_


class PropV(V):
    def __init__(self, fget, fset=None):
        self.fget = fget
        self.fset = fset


class StaticV(V):
    def __init__(self, func, kind):
        self.func = func
        self.kind = kind


class ClassV(V):
    def __init__(self, name, mod, attrs, bases):
        self.name = name
        self.mod = mod
        self.attrs = attrs
        self.bases = bases

    def lookup(self, name):
        if name in self.attrs:
            return self.attrs[name]
        for b in self.bases:
            if isinstance(b, ClassV):
                r = b.lookup(name)
                if r is not None:
                    return r
        return None

    def __repr__(self):
        return 'ClassV(%s)' % self.name


class Nat(V):
    """a modelled native function / type / module attribute, by dotted name"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Nat(%s)' % self.name


class NatMeth(V):
    """bound method of a modelled value"""
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj = obj
        self.name = name


class ModV(V):
    """module of the analysed package"""
    def __init__(self, mod):
        self.mod = mod


class UserFunc(V):
    """a function supplied by the caller"""
    __slots__ = ('name', 'ret')

    def __init__(self, name, ret=None):
        self.name = name
        self.ret = ret


class DtypeV(V):
    """dtype object of kind `kind` (frozenset or kind variable)"""
    __slots__ = ('kind', 'isclass')

    def __init__(self, kind, isclass=False):
        self.kind = kind
        self.isclass = isclass      # dtype.type rather than dtype


class ExcV(V):
    __slots__ = ('name', 'args')

    def __init__(self, name, args=()):
        self.name = name
        self.args = args

    def __repr__(self):
        return 'ExcV(%s)' % self.name


class Unk(V):
    """value the analysis knows nothing about"""
    __slots__ = ('why', 'uid')

    def __init__(self, why=''):
        self.why = why
        self.uid = T.fresh()

    def __repr__(self):
        return 'Unk(%s)' % self.why


ONE = ('one',)
