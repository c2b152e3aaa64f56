"""Shared judgements over abstract results."""
from . import terms as T
from . import models as M
from .terms import K, TRUE, FALSE
from .values import *


def is_larry(v):
    return isinstance(v, Inst) and v.cls.name == 'larry'


def larrys(v, path='result'):
    """every larry reachable through tuples/lists of a returned value"""
    if is_larry(v):
        yield path, v
    elif isinstance(v, TupleV):
        for i, x in enumerate(v.items):
            for r in larrys(x, '%s[%d]' % (path, i)):
                yield r
    elif isinstance(v, PyList) and v.items is not None:
        for i, x in enumerate(v.items):
            for r in larrys(x, '%s[%d]' % (path, i)):
                yield r


def parts(v, path='result', depth=0):
    """(path, heap object) of every mutable object reachable from a result"""
    if depth > 5:
        return
    if isinstance(v, Arr):
        yield path, M.root(v.buf)
    elif isinstance(v, Inst):
        yield path, v
        for k in sorted(v.attrs):
            for r in parts(v.attrs[k], '%s.%s' % (path, k), depth + 1):
                yield r
    elif isinstance(v, PyList):
        yield path, v
        if v.items is not None:
            for i, x in enumerate(v.items):
                for r in parts(x, '%s[%d]' % (path, i), depth + 1):
                    yield r
    elif isinstance(v, (PySet, PyDict)):
        yield path, v
        if isinstance(v, PyDict) and v.entries is not None:
            for i, e in enumerate(v.entries):
                for r in parts(e[2], '%s{%d}' % (path, i), depth + 1):
                    yield r
    elif isinstance(v, TupleV):
        for i, x in enumerate(v.items):
            for r in parts(x, '%s[%d]' % (path, i), depth + 1):
                yield r


def has_head(t, heads):
    if not isinstance(t, tuple):
        return False
    if t and t[0] in heads:
        return True
    return any(has_head(x, heads) for x in t)


UNKNOWN = ('opq', 'opqc', 'ref', 'nanlike?', 'loop')


def unknown_term(t):
    return has_head(t, UNKNOWN)


def larry_parts(I, l):
    """(dims, content, [label terms]) or None"""
    x = l.attrs.get('x')
    lab = l.attrs.get('label')
    if not isinstance(x, Arr):
        return None
    t, items = I.seq_of(lab) if lab is not None else (None, None)
    if items is None:
        return None
    labs = []
    for it in items:
        if isinstance(it, Unk):
            labs.append(('opq', 'unk'))
        else:
            labs.append(I.freeze(it))
    return [I.facts.norm(d) for d in x.dims], I.facts.norm(x.buf.content), [I.facts.norm(s) for s in labs]


def expand(I, S):
    """normal form of a label sequence: slices with known bounds become
    comprehensions"""
    return I.expand(I.facts.norm(S))


def positions(dim):
    """the label sequences an axis is made of, outermost first"""
    if dim[0] == 'flat':
        return list(dim[1])
    return [dim]


def relabelled(I, dim, lab):
    """lab[j] is computed from the label of position j of dim, for every j"""
    if lab[0] != 'comp' or lab[3] != TRUE:
        return False
    ds = positions(dim)
    if len(ds) != len(lab[1]):
        return False
    where = {}
    for d, (j, n) in zip(ds, lab[1]):
        if I.facts.query(T.eq(n, T.length(d))) is not True:
            return False
        where[j if isinstance(j, tuple) else ('j', j)] = d

    used = set()

    def walk(t):
        if not isinstance(t, tuple):
            return True
        if t in where:
            return False                      # position used other than as an index
        if t and t[0] == 'at':
            if t[2] in where:
                used.add(t[2])
                return T.eq(t[1], where[t[2]]) == TRUE or I.facts.query(T.eq(t[1], where[t[2]])) is True
        return all(walk(x) for x in t)
    return walk(lab[2]) and len(used) == len(where)


def same_labels(I, dim, lab):
    """does label list `lab` name the coordinates of axis `dim`?
    True / False / None (not understood)"""
    if dim == lab:
        return True
    q = I.facts.query
    if q(T.eq(dim, lab)) is True:
        return True
    nd, nl = T.length(dim), T.length(lab) if lab[0] != 'const' and not T.isk(lab) else None
    if nl is None:
        return False
    if q(T.eq(nd, K(0))) and q(T.eq(nl, K(0))):
        return True
    if dim == ONE or dim[0] == 'pos':
        # the axis was created with the result: any list of that length
        r = q(T.eq(nd, nl))
        return True if r else None
    if expand(I, dim) == expand(I, lab):
        return True
    if relabelled(I, dim, lab):
        return True
    if unknown_term(dim) or unknown_term(lab):
        return None
    return False


def feasible(I):
    """is the path consistent as far as the fact base can tell"""
    return True


# ------------------------------------------------------------------ outcomes
FRESH = {'opq': (1,), 'opqc': (1,), 'j': (1,), 'ref': (1,), 'perm': (2,), 'unk': (1,), 'nanlike?': (1,)}


class Canon(object):
    """renames fresh identifiers in order of appearance, so that two runs of
    the analysis can be compared"""
    def __init__(self):
        self.m = {}

    def ident(self, x):
        if isinstance(x, int) and not isinstance(x, bool) and x > 0:
            return self.m.setdefault(x, 'id%d' % len(self.m))
        return x

    def term(self, t):
        if not isinstance(t, tuple):
            return t
        if T.isk(t):
            return t
        if t and isinstance(t[0], str):
            pos_ = FRESH.get(t[0], ())
            if t[0] == 'comp' and len(t) == 4:
                return ('comp', tuple((self.ident(j), self.term(n)) for j, n in t[1]), self.term(t[2]),
                        self.term(t[3]))
            return tuple(self.ident(x) if i in pos_ and not isinstance(x, tuple) else self.term(x)
                         for i, x in enumerate(t))
        return tuple(self.term(x) for x in t)

    def value(self, I, v, depth=0):
        if depth > 6:
            return ('deep',)
        n = lambda t: self.term(I.facts.norm(t))
        if isinstance(v, Arr):
            return ('arr', tuple(n(d) for d in v.dims), n(v.buf.content), tuple(sorted(I.kindof(v))))
        if isinstance(v, Inst):
            return ('inst', v.cls.name, tuple((k, self.value(I, v.attrs[k], depth + 1)) for k in sorted(v.attrs)))
        if isinstance(v, (PyList, TupleV)):
            items = v.items
            if items is not None:
                return ('list', tuple(self.value(I, x, depth + 1) for x in items))
            return ('seq', n(v.term))
        if isinstance(v, PySet):
            return ('set', n(v.term))
        if isinstance(v, PyDict):
            if v.entries is not None:
                return ('dict', tuple((self.term(e[0]), self.value(I, e[2], depth + 1)) for e in v.entries))
            return ('dict', self.term(v.term) if v.term else None)
        if isinstance(v, Sym):
            return ('sym', n(v.term))
        if isinstance(v, Const):
            return ('const', repr(v.v))
        if isinstance(v, Unk):
            return ('unk', 0)
        return ('other', type(v).__name__, getattr(v, 'name', None))


def outcome(I, o, inplace=False):
    """comparable description of what one path does"""
    c = Canon()
    if o.kind == 'return':
        r = c.value(I, o.value)
    else:
        r = ('raise', o.exc.name if hasattr(o.exc, 'name') else '?')
    st = ()
    if inplace:
        recv, a, kw = I.ctx_args
        st = tuple(c.value(I, x) for x in ([recv] if recv is not None else []) + list(a)
                   if isinstance(x, (Inst, Arr)))
    conds = frozenset((c.term(I.facts.norm(t) if False else t), v) for t, v in o.taken)
    return (conds, o.kind, r, st)


OPAQUE = ('opq', 'opqc', 'ref', 'nanlike?', 'unk', 'deep')


def opaque(t):
    return has_head(t, OPAQUE)


def mentions(t, s):
    if t == s:
        return True
    if isinstance(t, (tuple, frozenset)):
        return any(mentions(x, s) for x in t)
    return False
