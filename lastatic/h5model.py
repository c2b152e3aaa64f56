"""Abstract model of h5py and of the file system, for la/io.py.

Files are trees of nodes named by symbolic paths.  What an archive contained
before the analysed operation is unknown: membership, node type and attributes
of the original content are decided per path of the analysis.  Changes made by
the operation are an overlay over that original content, so the net effect of
an operation is exactly the overlay that is left at its end.

Every operation that reaches HDF5 or the operating system may fail; at most one
such fault happens on a path of the analysis.
"""
from . import terms as T
from . import models as M
from .terms import K, TRUE, FALSE
from .values import *


class H5V(V):
    def iterate(self, I):
        return Unk('iteration over ' + type(self).__name__)

    def getattr(self, I, name):
        return NatMeth(self, name)

    def method(self, I, name, args, kw):
        return I.unk('h5 method %s.%s' % (type(self).__name__, name))

    def contains(self, I, x):
        return Unk('in')

    def getitem(self, I, i):
        return I.unk('item of ' + type(self).__name__)

    def setitem(self, I, i, v):
        I.note('item assignment to ' + type(self).__name__)

    def delitem(self, I, i):
        I.note('item deletion from ' + type(self).__name__)

    def isinstance(self, I, t):
        return Unk('isinstance')

    def type_of(self, I):
        return Unk('type')


class H5State(Heap):
    """mutable model state; merged at the end of generic loops"""
    def merge(self, I, s0, posts, conds, bases):
        pass


# ---------------------------------------------------------------- strings

def pieces(v):
    """string value as a tuple of constant and symbolic pieces"""
    if isinstance(v, Const):
        if isinstance(v.v, str):
            return (K(v.v),) if v.v else ()
        return None
    if isinstance(v, Sym) and v.typ == 'str':
        if v.term[0] == 'strcat':
            return v.term[1]
        return (v.term,)
    return None


def mkstr(ps):
    out = []
    for p in ps:
        if T.isk(p) and out and T.isk(out[-1]):
            out[-1] = K(T.kval(out[-1]) + T.kval(p))
        else:
            out.append(p)
    out = [p for p in out if not (T.isk(p) and T.kval(p) == '')]
    if not out:
        return Const('')
    if len(out) == 1 and T.isk(out[0]):
        return Const(T.kval(out[0]))
    if len(out) == 1:
        return Sym(out[0], 'str')
    return Sym(('strcat', tuple(out)), 'str')


def strop(I, op, a, b):
    if I.world is None:
        return None
    if op == 'Add':
        x, y = pieces(a), pieces(b)
        if x is None or y is None or (isinstance(a, Const) and isinstance(b, Const)):
            return None
        return mkstr(x + y)
    if op == 'Mod' and isinstance(a, Const) and isinstance(a.v, str):
        t, items = I.seq_of(b) if isinstance(b, TupleV) else (None, [b])
        parts = a.v.split('%s')
        if '%' in ''.join(parts) and '%d' not in ''.join(parts):
            return None
        parts = a.v.replace('%d', '%s').split('%s')
        if items is None or len(parts) != len(items) + 1:
            return None
        out = []
        for k, q in enumerate(parts):
            out.append(K(q))
            if k < len(items):
                s = M.call_nat(I, 'builtins.str', [items[k]], {})
                ps = pieces(s)
                if ps is None:
                    return None
                out.extend(ps)
        return mkstr(out)
    return None


def strmeth(I, o, name, args, kw):
    if I.world is None:
        return None
    if name == 'toordinal' and isinstance(o, Sym):
        return Sym(('app', 'toordinal', o.term), 'int')
    ps = pieces(o)
    if ps is None:
        return None
    if name == 'join' and args:
        t, items = I.seq_of(args[0])
        if items is None:
            return Sym(('app', 'joined', K(T.fresh())), 'str')
        out = []
        for k, x in enumerate(items):
            q = pieces(x)
            if q is None:
                return Sym(('app', 'joined', K(T.fresh())), 'str')
            if k:
                out.extend(ps)
            out.extend(q)
        return mkstr(out)
    if name == 'format' and isinstance(o, Const) and not kw and o.v.count('{}') == len(args) and \
            o.v.replace('{}', '').count('{') == 0:
        return strop(I, 'Mod', Const(o.v.replace('%', '').replace('{}', '%s')), TupleV(args))
    if isinstance(o, Const):
        return None
    if name == 'split' and len(args) == 1 and isinstance(args[0], Const) and args[0].v == '/' and not kw:
        # atoms are path components: they contain no separator
        out, cur = [], []
        for p in ps:
            if T.isk(p):
                bits = T.kval(p).split('/')
                cur.append(K(bits[0]))
                for b in bits[1:]:
                    out.append(cur)
                    cur = [K(b)]
            else:
                cur.append(p)
        out.append(cur)
        return I.new(PyList([mkstr(x) for x in out]))
    if name in ('rsplit', 'rpartition', 'partition'):
        return None
    if name in ('strip', 'lstrip', 'rstrip') and len(args) <= 1 and \
            (not args or isinstance(args[0], Const)):
        ch = args[0].v if args else None
        q = list(ps)
        if name != 'rstrip' and q and T.isk(q[0]):
            q[0] = K(T.kval(q[0]).lstrip(ch))
        if name != 'lstrip' and q and T.isk(q[-1]):
            q[-1] = K(T.kval(q[-1]).rstrip(ch))
        return mkstr(q)
    if name in ('encode', 'decode'):
        return o
    if name in ('startswith', 'endswith') and args and isinstance(args[0], Const):
        e = ps[0] if name == 'startswith' else ps[-1]
        if T.isk(e) and len(T.kval(e)) >= len(args[0].v):
            return Const(getattr(T.kval(e), name)(args[0].v))
        return Sym(('app', name, o.term, K(args[0].v)), 'bool')
    return None


def components(ps):
    out, cur = [], []
    for p in ps:
        if T.isk(p):
            bits = T.kval(p).split('/')
            if bits[0]:
                cur.append(K(bits[0]))
            for b in bits[1:]:
                if cur:
                    out.append(tuple(cur))
                cur = [K(b)] if b else []
        elif p[0] == 'relpath':
            if cur:
                out.append(tuple(cur))
                cur = []
            out.extend(p[1])
        else:
            cur.append(p)
    if cur:
        out.append(tuple(cur))
    return tuple(out)


def pathtext(path):
    return '/'.join(''.join(T.kval(x) if T.isk(x) else '<%s>' % (x[1] if len(x) > 1 and isinstance(x[1], str)
                                                                  else x[0]) for x in c) for c in path) or '/'


# ---------------------------------------------------------------- the world

class World(object):
    """one archive file, one larry stored or to be stored under a symbolic key"""
    def __init__(self, I, ndim=1, faults=True):
        self.handles = []
        self.faults = faults
        self.faulted = None
        self.nfault = 0
        self.nofault = ()
        self.quiet = 0              # an exception is being handled
        self.ndim = ndim
        self.elemtype = {}
        self.filename = Sym(('sym', 'archive', 'str'), 'str')
        self.store = I.new(Store('archive'), ('in', 'archive', 'file'))
        self.fs = I.new(FS(), ('in', 'fs', 'disk'))
        self.fs.names = {pieces(self.filename): self.store}
        self.reprs = {}

    def typeof(self, I, v):
        t = v.term
        if t in self.elemtype:
            return Nat(self.elemtype[t])
        if t[0] == 'at' and t[1] in self.elemtype:
            return Nat(self.elemtype[t[1]])
        return None

    def fault(self, I, what, name='H5Error'):
        """the next operation may fail"""
        if not self.faults or self.faulted is not None or self.quiet or what in self.nofault:
            return
        self.nfault += 1
        if I.decide(('h5fault', K(self.nfault))):
            self.faulted = what
            I.event('fault', what=what)
            I.raise_(name)

    def disk(self, I, what):
        """record what the disk holds after one step"""
        state = []
        for name, st in sorted(self.fs.names.items(), key=repr):
            state.append((name, st.intact(I), st))
        I.event('disk', what=what, state=[(n, s) for n, s, _ in state])


class FS(H5State):
    fields = ('names',)

    def __init__(self):
        self.names = {}


class Store(H5State):
    """content of one HDF5 file"""
    fields = ('nodes', 'attrs', 'copies', 'truncated', 'flushed', 'loose', 'written')

    def __init__(self, cid, fresh=False):
        self.cid = cid
        self.fresh = fresh          # the file did not exist before
        self.nodes = {}
        self.attrs = {}
        self.copies = []
        self.truncated = False
        self.flushed = True
        self.loose = False          # changed in a way the model cannot follow
        self.written = []           # data of original datasets overwritten

    def intact(self, I):
        """does the file hold everything the archive held?"""
        if self.loose:
            return None
        if not self.flushed:
            return False
        if I.facts.query(T.lt(K(0), T.length(('h5keys', K('archive'))))) is False:
            return True                 # the archive is empty
        if self.fresh or self.truncated:
            return any(c[0] == 'all' and c[1].intact(I) for c in self.copies)
        return not any(v[0] == 'gone' for v in self.nodes.values())

    def merge(self, I, s0, posts, conds, bases):
        names = self.fields
        for f in ('truncated', 'flushed', 'loose'):
            k = names.index(f)
            vals = set(x[k] for x in posts)
            if len(vals) > 1:
                setattr(self, f, False if f == 'flushed' else True)
            else:
                setattr(self, f, vals.pop())
        k = names.index('copies')
        every = None
        for x, c in zip(posts, conds):
            new = [e for e in x[k] if e not in s0[k]]
            every = new if every is None else [e for e in every if e in new]
        some = set()
        for x in posts:
            some.update(e for e in x[k] if e not in s0[k])
        for e in sorted(some, key=lambda e: repr(e[2])):
            if e[0] == 'one' and e in every and len(bases) == 1 and \
                    T.at(('h5keys', K(e[1].cid)), ('j', bases[0][0])) == e[2] and \
                    I.facts.norm(T.length(('h5keys', K(e[1].cid)))) == I.facts.norm(bases[0][1]):
                self.copies.append(('all', e[1], None))
            else:
                self.copies.append(('some', e[1], e[2]))
        k = names.index('nodes')
        keys = set()
        for x in posts:
            for p, v in x[k].items():
                if s0[k].get(p) != v:
                    keys.add((p, v[0]))
        for p, kind in sorted(keys, key=repr):
            # the conditions under which one round leaves the node alone
            skip = tuple(c for x, c in zip(posts, conds) if s0[k].get(p) == x[k].get(p))
            self.nodes[p] = (kind, 'loop', skip, tuple(bases))
        k = names.index('attrs')
        for x in posts:
            for p, v in x[k].items():
                if s0[k].get(p) is not v:
                    self.attrs[p] = Unk('attribute set in a loop')

    # -- lookup
    def exists(self, I, path):
        """boolean term"""
        if not path:
            return TRUE
        for n in range(len(path), 0, -1):
            e = self.nodes.get(path[:n])
            if e is None:
                continue
            if e[0] == 'gone':
                return FALSE
            if e[0] == 'new':
                return TRUE if n == len(path) else FALSE
            if e[0] == 'moved':
                return self.original(I, e[1] + path[n:])
        return self.original(I, path)

    def resolve(self, path):
        """('new', entry, path) / ('orig', original path)"""
        for n in range(len(path), 0, -1):
            e = self.nodes.get(path[:n])
            if e is None:
                continue
            if e[0] == 'moved':
                return 'orig', e[1] + path[n:]
            if e[0] == 'gone':
                return 'gone', path
            return 'new', e
        return 'orig', path

    def original(self, I, path):
        if self.fresh or self.truncated:
            return FALSE
        if len(path) == 1 and len(path[0]) == 1 and path[0][0][0] == 'at' and \
                path[0][0][1] == ('h5keys', K(self.cid)):
            return TRUE
        if len(path) == 1 and len(path[0]) == 1 and path[0][0][0] == 'at' and \
                path[0][0][1] == ('h5items', K(self.cid)):
            return TRUE
        for n in range(1, len(path)):
            if I.facts.query(('h5in', K(self.cid), path[:n])) is False:
                return FALSE
            if I.facts.query(('h5group', K(self.cid), path[:n])) is False:
                return FALSE
        if self.below(I, path):
            return TRUE
        return ('h5in', K(self.cid), path)

    def below(self, I, path):
        """is something known to exist below path?"""
        for t, v in I.taken:
            if t[0] == 'not':
                t, v = t[1], not v
            if v and t[0] == 'h5in' and t[1] == K(self.cid) and len(t[2]) > len(path) and t[2][:len(path)] == path:
                return True
        return False

    def isgroup(self, I, path):
        kind, e = self.resolve(path)
        if not path:
            return TRUE
        if kind == 'new':
            return K(e[1] == 'group')
        if kind == 'gone':
            return FALSE
        if self.below(I, e):
            return TRUE
        return ('h5group', K(self.cid), e)

    # -- changes
    def create(self, I, path, kind, value):
        old = self.nodes.get(path)
        self.nodes[path] = ('new', kind, value, bool(old is not None and (old[0] == 'gone' or old[3])))
        self.flushed = False

    def delete(self, I, path):
        old = self.nodes.get(path)
        for p in list(self.nodes):
            if p[:len(path)] == path and p != path:
                del self.nodes[p]
        for p, a in list(self.attrs):
            if p[:len(path)] == path:
                del self.attrs[(p, a)]
        if old is None:
            self.nodes[path] = ('gone', None, None, True)
        elif old[0] == 'new':
            if old[3]:
                self.nodes[path] = ('gone', None, None, True)
            else:
                del self.nodes[path]
        elif old[0] == 'moved':
            del self.nodes[path]
        self.flushed = False

    def move(self, I, a, b):
        old = self.nodes.get(a)
        if old is None:
            inner = dict((p, v) for p, v in self.nodes.items() if p[:len(a)] == a)
            for p in inner:
                del self.nodes[p]
            self.nodes[a] = ('gone', None, None, True)
            self.put_moved(a, b)
            for p, v in inner.items():
                self.nodes[b + p[len(a):]] = v
        elif old[0] == 'moved':
            del self.nodes[a]
            self.put_moved(old[1], b)
        else:
            inner = dict((p, v) for p, v in self.nodes.items() if p[:len(a)] == a)
            for p in inner:
                del self.nodes[p]
            if old[3]:
                self.nodes[a] = ('gone', None, None, True)
            was = self.nodes.get(b)
            for p, v in inner.items():
                if p == a:
                    v = v[:3] + (bool(was is not None and was[0] == 'gone'),)
                self.nodes[b + p[len(a):]] = v
            for p, n in list(self.attrs):
                if p[:len(a)] == a:
                    self.attrs[(b + p[len(a):], n)] = self.attrs.pop((p, n))
        self.flushed = False

    def put_moved(self, orig, b):
        if b == orig:
            self.nodes.pop(b, None)
        else:
            self.nodes[b] = ('moved', orig, None, False)

    # -- net effect
    def changes(self, I):
        """[(kind, path, entry)] what differs from the original content"""
        out = []
        if self.truncated:
            out.append(('truncated', (), None))
        if self.loose:
            out.append(('unknown', (), None))
        for p, e in sorted(self.nodes.items(), key=lambda x: repr(x[0])):
            out.append((e[0], p, e))
        for (p, n), v in sorted(self.attrs.items(), key=lambda x: repr(x[0])):
            out.append(('attr', p, (n, v)))
        for w in self.written:
            out.append(('data', w, None))
        return out


# ---------------------------------------------------------------- objects

class H5Handle(H5V, Heap):
    """h5py.File"""
    fields = ('open',)

    def __init__(self, store, name, mode, owner):
        self.store = store
        self.name = name
        self.mode = mode
        self.owner = owner
        self.open = True
        self.site = None

    def close(self, I):
        if self.open:
            self.open = False
            self.store.flushed = True
            I.event('close', name=self.name)
            I.world.disk(I, 'close')

    def live(self, I):
        if not self.open:
            I.raise_('ValueError')

    def isinstance(self, I, t):
        return Const(isinstance(t, Nat) and t.name in ('h5py.File', 'h5py.Group', 'h5py._hl.files.File',
                                                       'builtins.object'))

    def type_of(self, I):
        return Nat('h5py.File')

    def root(self):
        return H5Obj(self, ())

    def getattr(self, I, name):
        if name == 'filename':
            return self.name
        if name == 'mode':
            return Sym(('app', 'h5mode', K(T.fresh())), 'str')
        return self.root().getattr(I, name) if name != 'close' else NatMeth(self, name)

    def method(self, I, name, args, kw):
        if name in ('close', '__exit__'):
            self.close(I)
            return Const(None)
        if name == '__enter__':
            return self
        return self.root().method(I, name, args, kw)

    def contains(self, I, x):
        return self.root().contains(I, x)

    def getitem(self, I, i):
        return self.root().getitem(I, i)

    def setitem(self, I, i, v):
        self.root().setitem(I, i, v)

    def delitem(self, I, i):
        self.root().delitem(I, i)

    def iterate(self, I):
        return self.root().iterate(I)


# methods of arrays that datasets do not have
NOT_H5 = frozenset(['take', 'sum', 'mean', 'ravel', 'flatten', 'transpose', 'swapaxes', 'squeeze', 'fill', 'tolist',
                    'view', 'reshape', 'repeat', 'sort', 'argsort', 'nonzero'])


class H5Obj(H5V):
    """a group or dataset reached through an open file"""
    def __init__(self, handle, path):
        self.h = handle
        self.path = path

    @property
    def store(self):
        return self.h.store

    def resolve(self):
        return self.store.resolve(self.path)

    def isinstance(self, I, t):
        if not isinstance(t, Nat):
            return Const(False)
        last = t.name.split('.')[-1]
        if t.name.startswith('h5py'):
            g = self.store.isgroup(I, self.path)
            if last == 'Group':
                return I.bool_(g)
            if last == 'Dataset':
                return I.bool_(T.neg(g))
            if last == 'File':
                return Const(not self.path)
            return Unk('isinstance')
        return Const(False)

    def type_of(self, I):
        g = I.facts.query(self.store.isgroup(I, self.path))
        return Nat('h5py.Group') if g is True else Nat('h5py.Dataset') if g is False else Unk('type')

    def isds(self, I):
        g = self.store.isgroup(I, self.path)
        return not I.decide(g)

    def array(self, I):
        """the data of a dataset"""
        kind, e = self.resolve()
        if kind == 'gone':
            I.raise_('ValueError')
        if kind == 'new':
            if e[1] != 'dataset':
                return None
            v = e[2]
            return v if isinstance(v, Arr) else M.asarr(I, v) if v is not None else None
        key = e
        w = I.world
        if (self.store.cid, key) not in w.reprs:
            w.reprs[(self.store.cid, key)] = self.fresh_array(I, key)
        return w.reprs[(self.store.cid, key)]

    def fresh_array(self, I, key):
        last = key[-1] if key else ()
        who = 'arch:' + pathtext(key[:-1])
        if len(last) == 1 and last[0] == K('x'):
            return I.mkarr(tuple(('seq', who + '.%d' % k, 'label') for k in range(I.world.ndim)), ('X', who),
                           ('kv', who), ('in', 'archive', 'x'))
        if len(last) == 1 and T.isk(last[0]) and str(T.kval(last[0])).isdigit():
            return I.seqarr(('seq', who + '.%s' % T.kval(last[0]), 'label'))
        return I.mkarr((('free', who, T.fresh()),), ('opqc', T.fresh()), I.newkind())

    def getattr(self, I, name):
        if name == 'attrs':
            return H5Attrs(self)
        if name in ('shape', 'size', 'ndim', 'dtype', 'len'):
            self.h.live(I)
            I.world.fault(I, 'read dataset')
            if not self.isds(I):
                I.raise_('AttributeError')
            a = self.array(I)
            if a is None:
                I.raise_('AttributeError')
            return M.native_getattr(I, a, name)
        if name == 'value':
            return self.read(I, Const(Ellipsis))
        if name == 'file':
            return self.h
        if name == 'name':
            return mkstr([K('/')] + joinpath(self.path))
        if name == 'parent':
            return H5Obj(self.h, self.path[:-1])
        if name in ('id', 'fid', 'userblock_size', 'driver', 'libver'):
            return Nat('h5id')
        if name in NOT_H5:
            I.raise_('AttributeError')
        return NatMeth(self, name)

    def sub(self, I, i):
        ps = pieces(i)
        if ps is None:
            return None
        if ps and T.isk(ps[0]) and T.kval(ps[0]).startswith('/'):
            return components(ps)
        return self.path + components(ps)

    def contains(self, I, x):
        self.h.live(I)
        p = self.sub(I, x)
        if p is None:
            return Unk('in archive')
        return I.bool_(self.store.exists(I, p))

    def getitem(self, I, i):
        self.h.live(I)
        p = self.sub(I, i)
        if p is None:
            return self.read(I, i)
        if not I.decide(self.store.exists(I, p)):
            I.raise_('KeyError')
        if isinstance(i, Sym) and i.term[0] == 'at' and i.term[1][0] in ('h5items', 'h5keys'):
            pass
        return H5Obj(self.h, p)

    def read(self, I, i):
        I.world.fault(I, 'read dataset')
        if not self.isds(I):
            I.raise_('TypeError')
        a = self.array(I)
        if a is None:
            return I.unk('dataset content')
        I.event('h5read', path=self.path)
        if isinstance(i, Const) and i.v is Ellipsis or \
                isinstance(i, TupleV) and (not i.items or (len(i.items) == 1 and
                                                           isinstance(i.items[0], Const) and i.items[0].v is Ellipsis)):
            return M.copyarr(I, a)
        if isinstance(i, TupleV) and any(isinstance(x, (PyList, Arr)) for x in i.items):
            # h5py keeps the axes in order: the scalars first
            sc = [isinstance(x, (Const, Sym)) and not (isinstance(x, Const) and x.v in (None, Ellipsis))
                  for x in i.items]
            if any(sc):
                full = SliceV(Const(None), Const(None), Const(None))
                a = M.index(I, a, TupleV([x if k else full for x, k in zip(i.items, sc)]))
                i = TupleV([x for x, k in zip(i.items, sc) if not k])
        r = M.index(I, a, i) if isinstance(a, Arr) else a
        return M.copyarr(I, r) if isinstance(r, Arr) else r

    def writing(self, I, what):
        self.h.live(I)
        if self.h.mode == 'r':
            I.raise_('ValueError')
        I.world.fault(I, what)

    def setitem(self, I, i, v):
        p = self.sub(I, i)
        if p is None:
            self.writing(I, 'write to dataset')
            if not self.isds(I):
                I.raise_('TypeError')
            kind, e = self.resolve()
            I.event('h5write', path=self.path, what='data')
            if kind == 'new':
                if isinstance(e[2], Arr):
                    M.store(I, e[2], i, v)
                else:
                    I.note('assignment into a new dataset')
            else:
                if e not in self.store.written:
                    self.store.written = self.store.written + [e]
                self.store.flushed = False
            return
        self.make(I, p, 'dataset', v)

    def make(self, I, p, kind, value):
        self.h.live(I)
        if self.h.mode == 'r':
            I.raise_('ValueError')
        if I.decide(self.store.exists(I, p)):
            I.raise_('RuntimeError')
        I.world.fault(I, 'create ' + kind)
        for n in range(1, len(p)):
            if not I.decide(self.store.exists(I, p[:n])):
                self.store.create(I, p[:n], 'group', None)
                I.event('h5write', path=p[:n], what='group')
        if isinstance(value, Arr):
            value = M.copyarr(I, value)
        self.store.create(I, p, kind, value)
        I.event('h5write', path=p, what=kind)
        I.world.disk(I, 'create ' + kind)
        return H5Obj(self.h, p)

    def delitem(self, I, i):
        self.writing(I, 'delete')
        p = self.sub(I, i)
        if p is None:
            self.store.loose = True
            return
        if not I.decide(self.store.exists(I, p)):
            I.raise_('KeyError')
        I.event('h5delete', path=p)
        self.store.delete(I, p)
        I.world.disk(I, 'delete')

    def iterate(self, I):
        return self.method(I, 'keys', [], {})

    def method(self, I, name, args, kw):
        if name == 'close':
            return self.h.method(I, name, args, kw)
        self.h.live(I)
        if name == '__contains__':
            return self.contains(I, args[0])
        if name == '__getitem__':
            return self.getitem(I, args[0])
        if name == '__setitem__':
            self.setitem(I, args[0], args[1])
            return Const(None)
        if name == '__delitem__':
            self.delitem(I, args[0])
            return Const(None)
        if name == '__len__' and not self.path:
            return Sym(T.length(('h5keys', K(self.store.cid))), 'int')
        if name in ('keys', 'iterkeys', '__iter__') and not self.path:
            if self.store.nodes or self.store.copies:
                return I.unk('keys of a changed file')
            return I.new(PyList(None, ('h5keys', K(self.store.cid))))
        if name in ('items', 'iteritems', 'values', 'itervalues') and not self.path:
            j = T.fresh_j()
            base = ('h5keys', K(self.store.cid))
            k = T.at(base, ('j', j))
            hid = I.world.handles.index(self.h) if self.h in I.world.handles else -1
            ref = ('h5ref', K(hid), ((k,),))
            f = ref if 'values' in name else ('tup', k, ref)
            return I.new(PyList(None, T.comp(((j, T.length(base)),), f, TRUE)))
        if name == 'flush':
            self.store.flushed = True
            I.world.disk(I, 'flush')
            return Const(None)
        if name == 'get':
            p = self.sub(I, args[0])
            if p is None:
                return I.unk('get')
            if I.decide(self.store.exists(I, p)):
                return H5Obj(self.h, p)
            return args[1] if len(args) > 1 else kw.get('default', Const(None))
        if name in ('create_group', 'require_group'):
            p = self.sub(I, args[0])
            if p is None:
                return I.unk(name)
            if name == 'require_group' and I.decide(self.store.exists(I, p)):
                if not I.decide(self.store.isgroup(I, p)):
                    I.raise_('TypeError')
                return H5Obj(self.h, p)
            if I.facts.query(self.store.exists(I, p)) is True:
                I.raise_('ValueError')
            return self.make(I, p, 'group', None)
        if name in ('create_dataset', 'require_dataset'):
            p = self.sub(I, args[0])
            d = kw.get('data', args[3] if len(args) > 3 else None)
            if p is None:
                return I.unk(name)
            return self.make(I, p, 'dataset', d)
        if name == 'copy' and len(args) >= 2:
            return self.copy(I, args, kw)
        if name == 'move' and len(args) == 2:
            self.writing(I, 'move')
            a, b = self.sub(I, args[0]), self.sub(I, args[1])
            if a is None or b is None:
                self.store.loose = True
                return Const(None)
            if not I.decide(self.store.exists(I, a)):
                I.raise_('ValueError')
            if not fresh_name(b) and I.decide(self.store.exists(I, b)):
                I.raise_('ValueError')
            I.event('h5move', src=a, dst=b)
            self.store.move(I, a, b)
            I.world.disk(I, 'move')
            return Const(None)
        if name in ('visititems', 'visit') and not self.path:
            I.world.fault(I, name)
            return visit(I, self, args[0], name == 'visititems')
        if name in ('astype',):
            return self
        if name == 'read_direct':
            return I.unk(name)
        if name in ('tolist', 'item', '__array__', 'copy', 'sum'):
            if name in ('tolist', 'item', 'sum'):
                I.raise_('AttributeError')
            return self.read(I, Const(Ellipsis))
        if name in ('write_direct', 'resize', 'link', 'create_softlink'):
            self.store.loose = True
        if name in ('pop', 'popitem', 'clear', 'update', 'setdefault'):
            self.store.loose = True
        return I.unk('h5 method %s' % name)

    def copy(self, I, args, kw):
        src, dst = args[0], args[1]
        I.world.fault(I, 'copy')
        to = dst.store if isinstance(dst, (H5Handle, H5Obj)) else self.store
        th = dst if isinstance(dst, H5Handle) else dst.h if isinstance(dst, H5Obj) else self.h
        th.live(I)
        if th.mode == 'r':
            I.raise_('ValueError')
        ps = pieces(src)
        t = None
        if ps is not None and len(ps) == 1:
            t = ps[0]
        elif isinstance(src, H5Obj) and len(src.path) == 1 and len(src.path[0]) == 1:
            t = src.path[0][0]
        if isinstance(src, H5Handle) or ps is not None and components(ps) == ():
            t = None
        if t is not None and isinstance(dst, (H5Handle, H5Obj)) and to is not self.store:
            to.copies = to.copies + [('one', self.store, t)]
        else:
            to.loose = True
        to.flushed = False
        I.event('h5copy', what=t)
        I.world.disk(I, 'copy')
        return Const(None)


def joinpath(path):
    out = []
    for k, c in enumerate(path):
        if k:
            out.append(K('/'))
        out.extend(c)
    return out


def fresh_name(path):
    """does the path contain a randomly drawn part?"""
    def walk(t):
        if isinstance(t, tuple):
            if len(t) > 1 and t[0] == 'app' and t[1] == 'joined':
                return True
            return any(walk(x) for x in t)
        return False
    return walk(path)


def visit(I, o, fn, items):
    base = ('h5items', K(o.store.cid))
    j = T.fresh_j()
    name = Sym(T.at(base, ('j', j)), 'str')
    out = [Const(None)]

    def body():
        node = H5Obj(o.h, ((name.term,),))
        r = I.call(fn, [name, node] if items else [name], {})
        if isinstance(r, Const) and r.v is None:
            return
        from .interp import PathEnd
        if isinstance(r, Unk):
            return
        # a value other than None stops the visit
        from .interp import BreakEx
        raise BreakEx()
    if o.store.nodes or o.store.copies:
        I.note('visit of a changed file')
    I.run_generic(((j, T.length(base)),), TRUE, body)
    return out[0]


class H5Attrs(H5V):
    def __init__(self, obj):
        self.o = obj

    def orig(self, name):
        st = self.o.store
        kind, e = self.o.resolve() if self.o.path else ('orig', ())
        return None if kind != 'orig' else ('h5attr', K(st.cid), e, name)

    def contains(self, I, x):
        self.o.h.live(I)
        ps = pieces(x)
        if ps is None:
            return Unk('in attrs')
        name = I.freeze(x)
        if (self.o.path, name) in self.o.store.attrs:
            return Const(self.o.store.attrs[(self.o.path, name)] is not GONE)
        t = self.orig(name)
        return Const(False) if t is None else I.bool_(t)

    def getitem(self, I, i):
        I.world.fault(I, 'read attribute')
        c = self.contains(I, i)
        if isinstance(c, Unk):
            return c
        if not I.truth(c):
            I.raise_('KeyError')
        return self.value(I, i)

    def value(self, I, i):
        name = I.freeze(i)
        v = self.o.store.attrs.get((self.o.path, name))
        if v is not None:
            return v
        t = self.orig(name)
        return Sym(('h5attrval',) + t[1:], 'any')

    def setitem(self, I, i, v):
        self.o.writing(I, 'write attribute')
        name = I.freeze(i)
        I.event('h5write', path=self.o.path, what='attribute', name=name)
        self.o.store.attrs[(self.o.path, name)] = v
        self.o.store.flushed = False
        I.world.disk(I, 'write attribute')

    def delitem(self, I, i):
        self.o.writing(I, 'delete attribute')
        name = I.freeze(i)
        if not I.truth(self.contains(I, i)):
            I.raise_('KeyError')
        if self.orig(name) is not None:
            q = I.facts.query(self.orig(name))
            if q is False:
                self.o.store.attrs.pop((self.o.path, name), None)
                return
            self.o.store.attrs[(self.o.path, name)] = GONE
        else:
            self.o.store.attrs.pop((self.o.path, name), None)

    def method(self, I, name, args, kw):
        if name == 'get':
            if I.truth(self.contains(I, args[0])):
                return self.value(I, args[0])
            return args[1] if len(args) > 1 else Const(None)
        if name in ('__contains__', 'has_key'):
            return self.contains(I, args[0])
        if name in ('__setitem__', 'create', 'modify'):
            self.setitem(I, args[0], args[1])
            return Const(None)
        if name == '__getitem__':
            return self.getitem(I, args[0])
        return I.unk('attrs method ' + name)


GONE = Const(None)


def thaw(I, t):
    hid = T.kval(t[1])
    if I.world is None or not isinstance(hid, int) or not 0 <= hid < len(I.world.handles):
        return Unk('h5 object')
    return H5Obj(I.world.handles[hid], t[2])


# ---------------------------------------------------------------- functions

NATS = {}


def nat(*names):
    def deco(f):
        for n in names:
            NATS[n] = f
        return f
    return deco


def open_(I, name, mode, owner='code'):
    w = I.world
    ps = pieces(name)
    if ps is None:
        return I.unk('file of unknown name')
    w.fault(I, 'open file', 'IOError')
    st = w.fs.names.get(ps)
    if st is None:
        if mode in ('r', 'r+'):
            I.raise_('IOError')
        st = I.new(Store('file%d' % T.fresh(), fresh=True))
        w.fs.names[ps] = st
    elif mode in ('w-', 'x'):
        I.raise_('IOError')
    elif mode == 'w':
        st.truncated = True
        st.nodes = {}
        st.attrs = {}
    h = I.new(H5Handle(st, name, mode, owner))
    h.site = I.site()
    w.handles.append(h)
    I.event('open', name=name, mode=mode)
    w.disk(I, 'open')
    return h


@nat('h5py.File')
def _file(I, args, kw):
    mode = args[1] if len(args) > 1 else kw.get('mode', Const('a'))
    m = mode.v if isinstance(mode, Const) else '?'
    if m is None:
        m = 'a'
    return open_(I, args[0] if args else kw.get('name', Const(None)), m)


@nat('h5py.is_hdf5')
def _ishdf5(I, args, kw):
    return Sym(('app', 'is_hdf5', I.freeze(args[0])), 'bool')


def fsname(v):
    return pieces(v)


@nat('os.rename', 'os.replace', 'shutil.move', 'os.renames')
def _rename(I, args, kw):
    w = I.world
    a, b = pieces(args[0]), pieces(args[1])
    if a is None or b is None:
        return I.unk('rename')
    w.fault(I, 'rename', 'OSError')
    st = w.fs.names.get(a)
    if st is None:
        I.raise_('OSError')
    w.fs.names = dict(w.fs.names)
    del w.fs.names[a]
    w.fs.names[b] = st
    I.event('rename', src=a, dst=b)
    w.disk(I, 'rename')
    return Const(None)


@nat('os.remove', 'os.unlink')
def _remove(I, args, kw):
    w = I.world
    a = pieces(args[0])
    if a is None:
        return I.unk('remove')
    w.fault(I, 'remove', 'OSError')
    if a not in w.fs.names:
        I.raise_('OSError')
    w.fs.names = dict(w.fs.names)
    del w.fs.names[a]
    I.event('remove', name=a)
    w.disk(I, 'remove')
    return Const(None)


@nat('os.path.exists', 'os.path.isfile', 'os.path.lexists')
def _exists(I, args, kw):
    a = pieces(args[0])
    if a is None:
        return Unk('exists')
    if a in I.world.fs.names:
        return Const(True)
    if fresh_name(a):
        return Const(False)
    return Sym(('app', 'exists', ('strcat', a)), 'bool')


@nat('shutil.copy', 'shutil.copyfile', 'shutil.copy2')
def _copy(I, args, kw):
    w = I.world
    a, b = pieces(args[0]), pieces(args[1])
    if a is None or b is None or a not in w.fs.names:
        return I.unk('copy')
    w.fault(I, 'copy file', 'IOError')
    st = I.new(Store('file%d' % T.fresh(), fresh=True))
    st.copies = [('all', w.fs.names[a], None)]
    w.fs.names = dict(w.fs.names)
    w.fs.names[b] = st
    w.disk(I, 'copy file')
    return Const(None)


def rnd(I, args, kw):
    return Sym(('app', 'joined', K(T.fresh())), 'str')


for _n in ('random.choice', 'uuid.uuid4', 'uuid.uuid1', 'tempfile.mktemp', 'time.time', 'os.getpid'):
    NATS[_n] = rnd


@nat('h5id.get_filesize', 'h5id.get_storage_size')
def _size(I, args, kw):
    I.world.fault(I, 'file size')
    return Sym(('app', 'h5size', K(T.fresh())), 'int')


@nat('os.path.getsize')
def _getsize(I, args, kw):
    I.world.fault(I, 'file size', 'OSError')
    return Sym(('app', 'h5size', K(T.fresh())), 'int')


DATEPARTS = {'datetime.time': ('hour', 'minute', 'second', 'microsecond'),
             'datetime.date': ('year', 'month', 'day'),
             'datetime.datetime': ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond')}


def mkdate(kind):
    def f(I, args, kw):
        names = DATEPARTS[kind]
        full = list(args) + [None] * (len(names) - len(args))
        for k, v in kw.items():
            if k in names:
                full[names.index(k)] = v
        ts = []
        for n, v in zip(names, full):
            if v is None:
                v = Const(0)
            ts.append(I.freeze(v))
        src = None
        if all(len(t) == 3 and t[0] == 'app' and t[1] == 'part.' + n for t, n in zip(ts, names)):
            src = set(t[2] for t in ts)
        if src is not None and len(src) == 1:
            e = src.pop()
            if e[0] == 'at' and I.world.elemtype.get(e[1]) == kind:
                return Sym(e, 'any')
        return Sym(('app', kind) + tuple(ts), 'any')
    return f


for _k in DATEPARTS:
    NATS[_k] = mkdate(_k)


@nat('datetime.date.toordinal', 'datetime.datetime.toordinal')
def _toord(I, args, kw):
    return Sym(('app', 'toordinal', I.freeze(args[0])), 'int')


@nat('datetime.date.fromordinal')
def _fromord(I, args, kw):
    t = I.freeze(args[0])
    if t[0] == 'app' and t[1] == 'toordinal' and t[2][0] == 'at' and \
            I.world.elemtype.get(t[2][1]) == 'datetime.date':
        return Sym(t[2], 'any')
    return Sym(('app', 'fromordinal', t), 'any')


def sym_attr(I, o, name):
    """attributes of date / time label elements"""
    t = o.term
    if t[0] == 'at' and t[1] in I.world.elemtype:
        kind = I.world.elemtype[t[1]]
        if name in DATEPARTS.get(kind, ()):
            return Sym(('app', 'part.' + name, t), 'int')
        if kind in DATEPARTS and name in ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond'):
            I.raise_('AttributeError')
    return None


# the largest value of each part of a date
LARGEST = {'year': 9999, 'month': 12, 'day': 31, 'hour': 23, 'minute': 59, 'second': 59, 'microsecond': 999999}


def narrow(e, field):
    """e stored in a field of an integer dtype: changed if the largest value of
    that part of a date does not fit"""
    f = field.lstrip('<>=|')
    name = {'int8': 'i1', 'int16': 'i2', 'int32': 'i4', 'int64': 'i8', 'uint8': 'u1', 'uint16': 'u2', 'b': 'i1',
            'B': 'u1', 'h': 'i2', 'H': 'u2'}.get(f, f)
    if e[0] == 'app' and e[1].startswith('part.') and name in ('i1', 'i2', 'u1', 'u2'):
        if LARGEST[e[1][5:]] > {'i1': 127, 'u1': 255, 'i2': 32767, 'u2': 65535}[name]:
            return ('app', 'cast.' + name, e)
    return e


# dtypes that hold every value of a type of label elements
HOLDS = {'builtins.int': ('i8', 'int64', 'int', 'l', 'object', 'O'),
         'builtins.float': ('f8', 'float64', 'float', 'd', 'object', 'O'),
         'builtins.str': ('str', 'S', 'object', 'O'),
         'builtins.bool': ('bool', '?', 'b1', 'object', 'O')}
LOSES = {'builtins.int': ('i1', 'i2', 'i4', 'int8', 'int16', 'int32', 'f4', 'f8', 'float', 'float32', 'float64', 'bool',
                          'S', 'str', 'u1', 'u2', 'u4', 'u8'),
         'builtins.float': ('f2', 'f4', 'float16', 'float32', 'int', 'i4', 'i8', 'int32', 'int64', 'S', 'str', 'bool'),
         'builtins.str': ('int', 'float'),
         'builtins.bool': ('int', 'float', 'i8', 'f8', 'i1', 'S', 'str')}


def cast(I, t, dt):
    """labels (elements of a known type) as an array of a named dtype: unchanged
    (True), changed (False), or not known (None)"""
    et = I.world.elemtype.get(t)
    if et not in HOLDS:
        return None
    ps = pieces(dt) if not isinstance(dt, (Nat, )) else None
    if isinstance(dt, Nat):
        name = dt.name.split('.')[-1]
    elif ps and all(T.isk(p) and isinstance(T.kval(p), str) for p in ps):
        name = ''.join(T.kval(p) for p in ps).lstrip('<>=|')
    else:
        return None
    if name in HOLDS[et]:
        return True
    if name in LOSES[et] or name[:1] in ('S', 'a', 'U') and name[1:].isdigit():
        return False
    return None


def records(I, args, kw):
    """np.asarray / np.array of a list of tuples with a record dtype"""
    from .npmodels import NATS as NP
    dt = args[1] if len(args) > 1 else kw.get('dtype')
    t, items = I.seq_of(args[0]) if isinstance(args[0], PyList) else (None, None)
    if dt is not None and t is not None and t[0] == 'comp' and t[2][0] == 'tup':
        n = len(t[2]) - 1
        ps = pieces(dt)
        if ps is not None and all(T.isk(p) for p in ps):
            fields = ''.join(T.kval(p) for p in ps).split(',')
            if len(fields) > 1:
                if len(fields) != n:
                    I.raise_('ValueError')
                cut = tuple(narrow(e, f.strip()) for e, f in zip(t[2][1:], fields))
                if cut != tuple(t[2][1:]):
                    t = T.comp(t[1], ('tup',) + cut, t[3])
                return I.seqarr(t)
    if t is not None and dt is not None and not (isinstance(dt, Const) and dt.v is None) and \
            cast(I, I.facts.norm(t), dt) is False:
        j = T.fresh_j()
        u = T.comp(((j, T.length(t)),), ('app', 'cast', I.freeze(dt), T.at(t, ('j', j))), T.TRUE)
        return I.seqarr(u)
    if t is not None and t[0] == 'comp' and t[2][0] == 'tup' and (
            dt is None or isinstance(dt, Const) and dt.v is None):
        return I.mkarr((('pos', T.length(t)), ('pos', K(len(t[2]) - 1))), ('opqc', T.fresh()), I.newkind())
    return NP[kw.pop('__np__', 'np.asarray')](I, args, kw)


NATS['np.asarray'] = records
NATS['np.array'] = lambda I, args, kw: records(I, args, dict(kw, __np__='np.array'))
